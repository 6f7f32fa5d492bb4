"""Merged whole-program model."""
import os
from . import facts


class Func:
    __slots__ = ("id", "q", "n", "file", "l", "el", "rt", "p", "cls", "const", "static", "virt", "ov", "kind", "inits",
                 "body", "acc", "raw", "calls")

    def __init__(self, d):
        self.raw = d
        self.id = d["id"]; self.q = d["q"]; self.n = d["n"]; self.file = d["file"]; self.l = d["l"]; self.el = d["el"]
        self.rt = d["rt"]; self.p = d["p"]; self.cls = d.get("cls"); self.const = d.get("const", False)
        self.static = d.get("static", False); self.virt = d.get("virt", False); self.ov = d.get("ov", [])
        self.kind = d["kind"]; self.inits = d.get("inits", []); self.body = d["body"]; self.acc = d.get("acc", "public")
        self.calls = None

    @property
    def rel(self):
        return os.path.relpath(self.file, facts.REPO)

    def where(self, line=None):
        return "%s:%d" % (self.rel, line if line else self.l)

    def __repr__(self):
        return "<F %s>" % self.id


class Program:
    def __init__(self, dirs=None):
        self.funcs = {}
        self.byq = {}
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.tus = 0
        for rel, docs in facts.load_raw(dirs):
            for d in docs:
                self.tus += 1
                for f in d["funcs"]:
                    if f["id"] not in self.funcs:
                        F = Func(f)
                        self.funcs[F.id] = F
                        self.byq.setdefault(F.q, []).append(F)
                    else:
                        # internal-linkage or header duplicates: keep those from different files
                        F0 = self.funcs[f["id"]]
                        if F0.file != f["file"]:
                            F = Func(f)
                            F.id = f["id"] + "@" + os.path.basename(f["file"])
                            self.funcs[F.id] = F
                            self.byq.setdefault(F.q, []).append(F)
                for c in d["classes"]:
                    if c["q"] not in self.classes or (not self.classes[c["q"]].get("methods") and c.get("methods")):
                        self.classes[c["q"]] = c
                for e in d["enums"]:
                    self.enums.setdefault(e["q"], e)
                for g in d["globals"]:
                    if g["q"] not in self.globals or g.get("def"):
                        if g["q"] in self.globals and not g.get("init") and self.globals[g["q"]].get("init"):
                            continue
                        self.globals[g["q"]] = g
        self.subs = {}
        for q, c in self.classes.items():
            for b in c["bases"]:
                self.subs.setdefault(b, set()).add(q)
        self.overriders = {}
        for F in self.funcs.values():
            for o in F.ov:
                self.overriders.setdefault(o, set()).add(F.id)
        # transitive
        ch = True
        while ch:
            ch = False
            for o, s in self.overriders.items():
                for x in list(s):
                    for y in self.overriders.get(x, ()):
                        if y not in s:
                            s.add(y); ch = True

    def bases_of(self, q):
        out, st = [], [q]
        while st:
            x = st.pop(0)
            if x in out:
                continue
            out.append(x)
            if x in self.classes:
                st.extend(self.classes[x]["bases"])
        return out

    def is_a(self, q, base):
        return base in self.bases_of(q)

    def fields(self, q, inherited=True):
        out = []
        for c in (self.bases_of(q) if inherited else [q]):
            out.extend(self.classes.get(c, {}).get("fields", []))
        return out

    def fn(self, q, nparams=None, must=True):
        """The single function with qualified name q."""
        c = self.byq.get(q, [])
        if nparams is not None:
            c = [f for f in c if len(f.p) == nparams]
        if len(c) != 1:
            if not must and not c:
                return None
            raise facts.AnalysisError("anchor %s%s: %d definitions" % (q, "" if nparams is None else "/%d" % nparams, len(c)))
        return c[0]

    def methods(self, cls):
        return [f for f in self.funcs.values() if f.cls == cls]

    def virtual_targets(self, fid):
        out = set()
        if fid in self.funcs:
            out.add(fid)
        out |= {x for x in self.overriders.get(fid, ()) if x in self.funcs}
        return out

    def callees(self, F):
        """ids of repo functions possibly called directly from F (virtual expanded); includes lambdas' bodies."""
        if F.calls is not None:
            return F.calls
        out = set()
        for n in walk(F.raw):
            if n.get("k") in ("Call", "Ctor"):
                fid = n.get("f")
                if not fid:
                    continue
                if n.get("virt") and not n.get("nonvirt"):
                    out |= self.virtual_targets(fid)
                elif fid in self.funcs:
                    out.add(fid)
            elif n.get("k") == "Ref" and n.get("d") == "func" and n.get("f") in self.funcs:
                out.add(n["f"])
        F.calls = out
        return out

    def reachable(self, roots):
        seen, st = set(), [r.id if isinstance(r, Func) else r for r in roots]
        while st:
            x = st.pop()
            if x in seen or x not in self.funcs:
                continue
            seen.add(x)
            st.extend(self.callees(self.funcs[x]))
        return seen


def walk(n):
    """Every dict node of a fact tree, in source order."""
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield from walk(v)
