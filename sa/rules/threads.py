"""Data races in OpenMP parallel regions: interprocedural read/write effects over the resolved call graph with lock sets."""
from rodsa.facts import AnalysisError
from rodsa.prog import walk

UNSAFE = {"rand", "srand", "localtime", "gmtime", "strtok", "asctime", "ctime", "drand48", "lrand48", "std::rand", "std::srand",
          "std::localtime", "std::gmtime", "std::strtok", "std::asctime", "std::ctime"}
GUARDS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock")
ATOMIC = ("std::atomic", "atomic<", "std::mutex", "std::once_flag", "std::recursive_mutex")
# thread safe by definition of the standard: concurrent use of the standard streams
# library algorithms: positions of the arguments they write through
DEST = {"std::" + n: (lambda k, p=p: p) for n, p in
        [(n, ()) for n in ("accumulate", "inner_product", "min_element", "max_element", "minmax_element", "any_of", "all_of", "none_of", "find", "find_if",
                           "count", "count_if", "distance", "is_sorted", "equal", "lower_bound", "upper_bound", "binary_search")] +
        [(n, (2,)) for n in ("copy", "copy_n", "copy_if", "copy_backward", "adjacent_difference", "partial_sum")] +
        [("fill", (0, 1)), ("fill_n", (0,)), ("iota", (0, 1)), ("generate", (0, 1)), ("generate_n", (0,)), ("sort", (0, 1)), ("stable_sort", (0, 1)),
         ("reverse", (0, 1)), ("shuffle", (0, 1, 2)), ("rotate", (0, 1, 2)), ("nth_element", (0, 1, 2)), ("partial_sort", (0, 1, 2)), ("unique", (0, 1)),
         ("remove", (0, 1)), ("remove_if", (0, 1)), ("swap_ranges", (0, 1, 2))]}
DEST["std::transform"] = lambda k: (2,) if k == 4 else (3,)
STREAMS = {"std::cout", "std::cerr", "std::clog", "std::cin", "std::endl"}


def ext(r, path):
    return (r[0], (r[1] + tuple(path))[:3])


def overlap(a, b):
    n = min(len(a[1]), len(b[1]))
    return a[0] == b[0] and a[1][:n] == b[1][:n]


def strip(n):
    while n is not None and n["k"] in ("Cast", "DefArg", "DefInit"):
        n = n["e"]
    return n


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.eff = {}          # func id -> {(root, kind, locks, elem): where}
        self.ret = {}          # func id -> set of roots of the returned reference
        self.busy = set()
        self.recursive = False

    def of(self, F):
        """effects on parameters ("p", i), fields of the object ("f", q), the object ("t",), static state ("s", name)"""
        if F.id in self.eff:
            return self.eff[F.id]
        self.solve(F)
        return self.eff[F.id]

    def solve(self, F):
        order = [i for i in self.p.reachable([F])]
        for i in order:
            self.eff.setdefault(i, {})
            self.ret.setdefault(i, set())
        done = set(getattr(self, "final", ()))
        work = [i for i in order if i not in done]
        changed = True
        while changed:
            changed = False
            for i in work:
                W = Walker(self, self.p.funcs[i])
                W.function()
                if len(W.out) != len(self.eff[i]) or W.rets - self.ret[i]:
                    n = dict(self.eff[i])
                    n.update({k: v for k, v in W.out.items() if k not in n})
                    if len(n) != len(self.eff[i]) or W.rets - self.ret[i]:
                        changed = True
                    self.eff[i] = n
                    self.ret[i] |= W.rets
        self.final = set(getattr(self, "final", ())) | set(work)


class Walker:
    """walks one function body; self.out collects effects"""

    def __init__(self, E, F, region=False):
        self.E = E
        self.p = E.p
        self.F = F
        self.out = {}
        self.rets = set()
        self.alias = {}        # local id -> set of roots (references and pointers)
        self.locks = frozenset()
        self.par = {x["id"]: i for i, x in enumerate(F.p)}
        self.ptypes = [x["t"] for x in F.p]
        self.private = set()
        self.region = region
        self.loopvars = set()
        if not region:
            for n in walk(F.body):
                if n.get("k") == "Decl":
                    for v in n["v"]:
                        if v:
                            self.private.add(v["id"])
            self.prealias(F.body)

    def prealias(self, body):
        for _ in range(2):
            for n in walk(body):
                vs = n["v"] if n.get("k") == "Decl" else [n["v"]] if n.get("k") == "RangeFor" else []
                for v in vs:
                    if not v:
                        continue
                    t = v["t"].strip()
                    if v.get("static"):
                        continue
                    if t.endswith("&") or t.endswith("*") or "iterator" in t or t.endswith("* const"):
                        src = n["r"] if n.get("k") == "RangeFor" else v.get("init")
                        self.alias.setdefault(v["id"], set()).update(self.roots(src) if src else ())
                if n.get("k") == "RangeFor" and not (n["v"]["t"].strip().endswith("&")):
                    pass

    # ------------------------------------------------------------------ roots of an lvalue
    def roots(self, n):
        """set of (root, elem) designating the storage the expression refers to; elem: indexed by the parallel loop variable"""
        n = strip(n)
        if n is None:
            return set()
        k = n["k"]
        if k == "Ref":
            d = n.get("d")
            if d == "param":
                i = self.par.get(n["id"])
                if n["id"] in self.alias:
                    return self.alias[n["id"]]
                if i is None:
                    return {((("v", n["id"], n["n"]), ()), False)}
                t = self.ptypes[i].strip()
                if not self.region and not (t.endswith("&") or t.endswith("*")) :
                    return set()
                return {((("p", i, n["n"]), ()), False)}
            if d == "var":
                if n["id"] in self.alias:
                    return self.alias[n["id"]]
                if n["id"] in self.private:
                    return set()
                return {((("v", n["id"], n["n"]), ()), False)}
            if d == "slocal":
                return {((("s", n["q"]), ()), False)}
            if d in ("global", "sfield"):
                if n.get("tls") or n["q"] in STREAMS:
                    return set()
                return {((("s", n["q"]), ()), False)}
            return set()
        if k == "This":
            return {((("t",), ()), False)}
        if k == "Mem":
            return {(ext(r, (n["q"],)), e) for r, e in self.roots(n["b"])}
        if k == "Index":
            e = self.by_loopvar([n["i"]])
            return {(r, e or e0) for r, e0 in self.roots(n["b"])}
        if k == "Un" and n["op"] in ("*", "&", "++", "--"):
            return self.roots(n["e"])
        if k == "Bin" and n["op"] in ("+", "-"):
            return self.roots(n["a"]) | self.roots(n["b"]) if "*" in n.get("t", "") else set()
        if k == "Cond":
            return self.roots(n["a"]) | self.roots(n["b"])
        if k == "Assign":
            return self.roots(n["a"])
        if k == "Call":
            if n.get("repo") and n.get("f"):
                out = set()
                for g in self.targets(n):
                    for r in self.E.ret.get(g.id, ()):
                        out |= self.mapped(n, r)
                e = self.by_loopvar(n.get("a", [])) if n.get("op") in ("()", "[]") else False
                return {(r, e or e0) for r, e0 in out}
            if n.get("o") is not None and (n.get("rr") or "*" in n.get("t", "") or "iterator" in n.get("t", "") or n.get("op") in ("->", "*", "[]")):
                e = self.by_loopvar(n.get("a", [])) if n.get("op") in ("()", "[]") or n["q"].endswith("::at") else False
                return {(r, e or e0) for r, e0 in self.roots(n["o"])}
            if n["q"] in ("std::move", "std::forward", "std::ref", "std::begin", "std::end", "std::addressof") and n["a"]:
                return self.roots(n["a"][0])
            return set()
        return set()

    def by_loopvar(self, idx):
        for i in idx:
            i = strip(i)
            if i is not None and i["k"] == "Ref" and i.get("id") in self.loopvars:
                return True
        return False

    def mapped(self, n, r):
        """root of the callee -> roots of the caller"""
        b, path = r
        if b[0] == "p":
            a = n.get("a", [])
            return {(ext(x, path), e) for x, e in self.roots(a[b[1]])} if b[1] < len(a) else set()
        if b[0] == "t":
            o = n.get("o")
            if o is None:
                return set() if n["k"] == "Ctor" else {(r, False)}
            return {(ext(x, path), e) for x, e in self.roots(o)}
        if b[0] == "s":
            return {(r, False)}
        return set()

    def targets(self, n):
        f = n.get("f")
        if n.get("virt") and not n.get("nonvirt"):
            return [self.p.funcs[i] for i in self.p.virtual_targets(f)]
        return [self.p.funcs[f]] if f in self.p.funcs else []

    def cursor(self, n):
        """a private pointer or iterator variable itself (not what it designates)"""
        n = strip(n)
        return n is not None and n["k"] == "Ref" and n.get("id") in self.private and n.get("d") == "var" and \
            not n.get("dt", "").strip().endswith("&") and ("*" in n.get("dt", "") or "iterator" in n.get("t", "") or "iterator" in n.get("dt", ""))

    # ------------------------------------------------------------------ effects
    def add(self, roots, kind, n, via=None):
        for r, e in roots:
            w = self.F.where(n.get("l"))
            self.out.setdefault((r, kind, self.locks, e), (w if via is None else w + " -> " + via[0], via[1] if via else self.F.q))

    def function(self):
        for i in self.F.inits or []:
            if isinstance(i, dict):
                for x in i.values():
                    if isinstance(x, dict) and "k" in x:
                        self.ex(x)
        self.st(self.F.body)

    def st(self, s):
        if s is None:
            return
        if isinstance(s, list):
            for x in s:
                self.st(x)
            return
        k = s.get("k")
        if k == "Block":
            old = self.locks
            for x in s["b"]:
                self.st(x)
            self.locks = old
            return
        if k == "Decl":
            for v in s["v"]:
                if not v:
                    continue
                if self.region:
                    self.private.add(v["id"])
                if any(v["t"].startswith(g) or v["t"].startswith("const " + g) for g in GUARDS) and v.get("init"):
                    i = strip(v["init"])
                    m = set()
                    for a in i.get("a", []):
                        for r, e in self.roots(a):
                            m.add(r)
                    self.locks = self.locks | frozenset(m)
                    continue
                t = v["t"].strip()
                if v.get("init"):
                    if self.region and (t.endswith("&") or t.endswith("*")) and not v.get("static"):
                        self.alias.setdefault(v["id"], set()).update(self.roots(v["init"]))
                    if v.get("static"):
                        continue            # initialised once, thread safe
                    self.ex(v["init"], ref=t.endswith("&"))
            return
        if k == "OMP":
            if s["dir"] == "critical":
                old = self.locks
                self.locks = self.locks | {("critical", s.get("name", ""))}
                self.st(s.get("b"))
                self.locks = old
                return
            if s["dir"].startswith("atomic"):
                old = self.locks
                self.locks = self.locks | {("atomic",)}
                self.st(s.get("b"))
                self.locks = old
                return
            if s["dir"] in ("single", "master"):
                old = self.locks
                self.locks = self.locks | {("one thread",)}
                self.st(s.get("b"))
                self.locks = old
                return
            self.st(s.get("b"))
            return
        if k == "Return":
            e = s.get("e")
            if e is not None:
                t = self.F.rt.strip()
                if not self.region and (t.endswith("&") or t.endswith("*")):
                    self.rets |= {r for r, _ in self.roots(e)}
                    self.ex(e, ref=True)
                else:
                    self.ex(e)
            return
        if k == "RangeFor":
            if self.region:
                self.private.add(s["v"]["id"])
                if s["v"]["t"].strip().endswith("&"):
                    self.alias.setdefault(s["v"]["id"], set()).update(self.roots(s["r"]))
            self.ex(s["r"], ref=True)
            if s["r"]:
                self.add(self.roots(s["r"]), "R", s)
            self.st(s["b"])
            return
        if k == "Try":
            self.st(s["b"])
            for h in s["h"]:
                if self.region and h.get("v"):
                    self.private.add(h["v"]["id"])
                self.st(h["b"])
            return
        for key, x in s.items():
            if isinstance(x, dict) and "k" in x:
                if x["k"] in STMTS:
                    self.st(x)
                else:
                    self.ex(x)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, dict) and "k" in y:
                        if y["k"] in STMTS:
                            self.st(y)
                        else:
                            self.ex(y)

    def ex(self, n, ref=False):
        """effects of evaluating; ref: only the address is needed"""
        n = strip(n)
        if n is None:
            return
        k = n["k"]
        if k in ("Ref", "Mem", "Index"):
            if not ref:
                self.add(self.roots(n), "R", n)
            if k == "Mem":
                self.ex(n["b"], ref=True)
            if k == "Index":
                self.ex(n["b"], ref=True)
                self.ex(n["i"])
            return
        if k == "Assign":
            self.ex(n["b"])
            if self.cursor(n["a"]):
                return
            self.ex(n["a"], ref=True)
            self.add(self.roots(n["a"]), "W", n)
            if n["op"] != "=":
                self.add(self.roots(n["a"]), "R", n)
            return
        if k == "Un":
            if n["op"] in ("++", "--") and self.cursor(n["e"]):
                return
            if n["op"] in ("++", "--"):
                self.ex(n["e"], ref=True)
                self.add(self.roots(n["e"]), "W", n)
                return
            if n["op"] == "&":
                self.ex(n["e"], ref=True)
                return
            self.ex(n["e"])
            if n["op"] == "*" and not ref:
                self.add(self.roots(n["e"]), "R", n)
            return
        if k == "Delete":
            self.ex(n["e"])
            self.add(self.roots(n["e"]), "W", n)
            return
        if k == "Lambda":
            for p in n["p"]:
                self.private.add(p["id"])
            self.st(n["body"])
            return
        if k in ("Call", "Ctor"):
            self.call(n, ref)
            return
        for key, x in n.items():
            if isinstance(x, dict) and "k" in x:
                self.ex(x)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, dict) and "k" in y:
                        self.ex(y)

    def call(self, n, ref):
        a = n.get("a", [])
        pm = n.get("pm", "")
        o = n.get("o")
        if n.get("q") in UNSAFE:
            self.add({((("s", n["q"] + "()"), ()), False)}, "W", n)
        if n.get("repo"):
            tg = self.targets(n)
            if o is not None:
                self.ex(o, ref=True)
            for i, x in enumerate(a):
                byref = i < len(pm) and pm[i] in "mrpP"
                self.ex(x, ref=byref)
            for g in tg:
                for (r, kd, lk, e), (w, q) in self.E.eff.get(g.id, {}).items():
                    old = self.locks
                    m = set()
                    for x in lk:
                        if isinstance(x[0], tuple) and x[0][0] in ("t", "p"):
                            m |= {y for y, _ in self.mapped(n, x)}
                        else:
                            m.add(x)
                    self.locks = old | frozenset(m)
                    self.add(self.mapped(n, r), kd, n, (w, q))
                    self.locks = old
            if not tg and n["k"] == "Call":
                # implicit member functions: assignment writes, everything else reads
                if o is not None:
                    self.add(self.roots(o), "W" if n.get("op") == "=" else "R", n)
                    for x in a:
                        self.add(self.roots(x), "R", n)
            if not tg and n["k"] == "Ctor":
                for x in a:
                    self.add(self.roots(x), "R", n)
            return
        if n.get("op") in ("++", "--", "+=", "-=", "=", "==", "!=", "<", "-", "+") and (self.cursor(o) if o is not None else any(self.cursor(x) for x in a)):
            for x in a:
                self.ex(x, ref=True)
            return
        if o is not None:
            self.ex(o, ref=True)
            t = (strip(o) or {}).get("t", "")
            if not any(x in t for x in ATOMIC):
                nm = n["q"].split("::")[-1]
                acc = bool(n.get("mc")) or n.get("op") in ("->", "*", "[]") or nm in ("begin", "end", "at", "get", "data", "front", "back", "find", "rbegin", "rend")
                if nm in ("lock", "unlock", "try_lock"):
                    return
                self.add(self.roots(o), "R" if acc else "W", n)
        dest = DEST.get(n["q"])
        if dest is not None:
            for i, x in enumerate(a):
                self.ex(x, ref=True)
                self.add(self.roots(x), "W" if i in dest(len(a)) else "R", n)
            if n.get("fe"):
                self.ex(n["fe"])
            return
        for i, x in enumerate(a):
            m = i < len(pm) and pm[i] == "m"
            self.ex(x, ref=i < len(pm) and pm[i] in "mrpP")
            rs = self.roots(x)
            if m and n["q"] not in ("std::move", "std::forward", "std::ref", "std::begin", "std::end", "std::get"):
                self.add(rs, "W", n)
            elif "*" in (strip(x) or {}).get("t", "") and i < len(pm) and pm[i] in "P":
                self.add(rs, "W", n)
            else:
                self.add(rs, "R", n)
        if n.get("fe"):
            self.ex(n["fe"])


STMTS = {"Block", "Decl", "If", "For", "While", "Do", "RangeFor", "Switch", "Case", "Default", "Break", "Continue", "Return", "Try",
         "Null", "OMP", "Label", "Goto", "OtherStmt", "Expr"}


def name(r):
    b, path = r
    nm = {"v": lambda: b[2], "p": lambda: b[2], "t": lambda: "", "s": lambda: b[1]}[b[0]]()
    return ".".join(([nm] if nm else []) + [x.split("::")[-1] for x in path]) or "the object"


def regions(prog):
    for F in sorted(prog.funcs.values(), key=lambda f: f.id):
        for n in walk(F.body):
            if n.get("k") == "OMP" and n["dir"].startswith("parallel"):
                yield F, n


def T01_races(ctx):
    prog = ctx.prog
    E = Effects(prog)
    nreg = 0
    allow = {}
    for F, reg in regions(prog):
        nreg += 1
        ctx.analysed.add(F.q)
        E.of(F)
        W = Walker(E, F, region=True)
        # aliases of the enclosing function
        W.prealias(F.body)
        inner = reg.get("b")
        for c in reg.get("cl", []):
            if c["k"] in ("private", "firstprivate", "lastprivate", "reduction"):
                for v in c["v"]:
                    v = strip(v)
                    if v and v["k"] == "Ref":
                        W.private.add(v["id"])
        for n in walk(inner):
            if n.get("k") == "Decl":
                for v in n["v"]:
                    if v and not v.get("static"):
                        W.private.add(v["id"])
                        t = v["t"].strip()
                        if not (t.endswith("&") or t.endswith("*")):
                            W.alias.pop(v["id"], None)
            if n.get("k") == "RangeFor":
                W.private.add(n["v"]["id"])
        if "for" in reg["dir"] and inner is not None and inner["k"] == "For":
            i = inner.get("init")
            if i and i["k"] == "Decl":
                W.loopvars |= {v["id"] for v in i["v"] if v}
            elif i is not None:
                for n in walk(i):
                    if n.get("k") == "Assign":
                        v = strip(n["a"])
                        if v["k"] == "Ref":
                            W.private.add(v["id"])
                            W.loopvars.add(v["id"])
        W.st(inner)
        for f in prog.reachable([c for c in callees_of(prog, inner)]):
            ctx.analysed.add(prog.funcs[f].q)
        allacc = [(r, kd, lk, e, w) for (r, kd, lk, e), w in W.out.items()]
        by = {}
        for r in {x[0] for x in allacc}:
            by[r] = [x[1:] for x in allacc if x[0] == r]
        rname = F.q
        bad = 0
        for r, acc in sorted(by.items(), key=lambda x: str(x[0])):
            ctx.callsites += len(acc)
            wr = [a for a in acc if a[0] == "W"]
            if not wr:
                continue
            clash = None
            for kd, lk, e, w in wr:
                for r2, kd2, lk2, e2, w2 in allacc:
                    if lk & lk2 or not overlap(r, r2):
                        continue
                    if e and e2:
                        continue
                    clash = (w, w2, kd2)
                    break
                if clash:
                    break
            ctx.ob("data-race", "%s: %s" % (rname, name(r)), clash[0][0] if clash else wr[0][3][0], clash is None,
                   "" if clash is None else "%s is written by one thread (%s, in %s) while another %s it (%s, in %s) without a common lock" % (
                       name(r), clash[0][0], clash[0][1], "writes" if clash[2] == "W" else "reads", clash[1][0], clash[1][1]))
        ctx.ob("data-race", "%s: parallel region analysed" % rname, F.where(reg["l"]), True)
    if not nreg:
        ctx.ob("data-race", "parallel regions", "src", True)


def callees_of(prog, n):
    out = set()
    for x in walk(n):
        if x.get("k") in ("Call", "Ctor") and x.get("f"):
            if x.get("virt") and not x.get("nonvirt"):
                out |= prog.virtual_targets(x["f"])
            elif x["f"] in prog.funcs:
                out.add(x["f"])
    return out
