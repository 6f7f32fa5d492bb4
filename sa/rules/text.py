"""text written to and read from streams

A stream is the term of everything that was put into it; `items` turns that term into a list of
  ('lit', text) ('val', term) ('loop', range, body) ('if', cond, then, else) ('?', text)
and `row` reads the list as lines of columns, independent of the way the separators are written."""
from .common import *
from rodsa import absint
from rodsa.absint import mk, INT, show, op, TRUE, FALSE
from .sur import neg
from .value import norm, Hyp, Val

MANIP = ("std::fixed", "std::scientific", "std::setprecision", "std::setw", "std::left", "std::right", "std::boolalpha", "std::setfill", "std::defaultfloat")


def text_of(x):
    if x.k == "str":
        return x.a[0]
    if x.k == "int" and False:
        return None
    return None


def nm(x):
    return show(x)


def item(x):
    """list of items of one operand of <<"""
    if x.k == "str":
        return [("lit", x.a[0])]
    if x.k == "call" and x.a[0] in MANIP:
        return [("manip", x.a[0].split("::")[-1], x.a[1] if len(x.a) > 1 else None)]
    if x.k == "init" and x.a[0].k == "G" or x.k == "fnref":
        s = str(x.a[0].a[0]) if x.k == "init" else str(x.a[0])
        if "std::endl" in s:
            return [("lit", "\n")]
        for m in MANIP:
            if m + "(" in s:
                return [("manip", m.split("::")[-1], None)]
    if x.k == "call" and x.a[0] == "std::to_string":
        return [("val", x.a[1])]
    if x.k == "op" and x.a[0] == "+" and (isstr(x.a[1]) or isstr(x.a[2])):
        return item(x.a[1]) + item(x.a[2])
    return [("val", x)]


def isstr(x):
    return x.k == "str" or x.k == "call" and x.a[0] == "std::to_string" or x.k == "op" and x.a[0] == "+" and (isstr(x.a[1]) or isstr(x.a[2]))


def items(I, v, stop=None):
    out = []
    while v is not stop:
        if v.k == "put":
            out = item(v.a[1]) + out
            v = v.a[0]
        elif v.k == "mut":
            n = v.a[0].split("::")[-1]
            if n == "precision" and len(v.a) > 2:
                out = [("manip", "setprecision", v.a[2])] + out
            v = v.a[1]
        elif v.k == "ite":
            a, b = items(I, v.a[1], stop), items(I, v.a[2], stop)
            n = 0
            while n < len(a) and n < len(b) and a[n] == b[n]:
                n += 1
            m = a[:n]
            if n < len(a) or n < len(b):
                m = m + [("if", v.a[0], a[n:], b[n:])]
            return m + out
        elif v.k == "lv":
            info = I.loops.get(v.a[0])
            if info is None or v.a[1] not in info["mod"]:
                return [("?", show(v)[:60])] + out
            a, b = info["mod"][v.a[1]]
            out = [("loop", info.get("range"), items(I, b, v))] + out
            v = a
        elif v.k == "obj":
            break
        else:
            return [("?", show(v)[:60])] + out
    return out


def streams(I, st):
    """(items, term) of the streams of the function that something was written to"""
    out = []
    for l, v in st.store.items():
        if l.k in ("L", "F") and touches(I, v):
            out.append((l, v))
    return out


def touches(I, v, seen=()):
    while True:
        if v.k == "put":
            return True
        if v.k == "mut":
            v = v.a[1]
        elif v.k == "ite":
            return touches(I, v.a[1]) or touches(I, v.a[2])
        elif v.k == "lv":
            info = I.loops.get(v.a[0])
            if info is None or v.a[1] not in info["mod"]:
                return False
            a, b = info["mod"][v.a[1]]
            return b is not v and touches2(b) or touches(I, a)
        else:
            return False


def touches2(b):
    return any(x.k == "put" for x in subterms(b))


def plain(xs):
    """without manipulators, adjacent texts joined"""
    out = []
    for x in xs:
        if x[0] == "manip":
            continue
        if x[0] == "loop":
            x = ("loop", x[1], plain(x[2]))
        if x[0] == "if":
            x = ("if", x[1], plain(x[2]), plain(x[3]))
            if not x[2] and not x[3]:
                continue
        if x[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + x[1])
            continue
        out.append(x)
    return out


def precision(xs, deep=True):
    """precisions set by the items, in order"""
    out = []
    for x in xs:
        if x[0] == "manip" and x[1] == "setprecision":
            out.append(x[2])
        if deep and x[0] in ("loop",):
            out += precision(x[2])
    return out


def shown(xs):
    out = []
    for x in xs:
        if x[0] == "lit":
            out.append(repr(x[1]))
        elif x[0] == "val":
            out.append(show(x[1])[:60])
        elif x[0] == "loop":
            out.append("for(%s){%s}" % (show(x[1][2])[:40] if x[1] else "?", shown(x[2])))
        elif x[0] == "if":
            out.append("if(%s){%s}else{%s}" % (show(x[1])[:40], shown(x[2]), shown(x[3])))
        elif x[0] == "?":
            out.append("? " + x[1])
    return " ".join(out)


class Bad(Exception):
    pass


def sep_between(x, sep, rng, V):
    """is the item a separator written exactly between two elements of the loop: 'before' / 'after'"""
    if x[0] != "if":
        return None
    c, a, b = x[1:4]
    if b == [("lit", sep)] and a == []:
        c, a, b = neg(c), b, a
    if a != [("lit", sep)] or b != []:
        return None
    lv, lo, hi = rng
    V = Val()
    inr = [op("<=", lo, lv), op("<", lv, hi), op("<", lo, hi)]
    if V.iff(c, op("<", lo, lv), inr):
        return "before"
    if V.iff(c, op("<", lv, op("-", hi, INT(1))), inr):
        return "after"
    return None


def row(xs, sep=",", V=None, eol="\n"):
    """the lines of the text: [[column...]...] with columns ('val', term) / ('lit', text) / ('each', range, term); raises Bad"""
    V = V or Val()
    lines, cur = [], []
    state = "start"

    def col(c):
        nonlocal state
        if state == "after" and cur[-1][0] == "lit" and c[0] == "val":    # a label in front of the value
            cur[-1] = c
            return
        if state == "after":
            raise Bad("two columns are not separated")
        cur.append(c)
        state = "after"

    def lit(t):
        nonlocal state, cur
        i = 0
        while i < len(t):
            if t.startswith(sep, i) and sep != eol:
                if state != "after":
                    raise Bad("a separator without a column before it")
                state = "sep"
                i += len(sep)
            elif t.startswith(eol, i):
                if state == "sep":
                    raise Bad("a separator at the end of the line")
                lines.append(cur)
                cur = []
                state = "start"
                i += len(eol)
            else:
                j = i
                while j < len(t) and not t.startswith(sep, j) and not t.startswith(eol, j):
                    j += 1
                if state == "after" and cur and cur[-1][0] == "lit":
                    raise Bad("texts")
                col(("lit", t[i:j]))
                i = j
    xs = plain(xs)
    for x in xs:
        if x[0] == "lit":
            lit(x[1])
        elif x[0] == "val":
            col(("val", x[1]))
        elif x[0] == "loop":
            rng, b = x[1], x[2]
            if rng is None:
                raise Bad("a loop without a range")
            ls = [("lit", sep)]
            le = [("lit", eol)]
            if len(b) == 2 and b[0] == ls[0] and b[1][0] == "val":
                if state != "after":
                    raise Bad("a line that starts with a separator")
                cur.append(("each", rng, b[1][1]))
            elif len(b) == 2 and b[1] == ls[0] and b[0][0] == "val" and sep != eol:
                if state == "after":
                    raise Bad("two columns are not separated")
                cur.append(("each", rng, b[0][1]))
                state = "sep"
            elif len(b) == 2 and b[0][0] == "val" and sep_between(b[1], sep, rng, V) == "after" or len(b) == 2 and b[1][0] == "val" and sep_between(b[0], sep, rng, V) == "before":
                col(("each", rng, b[0][1] if b[0][0] == "val" else b[1][1]))
            elif len(b) == 2 and b[0][0] == "lit" and b[1][0] == "val" and b[0][1].startswith(sep) and sep not in b[0][1][1:]:
                if state != "after":
                    raise Bad("a line that starts with a separator")
                cur.append(("each", rng, b[1][1], b[0][1][1:]))
            else:
                sub = row(b, sep, V, eol)
                if state != "start":
                    raise Bad("lines that start in the middle of another line")
                if sub and sub[-1] == ["open"]:
                    raise Bad("a line without end")
                lines.append([("lines", rng, sub)])
        elif x[0] == "if":
            sub = [row(y, sep, V, eol) for y in (x[2], x[3])]
            if state != "start" or any(y and y[-1] and y[-1][-1] == ("open",) for y in sub):
                raise Bad("a conditional part of a line")
            lines.append([("if", x[1], sub[0], sub[1])])
        else:
            raise Bad(str(x))
    if state == "sep":
        raise Bad("a separator at the end of the text")
    if cur:
        lines.append(cur + [("open",)])
    return lines
