#!/usr/bin/env python3
"""check.py <property-id> [quick|thorough]"""
import importlib, json, os, sys, time, traceback
if os.environ.get("PYTHONHASHSEED") != "0":        # one fixed iteration order
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
EVID = os.environ.get("RODSA_EVIDENCE", os.path.join(VERIF, "evidence"))
from rodsa.facts import AnalysisError
from rodsa import facts


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                kv = line[len("finding:"):].strip()
                d = {}
                parts = kv.split(" ", 2)
                d["property"] = parts[0].split("=", 1)[1]
                d["key"] = parts[1].split("=", 1)[1]
                d["text"] = parts[2] if len(parts) > 2 else ""
                out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    ev = os.path.join(EVID, pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.unlink(ev)
    from rules.registry import RULES
    from rules.common import Ctx
    from rules import catalog
    from rodsa.prog import Program
    if pid not in RULES:
        print("unknown property", pid)
        return 2
    spec = RULES[pid]
    try:
        prog = Program()
        ctx = Ctx(prog, pid, tier)
        for fn in spec["fns"]:
            fn(ctx)
        for r, n in spec.get("floors", {}).items():
            ctx.floor(r, n)
        if not ctx.obs:
            raise AnalysisError("no obligations generated")
    except AnalysisError as e:
        print("NO-ANSWER property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("NO-ANSWER property=%s internal error" % pid)
        return 2
    known = [k for k in load_known() if k["property"] == pid]
    viol, kf = [], []
    for o in ctx.bad():
        ident = "%s@%s" % (o["rule"], o["key"])
        hit = [k for k in known if k["key"] == ident.replace(" ", "_")]
        (kf if hit else viol).append((o, ident))
    n = len(ctx.order)
    cov = {
        "obligations": n,
        "discharged": n - len(ctx.bad()),
        "functions_analysed": len(ctx.analysed),
        "call_sites": ctx.callsites,
        "entry_runs": ctx.runs,
        "rules": spec["rules"],
        "explanation": catalog.explain(pid),
        "instances": ["%s | %s | %s" % (o["rule"], o["key"], o["where"]) for o in (ctx.obs[k] for k in ctx.order)][:400],
        "functions": sorted(ctx.analysed)[:300],
        "checker_cmd": "python3 sa/check.py %s %s" % (pid, tier),
        "trusted_base": ["clang 18 front end (resolved AST)", "sa/extract/extract.cpp", "sa/rodsa/absint.py", "rule module"],
        "sources": prog.tus,
    }
    doc = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
           "level": spec.get("level", "other"), "coverage": cov, "wall_s": round(time.time() - t0, 3),
           "assumptions": spec.get("assumptions", [])}
    if viol:
        doc["violations"] = len(viol)
    with open(ev, "w") as f:
        json.dump(doc, f, indent=1)
    for o, ident in kf:
        print("KNOWN-FINDING: property=%s %s: %s (%s)" % (pid, ident, o["msg"], o["where"]))
    for o, ident in viol:
        rp = os.path.join(EVID, "%s-violation.txt" % pid)
        with open(rp, "a" if o is not viol[0][0] else "w") as f:
            f.write("rule %s\ninstance %s\nat %s\n%s\n\n" % (o["rule"], o["key"], o["where"], o["msg"]))
        print("%s: rule %s, instance %s: %s" % (o["where"], o["rule"], o["key"], o["msg"]))
    for o, ident in viol[:1]:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join("evidence", "%s-violation.txt" % pid)))
    print("%s: %d obligations, %d violated, %d known (%.1fs)" % (pid, n, len(viol), len(kf), time.time() - t0))
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
