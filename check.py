#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property on the current tree of $MJS_REPO (default /repo)."""
import sys, os, time, json, importlib, traceback, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "engine")); sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(20000)
from ctx import Ctx, Result, AnalysisBroken
import build

def known(prop):
    """known_findings.txt lines: 'known: property=P key=<key> :: text'  /  'fixed: ...' (suppresses nothing)"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

def main():
    prop = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    mod = importlib.import_module("chk_" + prop.lower())
    configs = mod.CONFIGS_THOROUGH if tier == "thorough" else getattr(mod, "CONFIGS_QUICK", ["default"])
    R = Result(prop)
    broken = None
    try:
        for cfg in configs:
            R.config = cfg
            c = Ctx(cfg)
            try: mod.check(c, R)
            finally: c.close()
    except AnalysisBroken as e:
        if "state budget exceeded" in str(e): R.undecided(str(e))       # too many paths to follow: not decided
        else: broken = "analysis broken: %s" % e
    except Exception:
        broken = "analysis crashed:\n" + traceback.format_exc()
    kn = known(prop)
    new = [v for v in R.violations if v["key"] not in kn]
    old = [v for v in R.violations if v["key"] in kn]
    if broken and not new:
        print(broken); sys.exit(2)
    if broken: print(broken)
    base = os.environ.get("MJS_OUT", HERE)
    outdir = os.path.join(base, "out"); os.makedirs(outdir, exist_ok=True)
    evdir = os.path.join(base, "evidence"); os.makedirs(evdir, exist_ok=True)
    obl = {}
    for k, ok in R.obl: obl[k] = obl.get(k, True) and ok
    cov = {"explanation": mod.EXPLANATION, "rule": mod.RULE, "configurations": configs,
           "functions_analysed": len(R.fns), "functions": sorted(R.fns)[:400],
           "obligations": len(obl), "discharged": sum(1 for x in obl.values() if x),
           "obligation_list": sorted(obl)[:400], "undecided": sorted(set(R.und))[:200], "counts": R.counts,
           "checker_cmd": "python3 check.py %s --tier %s" % (prop, tier),
           "trusted_base": "clang-18 front end, LLVM always-inline/sroa/instsimplify, /verif/engine"}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s (%s at %s)" % (prop, kn[v["key"]], v["key"], v["where"]))
    print("%s: %d functions, %d obligations, %d undecided, %.1f s" % (prop, len(R.fns), len(obl), len(set(R.und)), time.time() - t0))
    if new:
        rp = os.path.join(outdir, "%s.violations.json" % prop)
        json.dump(new, open(rp, "w"), indent=1)
        for v in new:
            print("  %s: %s  [%s]" % (v["where"], v["message"], v["key"]))
            for p in v["path"][-14:]: print("      via %s" % p)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    sys.exit(0)

try: main()
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(2)          # no answer: never taken for a violation
