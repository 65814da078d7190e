"""Every native function called from a script delivers a result."""
from ctx import need
from build import AnalysisBroken
from sym import Rule, Explorer

RULE = ("typestate over every native function reachable from scripts (all functions registered as callables, and the FFI call): "
        "mjs_return happens on every path to every return, and no argument is fetched after it (the result takes the place of the arguments)")
EXPLANATION = ("Callables are collected from the uses of the constructors of native function values; each is explored path-sensitively with its "
               "helpers inlined; calls of other native functions count as delivering when those do.")
ASSUMPTIONS = ["functions provided by the embedding program are outside"]
CONFIGS_THOROUGH = ["default", "aggressive_gc", "nodebug"]
NORET = {"abort", "exit", "__assert_fail", "_exit"}
ARGS = {"mjs_arg", "mjs_nargs", "mjs_check_arg"}

class Rl(Rule):
    def __init__(self, natives, must): self.natives = natives; self.must = must; self.reads = 0
    def init(self, ex): return 0
    def call(self, ex, st, i, args):
        if i.callee.kind != "fn": return None
        n = i.callee.name
        if n in NORET: return []
        if n == "mjs_return": st.ts = 1
        elif n in ARGS:
            self.reads += 1
            if st.ts: ex.report(i, "%s after the result was delivered: the arguments have been replaced by it" % n, st)
        elif i.callee in self.natives and i.callee is not ex.fn and len(i.ops) >= 1 and i.ops[0] is ex.fn.args[0]: st.ts = 1
        elif self.must(i.callee) and i.ops and i.ops[0] is ex.fn.args[0]: st.ts = 1
        return None
    def ret(self, ex, st, i, val):
        if not st.ts: ex.report(i, "returns to the interpreter without having delivered a result", st)

class Must:
    """functions that call mjs_return on every path (helpers which are not inlined)"""
    def __init__(self, m, cg, natives): self.m = m; self.cg = cg; self.n = natives; self.c = {}
    def __call__(self, f):
        if f in self.c: return self.c[f]
        self.c[f] = False
        if not f.defined or not f.args or not any(f.calls("mjs_return")) and not any(i.callee in self.n for i in f.insts() if i.op == "call"): return False
        if f.name in ("mjs_apply", "mjs_execute", "mjs_return"): return False
        ex = Explorer(self.m, f, Rl(self.n, self), self.cg); ex.MAXSTATES = 8000
        try: ex.run(); self.c[f] = not any("without" in r[1] for r in ex.reports)
        except AnalysisBroken: pass
        return self.c[f]

def check(ctx, R):
    m = ctx.api(); cg = ctx.cg(m)
    natives = set(cg.cfuncs)
    f = m.fns.get("mjs_ffi_call2")
    if f is not None and f.defined: natives.add(f)
    need(m.fns.get("mjs_return") is not None, "mjs_return not found")
    need(len(natives) >= 15, "only %d native functions found" % len(natives))
    R.count("native functions", len(natives))
    must = Must(m, cg, natives)
    for f in sorted(natives, key=lambda f: f.name):
        if not f.defined or not f.args: continue
        R.saw(f)
        rl = Rl(natives, must); ex = Explorer(m, f, rl, cg)
        try: ex.run()
        except AnalysisBroken as e: R.undecided("%s: %s" % (f.name, e)); continue
        R.count("paths ended", ex.paths_ended)
        for inst, msg, trail in ex.reports: R.bad("%s:%s" % (f.name, msg), inst.where(), "native function %s %s" % (f.name, msg), trail)
        if not ex.reports: R.ok("%s delivers a result on every path" % f.name)
