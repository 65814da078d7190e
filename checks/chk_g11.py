"""A script that does not compile is rejected whole."""
from ctx import need
from build import AnalysisBroken
from sym import Rule, Explorer, State, U
from emit import norec
import compiled
RULE = ("no path through a parsing function returns success after a parsing function it called failed, after it reported an error or after it went past "
        "the end of the source; the compiler commits code only on paths where the whole statement list was accepted, drops it on the others, and returns "
        "the failure; bytecode of a source text is executed only where compiling it succeeded, and the failure is what the caller gets")
EXPLANATION = ("Every parsing function is followed on all paths with each call of another parsing function failing or succeeding; the compiling and executing entry "
               "points are followed with a compile that fails or succeeds.")
ASSUMPTIONS = []
CONFIGS_THOROUGH = ["default", "nodebug", "m32"]

class Outer(Rule):
    """mjs_parse: outcome of parsing / mjs_exec_internal: outcome of mjs_parse"""
    unroll = True
    def __init__(self, m, inner, M):
        self.m = m; self.inner = inner; self.M = M; self.outs = []; self.bad = []
        o = {n: off for off, n, *_ in m.struct_fields("struct.mjs")}
        self.GEN = ("a", M, o["bcode_gen"]) if o["bcode_gen"] else M
        self.ERR = (M, o["error"])
    def init(self, ex): return ()
    def track_loc(self, lc): return lc == self.ERR
    def clobbers(self, ex, i, cls): return False
    def call(self, ex, st, i, args):
        if i.callee.kind != "fn": return None
        n = i.callee.name
        if n == self.inner:
            st.ts = st.ts + ("inner",)
            a = st.copy(); a.ts = a.ts + ("ok",)
            b = st.copy(); b.facts[("err",)] = (None, None, frozenset({0})); b.ts = b.ts + ("failed",)
            return [(a, 0), (b, ("err",))]
        if n in ("mjs_bcode_commit", "mjs_execute"):
            if "ok" not in st.ts: self.bad.append((n, i, st, "failed" in st.ts))
            st.ts = st.ts + (n,)
        if n == "mbuf_free" and args[0] == self.GEN: st.ts = st.ts + ("free",)
        if n == "mjs_execute": return None
        if n in ("abort", "__assert_fail", "exit"): return []
        return None
    def ret(self, ex, st, i, val): self.outs.append((st, i, val))

def outer(ctx, R, name, inner, keep):
    raw = ctx.raw()
    f0 = raw.fns.get(name); need(f0 is not None and f0.defined, name)
    need(inner in raw.fns, inner)
    m = norec(ctx, [name], {inner, "mjs_execute", "mjs_bcode_commit", "mbuf_free", "mbuf_append", "mbuf_resize", "emit_byte", "mjs_set_errorf", "mjs_prepend_errorf",
                            "cs_mmap_file", "mjs_gc", "cs_varint_encode", "cs_varint_llen", "mjs_dump"} | keep)
    f = m.fns[name]; R.saw(f)
    M = ("h", "mjs"); r = Outer(m, inner, M); ex = Explorer(m, f, r)
    st = State()
    for a in f.args: st.env[a] = ("v", a)
    # the interpreter's state is the argument that points to it
    k = [j for j, (ty, nm) in enumerate(ctx.sig_types(raw, name))] if False else None
    for a in f.args:
        if a.ty == ("ptr",) and getattr(a, "name", "") == "mjs": st.env[a] = M
    need(M in st.env.values(), "the state of %s" % name)
    st.ts = ()
    ex.run(st)
    return m, f, r, ex

def check(ctx, R):
    compiled.run(ctx, R, "errors")
    # compiling
    def go(name, inner, what):
        try: m, f, r, ex = outer(ctx, R, name, inner, set())
        except AnalysisBroken as e: R.undecided("%s: %s" % (name, e)); return
        for n, i, s, after in r.bad:
            R.bad("%s:%s" % (name, n), i.where(), "%s: %s" % (name, "code is %s although %s" % ("committed" if n == "mjs_bcode_commit" else "executed", "it does not compile" if after else "nothing was compiled")), ex.trail(s))
        k = 0
        for s, i, val in r.outs:
            if "failed" not in s.ts: continue
            k += 1
            if ex.decide(s, "ne", val, 0, 32) is not True:
                if val == 0 or val != U and ex.decide(s, "eq", val, 0, 32) is True: R.bad("%s:result" % name, i.where(), "%s returns success although %s failed" % (name, inner), ex.trail(s))
                else: R.undecided("%s: what it returns when %s fails" % (name, inner))
            if name == "mjs_parse" and "free" not in s.ts: R.bad("mjs_parse:dropped", i.where(), "code of a source text that does not compile is kept", ex.trail(s))
        if not k: R.undecided("%s: no failing path" % name)
        R.ok("%s: %d failing paths of %d" % (name, k, len(r.outs)))
    go("mjs_parse", "parse_statement_list", "")
    go("mjs_exec_internal", "mjs_parse", "")
    # nobody else compiles, or runs code it did not compile
    raw = ctx.raw()
    for f in raw.fns.values():
        if not f.defined: continue
        for c in f.calls("mjs_parse"):
            if f.name != "mjs_exec_internal": R.undecided("%s compiles source text itself" % f.name)
