"""Exhaustive evaluation of a function over a finite abstract input domain: the inputs that select behaviour are
given as constants, everything else stays an opaque symbol, loops over constants are unrolled.  The typestate is the
sequence of events on the path."""
from sym import Rule, Explorer, State, width
NORET = {"abort", "__assert_fail", "exit", "_exit", "__assert_rtn", "_assert"}

class Conc(Rule):
    unroll = True
    widen = (2000, 4000, 8000)
    def __init__(self): self.outs = []
    def init(self, ex): return ()
    def track_loc(self, lc): return True
    def track(self, cls): return True
    def event(self, st, *ev): st.ts = st.ts + (ev,)
    def clobbers(self, ex, i, cls): return False
    def call(self, ex, st, i, args):
        if i.callee.kind == "fn":
            if i.callee.name in NORET: self.outs.append(("abort", st.ts, i, st)); return []
            r = self.direct(ex, st, i, i.callee.name, args)
            return r
        return self.indirect(ex, st, i, args)
    def direct(self, ex, st, i, name, args): return None
    def indirect(self, ex, st, i, args): return None
    def ret(self, ex, st, i, val): self.outs.append(("ret", st.ts, val, st))

def H(name): return ("h", name)

def run(m, fn, rule, args, mem=None, facts=None, maxstates=20000):
    ex = Explorer(m, fn, rule); ex.MAXSTATES = maxstates
    st = State()
    for a, v in zip(fn.args, args):
        if v is not None: st.env[a] = v
    for k, v in (mem or {}).items(): st.mem[k] = (v, "")
    for k, v in (facts or {}).items(): st.facts[k] = v
    st.ts = rule.init(ex)
    ex.run(st)
    return rule.outs
