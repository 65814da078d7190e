"""Effects of every bytecode instruction on the interpreter's stacks, read off the dispatch loop of mjs_execute."""
from ctx import need
from build import AnalysisBroken
from flow import dominates
from sym import Explorer, State
from stk import StackRule, STACKS

class End:
    __slots__ = ("stacks", "net", "err", "this", "rel", "facts", "frm", "to", "trail", "native", "pc", "env", "decs", "israw")

class OpRule(StackRule):
    def __init__(self, m, natives, nframe, start):
        StackRule.__init__(self, m, natives, nframe); self.start = start; self.ends = []
    def init(self, ex):
        ts = StackRule.init(self, ex)
        return ts
    def native(self, ex, st, i):
        StackRule.native(self, ex, st, i); st.ts = (st.ts[0], st.ts[1] + ("native",) if "native" not in st.ts[1] else st.ts[1])
    def edge(self, ex, st, frm, to):
        if dominates(self.start, to): return True
        e = End(); e.stacks = dict(zip(STACKS, st.ts[0])); e.net = {X: self.net(st, X) for X in STACKS}
        er = st.mem.get((self.base, self.err_off))
        e.err = None if er is None or not isinstance(er[0], int) else er[0]
        if er is not None and not isinstance(er[0], int):
            d = ex.decide(st, "ne", er[0], 0, 32)
            e.err = None if d is None else int(d)
        th = st.mem.get((self.base, self.this_off)); e.this = th[0] if th else None
        e.rel = st.rel; e.facts = dict(st.facts); e.frm = frm; e.to = to; e.trail = ex.trail(st); e.native = "native" in st.ts[1]
        e.pc = {}
        for ph in to.phis():
            for o, pb in zip(ph.ops, ph.phi_bbs):
                if pb is frm: e.pc[ph] = ex.t(st, o)
        self.ends.append(e)
        return False
    def ret(self, ex, st, i, val): pass

def dispatch(f):
    sws = [b.term for b in f.bbs if b.term.op == "switch" and len(b.term.cases) >= 20]
    c = [s for s in sws if all(s is o or dominates(s.bb, o.bb) for o in sws)]
    need(len(c) == 1, "the dispatch switch of %s was not found" % f.name)
    return c[0]

def op_names(m):
    for n, e in m.enums.items():
        if "OP_PUSH_NULL" in e or any(k == "OP_RETURN" for k in e): return {v: k for k, v in e.items() if k != "OP_MAX"}
    raise AnalysisBroken("enumeration of the bytecode instructions not found")

def frame_items(m):
    v = m.enumval.get("CALL_STACK_FRAME_ITEMS_CNT")
    return v if v else 5

def init_state(rule, ex, err=0):
    st = State(); st.ts = rule.init(ex)
    st.mem = {(rule.base, rule.this_off): (("this0",), "")}
    for X in STACKS: st.facts[("sz", X)] = (0, None, frozenset())
    if err is not None: st.mem[(rule.base, rule.err_off)] = (err, "")
    return st

def effects(ctx, m, cg):
    """{opcode name: [End]}"""
    f = m.fns.get("mjs_execute"); need(f is not None and f.defined, "mjs_execute not found")
    c = m.__dict__.get("_opfx")
    if c is not None: return c
    sw = dispatch(f); names = op_names(m); natives = set(cg.cfuncs); nf = frame_items(m)
    out = {}; blocks = {}
    for cv, b in sw.cases:
        r = OpRule(m, natives, nf, b); ex = Explorer(m, f, r, cg)
        st = init_state(r, ex)
        try: ex.run(st, start=b)
        except AnalysisBroken: out[names.get(cv, "#%d" % cv)] = None; continue
        out[names.get(cv, "#%d" % cv)] = r.ends; blocks[names.get(cv, "#%d" % cv)] = b
    m._opfx = (out, blocks, sw)
    return m._opfx

def layout(fx, nf):
    """position from the top (1 = top) of what a pushed call frame records"""
    for op, ends in sorted(fx.items()):
        for e in ends or ():
            if e.err or e.net["call_stack"] != nf: continue
            lay = {}
            for k, el in enumerate(e.stacks["call_stack"][-1][-nf:]):
                v = el[1]; pos = nf - k
                if v == ("this0",): lay["this"] = pos
                elif v == ("num", ("si", ("sz", "scopes"))): lay["scopes"] = pos
                elif v == ("num", ("si", ("sz", "loop_addresses"))): lay["loop_addresses"] = pos
                elif v == ("be", "arg_stack", 1): lay["ret"] = pos
            return op, e, lay
    return None, None, {}
