"""break, continue and return act only within the running function and its own loops."""
from ctx import need
from build import AnalysisBroken
from sym import Explorer, State, Rule
from stk import STACKS
from flow import dominates, acc_class, natural_loop, loop_headers, CallGraph
import opfx

RULE = ("an instruction that takes addresses or the scope depth from the loop stack does so only where the path has established that the stack holds "
        "one more loop record than the running function's frame recorded at entry (or a whole record when there is no frame); records are read in the "
        "layout in which they are written and dropped whole; the instruction that sets a return value runs only where the call stack holds a frame pushed "
        "by this execution, and for a whole program at least one whole frame more than when it was started")
EXPLANATION = ("Every path of every instruction in the dispatch loop is followed with symbolic stacks and the comparisons made on the way; "
               "the bound used for return values is traced back to the lengths remembered at entry.")
ASSUMPTIONS = ["bytecode is produced by this parser"]
CONFIGS_THOROUGH = ["default", "aggressive_gc", "nodebug"]

def uses_loops(t):
    """depths of the loop stack a term refers to"""
    out = set()
    def w(x):
        if isinstance(x, tuple):
            if x[:2] == ("be", "loop_addresses"): out.add(x[2])
            for y in x[1:]: w(y)
    w(t)
    return out

def ge(e, a, b, n):
    """is a >= b + n established on the path"""
    for p, x, y in e.rel:
        for pp, xx, yy in ((p, x, y), (SW[p], y, x)):
            if xx != a: continue
            base, k = (yy[1], yy[2]) if isinstance(yy, tuple) and yy[0] == "+" else (yy, 0)
            if base == b:
                if pp in ("uge", "sge") and k >= n or pp in ("ugt", "sgt") and k + 1 >= n or pp == "eq" and k >= n: return True
    f = e.facts.get(("-", a, b))
    return f is not None and f[0] is not None and f[0] >= n
SW = {"eq": "eq", "ne": "ne", "ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge", "sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge"}

def mentions_base(e, b):
    return any(uses(x, b) or uses(y, b) for _, x, y in e.rel) or any(uses(k, b) for k in e.facts)
def uses(t, b):
    return t == b or isinstance(t, tuple) and any(uses(x, b) for x in t[1:])

def check(ctx, R):
    m = ctx.api(); cg = ctx.cg(m)
    fx, blocks, sw = opfx.effects(ctx, m, cg)
    nf = opfx.frame_items(m); R.saw("mjs_execute")
    pop, pe, lay = opfx.layout(fx, nf)
    need(pop is not None, "no instruction pushes a call frame")
    if "loop_addresses" not in lay: R.undecided("where the frame records the loop depth"); return
    base = ("gi", ("be", "call_stack", lay["loop_addresses"])); size = ("sz", "loop_addresses")
    # loop records: pushed whole, with the scope depth at a fixed place
    rec = None
    for op, ends in sorted(fx.items()):
        for e in ends or ():
            n = e.net["loop_addresses"]
            if isinstance(n, int) and n > 0 and not e.err:
                el = e.stacks["loop_addresses"][-1]
                sc = [n - k for k, x in enumerate(el) if x[1] == ("num", ("si", ("sz", "scopes")))]
                if rec is None: rec = (op, n, sc[0] if sc else None)
                elif rec[1] != n: R.bad("%s:record" % op, blocks[op].insts[0].where(), "instruction %s pushes %d loop addresses, %s pushes %d" % (op, n, rec[0], rec[1]), e.trail)
    need(rec is not None, "no instruction pushes loop addresses")
    lop, n, scpos = rec
    R.ok("%s pushes records of %d" % (lop, n))
    if scpos is None:
        e = [x for x in fx[lop] if not x.err][0]
        R.bad("%s:scope" % lop, blocks[lop].insts[0].where(), "instruction %s does not record how many scopes there are" % lop, e.trail)
    found = 0
    for op, ends in sorted(fx.items()):
        if ends is None: R.undecided(op); continue
        good = True; any_use = False
        for e in ends:
            if e.err: continue
            if e.net["call_stack"] not in (0,): continue           # frame restore: C04
            depths = set()
            for t in e.pc.values(): depths |= uses_loops(t)
            s = e.stacks["scopes"]
            if s[0] == "set": depths |= uses_loops(s[1])
            dn = e.net["loop_addresses"]
            if isinstance(dn, int) and dn < 0: depths.add(-dn)
            if isinstance(dn, tuple): R.undecided("%s sets the loop stack" % op); continue
            if not depths: continue
            any_use = True; found += 1
            R.count("loop record uses")
            D = max(depths); w = blocks[op].insts[0].where()
            noframe = e.facts.get(("sz", "call_stack"), (None, None))[1]
            okk = ge(e, size, base, D)
            if not okk and noframe is not None and noframe < nf:
                lo = e.facts.get(size, (None,))[0]
                okk = lo is not None and lo >= D
            if not okk:
                good = False
                R.bad("%s:guard" % op, w, "instruction %s uses a loop record without having established that it belongs to the running function" % op, e.trail)
            if isinstance(dn, int) and dn < 0 and dn != -n:
                good = False
                R.bad("%s:record" % op, w, "instruction %s drops %d loop addresses, a record has %d" % (op, -dn, n), e.trail)
            if scpos is not None:
                want = ("gi", ("be", "loop_addresses", scpos))
                ns = e.net["scopes"]
                if s[0] == "set" and ns[1] != want or s[0] != "set" and not any(a in (("dsz", "scopes"), ("sz", "scopes")) and b == want and p in ("ule", "sle", "eq") for p, a, b in e.rel):
                    good = False
                    R.bad("%s:scopes" % op, w, "instruction %s leaves the loop without going back to the scopes recorded for it" % op, e.trail)
        if any_use and good: R.ok("%s uses only the running function's loop records" % op)
    need(found >= 2, "no instruction uses loop records")
    returns(m, cg, fx, blocks, sw, lay, nf, R)

def returns(m, cg, fx, blocks, sw, lay, nf, R):
    f = m.fns["mjs_execute"]; n = 0
    for op, ends in sorted(fx.items()):
        for e in ends or ():
            if e.err or e.net["call_stack"] != 0 or e.native: continue
            # stores through the position saved in the frame: recognised by the operand being looked up
            if op not in ("OP_SETRETVAL",): continue
            n += 1
            g = None
            for p, x, y in e.rel:
                for pp, xx, yy in ((p, x, y), (SW[p], y, x)):
                    if isinstance(yy, tuple) and yy[0] == "/" and yy[2] == 8 and xx == ("sz", "call_stack"): yy = yy[1]; xx = ("*", xx, 8)
                    b = xx[1] if isinstance(xx, tuple) and xx[0] == "*" else xx
                    if b == ("sz", "call_stack") and pp in ("uge", "sge", "ugt", "sgt"): g = (pp, yy, xx)
            if g is None:
                lo = e.facts.get(("sz", "call_stack"), (None,))[0]
                R.bad("%s:guard" % op, blocks[op].insts[0].where(), "instruction %s sets a return value without checking that this execution has called the function" % op, e.trail); continue
            bound(m, cg, f, sw, g, nf, R, op, e)
    if not n: R.undecided("no instruction sets a return value")

class Bnd(Rule):
    num_terms = True
    def __init__(self, sw, sym): self.sw = sw; self.sym = sym; self.out = []
    def init(self, ex): return 0
    def edge(self, ex, st, frm, to):
        if to is self.hdr:
            vals = None
            for ph in to.phis():
                if ph is self.sym:
                    for o, pb in zip(ph.ops, ph.phi_bbs):
                        if pb is frm: vals = ex.t(st, o)
            if vals is None: vals = ex.t(st, self.sym) if self.sym.kind != "const" else self.sym.val
            self.out.append((vals, st.rel, dict(st.facts), ex.trail(st)))
            return False
        return True
    def clobbers(self, ex, i, cls): return False

def bound(m, cg, f, sw, g, nf, R, op, e):
    pp, t, lhs = g
    k = 0
    if isinstance(t, tuple) and t[0] == "+": k = t[2]; t = t[1]
    if not (isinstance(t, tuple) and len(t) == 2 and t[0] == "v"): R.undecided("bound of %s" % op); return
    sym = t[1]; unit = 8 if isinstance(lhs, tuple) and lhs[0] == "*" else 1
    hs = [h for h in loop_headers(f) if sw.bb in natural_loop(f, h) or h is sw.bb]
    if not hs: R.undecided("dispatch loop"); return
    outer = [h for h in hs if all(dominates(h, x) for x in hs)][0]
    r = Bnd(sw, sym); r.hdr = outer; ex = Explorer(m, f, r, cg)
    try: ex.run()
    except AnalysisBroken as x: R.undecided(str(x)); return
    off = f.args[1] if len(f.args) > 1 else None
    good = True; seen = 0
    for v, rel, facts, trail in r.out:
        n = k
        if isinstance(v, tuple) and v[0] == "+": n += v[2]; v = v[1]
        if isinstance(v, tuple) and v[0] == "*": v = v[1]
        src = v[1] if isinstance(v, tuple) and v[0] == "v" else None
        cl = None
        if src is not None and src.kind == "inst" and src.op == "load": cl = acc_class(m, src)
        elif src is not None and src.kind == "inst" and src.op == "call": cl = "call"
        if cl not in ("mjs.call_stack.len", "call"): R.undecided("bound of %s: %r" % (op, v)); return
        seen += 1
        n = n // unit + (1 if pp in ("ugt", "sgt") else 0)
        # is this path the one of a whole program (starting at its first instruction)?
        prog = None
        for p, x, y in rel:
            if p in ("eq", "ne") and off is not None and (x == ("v", off) or y == ("v", off)): prog = (p == "eq")
        if prog is True and n < nf:
            good = False
            R.bad("%s:program" % op, blocks_where(sw), "a program (which has no frame of its own) may set the return value of the function that loads it", trail)
        if prog is None and n < nf:
            good = False
            R.bad("%s:program" % op, blocks_where(sw), "the frame needed for setting a return value is not required of programs, which have none of their own", trail)
        if n < 0:
            good = False
            R.bad("%s:bound" % op, blocks_where(sw), "return values may be set in frames that were there before this execution", trail)
    if seen and good: R.ok("%s: bound holds on %d paths" % (op, seen))

def blocks_where(sw): return sw.where()
