"""Frames and stacks balance: calls, returns and failed runs leave the interpreter's stacks and `this` as they found them."""
from ctx import need
from build import AnalysisBroken
from sym import Explorer, State, Rule, mentions
from stk import StackRule, STACKS
from flow import dominates, acc_class, field_class, strip_ptr, natural_loop, loop_headers
import opfx

RULE = ("symbolic stack model: mjs_apply and every library function are net zero on the five stacks (natives replace their arguments by the result), "
        "each instruction pushes or pops whole frames only, a native call drops the frame it pushed, the frame is read back in the layout in which "
        "it was written, `this` changes only together with a frame, and the error exit of mjs_execute restores every length and `this`")
EXPLANATION = ("The five stacks are modelled as symbolic sequences relative to entry; pushes, pops, length assignments and peeks are interpreted on all paths "
               "of mjs_apply, of every other function that touches the stacks and, instruction by instruction, of the dispatch loop.")
ASSUMPTIONS = ["native functions supplied by the embedding program deliver a result with mjs_return"]
CONFIGS_THOROUGH = ["default", "aggressive_gc", "nodebug"]
PRIMS = {"mjs_push", "mjs_pop", "mjs_return", "mjs_gen_stack_trace", "mjs_execute", "mjs_destroy", "mjs_create"}
OPS = {"mjs_push", "mjs_pop", "push_mjs_val", "mjs_pop_val", "mjs_return", "mjs_execute"}

class FnRule(StackRule):
    def __init__(self, *a): StackRule.__init__(self, *a); self.ends = []
    def ret(self, ex, st, i, val):
        th = st.mem.get((self.base, self.this_off))
        self.ends.append(({X: self.net(st, X) for X in STACKS}, th[0] if th else None, i, ex.trail(st)))

def touches(f):
    for i in f.insts():
        if i.op == "call" and (i.callee.kind != "fn" or i.callee.name in OPS or i.callee.name == "mjs_ffi_call2"): return True
        if i.op == "store":
            c = acc_class(f.m, i) if hasattr(f, "m") else None
            if c and c.endswith(".len"): return True
    return False

def functions(m, cg, R):
    nat = set(cg.cfuncs)
    ff = m.fns.get("mjs_ffi_call2")
    if ff is not None: nat.add(ff)
    nf = opfx.frame_items(m); seen = 0
    for f in m.fns.values():
        if not f.defined or not f.args or f.name in PRIMS: continue
        sg = m.sig(f.name)
        if not is_mjs(m, f): continue
        if not touches_m(m, f): continue
        r = FnRule(m, nat, nf); ex = Explorer(m, f, r, cg); ex.MAXSTATES = 30000
        try: ex.run(opfx.init_state(r, ex, None))
        except AnalysisBroken as e: R.undecided("%s: %s" % (f.name, e)); continue
        R.saw(f); seen += 1; good = True
        for net, this, inst, trail in r.ends:
            for X in STACKS:
                n = net[X]
                if X == "stack" and f in nat:
                    if isinstance(n, int) and n != 0 or isinstance(n, tuple) and not (isinstance(n[1], tuple) and n[1][0] == "gi"):
                        pass
                    continue
                if isinstance(n, int) and n != 0:
                    R.bad("%s:%s" % (f.name, X), inst.where(), "%s returns with %+d elements on the %s" % (f.name, n, X.replace("_", " ")), trail); good = False
            if this is not None and this != ("this0",):
                R.bad("%s:this" % f.name, inst.where(), "%s returns with a different `this` than it was entered with" % f.name, trail); good = False
        if good: R.ok("%s is neutral on the stacks (%d path ends)" % (f.name, len(r.ends)))
    need(seen >= 10, "only %d functions touch the stacks" % seen)

def is_mjs(m, f):
    try: s = m.sig(f.name)
    except Exception: s = None
    return f.args[0].ty[0] == "ptr" and f.args[0].name == "mjs"

def touches_m(m, f):
    for i in f.insts():
        if i.op == "call" and (i.callee.kind != "fn" and len(i.ops) == 1 or i.callee.kind == "fn" and i.callee.name in OPS | {"mjs_ffi_call2"}): return True
        if i.op == "store":
            c = acc_class(m, i)
            if c and c.startswith("mjs.") and c.endswith(".len") and c.split(".")[1] in STACKS: return True
    return False

def instructions(ctx, m, cg, R):
    fx, blocks, sw = opfx.effects(ctx, m, cg)
    nf = opfx.frame_items(m); pushes = []; pops = []
    f = m.fns["mjs_execute"]; R.saw(f)
    for op, ends in sorted(fx.items()):
        if ends is None: R.undecided("%s: too many paths" % op); continue
        where = blocks[op].insts[0].where() if op in blocks else ""
        good = True
        def bad(key, msg, e):
            nonlocal good
            good = False
            R.bad("%s:%s" % (op, key), where, "instruction %s %s" % (op, msg), e.trail)
        args = set()
        for e in ends:
            R.count("instruction paths")
            if e.err: continue                         # the error exit restores everything
            cs = e.net["call_stack"]
            if e.native:
                if isinstance(cs, int) and cs != 0: bad("native-frame", "goes on after a native call with %+d elements on the call stack" % cs, e)
                if e.this is not None and e.this != ("this0",): bad("native-this", "goes on after a native call without `this` being restored", e)
                s = e.stacks["stack"]
                if s[0] not in ("set", "?") : pass
                elif s[0] == "set" and e.net["stack"][1] != ("gi", ("be", "arg_stack", 1)) and isinstance(e.net["stack"][1], tuple):
                    bad("native-stack", "leaves the operand stack at a length which is not the position saved for the result", e)
            else:
                if isinstance(cs, int) and cs not in (0, nf, -nf): bad("frame-size", "changes the call stack by %+d elements, a frame has %d" % (cs, nf), e)
                if cs == 0 and e.this is not None and e.this != ("this0",): bad("this", "changes `this` without pushing or dropping a frame", e)
                if cs == nf: pushes.append((op, e))
                if cs == -nf: pops.append((op, e))
            if isinstance(e.net["arg_stack"], int): args.add((e.net["arg_stack"]))
        if len(args) > 1:
            e = ends[0]; bad("arg-stack", "has different effects on the argument stack on different paths: %s" % sorted(args), e)
        if good: R.ok("%s: %d path ends" % (op, len(ends)))
    need(pushes and pops, "no instruction pushes / drops a call frame")
    # layout agreement
    for op, e in pushes:
        fr = e.stacks["call_stack"][-1][-nf:]
        lay = {}
        for k, el in enumerate(fr):
            v = el[1]; pos = nf - k               # distance from the top, 1 = top
            if v == ("this0",): lay["this"] = pos
            elif v == ("num", ("si", ("sz", "scopes"))): lay["scopes"] = pos
            elif v == ("num", ("si", ("sz", "loop_addresses"))): lay["loop_addresses"] = pos
            elif v == ("be", "arg_stack", 1): lay["ret"] = pos
        for what in ("this", "scopes", "loop_addresses", "ret"):
            if what not in lay: R.undecided("%s: where the frame keeps %s" % (op, what))
        for op2, x in pops:
            def bad2(key, msg): R.bad("%s:%s" % (op2, key), x.frm.insts[-1].where(), "instruction %s %s" % (op2, msg), x.trail)
            if "this" in lay and x.this != ("be", "call_stack", lay["this"]):
                bad2("this", "does not take `this` from the place of the frame where %s saved it" % op)
            for X in ("scopes", "loop_addresses"):
                if X not in lay: continue
                want = ("gi", ("be", "call_stack", lay[X])); s = x.stacks[X]
                size = ("dsz", X) if s[0] == "?" else ("sz", X) if s == (0, ()) else None
                if s[0] == "set": okk = x.net[X][1] == want
                else: okk = size is not None and any(a == size and b == want and p in ("ule", "sle", "eq") for p, a, b in x.rel)
                if not okk: bad2(X, "can leave more %s than the frame recorded" % X.replace("_", " "))
            if "ret" in lay:
                n = x.net["stack"]
                want = ("gi", ("be", "call_stack", lay["ret"]))
                if not (isinstance(n, tuple) and n[1] == want): bad2("stack", "does not cut the operand stack at the position saved for the result")
    R.ok("frame layout: %d push site(s) against %d pop path(s)" % (len(pushes), len(pops)))

class ExitRule(StackRule):
    """from the error test of the dispatch loop to the return"""
    def __init__(self, m, nat, nf, entry_len):
        StackRule.__init__(self, m, nat, nf); self.entry_len = entry_len; self.ends = []
    def init(self, ex):
        ts = StackRule.init(self, ex)
        return (tuple(("?",) for _ in STACKS), ())
    def bytes(self, val):
        b = StackRule.bytes(self, val)
        return b
    def store(self, ex, st, i, addr, cls, val):
        lc = ex.loc(addr)
        if lc[0] == self.base and lc[1] in self.lenoffs:
            X = self.lenoffs[lc[1]]; v = val; n = 0
            if isinstance(v, tuple) and v[0] == "*" and v[2] == 8: v = v[1]
            if isinstance(v, tuple) and v[0] == "+": n = v[2]; v = v[1]
            e = self.entry_len(v[1]) if isinstance(v, tuple) and len(v) == 2 and v[0] == "v" else None
            self.put(st, X, ("set", self.add(("entry", e), n), ()) if e else ("?", "u")); return
        if lc[0] == self.base and lc[1] == self.this_off:
            st.ts = (st.ts[0], ("this",))
    def call(self, ex, st, i, args):
        if i.callee.kind == "fn" and i.callee.name == "mjs_gen_stack_trace": self.put(st, "call_stack", ("?",)); return [(st, None)]
        if i.callee.kind == "fn" and i.callee.name in ("mjs_set_errorf", "mjs_prepend_errorf"): return None
        return StackRule.call(self, ex, st, i, args)
    def ret(self, ex, st, i, val):
        self.ends.append((st.ts, {X: self.net(st, X) for X in STACKS}, i, ex.trail(st), self.errno(ex, st)))
    def errno(self, ex, st):
        er = st.mem.get((self.base, self.err_off))
        if er is None: return None
        return ex.decide(st, "ne", er[0], 0, 32)

def error_exit(m, cg, R):
    f = m.fns["mjs_execute"]
    # lengths remembered at entry: loads of mjs.X.len that precede every write
    sw = opfx.dispatch(f)
    lens = {}
    for i in f.insts():
        if i.op == "load":
            c = acc_class(m, i)
            if c and c.startswith("mjs.") and c.endswith(".len") and c.split(".")[1] in STACKS and i.bb is not sw.bb and dominates(i.bb, sw.bb) \
               and not any(i.bb in natural_loop(f, h) for h in loop_headers(f)): lens[i] = c.split(".")[1]
    def entry_len(v, d=0):
        if v in lens: return lens[v]
        if v.kind == "inst" and v.op == "call" and v.callee.kind == "fn" and v.callee.name == "mjs_stack_size" and dominates(v.bb, sw.bb) and v.bb is not sw.bb:
            c = field_class(m, v.ops[0], False)
            if c and c.startswith("mjs.") and c.split(".")[1] in STACKS: return c.split(".")[1]
        if d < 4 and v.kind == "inst" and v.op in ("mul", "shl") and v.ops[1].kind == "const" and v.ops[1].val == (8 if v.op == "mul" else 3): return entry_len(v.ops[0], d + 1)
        if d < 4 and v.kind == "inst" and v.op in ("trunc", "sext", "zext", "freeze"): return entry_len(v.ops[0], d + 1)
        return None
    # the test of mjs->error after an instruction
    tests = []
    for b in f.bbs:
        t = b.term
        if t.op != "br" or not t.ops or not any(b in natural_loop(f, h) for h in loop_headers(f)): continue
        c = t.ops[0]
        if c.kind != "inst" or c.op != "icmp": continue
        if dominates(sw.bb, b) or b is sw.bb: pass
        l = c.ops[0]
        while l.kind == "inst" and l.op in ("zext", "sext", "trunc"): l = l.ops[0]
        if l.kind == "inst" and l.op == "load" and acc_class(m, l) == "mjs.error" and c.ops[1].kind == "const" and c.ops[1].val == 0 and c.pred in ("eq", "ne"):
            inner = any(dominates(cb, b) for cv, cb in sw.cases if cb is not b)
            if not inner: tests.append((b, b.succs[0 if c.pred == "ne" else 1], t))
    need(tests, "the test of mjs->error in the dispatch loop was not found")
    nat = set(cg.cfuncs); nf = opfx.frame_items(m)
    for b, tgt, t in tests:
        r = ExitRule(m, nat, nf, entry_len); r.start = tgt; ex = Explorer(m, f, r, cg)
        st = State(); st.ts = r.init(ex); st.mem = {(r.base, r.err_off): (1, "")}
        # go only as far as the function's return, not around the loop
        hdrs = [h for h in loop_headers(f) if dominates(h, b)]
        old = r.edge
        looped = []
        def edge(ex_, st_, frm, to):
            if to in hdrs: looped.append(st_); return False
            return True
        r.edge = edge
        try: ex.run(st, start=tgt)
        except AnalysisBroken as e: R.undecided("error exit: %s" % e); continue
        if looped: R.bad("mjs_execute:continues", t.where(), "mjs_execute goes on with the next instruction after an error", [])
        R.count("error exit paths", len(r.ends))
        for ts, net, inst, trail, err in r.ends:
            for X in STACKS:
                n = net[X]
                if isinstance(n, tuple) and n[1] == ("entry", X): continue
                if ts[0][STACKS.index(X)] == ("?", "u"): R.undecided("error exit: %s" % X); continue
                what = "the length of another stack" if isinstance(n, tuple) and isinstance(n[1], tuple) and n[1][0] == "entry" else "its length at entry plus or minus something" if isinstance(n, tuple) and isinstance(n[1], tuple) and n[1][0] == "+" else "a length that is not the one at entry"
                R.bad("mjs_execute:error:%s" % X, inst.where(), "after an error mjs_execute returns with the %s at %s" % (X.replace("_", " "), what), trail)
        if not any("this" in ts[1] for ts, *_ in r.ends):
            R.bad("mjs_execute:error:this", t.where(), "after an error mjs_execute does not restore `this` of the code around it", r.ends[0][3] if r.ends else [])
    R.ok("error exit restores %d stacks" % len(STACKS))

def check(ctx, R):
    m = ctx.api(); cg = ctx.cg(m)
    need(m.fns.get("mjs_apply") is not None and m.fns["mjs_apply"].defined, "mjs_apply not found")
    functions(m, cg, R)
    instructions(ctx, m, cg, R)
    error_exit(m, cg, R)
