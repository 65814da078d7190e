"""Script values in native variables across collections; balanced registration of root addresses."""
from ctx import need
from flow import strip_ptr, gep_offset, acc_class, dominates, inst_dominates
from sym import Rule, Explorer, State, U
from chk_g01 import value_fields

RULE = ("liveness of script-value SSA registers and local variables at every call site from which the collector is reachable "
        "(live + unregistered = violation); path-sensitive typestate of mjs_own/mjs_disown per address up to every return and free")
EXPLANATION = ("Call sites that can collect are found on the call graph (indirect calls by signature; unresolved calls that take the "
               "engine are assumed to collect). Values: registers that originate from functions returning script values, from value "
               "fields or through value pointers. A local registered with the collector on every path to the call is accepted.")
ASSUMPTIONS = ["script values copied into heap arrays by native code are not followed",
               "strings move during compaction, so a copy of a value that is also rooted elsewhere still counts as stale unless it was tested to be a number, boolean, object or function"]
CONFIGS_THOROUGH = ["default", "aggressive_gc", "nodebug", "offset4"]

SAFE_TESTS = {"mjs_is_number", "mjs_is_boolean", "mjs_is_null", "mjs_is_undefined", "mjs_is_foreign", "mjs_is_function"}
VT = "mjs_val_t"

def value_origins(m, f):
    """SSA values of f that are script values."""
    vals = set()
    sg = m.sig(f.name)
    if sg:
        for a, t in zip(f.args, sg[1:]):
            if t == VT: vals.add(a)
    for i in f.insts():
        if i.ty != ("int", 64): continue
        if i.op == "call" and i.callee.kind == "fn":
            s = m.sig(i.callee.name)
            if s and s[0] == VT: vals.add(i)
        elif i.op == "load":
            p = strip_ptr(i.ops[0])
            if p.kind == "inst" and p.op == "call" and p.callee.kind == "fn":
                s = m.sig(p.callee.name)
                if s and s[0] == VT + "*": vals.add(i)
            elif is_value_alloca(m, p): vals.add(i)
            else:
                c = acc_class(m, i)
                if c and c in value_classes(m): vals.add(i)
    ch = True
    while ch:
        ch = False
        for i in f.insts():
            if i not in vals and i.ty == ("int", 64) and i.op in ("phi", "select"):
                ops = i.ops if i.op == "phi" else i.ops[1:]
                if any(o in vals for o in ops if o.kind in ("inst", "arg")):
                    vals.add(i); ch = True
    return vals

def value_classes(m):
    c = getattr(m, "_valcls", None)
    if c is None:
        c = set()
        for s in m.fields:
            if not s.startswith("struct."): continue
            for off, nm in value_fields(m, s): c.add(s[7:] + "." + nm)
        m._valcls = c
    return c

def is_value_alloca(m, p):
    """local variable whose address is used as a script-value pointer or that is stored a script value"""
    if not (p.kind == "inst" and p.op == "alloca" and p.alloc_ty == ("int", 64)): return False
    c = p.fn._cache.setdefault("valal", {})
    if p in c: return c[p]
    r = False
    for i in p.fn.insts():
        if i.op == "call" and i.callee.kind == "fn":
            for k, o in enumerate(i.ops):
                if strip_ptr(o) is p:
                    s = m.sig(i.callee.name)
                    if s and k + 1 < len(s) and s[k + 1] == VT + "*": r = True
    c[p] = r
    return r

def out_param(m, fn, k, depth=0):
    """callee only ever stores through parameter k"""
    if not fn.defined: return False
    a = fn.args[k]
    for i in fn.insts():
        for j, o in enumerate(i.ops):
            if o is not a: continue
            if i.op == "store" and j == 1: continue
            if i.op == "icmp": continue
            if i.op == "call" and i.callee.kind == "fn" and depth < 4 and j < len(i.callee.args) and out_param(m, i.callee, j, depth + 1): continue
            return False
    return True

def live_after(f, call):
    from sym import Explorer as E
    e = E.__new__(E); e.fn = f; e._live()
    b = call.bb; k = b.insts.index(call)
    after = set()
    for s in b.succs:
        after |= e.live[s]
        for ph in s.phis():
            for v, pb in zip(ph.ops, ph.phi_bbs):
                if pb is b and v.kind == "inst": after.add(v)
    for j in b.insts[k + 1:]:
        if j.op == "phi": continue
        for o in j.ops:
            if o.kind in ("inst", "arg"): after.add(o)
        if j.op == "call" and j.callee.kind == "inst": after.add(j.callee)
    defs = set(b.insts[k:])
    # arguments are not in block liveness: any later use counts
    from flow import reach_from
    rb = reach_from(b)
    for bb in rb:
        for j in bb.insts:
            for o in j.ops:
                if o.kind == "arg": after.add(o)
    return {x for x in after if x not in defs}

def tested_safe(f, v, bb, pred=None):
    """block bb (entered from pred) is only reached after v was tested to be of a kind that neither moves nor is freed early"""
    for i in f.calls(*SAFE_TESTS):
        if i.ops[0] is v:
            for b in f.bbs:
                t = b.term
                if t.op == "br" and t.ops and t.ops[0].kind == "inst" and derives(t.ops[0], i):
                    for s in b.succs:
                        if not polarity(t.ops[0], i, b.succs[0] is s): continue
                        if len(s.preds) == 1 and dominates(s, bb) or pred is b and s is bb: return True
    return False

def is_predicate(m, i):
    if i.op != "call" or i.callee.kind != "fn": return False
    s = m.sig(i.callee.name)
    return i.callee.name.startswith("mjs_is_") and bool(s) and s[0] in ("int", "bool", "_Bool")

def derives(c, i):
    return c is i or c.kind == "inst" and c.op in ("icmp", "xor", "zext", "trunc") and any(derives(o, i) for o in c.ops if o.kind == "inst")

def polarity(c, i, taken):
    if c is i: return taken
    if c.op == "icmp" and c.ops[1].kind == "const" and c.ops[1].val == 0:
        return polarity(c.ops[0], i, taken == (c.pred == "ne"))
    if c.op == "xor": return polarity(c.ops[0], i, not taken)
    if c.op in ("zext", "trunc"): return polarity(c.ops[0], i, taken)
    return False

def collectors(ctx, m):
    cg = ctx.cg(m)
    gcr = {f for f in m.fns.values() if cg.reaches(f, {"mjs_gc"})}
    def can(i):
        if i.op != "call": return False
        ts = cg.targets(i)
        if ts: return any(t in gcr for t in ts)
        c = strip_ptr(i.callee)
        if c.kind == "fn": return False
        # unresolved function pointer that is handed the engine
        return any(takes_engine(m, i.fn, o) for o in i.ops)
    return gcr, can

def takes_engine(m, f, o):
    o = strip_ptr(o)
    if o.kind == "arg":
        s = m.sig(f.name)
        return bool(s) and o in f.args and f.args.index(o) + 1 < len(s) and s[f.args.index(o) + 1] == "struct.mjs*"
    if o.kind == "inst" and o.op == "load":
        c = acc_class(m, o)
        return bool(c) and c.endswith(".mjs")
    return False

class Own(Rule):
    """typestate: (owned locs, disowned locs)"""
    def __init__(self, m, chk): self.m = m; self.c = chk
    def init(self, ex): return (frozenset(), frozenset())
    def ts_syms(self, ts): return [l[0] for l in ts[0] | ts[1]]
    def subst_ts(self, ts, a, b):
        from sym import subst
        return tuple(frozenset((subst(l[0], a, b), l[1]) for l in s) for s in ts)
    def call(self, ex, st, i, args):
        n = i.callee.name if i.callee.kind == "fn" else None
        own, dis = st.ts
        if n in ("abort", "__assert_fail", "exit"): return []
        if n == "mjs_own" and args[1] != U:
            l = ex.loc(args[1])
            if l in own: ex.report(i, "an address is registered with the collector twice", st)
            st.ts = (own | {l}, dis - {l}); return [(st, None)]
        if n == "mjs_disown" and args[1] != U:
            l = ex.loc(args[1])
            st.ts = (own - {l}, dis | {l}); return [(st, None)]
        if n in ("free", "realloc") and args[0] != U:
            b = ex.loc(args[0])
            for l in own:
                if l[0] == b[0]: ex.report(i, "storage is released while an address in it is still registered with the collector", st)
            sty = self.c.struct_of(i.fn, i.ops[0])
            if sty in self.c.heap:
                for off in self.c.heap[sty]:
                    if (b[0], b[1] + off) not in dis and not self.fresh_unowned(ex, st, args[0]):
                        ex.report(i, "a %s is freed without its registered value having been unregistered" % sty.replace("struct.", ""), st)
        if i in self.c.gcsites:
            for a in self.c.livealloc.get(i, ()):
                if (("al", a), 0) in own: continue
                cur = st.mem.get((("al", a), 0))
                if cur is not None and isinstance(cur[0], int) and (cur[0] >> 48) in self.c.immediate: continue
                ex.report(i, "local script value '%s' is used after a call that can collect, without being registered" % (a.name or "?"), st)
        return None
    def fresh_unowned(self, ex, st, t):
        return isinstance(t, tuple) and t[0] == "v" and t[1].kind == "inst" and t[1].op == "call" and t[1].callee.kind == "fn" \
            and t[1].callee.name in ("malloc", "calloc")
    def ret(self, ex, st, i, val):
        for l in st.ts[0]:
            if isinstance(l[0], tuple) and l[0][0] == "al":
                ex.report(i, "the function can return while the address of its local '%s' is still registered with the collector" % (l[0][1].name or "?"), st)
    def clobbers(self, ex, i, cls): return True

def check(ctx, R):
    m = ctx.api(); cg = ctx.cg(m)
    need("mjs_gc" in m.fns and m.fns["mjs_gc"].defined, "mjs_gc not found")
    from tags import Tags
    T = Tags()
    gcr, can = collectors(ctx, m)
    need(len(gcr) > 5, "no functions reach the collector")
    class C: pass
    c = C()
    c.immediate = {T.t["UNDEFINED"] >> 48, T.t["NULL"] >> 48, T.t["BOOLEAN"] >> 48}
    c.gcsites = set(); c.livealloc = {}; c.heap = {}
    def struct_of(f, p):
        p = strip_ptr(p)
        for i in f.insts():
            for o in [i] + list(i.ops):
                if o.kind in ("inst", "cexpr") and o.op == "gep" and strip_ptr(o.ops[0]) is p and o.gep_ty[0] == "struct" and o.gep_ty[1]:
                    return o.gep_ty[1]
        if p.kind == "inst" and p.op in ("load", "phi"):
            for i in f.insts():
                if i.op == "load" and p.op == "load" and i is not p and acc_class(m, i) == acc_class(m, p) and acc_class(m, p):
                    for j in f.insts():
                        if j.op == "gep" and strip_ptr(j.ops[0]) is i and j.gep_ty[0] == "struct": return j.gep_ty[1]
        return None
    c.struct_of = struct_of
    owners = []
    for f in m.fns.values():
        if not f.defined: continue
        oc = list(f.calls("mjs_own", "mjs_disown"))
        if oc: owners.append(f)
        for i in oc:
            if i.callee.name != "mjs_own": continue
            p = strip_ptr(i.ops[1])
            if p.kind == "inst" and p.op in ("call", "load", "phi"):
                sty = struct_of(f, p)
                if sty: c.heap.setdefault(sty, set()).add(0)
            if p.kind == "inst" and p.op == "gep" and p.gep_ty[0] == "struct" and p.gep_ty[1] != "struct.mjs":
                off, _ = gep_offset(m, p)
                base = strip_ptr(p.ops[0])
                if off is not None and not (base.kind == "inst" and base.op == "alloca"):
                    c.heap.setdefault(p.gep_ty[1], set()).add(off)
    nsites = 0
    explore = set(owners)
    for f in sorted(m.fns.values(), key=lambda f: f.name):
        if not f.defined: continue
        sites = [i for i in f.insts() if can(i)]
        if not sites: continue
        R.saw(f)
        vals = value_origins(m, f)
        valal = [i for i in f.insts() if is_value_alloca(m, i)]
        for i in sites:
            nsites += 1
            la = live_after(f, i)
            for v in sorted((x for x in la if x in vals), key=repr):
                if v.kind == "inst" and v.op == "call" and v.callee.kind == "fn" and v.callee.name in ("mjs_mk_number", "mjs_mk_boolean", "mjs_mk_foreign", "mjs_mk_undefined", "mjs_mk_null"): continue
                if tested_safe(f, v, i.bb): continue
                if not only_reaches_uses(f, v, i): continue
                callee = i.callee.name if i.callee.kind == "fn" else "a function pointer"
                R.bad("stale:%s:%s:%s" % (f.name, callee, origin(v)), i.where(),
                      "%s keeps a script value (%s) in a native variable across the call to %s, which can run the collector; the value is used afterwards but is not registered" % (f.name, origin(v), callee),
                      ["used after the call: %s" % u for u in uses_after(f, v, i)[:3]])
            for a in valal:
                if alloca_live(m, f, a, i):
                    c.livealloc.setdefault(i, []).append(a); explore.add(f)
            c.gcsites.add(i)
    R.ok("%d call sites that can collect" % nsites); R.count("gc call sites", nsites)
    for f in sorted(explore, key=lambda f: f.name):
        R.saw(f)
        ex = Explorer(m, f, Own(m, c), cg).run()
        R.count("states", ex.visited_states)
        for inst, msg, trail in ex.reports:
            R.bad("%s:%s" % (f.name, msg), inst.where(), msg + " (in %s)" % f.name, trail)
        R.ok("registrations balanced in %s" % f.name)
    need("mjs_own" in m.fns and "mjs_disown" in m.fns, "mjs_own/mjs_disown not found")
    check_pair(ctx, R, m)

def origin(v):
    if v.kind == "arg": return "parameter %s" % v.name
    if v.op == "call": return "result of %s" % (v.callee.name if v.callee.kind == "fn" else "call")
    if v.op == "load":
        c = acc_class(v.fn.mod, v) if v.fn.mod else None
        return "copy of %s" % (c or "a value")
    return "local value"

def succs_from(b, pred):
    """successors of b when entered from pred, deciding branches on phis of constants (structured-cleanup flags)"""
    t = b.term
    if pred is None or not t.ops or t.op not in ("br", "switch"): return b.succs
    def const_of(v, d=0):
        if v.kind == "const": return v.val
        if v.kind != "inst" or v.bb is not b or d > 3: return None
        if v.op == "phi":
            for o, pb in zip(v.ops, v.phi_bbs):
                if pb is pred: return o.val if o.kind == "const" else None
        if v.op == "icmp" and v.pred in ("eq", "ne"):
            x, y = const_of(v.ops[0], d + 1), const_of(v.ops[1], d + 1)
            if x is None or y is None: return None
            return int((x == y) == (v.pred == "eq"))
        return None
    c = const_of(t.ops[0])
    if c is None: return b.succs
    if t.op == "br": return [b.succs[0] if c & 1 else b.succs[1]]
    for cv, tgt in t.cases:
        if cv == c: return [tgt]
    return [t.default]

def uses_after(f, v, call):
    """real (non-phi) uses of the value, followed through phis, on some path after the call"""
    out = []; seen = set()
    work = [(v, call.bb, None, call.bb.insts.index(call) + 1)]
    while work:
        n, b, pred, k = work.pop()
        dead = False
        for i in b.insts[k:]:
            if i.op == "phi": continue
            if i is n: dead = True; break
            if any(o is n for o in i.ops) and not is_predicate(f.mod, i) and not tested_safe(f, n, b, pred): out.append(i.where())
        if dead: continue
        for s in succs_from(b, pred):
            names = [] if n.kind == "inst" and n.op == "phi" and n.bb is s else [n]
            for ph in s.phis():
                for o, pb in zip(ph.ops, ph.phi_bbs):
                    if pb is b and o is n and ph not in names and not tested_safe(f, n, b) and not tested_safe(f, n, s, b): names.append(ph)
            for x in names:
                key = (x, s, b)
                if key not in seen:
                    seen.add(key); work.append((x, s, b, 0))
    return out

def only_reaches_uses(f, v, call):
    return bool(uses_after(f, v, call))

def alloca_live(m, f, a, call):
    """some read of local a is reachable after `call` without a full overwrite in between"""
    def eff(i):
        if i.op == "load" and strip_ptr(i.ops[0]) is a: return "r"
        if i.op == "store" and strip_ptr(i.ops[1]) is a: return "w"
        if i.op == "call":
            if i.callee.kind == "fn" and i.callee.name.startswith("llvm.lifetime"): return "w"
            for k, o in enumerate(i.ops):
                if strip_ptr(o) is a:
                    if i.callee.kind == "fn" and i.callee.name in ("mjs_own", "mjs_disown"): return None
                    if i.callee.kind == "fn" and k < len(i.callee.args) and out_param(m, i.callee, k): return "w"
                    return "r"
        return None
    if eff(call) == "w": return False
    seen = set(); work = [(call.bb, call.bb.insts.index(call) + 1)]
    while work:
        b, k = work.pop()
        stop = False
        for i in b.insts[k:]:
            e = eff(i)
            if e == "r": return True
            if e == "w": stop = True; break
        if stop: continue
        for s in b.succs:
            if s not in seen: seen.add(s); work.append((s, 0))
    return False

class Dis(Rule):
    """mjs_disown: the entry that is removed is the one that was asked for"""
    def __init__(self, fn): self.v = ("v", fn.args[1])
    def init(self, ex): return (None, frozenset())
    def track(self, cls): return False
    def store(self, ex, st, i, addr, cls, val):
        slot, ev = st.ts
        if cls == "mjs.owned_values.len":
            st.ts = (slot, ev | {"shrink"})
        elif i.ops[0].ty == ("ptr",): st.ts = (slot, ev | {"slot"})
    def call(self, ex, st, i, args):
        n = i.callee.name if i.callee.kind == "fn" else ""
        slot, ev = st.ts
        if n.startswith(("memmove", "llvm.memmove", "llvm.memcpy", "mbuf_remove", "memcpy")):
            st.ts = (slot, ev | {"slot"} | ({"shrink"} if n == "mbuf_remove" else set()))
        return None
    def edge(self, ex, st, frm, to):
        if any(p == "eq" and self.v in (a, b) for p, a, b in st.rel): st.ts = (st.ts[0], st.ts[1] | {"eq"})
        return True
    def ret(self, ex, st, i, val):
        slot, ev = st.ts
        eq = "eq" in ev or any(p == "eq" and self.v in (a, b) for p, a, b in st.rel)
        if "shrink" in ev:
            if "slot" not in ev: ex.report(i, "unregistering drops the last registered address instead of the requested one", st)
            elif not eq and not ex.decide(st, "eq", self.v, 0, 64): ex.report(i, "unregistering removes an entry that was not compared equal to the requested address", st)
        elif eq: ex.report(i, "unregistering can find the address and leave it registered", st)

def check_pair(ctx, R, m):
    f = m.fns["mjs_own"]
    if f.defined:
        app = [i for i in f.calls("mbuf_append", "mbuf_insert")]
        R.saw(f)
        if app:
            pass_all = all(any(dominates(a.bb, r.bb) for a in app) for r in f.rets())
            if not pass_all: R.bad("own-skip", app[0].where(), "registering an address can be skipped on some path of mjs_own")
            else: R.ok("mjs_own always appends")
        else: R.undecided("mjs_own shape")
    f = m.fns["mjs_disown"]
    if f.defined:
        R.saw(f)
        ex = Explorer(m, f, Dis(f)).run()
        for inst, msg, trail in ex.reports: R.bad("disown:%s" % msg, inst.where(), msg, trail)
        R.ok("mjs_disown removes the requested entry")
