"""Collector: roots, tracing, sweeping."""
from fractions import Fraction as Fr
from ctx import need
from flow import (strip_ptr, apath, acc_path, acc_class, loop_headers, natural_loop, dominates, gep_offset, reach_from)
from lin import lin, add, scale
from sym import Rule, Explorer, State
from tags import Tags

RULE = ("mjs_gc with its whole call tree inlined: every store of script values in the engine state (value fields, value "
        "stacks, pointer table, callback list) is handed to the tracer over its full extent on every path before the first "
        "sweep/compaction store; tracer evaluated per value kind; sweeper evaluated per cell state")
EXPLANATION = ("Abstract interpretation of mjs_gc/gc_mark/gc_sweep on LLVM IR. Roots are derived from the debug info of struct mjs "
               "and from the code that pushes values; loops are matched by affine start/step/bound forms; conditional marking is "
               "explored path-sensitively with the element's kind fixed to each pointer-carrying kind.")
ASSUMPTIONS = ["values held only in C locals are the subject of G02, not of this rule",
               "loops whose bounds are not affine in the buffer's own length are reported as undecided, not judged"]
CONFIGS_THOROUGH = ["default", "aggressive_gc", "nodebug"]

HEAPKINDS = ("object", "array", "function_ffi", "string_o")

def value_fields(m, sname):
    """[(offset, path)] of the mjs_val_t fields (nested structs included) of a struct."""
    out = []
    def rec(fl, base, pre):
        for off in sorted(fl):
            for bit, nm, sz, bt, bf in fl[off]:
                td = m.type_desc(bt)
                if td == "mjs_val_t": out.append((base + off, pre + nm))
                elif td.startswith("struct."):
                    sub = m.basetype_struct(bt)
                    if sub: rec(m.fields[sub], base + off, pre + nm + ".")
    rec(m.fields[sname], 0, "")
    return out

def mjs_bufs(m):
    """{offset: name} of the mbuf fields of struct mjs; {offset: name} of arenas"""
    b, a = {}, {}
    for off, nm, td, bit, sz, bf in m.struct_fields("struct.mjs"):
        if td == "struct.mbuf": b[off] = nm
        elif td == "struct.gc_arena": a[off] = nm
    return b, a

def derived_roots(ctx, R):
    """mbuf fields of struct mjs that receive script values other than plain numbers."""
    m = ctx.api(); cg = ctx.cg(m)
    bufs, _ = mjs_bufs(m)
    got = {}
    for f in m.fns.values():
        if not f.defined: continue
        for c in f.calls("push_mjs_val", "mjs_push", "mbuf_append", "mbuf_insert"):
            n = c.callee.name
            if n == "mjs_push": got.setdefault("stack", []).append(c); continue
            root, path = apath(m, c.ops[0])
            if len(path) != 1 or path[0] not in bufs.values(): continue
            v = strip_ptr(c.ops[1])
            if n == "push_mjs_val":
                if v.kind == "inst" and v.op == "call" and v.callee.kind == "fn" and v.callee.name == "mjs_mk_number": continue
                got.setdefault(path[0], []).append(c)
    need("stack" in got and "scopes" in got, "no value pushes found")
    gc_fns = {"mjs_gc", "maybe_gc"}
    out = {}
    for nm, calls in got.items():
        fns = {c.fn for c in calls}
        # exempt: nothing reachable from the pushing functions, nor from their callers' remaining work while the entries
        # live, can collect.
        if nm not in ("stack", "call_stack", "scopes", "arg_stack") and \
                not any(cg.reaches(f, gc_fns) for f in fns):
            R.ok("%s: never live across a collection (no collection reachable from its users)" % nm); continue
        out[nm] = calls
    return out

class MarkRule(Rule):
    """explores mjs_gc up to the first sweep store"""
    merge_cases = True
    def __init__(self, chk, kind_term, required):
        self.c = chk; self.kt = kind_term; self.req = required
    def track(self, cls): return cls.startswith("mjs.") or cls.startswith("mbuf.")
    def clobbers(self, ex, i, cls): return False
    def init(self, ex): return (frozenset(), frozenset())
    def load(self, ex, st, i, addr, cls, res):
        if i.ty == ("int", 64) and i in self.c.elemloads: return self.kt
        return None
    def call(self, ex, st, i, args):
        vis, it = st.ts
        if i in self.c.marks:
            st.ts = (vis, it | {i}) if i in self.c.loopof else (vis | {("m", i)}, it); return [(st, None)]
        n = i.callee.name if i.callee.kind == "fn" else ""
        if n in ("abort", "__assert_fail"): return []
        return None
    def edge(self, ex, st, frm, to):
        vis, it = st.ts
        H = self.c.loops.get(to)
        if H is not None:
            inside = frm in H["body"]
            if inside:
                for mk in H["marks"]:
                    if mk not in it and self.kt is not None:
                        ex.report(mk, "an iteration can skip tracing %s" % self.c.what(mk), st)
                it = it - set(H["marks"])
            vis = vis | {("l", to)}
            st.ts = (vis, it)
        for h, L in self.c.loops.items():
            if frm in L["body"] and to not in L["body"] and L["kind"] == "list":
                ok = False
                for t in (L["phi"], L["latch"]):
                    if ex.decide(st, "eq", ex.t(st, t), 0, 64) is True: ok = True
                if not ok: ex.report(frm.term, "the callback list walk can stop before the end of the list", st)
        if to in self.c.after:
            self.finish(ex, st, frm.term)
            return False
        return True
    def finish(self, ex, st, at):
        vis, _ = st.ts
        for r in self.req:
            mks = self.c.rootmarks.get(r, [])
            if not mks: continue     # reported structurally
            if any(("l", self.c.loopof.get(mk)) in vis or ("m", mk) in vis for mk in mks): continue
            base = r[0] if isinstance(r, tuple) else r
            off = self.c.bufoff[base] + ex.m.ptrsize if base in self.c.bufnames else self.c.cboff if base == "ffi_cb_args" else None
            if off is not None:
                # the path established that there is nothing to trace
                e = st.mem.get((("v", ex.fn.args[0]), off))
                if e is not None and ex.decide(st, "eq", e[0], 0, 64) is True: continue
            ex.report(at, "sweep/compaction can be reached without tracing %s" % (r,), st)

def loop_of(fn, inst):
    best = None
    for h in loop_headers(fn):
        body = natural_loop(fn, h)
        if inst.bb in body and (best is None or len(body) < len(best[1])): best = (h, body)
    return best

def check(ctx, R):
    T = Tags()
    api = ctx.api()
    need("mjs_gc" in api.fns and api.fns["mjs_gc"].defined, "mjs_gc not found")
    m = ctx.rooted(["mjs_gc"])
    fn = m.fns["mjs_gc"]
    R.saw("mjs_gc", *m.inlined_names)
    tracers = {f for f in m.fns.values() if f.defined and f is not fn and len(f.args) == 2}
    need(tracers, "no recursive tracer reachable from mjs_gc")
    class C: pass
    c = C()
    c.marks = [i for i in fn.insts() if i.op == "call" and i.callee in tracers]
    need(c.marks, "mjs_gc calls no tracer")
    bufs, arenas = mjs_bufs(m)
    c.bufnames = set(bufs.values()); c.bufoff = {n: o for o, n in bufs.items()}
    c.cboff = next((o for o, n, td, *_ in m.struct_fields("struct.mjs") if n == "ffi_cb_args"), None)
    c.loops = {}; c.loopof = {}; c.rootmarks = {}; c.elemloads = set()
    whatof = {}
    c.what = lambda mk: whatof.get(mk, "a root")
    ps = m.ptrsize; vs = 8
    mj = ("arg", fn.args[0].name)
    def bufatom(n, fld): return ("ld", fn.args[0].name, n, fld)
    # sweep / compaction stores: to <arena>.free, <arena>.blocks list, owned_strings.len
    sweeps = []
    arena_of = {}
    for i in fn.insts():
        if i.op != "store": continue
        root, path = acc_path(m, i)
        if root is fn.args[0] and len(path) == 2 and path[0] in arenas.values() and path[1] == "free":
            sweeps.append(i); arena_of.setdefault(path[0], []).append(i)
        elif root is fn.args[0] and path == ("owned_strings", "len"):
            sweeps.append(i); arena_of.setdefault("owned_strings", []).append(i)
    c.sweeps = set(sweeps)
    # --- classify every tracer call
    covered_fields = set()
    decided = {}
    for mk in c.marks:
        arg = strip_ptr(mk.ops[1])
        ind = 1
        addr = arg
        if arg.kind == "inst" and arg.op == "load":
            a0 = strip_ptr(arg.ops[0])
            ind = ps; addr = a0
        lo = loop_of(fn, mk)
        form = lin(m, addr)
        ivs = [k[1] for k in form if isinstance(k, tuple) and k[0] == "i" and k[1].op == "phi" and lo and k[1].bb is lo[0]]
        if not ivs:
            # single cell
            if form.get(mj) == 1 and set(form) <= {mj, 1}:
                covered_fields.add(int(form.get(1, 0)))
                c.rootmarks.setdefault("@%d" % int(form.get(1, 0)), []).append(mk)
                whatof[mk] = "field at +%d" % int(form.get(1, 0))
                continue
            R.undecided("tracer call at %s: address form not recognised" % mk.where()); continue
        phi = ivs[0]
        h, body = lo
        L = c.loops.setdefault(h, {"body": body, "marks": [], "kind": "array", "phi": phi, "latch": None})
        init = latch = None
        for v, b in zip(phi.ops, phi.phi_bbs):
            if b in body: latch = v
            else: init = v
        L["latch"] = latch
        c.loopof[mk] = h
        L["marks"].append(mk)
        for i in [x for b in body for x in b.insts]:
            if i.op == "load" and i.ty == ("int", 64):
                fa = lin(m, i.ops[0])
                if add(fa, form, -1) == {} or (ind != 1 and add(lin(m, i.ops[0]), {("?",): 1}) and strip_ptr(i.ops[0]) is arg):
                    c.elemloads.add(i)
        lf = strip_ptr(latch)
        if lf.kind == "inst" and lf.op == "load" and (acc_class(m, lf) or "").endswith(".next") or \
                (lf.kind == "inst" and lf.op == "load" and strip_ptr(lf.ops[0]) is phi):
            # list
            initf = lin(m, init)
            L["kind"] = "list"
            if len(initf) == 1:
                at = next(iter(initf))
                if isinstance(at, tuple) and at[0] == "ld" and at[1] == fn.args[0].name and len(at) == 3:
                    off = int(form.get(1, 0))
                    c.rootmarks.setdefault(at[2], []).append(mk)
                    c.rootmarks.setdefault((at[2], off), []).append(mk)
                    whatof[mk] = "field +%d of every %s entry" % (off, at[2])
                    R.ok("%s list walk starts at its head and follows next (field +%d)" % (at[2], off))
                    continue
            R.undecided("list walk at %s starts at an unrecognised head" % mk.where()); continue
        # array
        A = form
        Ai = lin(m, addr, {phi: lin(m, init)})
        An = lin(m, addr, {phi: lin(m, latch)})
        step = add(An, A, -1)
        names = {k[2] for f in (Ai,) for k in f if isinstance(k, tuple) and k[0] == "ld" and len(k) == 4 and k[1] == fn.args[0].name}
        name = next(iter(names)) if len(names) == 1 else None
        isfield = Ai.get(mj) == 1
        if name is None and not isfield:
            R.undecided("array walk at %s over an unrecognised buffer" % mk.where()); continue
        whatof[mk] = "every slot of %s" % name if name else "value fields"
        if name: c.rootmarks.setdefault(name, []).append(mk)
        # exit tests
        tests = [b.term for b in body if b.term.op == "br" and b.term.ops and any(s not in body for s in b.succs)]
        if len(tests) != 1:
            R.undecided("array walk of %s has %d exits" % (name, len(tests)))
            continue
        t = tests[0]; cond = t.ops[0]
        if not (cond.kind == "inst" and cond.op == "icmp"):
            R.undecided("array walk of %s: exit test shape" % name); continue
        stay_true = t.bb.succs[0] in body
        from ir import NEG
        pred = cond.pred if stay_true else NEG[cond.pred]
        D = add(lin(m, cond.ops[0]), lin(m, cond.ops[1]), -1)
        at = ("i", phi)
        if at not in D or set(step) - {1}:
            R.undecided("array walk of %s: exit test not on the cursor" % name); continue
        k = A[at] / D[at]
        if k < 0:
            from ir import SWAP
            pred = SWAP[pred]
        E = add(A, scale(D, k), -1)          # address at which the test flips
        p = pred[-2:]
        st = step.get(1, Fr(0))
        size = vs if ind == 1 else ps
        if abs(st) != size:
            if abs(st) > size: R.bad("walk-stride:%s" % name, mk.where(), "the walk over %s advances by %s bytes, elements are %d bytes: elements are skipped" % (name or "value fields", st, size))
            else: R.undecided("walk stride over %s" % name)
            continue
        top = t.bb is h
        # set of addresses visited: [lo, hi] inclusive forms
        if st > 0:
            first = Ai
            if p in ("lt", "ne"): last = add(E, {1: Fr(-size)})
            elif p == "le": last = E
            else: R.undecided("walk over %s: test" % name); continue
            if not top: last = add(last, {1: Fr(size)})
            lo_, hi_ = first, last
        else:
            if p in ("gt", "ne"): last = add(E, {1: Fr(size)})
            elif p == "ge": last = E
            else: R.undecided("walk over %s: test" % name); continue
            if not top: last = add(last, {1: Fr(-size)})
            lo_, hi_ = last, Ai
        if isfield:
            if set(lo_) <= {mj, 1} and set(hi_) <= {mj, 1}:
                a, b = int(lo_.get(1, 0)), int(hi_.get(1, 0))
                for o in range(a, b + 1, vs): covered_fields.add(o); c.rootmarks.setdefault("@%d" % o, []).append(mk)
            else: R.undecided("value-field walk bounds")
            continue
        wl = {bufatom(name, "buf"): Fr(1)}
        wh = add(add(wl, {bufatom(name, "len"): Fr(1)}), {1: Fr(-size)})
        atoms = {k for f in (lo_, hi_) for k in f}
        if not atoms <= {bufatom(name, "buf"), bufatom(name, "len"), 1}:
            other = [k for k in atoms if isinstance(k, tuple) and k[0] == "ld" and k[1] == fn.args[0].name and k[2] != name]
            if other:
                R.bad("walk-bound:%s" % name, mk.where(), "the walk over %s is bounded by another buffer's field (%s)" % (name, ".".join(map(str, other[0][2:]))))
            else: R.undecided("walk over %s: bounds not affine in its own length" % name)
            continue
        dlo = add(lo_, wl, -1); dhi = add(hi_, wh, -1)
        good = True
        if dlo != {}:
            good = False
            if set(dlo) == {1} and dlo[1] > 0 or set(dlo) - {1}:
                R.bad("walk-start:%s" % name, mk.where(), "the walk over %s does not start at its first element (off by %s)" % (name, dlo))
            else: R.undecided("walk start of %s" % name)
        if dhi != {}:
            good = False
            if set(dhi) == {1} and dhi[1] < 0 or set(dhi) - {1}:
                R.bad("walk-end:%s" % name, mk.where(), "the walk over %s does not reach its last element (off by %s)" % (name, {str(k): str(x) for k, x in dhi.items()}))
            else: R.undecided("walk end of %s" % name)
        if good: R.ok("%s is traced from its first to its last element" % name)
    # --- required roots
    req = []
    unclass = [mk for mk in c.marks if not any(mk in v for v in c.rootmarks.values())]
    def missing(key, where, msg):
        if unclass: R.undecided(msg + " - but a tracer call at %s was not classified" % unclass[0].where())
        else: R.bad(key, where, msg)
    dr = derived_roots(ctx, R)
    for name, calls in sorted(dr.items()):
        req.append(name)
        if c.rootmarks.get(name): R.ok("root %s is traced" % name)
        else:
            missing("root-missing:%s" % name, fn.file + ":%d" % fn.line,
                  "script values are pushed on mjs->%s (e.g. %s in %s) but the collector never traces it" % (name, calls[0].where(), calls[0].fn.name))
    for name, fields in (("owned_values", None),):
        req.append(name)
        if c.rootmarks.get(name): R.ok("root %s is traced" % name)
        else: missing("root-missing:%s" % name, "%s:%d" % (fn.file, fn.line), "values owned by the embedder (mjs_own) are never traced")
    for off, path in value_fields(m, "struct.mjs"):
        if off in covered_fields: R.ok("value field %s is traced" % path); req.append("@%d" % off)
        else: missing("root-missing:%s" % path, "%s:%d" % (fn.file, fn.line), "value field %s of the engine state is never traced" % path)
    if c.cboff is not None and "struct.mjs_ffi_cb_args" in m.fields:
        req.append("ffi_cb_args")
        for off, path in value_fields(m, "struct.mjs_ffi_cb_args"):
            if c.rootmarks.get(("ffi_cb_args", off)): R.ok("callback field %s is traced" % path); req.append(("ffi_cb_args", off))
            else: missing("root-missing:ffi_cb_args.%s" % path, "%s:%d" % (fn.file, fn.line), "registered callback field %s is never traced" % path)
    # --- paths
    need(sweeps, "no sweep found in mjs_gc")
    mb = {mk.bb for mk in c.marks}
    c.after = {b for b in fn.bbs if b not in mb and not (reach_from(b) & mb)}
    runs = [(None, None)] + [(k, T.kinds[k]) for k in HEAPKINDS]
    for k, kt in runs:
        rule = MarkRule(c, kt, req)
        ex = Explorer(m, fn, rule).run()
        R.count("states", ex.visited_states)
        for inst, msg, trail in ex.reports:
            R.bad("mark-path:%s" % msg, inst.where(), msg + (" (element kind %s)" % k if k else ""), trail)
    # no tracing after sweeping starts
    for s in sweeps:
        r = reach_from(s.bb)
        for mk in c.marks:
            if mk.bb in r or (mk.bb is s.bb and mk.idx > s.idx):
                R.bad("mark-after-sweep:%s" % c.what(mk), mk.where(), "%s is traced after sweeping or compaction has begun (%s)" % (c.what(mk), s.where()))
    # every arena swept on every path
    for name in list(arenas.values()) + ["owned_strings"]:
        ss = arena_of.get(name, [])
        anysweep = [i for i in fn.insts() if i.op == "store" and acc_class(m, i) in ("gc_arena.free", "mbuf.len") and i not in c.sweeps]
        if not ss and anysweep:
            R.undecided("%s: a sweep store through an unresolved arena pointer (%s)" % (name, anysweep[0].where())); continue
        if not ss:
            R.bad("not-swept:%s" % name, "%s:%d" % (fn.file, fn.line), "%s is never swept: stale marks survive and hide live data from the next trace" % name); continue
        avoid = {s.bb for s in ss}
        if fn.entry in avoid: R.ok("%s swept on every path" % name); continue
        seen = reach_from(fn.entry, avoid) | {fn.entry}
        if any(b.term.op == "ret" for b in seen):
            # loops around the stores (per-cell stores) are entered conditionally: accept if some store dominates every ret
            R.bad("not-swept:%s" % name, ss[0].where(), "a collection can finish without sweeping %s" % name)
        else: R.ok("%s swept on every path" % name)
    check_tracer(ctx, R, T, tracers)
    check_sweeper(ctx, R)

# ---------------------------------------------------------------- tracer
class TraceRule(Rule):
    def __init__(self, m, fn, vterm, pterm, propfields, tracers):
        self.m = m; self.fn = fn; self.vt = vterm; self.pt = pterm; self.pf = propfields; self.tr = tracers
        self.loops = {}
        for h in loop_headers(fn):
            body = natural_loop(fn, h)
            for ph in h.phis():
                for v, b in zip(ph.ops, ph.phi_bbs):
                    v = strip_ptr(v)
                    if b in body and v.kind == "inst" and v.op == "load" and acc_class(m, v) == "mjs_property.next":
                        self.loops[h] = (ph, v, body)
    def track_loc(self, lc): return lc == (("v", self.fn.args[1]), 0)
    def init(self, ex): return frozenset()
    def call(self, ex, st, i, args):
        n = i.callee.name if i.callee.kind == "fn" else ""
        if n in ("abort", "__assert_fail"): return []
        if i.callee in self.tr:
            a = args[1]
            b, o = ex.loc(a)
            st.ts = st.ts | {("rec", o)}
            # recursive tracing does not change which kind our own slot has, except strings; keep it
            return [(st, None)]
        return None
    def load(self, ex, st, i, addr, cls, res):
        if cls in ("mjs_property.name", "mjs_property.value") and i.ty == ("int", 64): return self.pt
        if ex.loc(addr) == (("pl", self.vt), 0) and i.ty[0] == "int": return ("word",)
        return None
    def store(self, ex, st, i, addr, cls, val):
        b, o = ex.loc(addr)
        ev = None
        if b == ("pl", self.vt) and o == 0:
            if isinstance(val, tuple) and val[0] == "|" and val[2] & 1: ev = "cellmark"
        elif addr == ("v", self.fn.args[1]): ev = "slotwrite"
        elif val == 1 and i.ops[0].ty == ("int", 8): ev = "bytemark"
        else:
            for h, (ph, nx, body) in self.loops.items():
                if i.bb in body and isinstance(val, tuple) and val[0] == "|" and val[2] & 1: ev = "propmark"
        if ev is None: ev = "store"
        st.ts = st.ts | {ev}
    def inst(self, ex, st, i): pass
    def edge(self, ex, st, frm, to):
        if to in self.loops:
            ph, nx, body = self.loops[to]
            if frm in body:
                for off, nm in self.pf:
                    if ("rec", off) not in st.ts:
                        ex.report(frm.term, "tracing an object can skip the %s of a property" % nm, st)
                if "propmark" not in st.ts:
                    ex.report(frm.term, "tracing an object can leave a property cell unmarked", st)
                st.ts = frozenset(e for e in st.ts if not (isinstance(e, tuple) and e[0] == "rec") and e != "propmark")
            st.ts = st.ts | {"walk"}
        for h, (ph, nx, body) in self.loops.items():
            if frm in body and to not in body and to.term.op != "unreachable":
                ok = any(ex.decide(st, "eq", ex.t(st, t), 0, 64) is True for t in (ph, nx))
                if not ok and not self.dead(to):
                    ex.report(frm.term, "tracing an object can stop before its last property", st)
        return True
    def dead(self, bb):
        seen = reach_from(bb) | {bb}
        return not any(b.term.op == "ret" for b in seen)
    def ret(self, ex, st, i, val):
        self.ends.append((st.ts, st, i))

def check_tracer(ctx, R, T, tracers):
    names = sorted(t.name for t in tracers)
    # entry = the one mjs_gc calls; inline the rest of the cycle into it
    api = ctx.api()
    m0 = ctx.rooted(["mjs_gc"])
    entries = sorted({i.callee.name for i in m0.fns["mjs_gc"].insts() if i.op == "call" and i.callee.kind == "fn" and i.callee.name in names})
    for en in entries:
        m = ctx._mk(("tracer", en), roots=(en,), keep_fn=lambda n, r, a, l: n == en)
        f = m.fns[en]
        if not f.defined: continue
        R.saw(en, *names)
        pf = value_fields(m, "struct.mjs_property")
        need(len(pf) >= 2, "mjs_property value fields")
        for kind in T.kinds:
            vt = T.with_id(kind, "v")
            for pk in (HEAPKINDS if kind in ("object", "array") else ("object",)):
                rule = TraceRule(m, f, vt, T.with_id(pk, "p"), pf, {f})
                rule.ends = []
                ex = Explorer(m, f, rule)
                st = State(); st.ts = frozenset()
                st.mem[(("v", f.args[1]), 0)] = (vt, "")
                ex.run(st)
                R.count("states", ex.visited_states)
                for inst, msg, trail in ex.reports:
                    R.bad("tracer:%s" % msg, inst.where(), msg + " (object kind %s, property kind %s)" % (kind, pk), trail)
                if kind in HEAPKINDS and not rule.ends:
                    R.bad("tracer-abort:%s" % kind, "%s:%d" % (f.file, f.line), "the tracer aborts on every path for a %s value" % kind)
                for ts, s, i in rule.ends:
                    if kind in ("object", "array"):
                        if "cellmark" in ts and "walk" in ts: continue
                        if already_marked(ex, s, vt): continue
                        if "cellmark" not in ts:
                            R.bad("tracer-nomark:%s" % kind, i.where(), "a reachable %s can be left unmarked" % kind, ex.trail(s))
                        elif rule.loops:
                            R.bad("tracer-nowalk:%s" % kind, i.where(), "a reachable %s is marked without its properties being visited" % kind, ex.trail(s))
                        else: R.undecided("property walk shape in %s" % en)
                    elif kind == "function_ffi":
                        if "cellmark" not in ts and not already_marked(ex, s, vt):
                            R.bad("tracer-nomark:%s" % kind, i.where(), "a reachable FFI function's signature cell can be left unmarked", ex.trail(s))
                    elif kind == "string_o":
                        if not {"bytemark"} <= ts:
                            R.bad("tracer-nomark:%s" % kind, i.where(), "a reachable owned string can be left unmarked", ex.trail(s))
                    else:
                        if ts & {"cellmark", "bytemark", "slotwrite", "store"}:
                            R.bad("tracer-wild:%s" % kind, i.where(), "the tracer writes through the payload of a %s value" % kind, ex.trail(s))
            R.ok("tracer handles %s" % kind)

def already_marked(ex, st, vt):
    """the path established that the cell's mark bit was already set"""
    return ex.decide(st, "ne", ("&", ("word",), 1), 0, 64) is True

# ---------------------------------------------------------------- sweeper
class SweepRule(Rule):
    """One cell: path facts on the mark word decide what may be done to it."""
    def __init__(self, m, fn, hdr, body, cell):
        self.m = m; self.fn = fn; self.h = hdr; self.body = body; self.cell = cell
    def init(self, ex): return None
    def state(self, ex, st):
        return st.ts or frozenset()
    def bit(self, ex, st, t, bit):
        d = ex.decide(st, "ne", ("&", t, bit), 0, 64)
        return d

def check_sweeper(ctx, R):
    m = ctx._mk("sweeper", roots=("gc_sweep",), keep_fn=lambda n, r, a, l: False) if "gc_sweep" in ctx.api().fns else None
    if m is None or not m.fns["gc_sweep"].defined:
        R.undecided("gc_sweep not found as a function"); return
    f = m.fns["gc_sweep"]
    R.saw("gc_sweep")
    # cells: pointer phi advanced by a load of arena.cell_size
    cand = []
    for h in loop_headers(f):
        body = natural_loop(f, h)
        for ph in h.phis():
            if ph.ty != ("ptr",): continue
            for v, b in zip(ph.ops, ph.phi_bbs):
                v = strip_ptr(v)
                if b in body and v.kind == "inst" and v.op == "gep":
                    l = lin(m, v)
                    if l.get(("i", ph)) == 1 and any(isinstance(k, tuple) and k[0] == "ld" and k[-1] == "cell_size" for k in l):
                        cand.append((h, body, ph))
    if not cand:
        R.undecided("sweep loop shape"); return
    for h, body, ph in cand:
        # enumerate acyclic paths through the body with decisions on (word & bit)
        class Sw(Rule):
            def init(s, ex): return (None, None, frozenset())
            def load(s, ex, st, i, addr, cls, res):
                if i.bb in body and ex.loc(addr) == ex.loc(ex.t(st, ph)) and i.ty[0] in ("int", "ptr"):
                    if i.ty == ("int", 64) or i.ty == ("int", 32): return ("word",)
            def store(s, ex, st, i, addr, cls, val):
                if i.bb not in body: return
                mk, fr, ev = st.ts
                if ex.loc(addr) == ex.loc(ex.t(st, ph)):
                    if i.ops[0].ty == ("ptr",): ev = ev | {"link"}
                    elif isinstance(val, tuple) and val[0] == "&" and not val[2] & 1: ev = ev | {"unmark"}
                    elif isinstance(val, tuple) and val[0] == "&" and not val[2] & 2: ev = ev | {"unfree"}
                    else: ev = ev | {"write"}
                st.ts = (mk, fr, ev)
            def call(s, ex, st, i, args):
                if i.bb not in body: return None
                mk, fr, ev = st.ts
                n = i.callee.name if i.callee.kind == "fn" else None
                if n is None: ev = ev | {"destroy"}
                elif n.startswith("llvm.memset") and ex.loc(args[0]) == ex.loc(ex.t(st, ph)): ev = ev | {"clear"}
                st.ts = (mk, fr, ev)
                return None
            def edge(s, ex, st, frm, to):
                if frm in body or to is h:
                    mk, fr, ev = st.ts
                    for bit in (1, 2):
                        t = ("&", ("word",), bit)
                        d = ex.decide(st, "ne", t, 0, 64)
                        if d is not None:
                            if bit == 1 and mk is None: mk = d
                            if bit == 2 and fr is None: fr = d
                    st.ts = (mk, fr, ev)
                    if to is h and frm in body:
                        if mk is True:
                            bad = ev & {"destroy", "clear", "link", "write"}
                            if bad: ex.report(frm.term, "a marked (live) cell is freed or overwritten by the sweep", st)
                            if "unmark" not in ev: ex.report(frm.term, "a live cell keeps its mark after the sweep, so the next collection will not trace its contents", st)
                        elif mk is False and fr is False:
                            if "link" not in ev and "clear" not in ev: pass
                            elif "clear" not in ev and "link" in ev: ex.report(frm.term, "a freed cell is put on the free list without being cleared", st)
                            if "link" in ev and "destroy" not in ev and not s.nodestr(ex, st):
                                ex.report(frm.term, "a dead cell is recycled without its destructor having run", st)
                        elif mk is False and fr is True:
                            if "destroy" in ev: ex.report(frm.term, "the destructor runs on a cell that is already free", st)
                        elif mk is None and ev & {"destroy", "clear", "link"}:
                            ex.report(frm.term, "a cell can be freed without its mark having been tested", st)
                        st.ts = (None, None, frozenset())
                    if to is h:
                        st.facts = {k: v for k, v in st.facts.items() if not (isinstance(k, tuple) and k[0] == "&" and k[1] == ("word",))}
                        st.ts = (None, None, frozenset())
                return True
            def nodestr(s, ex, st):
                for (b, o), (v, cls) in st.mem.items():
                    if cls == "gc_arena.destructor" and ex.decide(st, "eq", v, 0, 64) is True: return True
                return False
            def track(s, cls): return cls == "gc_arena.destructor"
            def clobbers(s, ex, i, cls): return False
        ex = Explorer(m, f, Sw()).run()
        R.count("states", ex.visited_states)
        for inst, msg, trail in ex.reports:
            R.bad("sweep:%s" % msg, inst.where(), msg, trail)
        R.ok("sweep decisions per cell state")
