"""Destroying an interpreter releases everything it owns, exactly once."""
from ctx import need, pmap
from build import AnalysisBroken
from conc import Conc, run
import itertools
RULE = ("for interpreters with every combination of empty and filled buffers, bytecode parts in memory and in read-only storage, lists of callback descriptors and arenas of up to "
        "three blocks with used and free cells: destroying releases each owned block exactly once, the data of used FFI signatures included, nothing in read-only storage, and nothing "
        "is accessed after its release; ffi_cb_free unlinks and releases exactly the matching descriptors; a new interpreter is fully initialised before its first allocation")
EXPLANATION = "Abstract interpretation of the creating and releasing functions over a finite domain of heaps whose blocks have concrete identities."
ASSUMPTIONS = ["memory allocation succeeds"]
CONFIGS_THOROUGH = ["default", "nodebug", "m32"]
MJS = 0x100000

class Mem(Conc):
    """heap of blocks with identities; blocks: {address: size}"""
    opterms = True; noalias = True; widen = (10 ** 9,) * 3
    def __init__(self, m, blocks, ro=(), text=()): super().__init__(); self.m = m; self.blocks = blocks; self.ro = set(ro); self.nf = {}; self.args = ()
    def cast(self, ex, st, i, t): return ("cast", i.op, 0, t)
    def owner(self, a):
        for b, n in self.blocks.items():
            if b <= a < b + n: return b
        return None
    def nonzero(self, t): return t[:1] == ("fnp",)
    def gone(self, st, b): return any(e[0] == "free" and e[1] == b for e in st.ts)
    def touch(self, st, i, a):
        if isinstance(a, int):
            b = self.owner(a)
            if b is not None and self.gone(st, b): self.event(st, "stale", b, i)
            elif a < 0x1000: self.event(st, "null", i)
    def load(self, ex, st, i, addr, cls, res): self.touch(st, i, addr); return None
    def store(self, ex, st, i, addr, cls, val): self.touch(st, i, addr); return None
    def rel(self, st, i, a):
        if a == 0: return
        if not isinstance(a, int): self.event(st, "unknown", "released pointer"); return
        if a in self.blocks: self.event(st, "free", a, i)
        elif a in self.ro: self.event(st, "ro", a, i)
        else: self.event(st, "wild", a, i)
    def direct(self, ex, st, i, name, a):
        if name == "free": self.rel(st, i, a[0]); return [(st, None)]
        if name == "mbuf_free":
            if not isinstance(a[0], int): self.event(st, "unknown", "released buffer"); return [(st, None)]
            self.touch(st, i, a[0])
            k = (a[0] + self.mb["buf"], 0)
            self.rel(st, i, st.mem.get(k, (0,))[0]); st.mem[k] = (0, ""); 
            return [(st, None)]
        if name.startswith("llvm.memset") or name.startswith("llvm.memcpy"):
            self.touch(st, i, a[0]); return None
        if name.startswith("llvm."): return None
        if name == "mjs_arg": return [(st, self.args[a[1]] if isinstance(a[1], int) and a[1] < len(self.args) else ("arg", a[1]))]
        if name == "mjs_mk_number": return [(st, ("num", a[1]))]
        if name == "mjs_return": self.event(st, "return", a[1]); return [(st, None)]
        if name in ("mjs_prepend_errorf", "mjs_set_errorf"): self.event(st, "error"); return [(st, a[1])]
        if name == "mjs_is_function": return [(st, 1)]
        self.event(st, "unknown", name); return None
    def indirect(self, ex, st, i, args):
        self.event(st, "unknown", "indirect call"); return None

def fl(m, s): return {n: (off, ty, bit, w, bf) for off, n, ty, bit, w, bf in m.struct_fields(s)}

def size(m, s):
    e = max(off + (bit + w + 7) // 8 for off, n, ty, bit, w, bf in m.struct_fields(s)); return (e + m.ptrsize - 1) // m.ptrsize * m.ptrsize

def frees(R, name, outs, must, never, what, names, seen):
    def rep(key, where, msg):
        if key in seen: return
        seen.add(key); R.bad("%s:%s" % (name, key), where, "%s: %s (%s)" % (name, msg, what))
    for kind, ev, val, st in outs:
        u = next((e[1] for e in ev if e[0] == "unknown"), None)
        if u is not None: R.undecided("%s: %s" % (name, u)); continue
        if kind == "abort": rep("abort", val.where(), "aborts"); continue
        done = {}
        for e in ev:
            if e[0] == "free":
                if e[1] in done: rep("twice:" + names[e[1]][0], e[2].where(), "%s is released twice" % names[e[1]][1])
                done[e[1]] = e[2]
                if e[1] in never: rep("kept:" + names[e[1]][0], e[2].where(), "%s is released" % names[e[1]][1])
            elif e[0] == "stale": rep("stale:" + names[e[1]][0], e[2].where(), "%s is used after its release" % names[e[1]][1])
            elif e[0] == "null": rep("null", e[1].where(), "follows a NULL pointer")
            elif e[0] == "ro": rep("rom", e[2].where(), "read-only bytecode is released")
            elif e[0] == "wild": rep("wild", e[2].where(), "something that was not allocated is released")
        for b in must:
            if b not in done: rep("leak:" + names[b][0], "", "%s is not released" % names[b][1])

def build(m, parts, ncb, arenas, empty):
    """initial memory of an interpreter"""
    S = fl(m, "struct.mjs"); A = fl(m, "struct.gc_arena"); B = fl(m, "struct.gc_block"); mb = fl(m, "struct.mbuf"); P = fl(m, "struct.mjs_bcode_part"); C = fl(m, "struct.mjs_ffi_cb_args")
    mem = {}; blocks = {MJS: size(m, "struct.mjs")}; names = {MJS: ("mjs", "the interpreter itself")}; ro = []
    nxt = [0x200000]
    def new(n, key, what):
        a = nxt[0]; nxt[0] += 0x1000 + (n + 0xfff) // 0x1000 * 0x1000
        blocks[a] = n; names[a] = (key, what); return a
    def put(a, v): mem[(a, 0)] = v
    und = []
    for n, (off, ty, bit, w, bf) in S.items():
        a = MJS + off
        if ty == "struct.mbuf":
            for k in ("len", "size", "buf"): put(a + mb[k][0], 0)
            if n == "bcode_parts":
                if parts:
                    sz = size(m, "struct.mjs_bcode_part"); b = new(sz * len(parts), n, "the list of bytecode parts")
                    put(a + mb["buf"][0], b); put(a + mb["len"][0], sz * len(parts)); put(a + mb["size"][0], sz * len(parts))
                    po = P["data"][0]
                    for k, rom in enumerate(parts):
                        d = new(64, "bytecode", "the bytecode of part %d" % (k + 1))
                        if rom: del blocks[d]; ro.append(d)
                        put(b + k * sz + po, d)
                        ir = P["in_rom"]; by = b + k * sz + ir[0]
                        put(by, (1 << ir[2]) if rom else 0)
            elif not empty:
                b = new(64, n, "the buffer %s" % n); put(a + mb["buf"][0], b); put(a + mb["size"][0], 64); put(a + mb["len"][0], 32)
        elif ty == "struct.gc_arena":
            spec = arenas.get(n, arenas.get(None))
            cs = {"object_arena": "struct.mjs_object", "property_arena": "struct.mjs_property", "ffi_sig_arena": "struct.mjs_ffi_sig"}.get(n)
            if cs is None: und.append(n); continue
            sz = size(m, cs); free = 0; prev = 0
            put(a + A["cell_size"][0], sz); put(a + A["size_increment"][0], 2)
            put(a + A["destructor"][0], ("fnp", "mjs_ffi_sig_destructor") if n == "ffi_sig_arena" else 0)
            for bl in reversed(spec):
                b = new(size(m, "struct.gc_block"), n + ":block", "a block of %s" % n)
                base = new(sz * max(len(bl), 1), n + ":cells", "the cells of a block of %s" % n)
                put(b + B["next"][0], prev); put(b + B["base"][0], base); put(b + B["size"][0], len(bl)); prev = b
                for k, c in enumerate(bl):
                    if c == "f": put(base + k * sz, free); free = base + k * sz
                    elif c == "s": put(base + k * sz, new(size(m, "struct.mjs_ffi_sig"), "cb_sig", "the callback signature of an FFI signature"))
                    else: put(base + k * sz, 0)
            put(a + A["blocks"][0], prev); put(a + A["free"][0], free)
        elif n in ("error_msg", "stack_trace"):
            put(a, 0 if empty else new(32, n, {"error_msg": "the error message", "stack_trace": "the stack trace"}[n]))
        elif n == "ffi_cb_args":
            l = []
            for k in range(ncb): l.append(new(size(m, "struct.mjs_ffi_cb_args"), "cbargs", "callback descriptor %d" % (k + 1)))
            for k, x in enumerate(l):
                put(x + C["next"][0], l[k + 1] if k + 1 < ncb else 0); put(x + C["sig"][0], 0)
            put(a, l[0] if l else 0); cbs = l
        elif bf: put(a, 0)
    return mem, blocks, ro, names, cbs

class Dtor(Mem):
    def indirect(self, ex, st, i, args):
        t = ex.t(st, i.callee)
        if t == ("fnp", "mjs_ffi_sig_destructor") and len(args) == 2 and isinstance(args[1], int):
            self.touch(st, i, args[1])
            k = (args[1], 0); v = st.mem.get(k, (None,))[0]
            if v is None: self.event(st, "unknown", "signature"); return [(st, None)]
            # the destructor is followed on its own
            self.rel(st, i, v); st.mem[k] = (0, "")
            return [(st, None)]
        self.event(st, "unknown", "indirect call"); return None

def check(ctx, R):
    raw = ctx.raw()
    for n in ("mjs_destroy", "mjs_create", "mjs_ffi_sig_destructor", "mjs_ffi_cb_free"):
        need(n in raw.fns and raw.fns[n].defined, "%s not found" % n)
    keep = {"mbuf_free", "mbuf_init", "mbuf_append", "mjs_arg", "mjs_mk_number", "mjs_return", "mjs_prepend_errorf", "mjs_is_function", "mjs_ffi_sig_destructor"}
    m = ctx.rooted(["mjs_destroy"], keep); f = m.fns["mjs_destroy"]; R.saw(f)
    mb = {k: v[0] for k, v in fl(m, "struct.mbuf").items()}
    seen = set()
    # ---- destroy
    one = [["u"]]
    shapes = [[[]], [["u"]], [["f"]], [["u", "f"]], [["f", "u"], ["u", "f"]], [["u", "u"], ["f", "f"]], [["f", "f"], ["f", "u"]], [["f"], ["u"], ["f", "u"]], [["f"], ["f"], ["f"]], [["u"], ["u"], ["u"]]]
    sig = [[["s"]], [["s", "f"]], [["f", "s", "u"]], [["s", "u"], ["f", "s"]], [["f", "f"], ["s", "s"]], [["s"], ["f"], ["s"]]]
    cases = []
    for e in (0, 1):
        for k in range(4):
            for p in itertools.product((0, 1), repeat=k): cases.append((p, 0, {None: one}, e))
        for c in range(4): cases.append(((0,), c, {None: one}, e))
    for s in shapes:
        for a in ("object_arena", "property_arena", "ffi_sig_arena"): cases.append(((), 1, {None: one, a: s}, 0))
    for s in sig: cases.append(((1, 0), 0, {None: one, "ffi_sig_arena": s}, 0))
    for parts, ncb, ar, e in cases:
        mem, blocks, ro, names, cbs = build(m, parts, ncb, ar, e)
        r = Dtor(m, blocks, ro); r.mb = mb; R.count("abstract runs")
        what = "bytecode parts %s, %d callbacks, arenas %s" % ("".join("r" if x else "m" for x in parts) or "none", ncb, ar)
        outs = run(m, f, r, [MJS], mem=mem, maxstates=200000)
        if not outs: R.undecided("mjs_destroy: no path ends"); continue
        frees(R, "mjs_destroy", outs, set(blocks), set(), what, names, seen)
    R.ok("mjs_destroy: %d heaps" % len(cases))
    # ---- destructor of signatures
    md = ctx.rooted(["mjs_ffi_sig_destructor"], {"mbuf_free"}); fd = md.fns["mjs_ffi_sig_destructor"]; R.saw(fd)
    for has in (0, 1):
        blocks = {MJS: 4096, 0x200000: 64}; names = {MJS: ("mjs", "the interpreter"), 0x200000: ("cb_sig", "the callback signature"), 0x300000: ("sig", "the signature itself")}
        blocks[0x300000] = size(md, "struct.mjs_ffi_sig")
        mem = {(0x300000, 0): 0x200000 if has else 0, (0x200000, 0): 0}
        r = Mem(md, blocks); r.mb = mb
        frees(R, "mjs_ffi_sig_destructor", run(md, fd, r, [MJS, 0x300000], mem=mem), {0x200000} if has else set(), {MJS, 0x300000}, "with%s a callback signature" % ("" if has else "out"), names, seen)
    R.ok("mjs_ffi_sig_destructor")
    # ---- buffers
    mf = ctx.rooted(["mbuf_free"], {"free"}); ff = mf.fns["mbuf_free"]; R.saw(ff)
    class Buf(Mem):
        def direct(self, ex, st, i, name, a):
            if name == "mbuf_free": return None
            return Mem.direct(self, ex, st, i, name, a)
    for has in (0, 1):
        blocks = {0x200000: 64, 0x300000: 3 * mf.ptrsize}; names = {0x200000: ("buf", "the data of the buffer"), 0x300000: ("mbuf", "the buffer structure")}
        mem = {(0x300000 + mb["buf"], 0): 0x200000 if has else 0, (0x300000 + mb["len"], 0): 32 * has, (0x300000 + mb["size"], 0): 64 * has}
        r = Buf(mf, blocks); r.mb = mb
        outs = run(mf, ff, r, [0x300000], mem=mem)
        frees(R, "mbuf_free", outs, {0x200000} if has else set(), {0x300000}, "with%s data" % ("" if has else "out"), names, seen)
        for kind, ev, val, st in outs:
            z = [st.mem.get((0x300000 + mb[k], 0), (None,))[0] for k in ("buf", "len", "size")]
            if kind == "ret" and z[0] == 0x200000 and "bufleft" not in seen: seen.add("bufleft"); R.bad("mbuf_free:left", "mbuf_free", "mbuf_free leaves a pointer to the data it released")
            elif kind == "ret" and z != [0, 0, 0] and all(isinstance(x, int) for x in z) and "bufsize" not in seen: seen.add("bufsize"); R.bad("mbuf_free:size", "mbuf_free", "mbuf_free leaves a size behind")
    R.ok("mbuf_free")
    # ---- freeing callbacks
    mc = ctx.rooted(["mjs_ffi_cb_free"], keep | {"mjs_is_callable"}); fc = mc.fns["mjs_ffi_cb_free"]; R.saw(fc)
    C = fl(mc, "struct.mjs_ffi_cb_args"); S = fl(mc, "struct.mjs"); head = MJS + S["ffi_cb_args"][0]
    F, G, V, W = 0xfff6000000000010, 0xfff6000000000020, 0xfff5000000000001, 0xfff5000000000002
    n = 0
    for k in range(4):
        for ids in itertools.product(((F, V), (F, W), (G, V)), repeat=k):
            mem, blocks, ro, names, cbs = build(mc, (), k, {None: one}, 1)
            for x, (fn, ud) in zip(cbs, ids):
                mem[(x + C["func"][0], 0)] = fn; mem[(x + C["userdata"][0], 0)] = ud
            r = Mem(mc, blocks); r.mb = mb; r.args = (F, V); n += 1; R.count("abstract runs")
            outs = run(mc, fc, r, [MJS], mem=mem, maxstates=200000)
            gone = {x for x, q in zip(cbs, ids) if q == (F, V)}
            what = "list of %s" % (", ".join({(F, V): "match", (F, W): "other userdata", (G, V): "other function"}[q] for q in ids) or "nothing")
            frees(R, "mjs_ffi_cb_free", outs, gone, set(blocks) - gone, what, names, seen)
            for kind, ev, val, st in outs:
                if kind != "ret" or any(e[0] in ("unknown", "stale") for e in ev): continue
                l = []; p = st.mem.get((head, 0), (None,))[0]
                while isinstance(p, int) and p and len(l) < 9: l.append(p); p = st.mem.get((p + C["next"][0], 0), (None,))[0]
                if p != 0 or l != [x for x in cbs if x not in gone]:
                    if "links" not in seen: seen.add("links"); R.bad("mjs_ffi_cb_free:links", fc.name, "mjs_ffi_cb_free leaves a wrong list (%s)" % what)
                rv = [e[1] for e in ev if e[0] == "return"]
                if len(rv) != 1: R.undecided("mjs_ffi_cb_free: result")
    R.ok("mjs_ffi_cb_free: %d lists" % n)
    create(ctx, R, keep, seen)

class Cre(Mem):
    def direct(self, ex, st, i, name, a):
        if name in ("calloc", "malloc"):
            k = sum(1 for e in st.ts if e[0] == "new")
            n = a[0] * a[1] if name == "calloc" and isinstance(a[0], int) and isinstance(a[1], int) else a[0] if isinstance(a[0], int) else None
            p = MJS if k == 0 else 0x200000 + k * 0x10000
            self.event(st, "new", p, n, name)
            return [(st, p)]
        if name == "mbuf_init":
            if isinstance(a[0], int):
                for k in ("buf", "len", "size"): st.mem[(a[0] + self.mb[k], 0)] = (0, "")
                self.event(st, "init", a[0])
            return [(st, None)]
        if name in ("mbuf_append", "mbuf_insert"): self.event(st, "append", a[0], a[1], a[2]); return [(st, ("n",))]
        if name in ("mjs_mk_object", "mjs_init_builtin"): self.event(st, name, i); return [(st, ("global",))]
        if name in ("push_mjs_val",): self.event(st, "append", a[0], a[1], None); return [(st, None)]
        if name in ("mjs_set_ffi_resolver",): return None
        return Mem.direct(self, ex, st, i, name, a)

def create(ctx, R, keep, seen):
    m = ctx.rooted(["mjs_create"], keep | {"mjs_mk_object", "mjs_init_builtin", "push_mjs_val", "calloc", "mjs_ffi_sig_destructor"}); f = m.fns["mjs_create"]; R.saw(f)
    S = fl(m, "struct.mjs"); A = fl(m, "struct.gc_arena"); B = fl(m, "struct.gc_block")
    r = Cre(m, {}); r.mb = {k: v[0] for k, v in fl(m, "struct.mbuf").items()}
    outs = run(m, f, r, [], maxstates=200000)
    def bad(key, msg):
        if key not in seen: seen.add(key); R.bad("mjs_create:" + key, "%s:%s" % (f.file, f.line), "mjs_create: " + msg)
    for kind, ev, val, st in outs:
        if kind == "abort": continue
        u = next((e[1] for e in ev if e[0] == "unknown"), None)
        if u is not None: R.undecided("mjs_create: %s" % u); continue
        new = {e[1]: e[2:] for e in ev if e[0] == "new"}
        if val != MJS: R.undecided("mjs_create: its result"); continue
        first = next((k for k, e in enumerate(ev) if e[0] == "mjs_mk_object"), None)
        if new.get(MJS, (None, None))[1] != "calloc": R.undecided("mjs_create: how the structure is made"); continue
        def at(off): return st.mem.get((MJS + off, 0), (0,))[0]
        for n, (off, ty, bit, w, bf) in S.items():
            if ty == "struct.gc_arena":
                cs = {"object_arena": "struct.mjs_object", "property_arena": "struct.mjs_property", "ffi_sig_arena": "struct.mjs_ffi_sig"}.get(n)
                if cs is None: continue
                want = size(m, cs); got = at(off + A["cell_size"][0])
                if isinstance(got, int) and got < want: bad(n + ":size", "cells of %s have %d bytes, what is stored in them %d" % (n, got, want))
                elif not isinstance(got, int): R.undecided("mjs_create: %s" % n)
                b = at(off + A["blocks"][0])
                if b == 0: bad(n + ":blocks", "%s is not initialised" % n)
                d = at(off + A["destructor"][0])
                if n == "ffi_sig_arena":
                    if d == 0: bad("destructor", "FFI signatures have no destructor")
                    elif d != ("g", "mjs_ffi_sig_destructor") and "mjs_ffi_sig_destructor" not in repr(d): R.undecided("mjs_create: the destructor")
                elif d != 0: R.undecided("mjs_create: destructor of %s" % n)
        ap = [e for e in ev if e[0] == "append"]
        k = [j for j, e in enumerate(ev) if e[0] == "append" and e[1] == MJS + S["owned_strings"][0]]
        if not k: bad("strings", "the string storage does not start with the marker byte the collector relies on")
        elif first is not None and k[0] > first: bad("strings", "the string storage is initialised after values were made")
        if not any(e[1] == MJS + S["scopes"][0] for e in ap): bad("scopes", "no global scope")
    R.ok("mjs_create: %d paths" % len(outs))
