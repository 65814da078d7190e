"""Writes into buffers of known size stay inside of them."""
from fractions import Fraction as F
from ctx import need, BASELINE
from build import AnalysisBroken
from bounds import Bounds, lin_add, lin_scale, const, base_of
from flow import dominates, strip_ptr, gep_offset, acc_class, acc_path

RULE = ("for every store, every memcpy, memset, strncpy, snprintf or fread, and every call that hands over a buffer with its size: start + length <= base + size, where the "
        "buffer is a local array, a block allocated in the same function, or a (char pointer, size) pair of parameters the function writes to; for every index into an array of "
        "fixed length through which something is written: index <= length - 1")
EXPLANATION = ("Each obligation is an affine inequality over SSA values. It is proved from the comparisons that dominate the place, the definitions of the values, a case split over "
               "joins (ways that contradict a dominating condition are left out), and induction at loop headers (also with two counters that move against each other, and with the number "
               "of rounds of a division loop); ranges of integer members (frozen.path_len, mjs_ffi_sig.args_cnt) are inferred by induction over all stores to them. Reported: obligations "
               "that fail by a constant, that hold only with a slack of a few elements (on some way), whose value no comparison limits, or that hand over the size of the whole buffer for "
               "a place inside of it; any other unproved obligation is undecided.")
ASSUMPTIONS = ["integer arithmetic on lengths does not wrap around", "snprintf and the like write at most the number of bytes they are given",
               "formats are program text (the widths of json_printf's conversions are not checked)", "a member that counts parameters is 0 when the signature is validated",
               "no two function parameters of a pair (buffer, size) are related in another way than the size being that of the buffer"]
CONFIGS_THOROUGH = ["default", "nodebug", "m32"]

ALLOC = {"malloc": (0,), "calloc": (0, 1), "realloc": (1,)}
# name -> (destination, kind of length, argument)
WR = {"snprintf": (0, 1), "vsnprintf": (0, 1), "c_snprintf": (0, 1), "c_vsnprintf": (0, 1), "strncpy": (0, 2), "memcpy": (0, 2), "memmove": (0, 2), "memset": (0, 2), "fgets": (0, 1),
      "fread": (0, (1, 2)), "strcpy": (0, "src"), "llvm.memcpy": (0, 2), "llvm.memmove": (0, 2), "llvm.memset": (0, 2), "mjs_sprintf": (2, 3), "mjs_jprintf_": (0, 1)}
SPRINTF = {"snprintf", "vsnprintf", "c_snprintf", "c_vsnprintf"}

def basename(n):
    for p in ("llvm.memcpy", "llvm.memmove", "llvm.memset"):
        if n.startswith(p): return p
    return n.split(".")[0] if not n.startswith("llvm.") else n

class Fun:
    def __init__(self, m, f, cg, pairs, inv):
        self.m = m; self.f = f; self.B = Bounds(m, f, cg, inv); self.pairs = pairs; self.whole = {}; self.sib = {}; self.softer = {}; self.tight = {}
    def obj(self, p):
        """(object value, size affine) of the buffer the pointer p points into"""
        seen = set(); work = [p]; objs = set()
        while work:
            v = strip_ptr(work.pop())
            if v in seen: continue
            seen.add(v)
            if v.kind in ("inst", "cexpr") and v.op == "gep":
                mem = self.member(v)
                if mem is not None: objs.add(mem); continue
                work.append(v.ops[0])
            elif v.kind == "inst" and v.op == "phi": work += [o for o in v.ops if o.kind not in ("undef", "poison")]
            elif v.kind == "inst" and v.op == "select": work += v.ops[1:]
            elif v.kind == "inst" and v.op == "alloca": objs.add((v, "alloca"))
            elif v.kind == "inst" and v.op == "call" and v.callee.kind == "fn" and basename(v.callee.name) in ALLOC: objs.add((v, "heap"))
            elif v.kind == "inst" and v.op == "load":
                w = self.B.norm(v)
                if w is not v: work.append(w); continue
                z = self.sibling(v)
                if z is None: return None
                self.sib[v] = z; objs.add((v, "struct"))
            elif v.kind == "arg" and (self.f.name, self.f.args.index(v)) in self.pairs: objs.add((v, "pair"))
            elif v.kind == "null": pass
            else: return None
        return next(iter(objs)) if len(objs) == 1 else None
    def member(self, g):
        """a gep that goes into an array inside a structure: the array"""
        ty = g.gep_ty; arr = None
        for k, ix in enumerate(g.ops[1:]):
            if k == 0: continue
            if ty[0] == "struct": ty = ty[2][ix.signed()]
            elif ty[0] == "array":
                if k > 1 and arr is None and g.ops[1:][k - 1] is not None: arr = (g, "member", k, ty)
                ty = ty[2]
        return None
    def size(self, o):
        v, kind = o[:2]
        if kind == "alloca":
            n = self.B.lin(v.ops[0]) if v.ops else const(1)
            return lin_scale(n, F(self.m.sizeof(v.alloc_ty)))
        if kind == "heap":
            r = None
            for k in ALLOC[basename(v.callee.name)]:
                l = self.B.lin(v.ops[k])
                if r is None: r = l
                elif set(l) <= {1}: r = lin_scale(r, l.get(1, F(0)))
                elif set(r) <= {1}: r = lin_scale(l, r.get(1, F(0)))
                else: return None
            return r
        if kind == "struct": return self.B.lin(self.sib[v])
        if kind == "pair": return self.B.lin(self.f.args[self.f.args.index(v) + 1])
    def sibling(self, v):
        """the current value of the member that holds the size of the buffer v was loaded from, as an instruction"""
        cls = acc_class(self.m, v); B = self.B
        if cls is None or not (cls.endswith("mbuf.buf") or cls.startswith("json_out.")): return None
        at = self.place(v.ops[0], False)
        if at is None: return None
        # struct mbuf { buf, len, size }, struct json_out { printer, { buf, size, len } }
        dist = (2 if cls.endswith("mbuf.buf") else 1) * self.m.ptrsize
        best = None
        for w in self.f.insts():
            if w.op not in ("load", "store") or (w.ty if w.op == "load" else w.ops[0].ty)[0] != "int": continue
            a2 = self.place(w.ops[0] if w.op == "load" else w.ops[1], False)
            if a2 is None or a2[0] is not at[0] or a2[1] != at[1] + dist: continue
            want = acc_class(self.m, w); p2 = acc_path(self.m, w)
            if w.op == "load":
                if B.idom(w, v) and not B.between(w, v, want, p2) or B.idom(v, w) and not B.between(v, w, want, p2): best = best or B.norm(w)
            elif B.idom(w, v) and not B.between(w, v, want, p2): return B.norm(w.ops[0])
        return best
    def beside(self, st):
        """the integer stored into the member behind the one the pointer is stored into, of the same local structure"""
        at = lambda p: self.place(p)
        a = at(st.ops[1])
        if a is None: return None
        for j in st.bb.insts:
            if j.op == "store" and j is not st and j.ops[0].ty[0] == "int" and j.ops[0].ty[1] >= 32:
                b = at(j.ops[1])
                if b is not None and b[0] is a[0] and b[1] == a[1] + self.m.ptrsize: return j.ops[0]
        return None
    def place(self, p, local=True):
        v = strip_ptr(p); off = 0
        while v.kind == "inst" and v.op == "gep":
            o, _ = gep_offset(self.m, v)
            if o is None: return None
            off += o; v = strip_ptr(v.ops[0])
        if not local: return (self.B.norm(v), off)
        return (v, off) if v.kind == "inst" and v.op == "alloca" and v.alloc_ty[0] == "struct" else None
    def writing(self, g):
        """something is written through the address, or it is handed on"""
        us = self.B.users(); work = [g]; seen = set()
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x)
            for u in us.get(x, ()):
                if u.op == "store": return True
                if u.op == "call" and not (u.callee.kind == "fn" and (u.callee.name.startswith("llvm.dbg") or u.callee.name in READERS)):
                    if not (u.callee.kind == "fn" and basename(u.callee.name) in WR and u.ops[WR[basename(u.callee.name)][0]] is not x): return True
                if u.op in ("gep", "bitcast", "phi", "select"): work.append(u)
        return False
    def textlen(self, p):
        """length of the C string at p, as an affine form"""
        q = self.B.norm(strip_ptr(p))
        g = q
        while g.kind == "cexpr" and g.op == "gep" and gep_offset(self.m, g)[0] == 0: g = g.ops[0]
        if g.kind == "global" and g.init_ptr:
            d = self.m.global_data(g)
            if isinstance(d, (bytes, bytearray)): return const(len(bytes(d).split(b"\0")[0]))
        for w in self.f.calls("strlen"):
            if self.B.norm(strip_ptr(w.ops[0])) is q: return self.B.lin(w)
        return None
    def ways(self, v, bb):
        """(form, block, facts) of the values a length can have, without the constant 0"""
        v = self.B.norm(strip_ptr(v))
        while v.kind == "inst" and v.op in ("zext", "sext"): v = v.ops[0]
        if v.kind == "const" and v.val == 0: return []
        if v.kind == "inst" and v.op == "select":
            out = []
            for val, o in ((True, v.ops[1]), (False, v.ops[2])):
                if o.kind == "const" and o.val == 0: continue
                fx = []; self.B.cond(v.ops[0], val, fx); out.append((self.B.lin(o), bb, fx))
            return out
        if v.kind == "inst" and v.op == "phi" and v.bb not in self.B.lh and any(o.kind == "const" and o.val == 0 for o in v.ops):
            return [(self.B.lin(o), pb, self.B.edge_only(pb, v.bb)) for o, pb in zip(v.ops, v.phi_bbs) if not (o.kind == "const" and o.val == 0)]
        return [(self.B.lin(v), bb, [])]

def obligations(m, f, cg, pairs, inv):
    X = Fun(m, f, cg, pairs, inv)
    for t in obligations_(m, f, X, pairs):
        if t[5] is not None and t[5][1] == "struct": X.softer[t[1]] = True
        yield t

def obligations_(m, f, X, pairs):
    B = X.B
    for i in f.insts():
        # index into an array of known length
        if i.op == "gep":
            if not X.writing(i): continue
            ty = i.gep_ty
            for k, ix in enumerate(i.ops[1:]):
                if k == 0: continue
                if ty[0] == "struct": ty = ty[2][ix.signed()]
                elif ty[0] == "array":
                    if ix.kind != "const" and ty[1] > 0: yield X, i, "index", B.lin(ix), const(ty[1] - 1), None, i.bb, []
                    ty = ty[2]
            continue
        if i.op == "store":
            p = i.ops[1]
            if i.ops[0].ty == ("ptr",) and strip_ptr(i.ops[0]).kind in ("inst", "arg"):
                o = X.obj(i.ops[0]); n = X.beside(i) if o is not None and o[1] in ("alloca", "pair") else None
                if n is not None:
                    X.dest = B.lin(i.ops[0])
                    yield X, i, "handed", lin_add(X.dest, B.lin(n)), lin_add(B.lin(o[0]), X.size(o)), o, i.bb, []
                    continue
            l = X.dest = B.lin(p)
            q = strip_ptr(p)
            if q.kind == "inst" and q.op == "gep" and gep_offset(m, q)[0] is not None and strip_ptr(q.ops[0]).kind == "inst" and strip_ptr(q.ops[0]).op == "alloca": continue
            if q.kind == "inst" and q.op == "alloca": continue
            o = X.obj(p)
            if o is None: continue
            s = X.size(o)
            if s is None: continue
            w = m.sizeof(i.ops[0].ty)
            yield X, i, i.op, lin_add(l, const(w)), lin_add(B.lin(o[0]), s), o, i.bb, []
        elif i.op == "call" and i.callee.kind == "fn":
            n = basename(i.callee.name); w = WR.get(n)
            if w is None:
                k = next((k for k in range(len(i.ops)) if (i.callee.name, k) in pairs), None)
                if k is None: continue
                w = (k, k + 1)
            if len(i.ops) <= w[0]: continue
            o = X.obj(i.ops[w[0]])
            if o is None: continue
            s = X.size(o)
            if s is None: continue
            X.dest = B.lin(i.ops[w[0]])
            if w[1] == "src":
                ln = X.textlen(i.ops[1])
                if ln is None: continue
                yield X, i, n, lin_add(B.lin(i.ops[w[0]]), lin_add(ln, const(1))), lin_add(B.lin(o[0]), s), o, i.bb, []; continue
            if isinstance(w[1], tuple):
                ns = [B.lin(i.ops[k]) for k in w[1]]
                ln = lin_scale(ns[1], ns[0].get(1, F(0))) if set(ns[0]) <= {1} else lin_scale(ns[0], ns[1].get(1, F(0))) if set(ns[1]) <= {1} else None
                if ln is None: continue
                ws = [(ln, i.bb, [])]
            else: ws = X.ways(i.ops[w[1]], i.bb)
            X.whole[i] = False
            for ln, bb, fx in ws:
                if o[1] in ("pair", "struct") and X.dest != B.lin(o[0]) and not set(ln) <= {1}: X.tight[i] = lin_add(ln, s, -1)
                if o[1] != "heap" and ln == s and X.dest != B.lin(o[0]): X.whole[i] = True
                yield X, i, n, lin_add(B.lin(i.ops[w[0]]), ln), lin_add(B.lin(o[0]), s), o, bb, fx

def pairs_of(m):
    """(function, parameter) of text buffers that are handed over together with their size"""
    out = set()
    for f in m.fns.values():
        if not f.defined or f.vararg and len(f.args) < 3: continue
        sg = m.sig(f.name)
        if not sg or len(sg) != len(f.args) + 1: continue
        for k in range(len(f.args) - 1):
            if sg[k + 1] in ("char*", "unsigned char*") and f.args[k + 1].ty[0] == "int" and f.args[k + 1].ty[1] >= 32 and sg[k + 2] in ("unsigned long", "int", "unsigned int", "size_t"): out.add((f.name, k))
    return out

READERS = {"strlen", "strcmp", "strncmp", "memcmp", "bcmp", "strchr", "strrchr"}

def written(m, pairs):
    """the pairs whose buffer the function writes to, itself or through another one"""
    out = set(); ch = True
    while ch:
        ch = False
        for n, k in pairs - out:
            f = m.fns[n]; a = f.args[k]; al = {a}; grow = True
            while grow:
                grow = False
                for i in f.insts():
                    if i not in al and i.op in ("gep", "bitcast", "phi", "select") and any(o in al for o in i.ops): al.add(i); grow = True
            for i in f.insts():
                w = False
                if i.op == "store" and i.ops[1] in al and i.ops[0].ty == ("int", 8): w = True
                if i.op == "store" and i.ops[0] in al and base_of(i.ops[1]).kind == "inst" and base_of(i.ops[1]).op == "alloca" and "json_out" in str(base_of(i.ops[1]).alloc_ty[:2]): w = True
                if i.op == "call" and i.callee.kind == "fn":
                    c = basename(i.callee.name); d = WR.get(c)
                    if d is not None and len(i.ops) > d[0] and i.ops[d[0]] in al: w = True
                    if any((i.callee.name, j) in out and o in al for j, o in enumerate(i.ops)): w = True
                if w: out.add((n, k)); ch = True; break
    return out

def leaves(v, depth=0):
    """the values a chain of choices can give"""
    if v.kind == "inst" and v.op in ("phi", "select") and depth < 4:
        return [w for o in (v.ops if v.op == "phi" else v.ops[1:]) for w in leaves(o, depth + 1)]
    return [v]

def scope(m, cg):
    """functions that can run on behalf of a script or of the embedder's calls of the mjs_ functions"""
    work = [f for n, f in m.fns.items() if f.defined and n.startswith(("mjs_", "ffi_cb", "cs_", "mg_", "mbuf_"))] + list(cg.cfuncs)
    r = set()
    while work:
        f = work.pop()
        if f in r or not f.defined: continue
        r.add(f)
        for i in f.insts():
            for o in list(i.ops) + ([i.callee] if i.op == "call" else []):
                o = strip_ptr(o)
                if o.kind == "fn": work.append(o)
    return r

def check(ctx, R):
    raw = ctx.raw(); pr = {n for n, k in written(raw, pairs_of(raw))}
    m = ctx._mk("g30", keep_fn=lambda n, rec, addr, link: n in BASELINE or rec or addr or n in pr); cg = ctx.cg(m)
    pairs = written(m, pairs_of(m)); R.count("buffer parameters with their size", len(pairs))
    sc = scope(m, cg)
    callers = {}
    for f in m.fns.values():
        if f.defined:
            for i in f.insts():
                if i.op == "call" and i.callee.kind == "fn" and i.callee.defined: callers.setdefault(i.callee, []).append(i)
    # what is known about parameters: members of enumerations, constants handed over by all callers
    argmax = {}; argvals = {}
    for f in m.fns.values():
        if not f.defined: continue
        sg = m.sig(f.name) or []
        for k, a in enumerate(f.args):
            t = sg[k + 1] if len(sg) == len(f.args) + 1 else ""
            t = {"mjs_err_t": "mjs_err", "mjs_ffi_ctype_t": "mjs_ffi_ctype"}.get(t, t.replace("enum.", ""))
            if t in m.enums:
                argmax[a] = max([v for n, v in m.enums[t].items() if not n.endswith(("_CNT", "_MAX"))] or [0])
            vs = [v for c in callers.get(f, ()) if k < len(c.ops) for v in leaves(c.ops[k])]
            if vs and f.name not in BASELINE and all(v.kind == "const" for v in vs): argvals[a] = vs
    inv = {}
    work = []
    for f in sorted(m.fns.values(), key=lambda f: f.name):
        if not f.defined or f not in sc: continue
        n = 0
        for X, i, kind, e, lim, o, bb, fx in obligations(m, f, cg, pairs, inv):
            X.B.argmax = argmax; X.B.argvals = argvals
            work.append([f, X, i, kind, lin_add(e, lim, -1), bb, fx, None, "up"]); n += 1
        if n: R.saw(f)
    need(work, "no buffers found")
    def run():
        for w in work:
            if w[7] is not True: w[7] = w[1].B.prove(w[4], w[5], extra=w[6])
    run()
    fields(m, cg, [w for w in work if not w[7]], inv, argmax, argvals, R)
    for w in work:
        if not w[7]: w[1].B.proof.clear()
    run()
    import sys
    done = set()
    for f, X, i, kind, g, bb, fx, ok, dr in work:
        what = WHAT.get(kind, "call of %s" % kind)
        if ok: R.ok("%s: %s at %s stays inside" % (f.name, what, i.where())); R.count(kind); continue
        why = definite(X, g, bb, fx, i, kind)
        if why == "text": R.count("formats that are program text"); continue
        key = "%s:%s" % (i.fn.name, i.where())
        if why is None and X.softer.get(i): R.count("unproved places in growing buffers")
        elif why is None: R.undecided("%s: %s at %s: no bound established (%s)" % (f.name, what, i.where(), show(g)))
        else:
            if i.where() in done: continue
            done.add(i.where())
            R.bad("write:%s:%d" % (i.file or "?", i.line or 0), i.where(), "%s in %s goes past the end of the buffer: %s" % (what, f.name, why))

WHAT = {"index": "the index of the array element", "store": "the store", "handed": "the size stored beside a pointer to the buffer"}

def show(g): return " + ".join("%s%s" % ("" if c == 1 else "%d*" % int(c), "1" if x == 1 else x) for x, c in g.items()) + " <= 0"

def definite(X, g, bb, fx, i, kind):
    """why the write certainly lacks a check that keeps it inside; None when that cannot be told; "text" when the length is that of a format of the program"""
    B = X.B
    if set(g) <= {1}: return "%d bytes too many" % int(g.get(1, F(0)))
    pos = [x for x in g if x != 1 and g[x] > 0]
    for x in pos:
        if progtext(X, x): return "text"
    # only too weak a limit
    c = max([abs(c) for x, c in g.items() if x != 1])
    for k in range(1, 25):
        if B.prove(lin_add(g, const(-k * c)), bb, extra=fx):
            return "the checks on the way only keep it within %d of the end" % k
    # too weak a limit on one of the ways
    w = weak(X, g, bb, fx, c, 3)
    if w: return "on one way the checks only keep it within %d of the end" % w
    # no limit at all
    for x in pos:
        if unlimited(X, x, bb, fx, frozenset()): return "nothing limits %s" % name(x)
    # the size of the whole buffer for a place further on
    if kind not in ("index", "store") and X.whole.get(i): return "the size of the whole buffer is given for a place inside of it"
    t = X.tight.get(i)
    if kind not in ("index", "store") and t and B.prove(t, bb, extra=fx) and not B.prove(lin_add(t, const(1)), bb, extra=fx):
        return "the length is only compared with the size of the whole buffer, the place is further inside"
    return None

def weak(X, g, bb, fx, c, depth):
    """a way on which the goal fails although something keeps it close to the end"""
    B = X.B
    for x in [x for x in g if x != 1 and x.kind == "inst" and x.op == "phi" and x.bb not in B.lh and dominates(x.bb, bb)]:
        if not all(y == 1 or B.avail(y, x.bb) for y in g): continue
        here = B.conds(bb)
        for pb in x.bb.preds:
            if any(here.get(k, v) != v for k, v in B.conds_edge(pb, x.bb).items() if B.stable(k, x.bb)): continue
            h = B.subst_phis(g, x.bb, pb); ex = B.edge_only(pb, x.bb)
            if set(h) <= {1}: continue
            if B.prove(h, pb, extra=ex): continue
            for k in range(1, 9):
                if B.prove(lin_add(h, const(-k * c)), pb, extra=ex): return k
            if depth:
                r = weak(X, h, pb, ex, c, depth - 1)
                if r: return r
    return None

def name(x):
    if x.kind == "arg": return "the parameter %s" % x
    if x.kind == "inst" and x.op == "call" and x.callee.kind == "fn": return "the result of %s()" % x.callee.name
    return "the counter at %s" % x.where() if x.kind == "inst" and x.line else "the value %s" % x

def progtext(X, x):
    """length of (a part of) a text that comes with variable arguments: the format"""
    if x.kind != "inst" or x.op != "call" or x.callee.kind != "fn" or x.callee.name not in ("strlen", "strspn", "strcspn"): return False
    sg = X.m.sig(X.f.name) or []
    if not X.f.vararg and not any("va_list" in str(t) for t in sg): return False
    work = [x.ops[0]]; seen = set()
    while work:
        v = strip_ptr(work.pop())
        if v in seen: continue
        seen.add(v)
        if v.kind == "arg": return True
        if v.kind == "inst" and v.op == "gep": work.append(v.ops[0])
        elif v.kind == "inst" and v.op in ("phi", "select"): work += v.ops
    return False

def unlimited(X, x, bb, fx, seen):
    """no comparison anywhere in the function keeps the value from being large"""
    B = X.B
    if x in seen: return True
    seen = seen | {x}
    if x.kind == "arg":
        if x.ty[0] != "int" or x.ty[1] < 32 or x in B.argmax or x in B.argvals: return False
    elif x.kind == "inst" and x.op == "call":
        if x.callee.kind != "fn" or x.callee.name not in ("strlen", "mjs_get_int", "mjs_get_int32", "mjs_nargs", "mjs_array_length"): return False
    elif x.kind == "inst" and x.op == "phi" and x.bb in B.lh:
        # a counter that only grows
        for o in x.ops:
            l = B.lin(o)
            if o.kind == "const" or l.get(x) == 1 and set(l) <= {x, 1} and l.get(1, 0) >= 0: continue
            if not (o.kind == "inst" and any(y is not x and y != 1 and unlimited(X, y, bb, fx, seen) for y in l)) and not o.kind == "arg": return False
    elif x.kind == "inst" and x.op in ("phi", "select"):
        if not any(o.kind != "const" and any(y != 1 and unlimited(X, y, bb, fx, seen) for y in B.lin(o)) for o in (x.ops if x.op == "phi" else x.ops[1:])): return False
    else: return False
    # limits set by comparisons: only those against values without limit themselves do not count
    if "allfacts" not in B.fcache:
        al = []
        for b in X.f.bbs:
            t = b.term
            if t.op == "br" and len(b.succs) == 2:
                for sc in b.succs:
                    o = []; B.edge1(t, sc, o); al += o
            elif t.op == "switch":
                for k in B.lin(t.ops[0]): al.append({k: F(1)} if k != 1 else {1: F(0)})
            for j in b.insts:
                if j.op == "icmp":
                    for v in (True, False):
                        o = []; B.cond(j, v, o); al += o
        B.fcache["allfacts"] = al
    if x.kind == "inst" and x.op == "phi" and x.bb in B.lh:
        # another counter of the same loop that is compared may stand for this one
        for y in x.bb.phis():
            if y is not x and y not in seen and y.ty[0] in ("int", "ptr") and any(L.get(y, 0) != 0 for L in B.fcache["allfacts"]): return False
    for L in list(B.fcache["allfacts"]) + list(fx):
        if L.get(x, 0) > 0 and not any(y is not x and y != 1 and L[y] < 0 and unlimited(X, y, bb, fx, seen) for y in L): return False
    return True

def counter(m, f, st, c, stores, B, hi):
    """the field counts rounds of a loop: it is only ever increased by one, once per round, from 0"""
    from flow import natural_loop
    inc = []
    for g, j in stores:
        v = j.ops[0]
        while v.kind == "inst" and v.op in ("trunc", "sext", "zext"): v = v.ops[0]
        if v.kind == "const" and v.val == 0: continue
        if not (v.kind == "inst" and v.op == "add" and v.ops[1].kind == "const" and v.ops[1].signed() == 1): return False
        w = v.ops[0]
        while w.kind == "inst" and w.op in ("trunc", "sext", "zext"): w = w.ops[0]
        if not (w.kind == "inst" and w.op == "load" and acc_class(m, w) == c): return False
        if g is f: inc.append(j)
    for h in B.lh:
        body = natural_loop(f, h)
        if st.bb not in body: continue
        k = sum(1 for j in inc if j.bb in body)
        for x in h.phis():
            if x.ty[0] != "int": continue
            outs = [o for o, q in zip(x.ops, x.phi_bbs) if q not in body]; ins = [o for o, q in zip(x.ops, x.phi_bbs) if q in body]
            if len(outs) != 1 or outs[0].kind != "const" or not ins: continue
            if not all(lin_add(B.lin(o), {x: F(1)}, -1) == const(1) for o in ins): continue
            # the last round that gets to the increase
            if B.prove(lin_add({x: F(1)}, const(-(outs[0].signed() + hi // k - 1))), st.bb): return True
    return False

def fields(m, cg, open_, inv, argmax, argvals, R):
    """ranges of integer fields, by induction over all stores to them"""
    cand = {}
    for f, X, i, kind, g, bb, fx, ok, dr in open_:
        if dr != 'up': continue
        lim = -g.get(1, F(0))
        k = max([abs(c) for x, c in g.items() if x != 1] or [1])
        for b in f.bbs:
            for j in b.insts:
                if j.op == "load" and j.ty[0] == "int" and j.ty[1] >= 8:
                    c = acc_class(m, j)
                    if c and c.count(".") == 1 and 0 < lim / k < 4096: cand.setdefault(c, set()).update(int(lim // k) + z for z in range(4))
    for c in sorted(cand):
        stores = [(f, j) for f in m.fns.values() if f.defined for j in f.insts() if j.op == "store" and acc_class(m, j) == c]
        if not stores: continue
        for hi in sorted(cand[c]):
            inv[c] = (0, hi); good = True
            low = True
            for f, j in stores:
                B = Bounds(m, f, cg, inv); B.argmax = argmax; B.argvals = argvals
                v = B.lin(j.ops[0])
                if not B.prove(lin_add(v, const(-hi)), j.bb) and not counter(m, f, j, c, stores, B, hi): good = False; break
                if not B.prove(lin_scale(v, F(-1)), j.bb): low = False
            if good:
                inv[c] = (0 if low else None, hi); break
            del inv[c]
    R.count("fields whose range was established", len(inv))
