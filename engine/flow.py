"""CFG helpers, access paths, call graph and mod summaries on ir.Module."""
import re
from ir import sccs

# ---------------------------------------------------------------- CFG
def rpo(fn):
    r = fn._cache.get("rpo")
    if r is None:
        seen = set(); out = []
        st = [(fn.entry, iter(fn.entry.succs))]; seen.add(fn.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(s.succs))); break
            else:
                out.append(b); st.pop()
        r = out[::-1]
        for i, b in enumerate(r): b.rpo = i
        fn._cache["rpo"] = r
    return r

def idoms(fn):
    if fn._dom is None:
        order = rpo(fn); idx = {b: i for i, b in enumerate(order)}
        dom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in b.preds:
                    if p in dom:
                        if new is None: new = p
                        else:
                            a, c = p, new
                            while a is not c:
                                while idx[a] > idx[c]: a = dom[a]
                                while idx[c] > idx[a]: c = dom[c]
                            new = a
                if dom.get(b) is not new:
                    dom[b] = new; ch = True
        fn._dom = dom
    return fn._dom

def dominates(a, b):
    """block a dominates block b"""
    d = idoms(a.fn)
    while True:
        if a is b: return True
        n = d.get(b)
        if n is None or n is b: return False
        b = n

def inst_dominates(i, j):
    if i.bb is j.bb: return i.bb.insts.index(i) < j.bb.insts.index(j)
    return dominates(i.bb, j.bb)

def loop_headers(fn):
    r = fn._cache.get("lh")
    if r is None:
        r = set()
        for b in fn.bbs:
            for s in b.succs:
                if dominates(s, b): r.add(s)
        fn._cache["lh"] = r
    return r

def natural_loop(fn, h):
    """blocks of the natural loop with header h"""
    body = {h}
    st = [b for b in h.preds if dominates(h, b)]
    while st:
        b = st.pop()
        if b in body: continue
        body.add(b)
        st += b.preds
    return body

def reach_from(bb, avoid=()):
    seen = set(); st = [bb]
    while st:
        b = st.pop()
        for s in b.succs:
            if s not in seen and s not in avoid:
                seen.add(s); st.append(s)
    return seen

# ---------------------------------------------------------------- access paths
def gep_offset(m, g):
    """(constant byte offset or None, [(struct, field-index) ...])"""
    ty = g.gep_ty; off = 0; fields = []
    idxs = g.ops[1:]
    for k, ix in enumerate(idxs):
        c = ix.signed() if ix.kind == "const" else None
        if k == 0:
            if c is None: off = None
            elif off is not None: off += c * m.sizeof(ty)
            continue
        if ty[0] == "struct":
            fields.append((ty[1], c, ty[3][c]))
            if off is not None: off += ty[3][c]
            ty = ty[2][c]
        elif ty[0] == "array":
            if c is None: off = None
            elif off is not None: off += c * m.sizeof(ty[2])
            fields.append(("[]", c, None))
            ty = ty[2]
    return off, fields

def strip_ptr(v):
    """Look through no-op casts."""
    while v.kind in ("inst", "cexpr") and v.op in ("bitcast", "inttoptr", "ptrtoint", "freeze") and \
            not (v.kind == "inst" and v.ops[0].ty[0] in ("double", "float")):
        v = v.ops[0]
    return v

def apath(m, v, depth=0, acc=False):
    """Access path of an address: (root value, tuple of field names). Root is an Arg, alloca, Global, call, phi or a load
    (whose own address path is followed with '->').  acc: the address is dereferenced as a scalar, so a path that ends at
    a struct field is completed with the names of its first members."""
    v = strip_ptr(v)
    if v.kind in ("inst", "cexpr") and v.op == "gep":
        root, path = apath(m, v.ops[0], depth)
        off, fields = gep_offset(m, v)
        names = []
        for s, i, o in fields:
            if s == "[]": names.append("[]"); continue
            names.append(m.field_name(s, o) if s else "+%d" % o)
        if fields and acc and fields[-1][0] not in ("[]", None):
            names += m.first_fields(fields[-1][0], fields[-1][2])
        if not fields:
            # pointer arithmetic
            if not (v.ops[1].kind == "const" and v.ops[1].val == 0):
                names = ["[]"]
        return root, path + tuple(names)
    if v.kind == "inst" and v.op == "load" and depth < 6:
        root, path = acc_path(m, v, depth + 1)
        if root.kind in ("arg", "global") or (root.kind == "inst" and root.op in ("alloca", "call", "phi")):
            return root, path + ("->",)
    return v, ()

def acc_path(m, i, depth=0):
    """apath of the address accessed by a load or store."""
    a = i.ops[0] if i.op == "load" else i.ops[1]
    root, path = apath(m, a, depth, True)
    if i.tbaa and strip_ptr(a).kind != "cexpr":
        v = strip_ptr(a)
        if not (v.kind == "inst" and v.op == "gep"):
            path = path + (m.field_name(*i.tbaa),)
    return root, path

def acc_class(m, i):
    """Type-based class of the location a load/store accesses."""
    a = i.ops[0] if i.op == "load" else i.ops[1]
    c = field_class(m, a)
    if i.tbaa:
        t = i.tbaa[0].replace("struct.", "")
        # the linker merges structure types of the same shape: the access tag knows the one of the source
        if c is None or c.count(".") == 1 and c.split(".")[0] != t and not _whole(m, a): c = t + "." + m.field_name(*i.tbaa)
    return c

def _whole(m, v):
    """is the address that of a member which is a structure itself?"""
    off, fields = gep_offset(m, strip_ptr(v)) if strip_ptr(v).op == "gep" else (0, [])
    return bool(fields and fields[-1][0] not in ("[]", None, "") and m.first_fields(fields[-1][0], fields[-1][2]))

def field_class(m, v, acc=True):
    """Type-based class of an address: e.g. 'mjs.stack.len', 'mbuf.len', 'pstate.depth', or None."""
    v = strip_ptr(v)
    if not (v.kind in ("inst", "cexpr") and v.op == "gep"):
        return None
    chain = []; last = None
    while v.kind in ("inst", "cexpr") and v.op == "gep":
        off, fields = gep_offset(m, v)
        if last is None: last = fields[-1] if fields else ("", 0, 0)
        names = [(s, m.field_name(s, o) if s else None) for s, i, o in fields]
        chain = [n for n in names if n[0] != "[]"] + chain
        v = strip_ptr(v.ops[0])
    if not chain: return None
    s0 = (chain[0][0] or "anon").replace("struct.", "").replace("union.", "")
    r = s0 + "." + ".".join(n[1] or "?" for n in chain)
    if acc and last[0] not in ("[]", None, ""):
        x = m.first_fields(last[0], last[2])
        if x: r += "." + ".".join(x)
    return r

# ---------------------------------------------------------------- call graph
class CallGraph:
    """Direct calls plus indirect calls resolved by role:
       - void(struct mjs*) function pointers -> registered cfunctions
       - anything else -> all address-taken functions of the same arity that is not a cfunction."""
    def __init__(self, m):
        self.m = m
        self.taken = {}      # fn -> list of user insts / 'global'
        fns = [f for f in m.fns.values() if f.defined]
        for f in fns:
            for i in f.insts():
                for k, o in enumerate(i.ops):
                    self._scan(o, i, k)
        for g in m.globals.values():
            d = m.global_data(g) if g.init_ptr else None
            self._scan_data(d, g)
        self.cfuncs = self._cfuncs()
        self.direct = {f: set() for f in fns}
        self.sites = {}
        for f in fns:
            for i in f.insts():
                if i.op == "call":
                    for t in self.targets(i):
                        self.direct[f].add(t)
                        self.sites.setdefault(t, []).append(i)
        self._reach = {}

    def _scan(self, o, i, k, depth=0):
        if o.kind == "fn":
            if not (i.op == "call" and i.callee is o and False):
                self.taken.setdefault(o, []).append((i, k))
        elif o.kind == "cexpr" and depth < 4:
            for x in o.ops: self._scan(x, i, k, depth + 1)

    def _scan_data(self, d, g):
        if isinstance(d, list):
            for x in d: self._scan_data(x, g)
        elif d is not None and getattr(d, "kind", None) == "fn":
            self.taken.setdefault(d, []).append((g, 0))

    def _cfuncs(self):
        """Functions handed to script as callables: reach mjs_mk_foreign_func / mjs_mk_foreign as constant arg."""
        out = {}
        for f, us in self.taken.items():
            for i, k in us:
                if i.kind == "inst" and i.op == "call" and i.callee.kind == "fn" and \
                        i.callee.name in ("mjs_mk_foreign_func", "mjs_mk_foreign"):
                    out.setdefault(f, []).append(i)
        return out

    def targets(self, call):
        c = strip_ptr(call.callee)
        if c.kind == "fn": return [c]
        if len(call.ops) == 1 and call.ty == ("void",) and call.ops[0].ty == ("ptr",):
            return list(self.cfuncs)
        sig = [o.ty for o in call.ops]
        return [f for f in self.taken if f not in self.cfuncs and f.defined and [a.ty for a in f.args] == sig and f.retty == call.ty]

    def reach(self, f):
        """All functions reachable from f (f included)."""
        r = self._reach.get(f)
        if r is None:
            r = {f}; st = [f]
            while st:
                x = st.pop()
                for t in self.direct.get(x, ()):
                    if t not in r: r.add(t); st.append(t)
            self._reach[f] = r
        return r

    def reaches(self, f, names):
        return any(t.name in names for t in self.reach(f))
