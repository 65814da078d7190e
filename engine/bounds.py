"""Linear bounds of integers and pointers: a goal  e <= 0  (e affine over SSA values) is proved from the comparisons that
dominate the place, from the definitions of the values, and by induction at loop headers.  Unproved is not a violation."""
from fractions import Fraction as F
from flow import strip_ptr, dominates, loop_headers, natural_loop, gep_offset, acc_path, acc_class, rpo
from ir import NEG, SWAP

def lin_add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        c = r.get(x, 0) + c * k
        if c: r[x] = c
        elif x in r: del r[x]
    return r
def lin_scale(a, k): return {x: c * k for x, c in a.items()} if k else {}
def const(c): return {1: F(c)} if c else {}

class Bounds:
    def __init__(self, m, fn, cg=None, fieldinv=None):
        self.m = m; self.fn = fn; self.cg = cg; self.lh = loop_headers(fn); self.P = m.ptrsize * 8
        self.fieldinv = {} if fieldinv is None else fieldinv
        self.proof = {}; self.fcache = {}; self.eq = {}
        self.idx = {b: k for k, b in enumerate(fn.bbs)}
        self.budget = 0; self.argmax = {}; self.argvals = {}

    # ---- affine forms
    def lin(self, v, depth=0):
        v = self.norm(v)
        k = v.kind
        if k == "const": return const(v.signed())
        if k == "null": return {}
        if k in ("arg", "global"): return {v: F(1)}
        if k == "cexpr" and v.op == "gep":
            o, _ = gep_offset(self.m, v)
            return lin_add(self.lin(v.ops[0]), const(o)) if o is not None else {v: F(1)}
        if k != "inst" or depth > 60: return {v: F(1)}
        op = v.op; L = lambda x: self.lin(x, depth + 1)
        if op in ("bitcast", "inttoptr", "ptrtoint", "freeze") and v.ops[0].ty[0] in ("int", "ptr"): return L(v.ops[0])
        if op == "sext": return L(v.ops[0]) if v.ops[0].ty[1] >= 32 else {v: F(1)}
        if op == "call" and v.callee.kind == "fn" and v.callee.name == "strlen":
            g = strip_ptr(v.ops[0])
            while g.kind == "cexpr" and g.op == "gep" and gep_offset(self.m, g)[0] == 0: g = g.ops[0]
            if g.kind == "global" and g.init_ptr:
                d = self.m.global_data(g)
                if isinstance(d, (bytes, bytearray)): return const(len(bytes(d).split(b"\0")[0]))
        if op == "zext" and (v.ops[0].ty[1] >= 32 or v.ops[0].ty[1] > 1): return L(v.ops[0])     # narrow values are taken as unsigned
        if op == "trunc" and v.ty[1] >= 32: return L(v.ops[0])
        if op == "phi" and v.bb not in self.lh and len(v.ops) <= 4:
            # the same value on all ways
            r = self.fcache.get(("phi", v))
            if r is None:
                self.fcache[("phi", v)] = {v: F(1)}
                ls = [L(o) for o in v.ops if o.kind not in ("undef", "poison")]
                r = ls[0] if ls and all(l == ls[0] for l in ls) and all(y == 1 or self.avail(y, v.bb) for y in ls[0]) else {v: F(1)}
                self.fcache[("phi", v)] = r
            return r
        if op == "add": return lin_add(L(v.ops[0]), L(v.ops[1]))
        if op == "sub": return lin_add(L(v.ops[0]), L(v.ops[1]), -1)
        if op == "mul":
            a, b = L(v.ops[0]), L(v.ops[1])
            for x, y in ((a, b), (b, a)):
                if set(x) <= {1}: return lin_scale(y, x.get(1, F(0)))
        if op == "shl" and v.ops[1].kind == "const": return lin_scale(L(v.ops[0]), F(1 << v.ops[1].val))
        if op == "xor" and v.ops[1].kind == "const" and v.ops[1].signed() == -1: return lin_add(const(-1), L(v.ops[0]), -1)
        if op == "gep":
            r = L(v.ops[0]); ty = v.gep_ty
            for k2, ix in enumerate(v.ops[1:]):
                if k2 == 0: r = lin_add(r, lin_scale(L(ix), F(self.m.sizeof(ty)))); continue
                if ty[0] == "struct":
                    c = ix.signed(); r = lin_add(r, const(ty[3][c])); ty = ty[2][c]
                elif ty[0] == "array":
                    r = lin_add(r, lin_scale(L(ix), F(self.m.sizeof(ty[2])))); ty = ty[2]
            return r
        return {v: F(1)}

    def norm(self, v):
        """one representative for loads of the same unmodified place and calls of strlen on the same text"""
        if v.kind != "inst": return v
        r = self.eq.get(v)
        if r is None:
            r = v; self.eq[v] = v
            if v.op == "load": r = self.same_load(v) or v
            elif v.op == "call" and v.callee.kind == "fn" and v.callee.name == "strlen":
                p = self.norm(strip_ptr(v.ops[0]))
                for w in self.fn.calls("strlen"):
                    if w is v: break
                    if self.norm(strip_ptr(w.ops[0])) is p and self.idom(w, v): r = self.norm(w); break
            elif v.op == "sext" and v.ops[0].ty[1] < 32:
                o = self.norm(v.ops[0])
                for w in self.fn.insts():
                    if w is v: break
                    if w.op == "sext" and self.norm(w.ops[0]) is o and self.idom(w, v): r = w; break
            elif v.op in ("bitcast", "freeze") and v.ops[0].kind == "inst" and v.ops[0].op == "load": r = self.norm(v.ops[0])
            self.eq[v] = r
        return r
    def idom(self, a, b):
        if a.bb is b.bb: return a.bb.insts.index(a) < b.bb.insts.index(b)
        return dominates(a.bb, b.bb)

    def writes(self, i, cls, path):
        """may instruction i change the place?"""
        if i.op == "store":
            c = acc_class(self.m, i)
            if c is not None and cls is not None: return c == cls
            if c is not None or cls is not None: return i.ops[0].ty == ("ptr",) and False or (c is None and strip_ptr(i.ops[1]).kind == "inst" and strip_ptr(i.ops[1]).op not in ("alloca",) and i.ops[0].ty[0] != "int")
            return acc_path(self.m, i) == path or strip_ptr(i.ops[1]).kind == "inst" and strip_ptr(i.ops[1]).op != "alloca" and path[0].kind != "inst"
        if i.op == "call" and i.callee.kind == "fn":
            n = i.callee.name
            if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime") or n in PURE: return False
            if n.startswith("llvm.mem") or n in ("memcpy", "memmove", "memset"):
                root, p = acc_path_of(self.m, i.ops[0])
                return root is path[0] and (not p or not path[1] or p == path[1][:len(p)])
            if path[0].kind == "inst" and path[0].op == "alloca" and not any(strip_ptr(o) is path[0] or base_of(o) is path[0] for o in i.ops) and not self.escapes(path[0]): return False
            if i.callee.defined and self.cg is not None and cls is not None: return cls in self.wclasses(i.callee)
            if not i.callee.defined: return any(base_of(o) is path[0] for o in i.ops) if cls is None or n in ("vsnprintf",) else any(base_of(o) is path[0] and o.ty == ("ptr",) for o in i.ops) and path[0].kind == "inst" and path[0].op == "alloca"
            return True
        if i.op == "call": return not (path[0].kind == "inst" and path[0].op == "alloca" and not self.escapes(path[0]))
        return False
    def escapes(self, al):
        k = ("esc", al); r = self.fcache.get(k)
        if r is None:
            r = False; work = [al]; seen = set()
            users = self.users()
            while work:
                x = work.pop()
                if x in seen: continue
                seen.add(x)
                for u in users.get(x, ()):
                    if u.op in ("gep", "bitcast", "phi", "select"): work.append(u)
                    elif u.op == "store" and u.ops[0] is x: r = True
            self.fcache[k] = r
        return r
    def users(self):
        u = self.fcache.get("users")
        if u is None:
            u = {}
            for i in self.fn.insts():
                for o in i.ops: u.setdefault(o, []).append(i)
            self.fcache["users"] = u
        return u
    def wclasses(self, f):
        c = self.m.__dict__.setdefault("_wcls", {})
        r = c.get(f)
        if r is None:
            r = set()
            for g in self.cg.reach(f):
                if not g.defined: continue
                for i in g.insts():
                    if i.op == "store":
                        k = acc_class(self.m, i)
                        if k: r.add(k)
            c[f] = r
        return r

    def same_load(self, v):
        """an earlier load from the same place, or the value stored there last, with nothing in between that may change it"""
        path = acc_path(self.m, v); cls = acc_class(self.m, v)
        if not path[1] and not (path[0].kind == "inst" and path[0].op == "alloca"): 
            if cls is None and path[0].kind not in ("global",): pass
        cands = []
        for w in self.fn.insts():
            if w is v or w.op not in ("load", "store"): continue
            if (w.ty if w.op == "load" else w.ops[0].ty) != v.ty: continue
            if acc_path(self.m, w) == path and self.sameaddr(w, v) and self.idom(w, v): cands.append(w)
        # nearest first
        cands.sort(key=lambda w: (self.depth(w.bb), w.bb.insts.index(w)), reverse=True)
        for w in cands[:3]:
            if not self.between(w, v, cls, path):
                if w.op == "store": return self.norm(w.ops[0]) if w.ops[0].kind == "inst" else w.ops[0]
                return self.norm(w)
        return None
    def sameaddr(self, w, v):
        a = w.ops[0] if w.op == "load" else w.ops[1]; b = v.ops[0]
        x, y = strip_ptr(a), strip_ptr(b)
        if x is y: return True
        if x.kind == "inst" and y.kind == "inst" and x.op == y.op == "gep":
            return self.lin(x) == self.lin(y)
        return False
    def depth(self, b):
        d = 0
        from flow import idoms
        id = idoms(self.fn)
        while b is not None and id.get(b) is not None and id[b] is not b: b = id[b]; d += 1
        return d
    def between(self, w, v, cls, path):
        """is there an instruction on a way from w to v that may change the place?"""
        if w.bb is v.bb and w.bb.insts.index(w) < v.bb.insts.index(v):
            k = w.bb.insts.index(w); l = v.bb.insts.index(v)
            return any(self.writes(i, cls, path) for i in w.bb.insts[k + 1:l])
        for i in v.bb.insts[:v.bb.insts.index(v)]:
            if self.writes(i, cls, path): return True
        seen = set(); work = list(v.bb.preds)
        while work:
            b = work.pop()
            if b in seen: continue
            seen.add(b)
            if b is w.bb:
                if any(self.writes(i, cls, path) for i in b.insts[b.insts.index(w) + 1:]): return True
                continue
            if any(self.writes(i, cls, path) for i in b.insts): return True
            work += b.preds
        return False

    # ---- facts: list of affine L with L <= 0
    def cond(self, v, val, out, depth=0):
        v = strip_ptr(v) if v.kind == "inst" and v.op == "freeze" else v
        if v.kind != "inst" or depth > 6: return
        if v.op == "icmp":
            p = v.pred if val else NEG[v.pred]; a, b = v.ops
            if a.ty[0] == "int" and a.ty[1] < 32 and p[0] == "s": return
            if a.kind == "inst" and a.op in ("zext",) and a.ops[0].ty == ("int", 1) and b.kind == "const" and p in ("eq", "ne"):
                return self.cond(a.ops[0], (b.val != 0) == (p == "eq"), out, depth + 1)
            la, lb = self.lin(a), self.lin(b); d = lin_add(la, lb, -1)
            if p == "eq": out.append(d); out.append(lin_scale(d, F(-1)))
            elif p in ("slt", "ult"): out.append(lin_add(d, const(1)))
            elif p in ("sle", "ule"): out.append(d)
            elif p in ("sgt", "ugt"): out.append(lin_add(lin_scale(d, F(-1)), const(1)))
            elif p in ("sge", "uge"): out.append(lin_scale(d, F(-1)))
            elif p == "ne" and b.kind in ("const", "null") and (b.kind == "null" or b.val == 0):
                if self.nonneg(a): out.append(lin_add(lin_scale(la, F(-1)), const(1)))
            if p in ("ult", "ule") and b.kind == "const" and b.signed() >= 0: out.append(lin_scale(la, F(-1)))
            return
        if v.op == "xor" and v.ops[1].kind == "const": return self.cond(v.ops[0], val != bool(v.ops[1].val & 1), out, depth + 1)
        if v.op == "and" and val or v.op == "or" and not val:
            for o in v.ops: self.cond(o, val, out, depth + 1)
        if v.op == "phi" and v.ty == ("int", 1):
            # a && b, a || b: the ways on which the value is the wanted one
            ways = [(o, pb) for o, pb in zip(v.ops, v.phi_bbs) if not (o.kind == "const" and bool(o.val & 1) != val)]
            if len(ways) == 1:
                o, pb = ways[0]
                out += self.edge_facts(pb, v.bb)
                if o.kind != "const": self.cond(o, val, out, depth + 1)
    def nonneg(self, v, depth=0):
        """known never to be negative"""
        v = self.norm(v)
        if v.kind == "const": return v.signed() >= 0
        if v.kind == "arg": return self.uarg(v)
        if v.kind != "inst" or depth > 6: return False
        if v.op == "zext": return True
        if v.op in ("udiv", "lshr", "and") : return v.op != "and" or any(self.nonneg(o, depth + 1) for o in v.ops)
        if v.op == "urem": return True
        if v.op == "call" and v.callee.kind == "fn" and v.callee.name in ("strlen", "strspn", "strcspn", "fread"): return True
        if v.op in ("sext", "trunc", "freeze"): return self.nonneg(v.ops[0], depth + 1)
        if v.op in ("add", "mul"): return all(self.nonneg(o, depth + 1) for o in v.ops)
        if v.op == "load": return self.unsigned_load(v)
        return False
    def uarg(self, v):
        """a parameter that is declared without sign"""
        if v.ty[0] != "int" or v not in self.fn.args: return False
        sg = self.m.sig(self.fn.name) or []
        return len(sg) == len(self.fn.args) + 1 and sg[self.fn.args.index(v) + 1] in ("size_t", "unsigned long", "unsigned int", "unsigned char", "unsigned short")
    def unsigned_load(self, v):
        c = acc_class(self.m, v)
        return c in self.fieldinv and self.fieldinv[c][0] is not None and self.fieldinv[c][0] >= 0
    def edge_facts(self, a, b):
        out = list(self.facts(a))
        t = a.term
        self.edge1(t, b, out)
        return out
    def edge1(self, t, b, out):
        if t.op == "br" and len(t.bb.succs) == 2 and t.bb.succs[0] is not t.bb.succs[1]:
            self.cond(t.ops[0], t.bb.succs[0] is b, out)
        elif t.op == "switch":
            vals = [c for c, s in t.cases if s is b] if t.cases and isinstance(t.cases[0], tuple) else []
            if len(vals) == 1 and t.default is not b:
                c = vals[0]; c = c.signed() if hasattr(c, "signed") else c
                d = lin_add(self.lin(t.ops[0]), const(c), -1); out.append(d); out.append(lin_scale(d, F(-1)))
    def facts(self, b):
        """facts that hold at the beginning of block b"""
        r = self.fcache.get(b)
        if r is None:
            self.fcache[b] = []
            out = []
            from flow import idoms
            ps = [p for p in b.preds]
            if len(ps) == 1:
                out = self.edge_facts(ps[0], b)
            elif ps:
                d = idoms(self.fn).get(b)
                if d is not None and d is not b: out = list(self.facts(d))
            self.fcache[b] = r = out
        return r

    # ---- bounds that come with a value
    def own(self, v):
        """affine L <= 0 that hold wherever v is defined"""
        out = []; me = {v: F(1)}; neg = {v: F(-1)}
        if v.ty[0] == "int" and 1 < v.ty[1] < 32: out += [neg, lin_add(me, const(-((1 << v.ty[1]) - 1)))]
        if v.kind == "arg" and self.uarg(v): out.append(neg)
        if v.kind == "arg" and v in self.argmax: out.append(lin_add(me, const(-self.argmax[v])))
        if v.kind == "inst":
            op = v.op
            if op == "zext":
                w = v.ops[0].ty[1]
                out += [neg, lin_add(me, const(-((1 << w) - 1)))]
            elif op == "and":
                for o in v.ops:
                    if o.kind == "const" and o.signed() >= 0: out += [neg, lin_add(me, const(-o.signed()))]
            elif op == "urem" and v.ops[1].kind == "const": out += [neg, lin_add(me, const(-(v.ops[1].val - 1)))]
            elif op == "srem" and v.ops[1].kind == "const":
                c = abs(v.ops[1].signed()) - 1; out += [lin_add(me, const(-c)), lin_add(neg, const(-c)) if not self.nonneg(v.ops[0]) else neg]
            elif op == "sext" and self.norm(v.ops[0]).kind == "inst":
                x = self.norm(v.ops[0])
                if x.op == "load" and acc_class(self.m, x) in self.fieldinv:
                    lo, hi = self.fieldinv[acc_class(self.m, x)]
                    if lo is not None: out.append(lin_add(neg, const(lo)))
                    if hi is not None: out.append(lin_add(me, const(-hi)))
            elif op == "lshr" and v.ops[1].kind == "const" and v.ty[0] == "int":
                out += [neg, lin_add(me, const(-((1 << (v.ty[1] - v.ops[1].val)) - 1)))]
            elif op == "trunc" and v.ty[0] == "int": pass
            elif op in ("udiv", "sdiv") and v.ops[1].kind == "const" and v.ops[1].signed() > 0:
                c = v.ops[1].signed(); a = self.lin(v.ops[0])
                out += [lin_add(lin_scale(me, F(c)), a, -1)] if self.nonneg(v.ops[0]) or op == "udiv" else []
                if op == "udiv": out.append(neg)
            elif op == "call" and v.callee.kind == "fn" and v.callee.name in ("strlen", "strspn", "strcspn"): out.append(neg)
            elif op == "load":
                c = acc_class(self.m, v)
                if c in self.fieldinv:
                    lo, hi = self.fieldinv[c]
                    if lo is not None: out.append(lin_add(neg, const(lo)))
                    if hi is not None: out.append(lin_add(me, const(-hi)))
            elif op == "call" and v.callee.kind == "fn" and v.callee.name in ("fread",) and len(v.ops) >= 3:
                out.append(lin_add(me, self.lin(v.ops[2]), -1)); out.append(neg)
        return out

    # ---- the prover
    def prove(self, e, b, depth=7, hyps=(), seen=frozenset(), extra=()):
        """e <= 0 at the beginning of b (values of e defined there or before)"""
        self.budget = 4000
        return self._prove(e, b, depth, tuple(hyps), seen, list(extra))
    def key(self, e): return frozenset(e.items())
    def _prove(self, e, b, depth, hyps, seen, extra):
        e = {x: c for x, c in e.items() if c}
        if set(e) <= {1}: return e.get(1, 0) <= 0
        if depth <= 0 or self.budget <= 0: return False
        self.budget -= 1
        k = (self.key(e), b)
        if k in seen: return False
        seen = seen | {k}
        fs = self.facts(b) + list(hyps) + extra
        # direct: e - L constant <= 0
        for L in fs:
            d = lin_add(e, L, -1)
            if set(d) <= {1} and d.get(1, 0) <= 0: return True
        atoms = [x for x in e if x != 1]
        # own bounds
        for x in atoms:
            for L in self.own(x):
                if x in L and (L[x] > 0) == (e[x] > 0):
                    if self._prove(lin_add(e, L, -(e[x] / L[x])), b, depth - 1, hyps, seen, extra): return True
        # comparisons on the way
        for x in atoms:
            for L in fs:
                if x in L and (L[x] > 0) == (e[x] > 0):
                    d = lin_add(e, L, -(e[x] / L[x]))
                    if len(d) > len(e) + 1: continue
                    if self._prove(d, b, depth - 1, hyps, seen, extra): return True
        # definitions
        for x in sorted((x for x in atoms if x.kind == "inst" and x.op in ("phi", "select")), key=lambda x: -self.idx[x.bb]):
            if x.op == "select":
                ok = True
                ck = self.ckey(x.ops[0])
                for val, o in ((True, x.ops[1]), (False, x.ops[2])):
                    if ck is not None and self.conds(b).get(ck[0], val == ck[1]) != (val == ck[1]): continue
                    fx = []; self.cond(x.ops[0], val, fx)
                    if not self._prove(lin_add(lin_add(e, {x: -e[x]}), self.lin(o), e[x]), b, depth - 1, hyps, seen, extra + fx): ok = False; break
                if ok: return True
                continue
            if not dominates(x.bb, b): continue
            if x.bb in self.lh:
                if self.induct(e, x.bb, depth, hyps, seen): return True
                # two counters that move against each other
                if e[x] > 0 and depth > 2:
                    for y in x.bb.phis():
                        if y is x or y.ty[0] not in ("int", "ptr") or y.ty == ("int", 1): continue
                        L = self.against(x, y)
                        if L is not None and self._prove(lin_add(e, L, -e[x]), b, depth - 2, hyps, seen, extra): return True
            else:
                # every way into the block where the value is chosen; other values of the goal must be defined before it
                if not all(y == 1 or self.avail(y, x.bb) for y in e): continue
                here = self.conds(b)
                if all(any(here.get(k2, v2) != v2 for k2, v2 in self.conds_edge(pb, x.bb).items() if self.stable(k2, x.bb)) or
                       self._prove(self.subst_phis(e, x.bb, pb), pb, depth if len(x.phi_bbs) > 0 else depth, hyps, seen, self.edge_only(pb, x.bb)) for pb in x.bb.preds): return True
        return False
    def ckey(self, c):
        """(key, polarity) of a condition"""
        if c.kind != "inst" or c.op != "icmp": return None
        a, b = (self.norm(o) if o.kind == "inst" else o for o in c.ops); p = c.pred; pol = True
        if p in ("ne", "uge", "ugt", "sge", "sgt"): p = NEG[p]; pol = False
        f = lambda o: ("c", o.val) if o.kind == "const" else ("c", 0) if o.kind == "null" else o
        return ((p, f(a), f(b)), pol)
    def stable(self, k, bb): return all(isinstance(o, tuple) or o.kind != "inst" or dominates(o.bb, bb) and o.bb is not bb for o in k[1:])
    def conds(self, b):
        """outcomes of the comparisons that dominate block b"""
        r = self.fcache.get(("conds", b))
        if r is None:
            from flow import idoms
            self.fcache[("conds", b)] = {}
            r = {}
            if len(b.preds) == 1:
                p = b.preds[0]; r = dict(self.conds(p)); t = p.term
                if t.op == "br" and len(p.succs) == 2 and p.succs[0] is not p.succs[1]:
                    k = self.ckey(t.ops[0])
                    if k is not None: r[k[0]] = (p.succs[0] is b) == k[1]
            elif b.preds:
                d = idoms(self.fn).get(b)
                if d is not None and d is not b: r = dict(self.conds(d))
            self.fcache[("conds", b)] = r
        return r
    def conds_edge(self, a, b):
        r = self.conds(a); t = a.term
        if t.op == "br" and len(a.succs) == 2 and a.succs[0] is not a.succs[1]:
            k = self.ckey(t.ops[0])
            if k is not None: r = dict(r); r[k[0]] = (a.succs[0] is b) == k[1]
        return r
    def edge_only(self, a, b):
        out = []; self.edge1(a.term, b, out); return out
    def avail(self, y, b):
        return y.kind != "inst" or dominates(y.bb, b) and (y.bb is not b or y.op == "phi")
    def subst_phis(self, e, h, pb):
        r = {}
        for x, c in e.items():
            if x != 1 and x.kind == "inst" and x.op == "phi" and x.bb is h:
                o = next((o for o, q in zip(x.ops, x.phi_bbs) if q is pb), None)
                r = lin_add(r, self.lin(o) if o is not None and o.kind not in ("undef", "poison") else {x: F(1)}, c)
            else: r = lin_add(r, {x: c})
        return r
    def induct(self, e, h, depth, hyps, seen):
        """e <= 0 whenever control is at the loop header h"""
        if not all(y == 1 or self.avail(y, h) for y in e): return False
        k = ("ind", self.key(e), h)
        if k in self.proof: return self.proof[k]
        if k in seen: return False
        seen = seen | {k}
        r = self.rounds(h)
        if r is not None and self.counted(e, h, r, depth, hyps, seen):
            if not hyps: self.proof[k] = True
            return True
        body = natural_loop(self.fn, h)
        for pb in h.preds:
            inside = pb in body
            g = self.subst_phis(e, h, pb)
            hy = hyps + (e,) if inside else hyps
            if not self._prove(g, pb, depth - 1, hy, seen, self.edge_only(pb, h)): return False
        if not hyps: self.proof[k] = True
        return True
    def against(self, x, y):
        """x + y keeps the value it had before the loop: the form that is <= 0 then"""
        k = ("against", x, y)
        if k in self.fcache: return self.fcache[k]
        self.fcache[k] = None
        h = x.bb; body = natural_loop(self.fn, h); outs = [p for p in h.preds if p not in body]
        if len(outs) != 1: return None
        s = {x: F(1), y: F(1)}; ini = self.subst_phis(s, h, outs[0])
        if any(z != 1 and not self.avail(z, h) for z in ini): return None
        L = lin_add(s, ini, -1)
        b = self.budget; self.budget = 300
        r = self.induct(L, h, 5, (), frozenset())
        self.budget = b
        if r: self.fcache[k] = L
        return self.fcache[k]
    def counted(self, e, h, r, depth, hyps, seen):
        """the goal holds at the header because its values grow by a constant in each of at most r rounds"""
        body = natural_loop(self.fn, h)
        ins = [p for p in h.preds if p in body]; outs = [p for p in h.preds if p not in body]
        step = lin_add(self.subst_phis(e, h, ins[0]), e, -1)
        if not set(step) <= {1}: return False
        d = step.get(1, F(0))
        return all(self._prove(lin_add(self.subst_phis(e, h, p), const(max(d, 0) * (r - 1))), p, depth - 1, hyps, seen, self.edge_only(p, h)) for p in outs)
    def rounds(self, h):
        """greatest number of times the header of the loop is entered, when a value is divided by a constant in every round and the loop ends when it is used up"""
        body = natural_loop(self.fn, h); ins = [p for p in h.preds if p in body]
        if len(ins) != 1: return None
        t = ins[0].term
        for x in h.phis():
            n = next((o for o, q in zip(x.ops, x.phi_bbs) if q is ins[0]), None)
            if n is None or n.kind != "inst" or n.op not in ("sdiv", "udiv") or n.ops[0] is not x: continue
            c = n.ops[1]
            while c.kind == "inst" and c.op in ("sext", "zext", "trunc", "freeze"): c = c.ops[0]
            cs = [c] if c.kind == "const" else list(self.argvals.get(c, ())) if c.kind == "arg" else []
            cs = [z.signed() for z in cs]
            if not cs or min(cs) < 2: continue
            fs = self.edge_only(ins[0], h) if t.op == "br" else []
            # the way back is taken only with a value of at least 1
            if any(lin_add(L, {n: F(1)}).get(n, 0) == 0 and set(lin_add(L, {n: F(1)})) <= {1} and lin_add(L, {n: F(1)}).get(1, 0) >= 1 for L in fs):
                w = x.ty[1]; r = 0; v = (1 << w) - 1 if n.op == "udiv" else (1 << (w - 1))
                while v > 0: v //= min(cs); r += 1
                return r
        return None

def op_of(v): return v.op if v.kind == "inst" else None
PURE = {"strlen", "strcmp", "strncmp", "memcmp", "bcmp", "strchr", "strrchr", "strspn", "strcspn", "isdigit", "isalpha", "isspace", "tolower", "toupper", "malloc", "calloc", "abort", "__assert_fail", "strtol", "atoi", "__errno_location", "__ctype_b_loc"}
def base_of(v, depth=0):
    v = strip_ptr(v)
    while v.kind in ("inst", "cexpr") and v.op == "gep": v = strip_ptr(v.ops[0])
    return v
def acc_path_of(m, a):
    from flow import apath
    return apath(m, a)
