"""Path-sensitive abstract interpreter (disjunctive constant/range/nullness domain + rule typestate).

Every feasible-looking path of one function is followed over its CFG; states that agree on everything a later
branch, load or rule can see are merged, loop-carried arithmetic is widened.  No solver, no execution."""
from flow import strip_ptr, gep_offset, field_class, acc_class, loop_headers, rpo, dominates
from build import AnalysisBroken
from ir import NEG, SWAP

def mask(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v
U = ("u",)
TOP = (None, None, frozenset())

def width(ty, m):
    return ty[1] if ty[0] == "int" else (m.ptrsize * 8 if ty[0] == "ptr" else 64)

class State:
    __slots__ = ("env", "mem", "facts", "rel", "ts", "trail")
    def __init__(self, env=None, mem=None, facts=None, rel=None, ts=None, trail=None):
        self.env = env if env is not None else {}
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.rel = rel if rel is not None else frozenset()
        self.ts = ts; self.trail = trail
    def copy(self):
        return State(dict(self.env), dict(self.mem), dict(self.facts), self.rel, self.ts, self.trail)
    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.facts.items()), self.rel, self.ts)

def term_syms(t, out):
    if isinstance(t, tuple):
        if t and t[0] == "v": out.add(t)
        for x in t[1:]:
            if isinstance(x, tuple): term_syms(x, out)

def tsize(t): return 1 + sum(tsize(x) for x in t) if isinstance(t, tuple) else 1

def subst(t, a, b):
    if t == a: return b
    if isinstance(t, tuple) and len(t) > 1:
        n = tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
        return n
    return t

def mentions(t, a):
    if t == a: return True
    if isinstance(t, tuple):
        for x in t[1:]:
            if isinstance(x, tuple) and mentions(x, a): return True
    return False

class Rule:
    """Override the hooks. ts is a hashable typestate."""
    unroll = False                 # loop counters with known values are not widened (finite concrete domains only)
    opterms = False                # arithmetic, floating and comparison operations nobody interprets become ("op", what, width, operands)
    truncs = False                 # ... conversions to narrow integers too
    noalias = False                # all addresses are known and distinct
    num_terms = False              # keep int<->double conversions and multiplications by constants as terms
    track_classes = ()             # field classes whose memory content is tracked ('mjs.error', ...) ; allocas always
    widen = (150, 400, 800)        # states per block after which facts / constants / everything is forgotten
    def keep_fact(self, t): return False          # ... except these facts
    def keep_mem(self, k, v): return False        # ... and these memory cells
    def keep_env(self, v): return False           # ... and values of this form
    def keep_int(self, ex, inst): return False    # ... and the known value of this instruction
    def track(self, cls): return cls in self.track_classes
    def track_loc(self, lc): return False
    def init(self, ex): return None
    def binop(self, ex, st, i, op, a, b, w): return None
    def forget(self, st, head, phi): return False  # with unroll: forget the value this counter has in the next round
    def nonzero(self, t): return False            # is the value of this term known not to be zero
    def call(self, ex, st, i, args):
        """Return None (default: opaque result, clobber) or list of (state, result term)."""
        return None
    def store(self, ex, st, i, addr, cls, val): pass
    def load(self, ex, st, i, addr, cls, res): pass
    def inst(self, ex, st, i): pass
    def ret(self, ex, st, i, val): pass
    def unreachable(self, ex, st, i): pass
    def edge(self, ex, st, frm, to): return True
    def cast(self, ex, st, i, t): return None     # term of an integer<->floating or floating<->floating conversion
    def clobbers(self, ex, i, cls): return True   # may this call write a location of class cls?

class Explorer:
    MAXSTATES = 60000
    def __init__(self, m, fn, rule, cg=None):
        self.m = m; self.fn = fn; self.rule = rule; self.cg = cg
        self.reports = []; self._rep = set()
        self.visited_states = 0
        self.paths_ended = 0
        self._live()
        self.lh = loop_headers(fn)

    def report(self, inst, msg, st=None):
        k = (inst, msg)
        if k in self._rep: return
        self._rep.add(k)
        self.reports.append((inst, msg, self.trail(st) if st else []))

    def trail(self, st):
        out = []; t = st.trail
        while t:
            out.append(t[0]); t = t[1]
        return out[::-1]

    # ---- liveness of SSA values (block level)
    def _live(self):
        fn = self.fn
        c = fn._cache.get("live")
        if c is None:
            use = {}; deff = {}
            for b in fn.bbs:
                u = set(); d = set()
                for i in b.insts:
                    if i.op != "phi":
                        for o in i.ops:
                            if o.kind == "inst" and o not in d: u.add(o)
                        if i.op == "call" and i.callee.kind == "inst" and i.callee not in d: u.add(i.callee)
                    d.add(i)
                use[b] = u; deff[b] = d
            live = {b: set() for b in fn.bbs}
            ch = True
            order = rpo(fn)[::-1]
            while ch:
                ch = False
                for b in order:
                    out = set()
                    for s in b.succs:
                        out |= live[s]
                        for ph in s.phis():
                            for v, pb in zip(ph.ops, ph.phi_bbs):
                                if pb is b and v.kind == "inst": out.add(v)
                    # phi defs are live-in consumers handled on edges
                    n = use[b] | (out - deff[b])
                    if n != live[b]: live[b] = n; ch = True
            c = fn._cache["live"] = live
        self.live = c

    # ---- terms
    def t(self, st, v):
        k = v.kind
        if k == "const": return v.val
        if k == "null": return 0
        if k == "inst":
            r = st.env.get(v)
            return r if r is not None else ("v", v)
        if k == "arg":
            r = st.env.get(v)
            return r if r is not None else ("v", v)
        if k == "global": return ("g", v.name)
        if k == "fn": return ("f", v.name)
        if k == "fconst": return ("fc", v.val)
        if k == "cexpr":
            if v.op == "gep":
                off, _ = gep_offset(self.m, v)
                return self.padd(self.t(st, v.ops[0]), off) if off is not None else ("v", v)
            if v.op in ("bitcast", "inttoptr", "ptrtoint"): return self.t(st, v.ops[0])
            return ("x", repr(v))
        return U

    def padd(self, t, off):
        if off == 0: return t
        if isinstance(t, tuple) and t[0] == "a":
            return self.padd(t[1], t[2] + off)
        if isinstance(t, int): return t + off
        return ("a", t, off)

    def loc(self, t):
        if isinstance(t, tuple) and t[0] == "a": return (t[1], t[2])
        return (t, 0)

    # ---- facts
    def rng(self, st, t):
        if isinstance(t, int): return (t, t, frozenset())
        return st.facts.get(t, TOP)

    def decide(self, st, pred, a, b, w):
        """True/False/None for icmp pred a, b"""
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "u" and pred not in ("une",): x, y = a & mask(w), b & mask(w)
            elif pred in ("eq", "ne"): x, y = a & mask(w), b & mask(w)
            else: x, y = sgn(a & mask(w), w), sgn(b & mask(w), w)
            p = pred[-2:]
            return {"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[p]
        if a == b and a != U:
            return pred in ("eq", "uge", "ule", "sge", "sle")
        if isinstance(a, int): return self.decide(st, SWAP[pred], b, a, w)
        if isinstance(b, int):
            if b == 0 and pred in ("eq", "ne", "ugt") and isinstance(a, tuple) and self.rule.nonzero(a): return pred != "eq"
            if isinstance(a, tuple) and a[0] in ("al", "g", "f", "h") or (isinstance(a, tuple) and a[0] == "a" and a[1][0] in ("al", "g", "h")):
                if b == 0: return {"eq": False, "ne": True, "ugt": True}.get(pred)
                return None
            if isinstance(a, tuple) and a[0] == "cmp":
                r = None
                if pred in ("eq", "ne") and b in (0, 1):
                    r = self.decide_cmp(st, a)
                    if r is None: return None
                    return (int(r) == b) == (pred == "eq")
                return None
            if isinstance(a, tuple) and a[0] in ("tv", "tvm", "pl"):
                return tv_decide(pred, a, b, w)
            if isinstance(a, tuple) and a[0] in ("|", "&") and pred in ("eq", "ne"):
                z, o = known_bits(a, w)
                if o & ~b & mask(w) or z & b: return pred == "ne"
            if isinstance(a, tuple) and a[0] == "+":
                if pred in ("eq", "ne"):
                    return self.decide(st, pred, a[1], (b - a[2]) & mask(w), w)
                bs = sgn(b & mask(w), w)
                return self.decide(st, pred, a[1], (bs - a[2]) & mask(w), w) if pred[0] == "s" else None
            if isinstance(a, tuple) and a[0] == "a" and b == 0 and pred in ("eq", "ne"):
                # base + nonzero field offset: non-null when the base is
                d = self.decide(st, "ne", a[1], 0, w)
                if d is True: return pred == "ne"
                return None
            lo, hi, ne = self.rng(st, a)
            bs = sgn(b & mask(w), w)
            if pred in ("eq", "ne"):
                if bs in ne or (lo is not None and bs < lo) or (hi is not None and bs > hi): return pred == "ne"
                if lo is not None and lo == hi == bs: return pred == "eq"
                return None
            if pred[0] == "u":
                if lo is None or lo < 0 or bs < 0:
                    if pred == "ugt" and bs == 0 and 0 in ne: return True
                    if pred == "uge" and bs == 1 and 0 in ne: return True
                    if pred == "ult" and bs == 1 and 0 in ne: return False
                    if pred == "ule" and bs == 0 and 0 in ne: return False
                    return None
            p = pred[-2:]
            if p == "lt":
                if hi is not None and hi < bs: return True
                if lo is not None and lo >= bs: return False
            elif p == "le":
                if hi is not None and hi <= bs: return True
                if lo is not None and lo > bs: return False
            elif p == "gt":
                if lo is not None and lo > bs: return True
                if hi is not None and hi <= bs: return False
            elif p == "ge":
                if lo is not None and lo >= bs: return True
                if hi is not None and hi < bs: return False
            return None
        # both symbolic
        if pred in ("eq", "ne") and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "tv" and a[1] != b[1]: return pred == "ne"
        if (pred, a, b) in st.rel: return True
        if (NEG[pred], a, b) in st.rel: return False
        for q in IMPLIED.get(pred, ()):
            if (q, a, b) in st.rel: return True
        for q in IMPLIED.get(NEG[pred], ()):
            if (q, a, b) in st.rel: return False
        return None

    def decide_cmp(self, st, c):
        _, pred, a, b, w = c
        return self.decide(st, pred, a, b, w)

    def assume(self, st, pred, a, b, w):
        """Refine st (mutates). False if infeasible."""
        d = self.decide(st, pred, a, b, w)
        if d is False: return False
        if d is True: return True
        if isinstance(a, int): a, b, pred = b, a, SWAP[pred]
        if isinstance(b, int):
            if isinstance(a, tuple) and a[0] == "cmp" and pred in ("eq", "ne") and b in (0, 1):
                want = (b == 1) == (pred == "eq")
                p = a[1] if want else NEG[a[1]]
                return self.assume(st, p, a[2], a[3], a[4])
            bs = sgn(b & mask(w), w)
            if isinstance(a, tuple) and a[0] == "+":
                if pred in ("eq", "ne") or pred[0] == "s":
                    return self.assume(st, pred, a[1], (bs - a[2]) & mask(w), w)
                return True
            lo, hi, ne = self.rng(st, a)
            p = pred
            if p == "eq": lo = hi = bs; ne = frozenset()
            elif p == "ne":
                ne = ne | {bs}
                if lo is not None and lo == bs: lo += 1
                if hi is not None and hi == bs: hi -= 1
                if len(ne) > 64: ne = frozenset(list(ne)[:64])
            elif p[0] == "s" or (bs >= 0 and (p in ("ult", "ule") or (lo is not None and lo >= 0))):
                q = p[1:]
                if p[0] == "u" and p in ("ult", "ule") and (lo is None or lo < 0): lo = 0
                if q == "lt": hi = bs - 1 if hi is None else min(hi, bs - 1)
                elif q == "le": hi = bs if hi is None else min(hi, bs)
                elif q == "gt": lo = bs + 1 if lo is None else max(lo, bs + 1)
                elif q == "ge": lo = bs if lo is None else max(lo, bs)
            elif p == "ugt" and bs == 0: ne = ne | {0}
            if lo is not None and hi is not None and lo > hi: return False
            st.facts[a] = (lo, hi, ne)
            return True
        if a == U or b == U: return True
        st.rel = st.rel | {(pred, a, b)}
        if len(st.rel) > 40: st.rel = frozenset(list(st.rel)[-30:])
        return True

    def assume_bool(self, st, t, val):
        if isinstance(t, int): return bool(t & 1) == val
        if isinstance(t, tuple) and t[0] == "cmp":
            _, p, a, b, w = t
            return self.assume(st, p if val else NEG[p], a, b, w)
        return self.assume(st, "ne" if val else "eq", t, 0, 1)

    # ---- redefinition of a symbol
    def redefine(self, st, inst):
        self.redefine_sym(st, ("v", inst), ("v", inst, "old"), inst)

    def renew(self, st, sym):
        """A fresh value takes the name of the extra symbol ("v", inst, tag); the previous one becomes 'old'."""
        self.redefine_sym(st, sym, sym + ("old",), None)

    def redefine_sym(self, st, a, old, inst):
        ment = False
        for d in (st.env, ):
            for k, x in d.items():
                if x is not None and isinstance(x, tuple) and k is not inst and mentions(x, a): ment = True; break
        if not ment:
            for k, x in st.mem.items():
                if mentions(k[0], a) or (isinstance(x[0], tuple) and mentions(x[0], a)): ment = True; break
        if not ment:
            for k in st.facts:
                if mentions(k, a): ment = True; break
        if not ment:
            for r in st.rel:
                if mentions(r[1], a) or mentions(r[2], a): ment = True; break
        tsub = getattr(self.rule, "subst_ts", None)
        if tsub:
            if not ment:
                ext = getattr(self.rule, "ts_syms", None)
                if ext: ment = any(isinstance(t, tuple) and mentions(t, a) for t in ext(st.ts))
            st.ts = tsub(st.ts, a, old)
        if not ment: return
        # forget the older generation, rename the current one
        for d in (st.env,):
            for k, v in list(d.items()):
                if isinstance(v, tuple) and mentions(v, old): d[k] = ("v", k) if k.kind == "inst" and k is not inst else U
        st.mem = {k: v for k, v in st.mem.items() if not (isinstance(v[0], tuple) and mentions(v[0], old))}
        st.facts = {k: v for k, v in st.facts.items() if not mentions(k, old)}
        st.rel = frozenset(r for r in st.rel if not (mentions(r[1], old) or mentions(r[2], old)))
        st.mem = {k: v for k, v in st.mem.items() if not mentions(k[0], old)}
        st.env = {k: (subst(v, a, old) if isinstance(v, tuple) else v) for k, v in st.env.items()}
        st.mem = {(subst(k[0], a, old), k[1]): ((subst(v[0], a, old) if isinstance(v[0], tuple) else v[0]), v[1]) for k, v in st.mem.items()}
        st.facts = {subst(k, a, old): v for k, v in st.facts.items()}
        st.rel = frozenset((p, subst(x, a, old), subst(y, a, old)) for p, x, y in st.rel)

    # ---- main loop
    def run(self, init=None, start=None):
        st = init or State()
        if st.ts is None: st.ts = self.rule.init(self)
        work = [(start or self.fn.entry, st)]
        seen = {}
        counts = {}
        n = 0
        while work:
            b, st = work.pop()
            n += 1
            if n > self.MAXSTATES:
                raise AnalysisBroken("state budget exceeded in %s" % self.fn.name)
            for b2, s2 in self.block(b, st):
                self.prune(b2, s2)
                k = s2.key()
                sb = seen.setdefault(b2, set())
                if k in sb: continue
                counts[b2] = counts.get(b2, 0) + 1
                w1, w2, w3 = self.rule.widen
                if counts[b2] > w1:
                    # widen: forget everything but the typestate
                    s2.facts = {kk: vv for kk, vv in s2.facts.items() if self.rule.keep_fact(kk)}; s2.rel = frozenset()
                    s2.env = {kk: vv for kk, vv in s2.env.items() if not isinstance(vv, int) or self.selector(kk) or self.rule.keep_int(self, kk)} if counts[b2] > w2 else s2.env
                    if counts[b2] > w3:
                        s2.env = {kk: vv if isinstance(vv, int) and (self.selector(kk) or self.rule.keep_int(self, kk)) or self.rule.keep_env(vv) else ("v", kk) for kk, vv in s2.env.items()}
                        s2.mem = {kk: vv for kk, vv in s2.mem.items() if self.rule.keep_mem(kk, vv)}
                    k = s2.key()
                    if k in sb: continue
                sb.add(k)
                work.append((b2, s2))
        self.visited_states = n
        return self

    def boolean(self, v):
        """A value made of the results of comparisons and constants only."""
        k = ("bool", v)
        r = self.fn._cache.get(k)
        if r is None:
            seen = set(); work = [v]; r = True
            while work and r:
                x = work.pop()
                if x in seen or x.kind == "const": continue
                seen.add(x)
                if x.kind != "inst" or len(seen) > 60: r = False
                elif x.op in ("icmp", "fcmp"): pass
                elif x.op in ("phi", "zext", "trunc", "sext", "xor", "and", "or", "freeze"): work += x.ops
                elif x.op == "select": work += x.ops
                else: r = False
            self.fn._cache[k] = r
        return r

    def selector(self, v):
        """A phi all of whose transitive inputs are a handful of constants: it encodes which way control came, not data."""
        if v.kind != "inst" or v.op != "phi": return False
        k = ("sel", v)
        r = self.fn._cache.get(k)
        if r is None:
            seen = set(); work = [v]; leaves = set(); r = True
            while work and r:
                x = work.pop()
                if x in seen: continue
                seen.add(x)
                for o in x.ops:
                    if o.kind == "const": leaves.add(o.val)
                    elif o.kind == "inst" and o.op == "phi": work.append(o)
                    elif o.kind != "undef" and o.kind != "poison": r = False; break
            r = r and len(leaves) <= 12
            self.fn._cache[k] = r
        return r

    def prune(self, b, st):
        live = self.live[b]
        phis = set(b.phis())
        st.env = {k: v for k, v in st.env.items() if k.kind == "arg" or k in live or k in phis}
        # facts about symbols nobody can see any more
        vis = set()
        for v in st.env.values(): term_syms(v, vis)
        for k, v in st.mem.items():
            term_syms(k[0], vis); term_syms(v[0], vis)
        extra = getattr(self.rule, "ts_syms", None)
        if extra:
            for t in extra(st.ts): term_syms(t, vis)
        def ok(s):
            if s in vis: return True
            return len(s) == 2 and (s[1].kind == "arg" or s[1] in live or s[1] in phis)
        def allok(t):
            ss = set(); term_syms(t, ss)
            return all(ok(s) for s in ss)
        if st.facts: st.facts = {k: v for k, v in st.facts.items() if allok(k)}
        if st.rel: st.rel = frozenset(r for r in st.rel if allok(r[1]) and allok(r[2]))

    def block(self, b, st):
        """Yield (succ, state)."""
        states = [st.copy()]
        for i in b.insts:
            if i.op == "phi": continue
            if i is b.insts[-1]: break
            nxt = []
            for s in states:
                nxt += self.step(s, i)
            states = nxt
            if not states: return
        i = b.insts[-1]
        for s in states:
            self.rule.inst(self, s, i)
            if i.op == "ret":
                self.paths_ended += 1
                self.rule.ret(self, s, i, self.t(s, i.ops[0]) if i.ops else None)
            elif i.op == "unreachable":
                self.rule.unreachable(self, s, i)
            elif i.op == "br":
                if not i.ops:
                    yield from self.goto(s, b, b.succs[0], i, None)
                else:
                    c = self.t(s, i.ops[0])
                    if b.succs[0] is b.succs[1]:
                        yield from self.goto(s, b, b.succs[0], i, None); continue
                    for val, tgt in ((True, b.succs[0]), (False, b.succs[1])):
                        s2 = s.copy()
                        if self.assume_bool(s2, c, val):
                            if s2.env.get(i.ops[0]) is not None or i.ops[0].kind == "inst":
                                s2.env[i.ops[0]] = int(val)
                            yield from self.goto(s2, b, tgt, i, val)
            elif i.op == "switch":
                t = self.t(s, i.ops[0]); w = width(i.ops[0].ty, self.m)
                bytgt = {}
                for cv, tgt in i.cases:
                    if isinstance(t, int):
                        if t & mask(w) == cv: bytgt.setdefault(tgt, []).append(cv)
                    elif self.decide(s, "eq", t, cv, w) is not False:
                        bytgt.setdefault(tgt, []).append(cv)
                for tgt, cvs in bytgt.items():
                    if getattr(self.rule, "merge_cases", False) and len(cvs) > 1 and not isinstance(t, int):
                        s2 = s.copy()
                        yield from self.goto(s2, b, tgt, i, ("case", tuple(cvs)))
                        continue
                    for cv in cvs:
                        s2 = s.copy()
                        if self.assume(s2, "eq", t, cv, w):
                            if not isinstance(t, int) and t != U:
                                s2.facts[t] = (sgn(cv, w), sgn(cv, w), frozenset())
                            yield from self.goto(s2, b, tgt, i, ("case", (cv,)))
                s2 = s.copy(); ok = True
                for cv, tgt in i.cases:
                    if not self.assume(s2, "ne", t, cv, w): ok = False; break
                if ok: yield from self.goto(s2, b, i.default, i, "default")

    def goto(self, st, frm, to, i, dec):
        if not self.rule.edge(self, st, frm, to): return
        phis = list(to.phis())
        if phis:
            vals = []
            back = to in self.lh and dominates(to, frm)
            for ph in phis:
                v = None
                for o, pb in zip(ph.ops, ph.phi_bbs):
                    if pb is frm: v = self.t(st, o); src = o; break
                if back and v != st.env.get(ph) and not (self.rule.unroll and isinstance(v, int) and not self.rule.forget(st, to, ph)) and self.arith_carried(ph, src, to):
                    v = None          # loop-carried arithmetic: widen
                vals.append(v)
            for ph in phis: self.redefine(st, ph)
            for ph, v in zip(phis, vals):
                st.env.pop(ph, None)
            for ph, v in zip(phis, vals):
                if v is None or v == U:
                    st.env[ph] = ("v", ph)
                else:
                    if isinstance(v, tuple):
                        for p2 in phis: v = subst(v, ("v", p2), ("v", p2, "old"))
                    st.env[ph] = v
        if dec is not None and i.line:
            st.trail = ("%s:%d %s" % (i.file, i.line, {True: "true", False: "false"}.get(dec) if isinstance(dec, bool) else dec), st.trail)
        yield to, st

    def arith_carried(self, ph, src, hdr):
        """Is src (the value ph gets on a back edge) computed by arithmetic from ph itself?"""
        k = ("ac", ph, src)
        r = self.fn._cache.get(k)
        if r is None:
            r = False; seen = set(); work = [(src, False)]
            while work and not r:
                v, ar = work.pop()
                if v is ph:
                    if ar: r = True
                    continue
                if v.kind != "inst" or (v, ar) in seen: continue
                seen.add((v, ar))
                if v.op in ("phi", "select"):
                    for o in (v.ops if v.op == "phi" else v.ops[1:]): work.append((o, ar))
                elif v.op in ("add", "sub", "mul", "shl", "gep", "or", "lshr", "udiv", "and", "xor"):
                    for o in v.ops: work.append((o, True))
                elif v.op in ("zext", "sext", "trunc", "bitcast", "inttoptr", "ptrtoint"): work.append((v.ops[0], ar))
            self.fn._cache[k] = r
        return r

    def fresh(self, st, i):
        self.redefine(st, i)
        st.env[i] = ("v", i)
        return ("v", i)

    def step(self, st, i):
        op = i.op
        m = self.m
        self.rule.inst(self, st, i)
        if op == "alloca":
            st.env[i] = ("al", i); return [st]
        if op == "gep":
            off, _ = gep_offset(m, i)
            if off is None:
                # variable index: try known constants
                o2 = 0; ok = True
                ty = i.gep_ty
                for k, ix in enumerate(i.ops[1:]):
                    t = self.t(st, ix)
                    if not isinstance(t, int): ok = False; break
                    c = sgn(t & mask(width(ix.ty, m)), width(ix.ty, m))
                    if k == 0: o2 += c * m.sizeof(ty)
                    elif ty[0] == "struct": o2 += ty[3][c]; ty = ty[2][c]
                    elif ty[0] == "array": o2 += c * m.sizeof(ty[2]); ty = ty[2]
                if ok: off = o2
            if off is None:
                if self.rule.opterms and len(i.ops) == 2:
                    b = self.t(st, i.ops[0]); ix = self.t(st, i.ops[1])
                    if U not in (b, ix): self._set(st, i, ("op", "gep", m.sizeof(i.gep_ty), b, ix)); return [st]
                self.fresh(st, i); return [st]
            t = self.t(st, i.ops[0])
            if t == U: self.fresh(st, i)
            else: self._set(st, i, self.padd(t, off))
            return [st]
        if op == "load":
            addr = self.t(st, i.ops[0]); lc = self.loc(addr); cls = acc_class(m, i)
            is_al = isinstance(lc[0], tuple) and lc[0][0] == "al"
            tracked = is_al or (cls is not None and self.rule.track(cls)) or self.rule.track_loc(lc)
            ent = st.mem.get(lc) if tracked else None
            if ent is not None:
                self._set(st, i, ent[0])
            else:
                self.fresh(st, i)
                if tracked and lc[0] != U: st.mem[self.loc(self.t(st, i.ops[0]))] = (("v", i), cls or "")
            r = self.rule.load(self, st, i, addr, cls, st.env[i])
            if r is not None: self._set(st, i, r)
            return [st]
        if op == "store":
            val = self.t(st, i.ops[0]); addr = self.t(st, i.ops[1]); cls = acc_class(m, i); lc = self.loc(addr)
            self.rule.store(self, st, i, addr, cls, val)
            is_al = isinstance(lc[0], tuple) and lc[0][0] == "al"
            if is_al or (cls is not None and self.rule.track(cls)) or self.rule.track_loc(lc):
                st.mem[lc] = (val, cls or "")
                if not is_al and not self.rule.noalias:
                    # other bases may alias the same class
                    for k in list(st.mem):
                        if k != lc and st.mem[k][1] == cls and not (isinstance(k[0], tuple) and k[0][0] == "al"):
                            del st.mem[k]
            return [st]
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            w = width(i.ty, m)
            a = self.t(st, i.ops[0]); b = self.t(st, i.ops[1])
            r = self.rule.binop(self, st, i, op, a, b, w) if self.rule.opterms and not (isinstance(a, int) and isinstance(b, int)) else None
            if r is None: r = self.arith(st, op, a, b, w)
            if r is None and self.rule.opterms and a != U and b != U and tsize(a) + tsize(b) < 60: r = ("op", op, w, a, b)
            if r is None: self.fresh(st, i)
            else: self._set(st, i, r)
            return [st]
        if self.rule.opterms and op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg"):
            ts = [self.t(st, o) for o in i.ops]
            if U in ts or sum(tsize(x) for x in ts) >= 60: self.fresh(st, i)
            else: self._set(st, i, ("op", op, 64) + tuple(ts))
            return [st]
        if op in ("zext", "sext", "trunc"):
            a = self.t(st, i.ops[0])
            if isinstance(a, int):
                w0 = width(i.ops[0].ty, m); w1 = width(i.ty, m)
                if op == "sext": a = sgn(a & mask(w0), w0) & mask(w1)
                else: a = a & mask(min(w0, w1))
                self._set(st, i, a)
            elif a == U: self.fresh(st, i)
            elif op == "trunc" and width(i.ty, m) < 32:
                if isinstance(a, tuple) and a[0] == "cmp": self._set(st, i, a)
                elif self.rule.opterms and self.rule.truncs: self._set(st, i, ("op", "trunc", width(i.ty, m), a))
                else: self.fresh(st, i)
            else: self._set(st, i, a)
            return [st]
        if op in ("bitcast", "inttoptr", "ptrtoint", "freeze"):
            if op == "bitcast" and (i.ty[0] in ("double", "float") or i.ops[0].ty[0] in ("double", "float")):
                x = self.t(st, i.ops[0])
                self._set(st, i, x[1] if isinstance(x, tuple) and x[0] == "bc" else ("bc", x))
            else:
                self._set(st, i, self.t(st, i.ops[0]))
            return [st]
        if op == "icmp":
            w = width(i.ops[0].ty, m)
            a = self.t(st, i.ops[0]); b = self.t(st, i.ops[1]); p = i.pred
            d = self.decide(st, p, a, b, w)
            if d is not None: self._set(st, i, int(d)); return [st]
            if isinstance(a, int): a, b, p = b, a, SWAP[p]
            if isinstance(b, int) and isinstance(a, tuple) and a[0] == "cmp" and p in ("eq", "ne") and b in (0, 1):
                want = (b == 1) == (p == "eq")
                self._set(st, i, a if want else ("cmp", NEG[a[1]], a[2], a[3], a[4])); return [st]
            if a == U or b == U: self.fresh(st, i)
            else: self._set(st, i, ("cmp", p, a, b, w))
            return [st]
        if op == "select":
            c = self.t(st, i.ops[0]); out = []
            for val, o in ((True, i.ops[1]), (False, i.ops[2])):
                s2 = st.copy()
                if self.assume_bool(s2, c, val):
                    v = self.t(s2, o)
                    if v == U: self.fresh(s2, i)
                    else: self._set(s2, i, v)
                    out.append(s2)
            return out
        if op == "call":
            return self.call(st, i)
        if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            r = self.rule.cast(self, st, i, self.t(st, i.ops[0]))
            if r is not None: self._set(st, i, r); return [st]
        if op in ("sitofp", "uitofp") and self.rule.num_terms:
            a = self.t(st, i.ops[0])
            if a == U: self.fresh(st, i)
            else: self._set(st, i, ("si", a))
            return [st]
        if op in ("fptosi", "fptoui") and self.rule.num_terms:
            a = self.t(st, i.ops[0])
            if isinstance(a, tuple) and a[0] == "si": self._set(st, i, a[1])
            else: self.fresh(st, i)
            return [st]
        if op == "fcmp":
            a = self.t(st, i.ops[0]); b = self.t(st, i.ops[1])
            if i.pred in ("uno", "ord"):
                isn = None
                for x in (a, b):
                    n = dbl_isnan(x)
                    if n is True: isn = True
                    elif n is False and isn is None: isn = False
                    elif n is None and isn is False: isn = None
                if isn is not None and (isn or (dbl_isnan(a) is False and dbl_isnan(b) is False)):
                    self._set(st, i, int(isn == (i.pred == "uno"))); return [st]
                if a == b and isinstance(a, tuple):
                    self._set(st, i, ("cmp", "ne" if i.pred == "uno" else "eq", ("isnan", a), 0, 1)); return [st]
            if self.rule.opterms:
                if dbl_isnan(a) is True or dbl_isnan(b) is True: self._set(st, i, int(i.pred[0] == "u")); return [st]
                if U not in (a, b): self._set(st, i, ("op", "fcmp " + i.pred, 1, a, b)); return [st]
            self.fresh(st, i); return [st]
        if i.ty != ("void",):
            self.fresh(st, i)
        return [st]

    def _set(self, st, i, t):
        if t == ("v", i): st.env[i] = t; return
        if isinstance(t, tuple) and mentions(t, ("v", i)):
            t = subst(t, ("v", i), ("v", i, "old"))
        self.redefine(st, i)
        st.env[i] = t

    def arith(self, st, op, a, b, w):
        M = mask(w)
        if isinstance(a, int) and isinstance(b, int):
            if op == "add": return (a + b) & M
            if op == "sub": return (a - b) & M
            if op == "mul": return (a * b) & M
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl": return (a << b) & M if b < w else None
            if op == "lshr": return (a & M) >> b
            if op == "ashr": return (sgn(a & M, w) >> b) & M
            if op == "udiv" and b: return (a & M) // (b & M)
            if op == "urem" and b: return (a & M) % (b & M)
            return None
        if op in ("add", "sub") and isinstance(b, int) and a != U:
            c = sgn(b & M, w)
            if op == "sub": c = -c
            if c == 0: return a
            if isinstance(a, tuple) and a[0] == "+":
                c += a[2]; a = a[1]
                return a if c == 0 else ("+", a, c)
            if isinstance(a, tuple) and a[0] in ("a", "al", "cmp"): return None
            return ("+", a, c)
        if op == "add" and isinstance(a, int): return self.arith(st, op, b, a, w)
        if op == "xor" and b == 1 and isinstance(a, tuple) and a[0] == "cmp":
            return ("cmp", NEG[a[1]], a[2], a[3], a[4])
        if op == "xor" and isinstance(b, int) and sgn(b & M, w) == -1 and w == 1 and isinstance(a, tuple) and a[0] == "cmp":
            return ("cmp", NEG[a[1]], a[2], a[3], a[4])
        if isinstance(a, tuple) and a[0] == "tv" and isinstance(b, int):
            r = tv_arith(op, a, b, w)
            if r is not None: return r
        if isinstance(b, tuple) and b[0] == "tv" and isinstance(a, int) and op in ("and", "or"):
            r = tv_arith(op, b, a, w)
            if r is not None: return r
        if op == "and" and (a == 0 or b == 0): return 0
        if op == "and" and isinstance(a, int) and not isinstance(b, int): a, b = b, a
        if op == "and" and isinstance(b, int) and isinstance(a, tuple) and a != U:
            if a[0] == "cmp": return a if b & 1 else 0
            if b & M == M: return a
            if a[0] == "&": return ("&", a[1], a[2] & b) if a[2] & b else 0
            if a[0] == "|" and not (a[2] & b): return self.arith(st, "and", a[1], b, w)
            if a[0] == "|" and (a[2] & b) == b: return b
            if a[0] == "|" and isinstance(a[1], tuple) and a[1][0] == "&" and not a[1][2] & b: return a[2] & b & M
            return ("&", a, b & M)
        if op == "or" and isinstance(a, int) and not isinstance(b, int): a, b = b, a
        if op == "or" and isinstance(b, int) and isinstance(a, tuple) and a != U and a[0] != "cmp" and b:
            return ("|", a, b & M)
        if op == "mul" and (a == 0 or b == 0): return 0
        if self.rule.num_terms and op == "sub" and isinstance(a, tuple) and isinstance(b, tuple) and U not in (a, b) and a != b: return ("-", a, b)
        if self.rule.num_terms and isinstance(b, int) and isinstance(a, tuple) and a != U:
            if op == "mul": return ("*", a, b)
            if op == "shl" and 0 < b < w: return ("*", a, 1 << b)
            if op in ("udiv", "sdiv", "lshr") and a[0] == "*" and a[2] == (1 << b if op == "lshr" else b): return a[1]
            if op in ("udiv", "lshr") and b > 0: return ("/", a, 1 << b if op == "lshr" else b)
        if op in ("or", "xor", "shl", "lshr", "ashr") and b == 0: return a
        return None

    def clobber(self, st, i, args):
        """Default effect of an opaque call on tracked memory."""
        direct = set()
        for t in args:
            if isinstance(t, tuple):
                b = self.loc(t)[0]
                direct.add(b)
        rel = {}
        for k, v in st.mem.items():
            b = k[0]
            if isinstance(b, tuple) and b[0] == "al":
                if b in direct: continue
            elif self.rule.clobbers(self, i, v[1]): continue
            rel[k] = v
        st.mem = rel

    def call(self, st, i):
        args = [self.t(st, o) for o in i.ops]
        name = i.callee.name if i.callee.kind == "fn" else None
        if name and name.startswith("llvm."):
            if name.startswith("llvm.is.fpclass"):
                n = dbl_isnan(args[0])
                if args[1] == 3:
                    self._set(st, i, int(n) if n is not None else ("cmp", "ne", ("isnan", args[0]), 0, 1))
                else: self.fresh(st, i)
                return [st]
            if name.startswith("llvm.memset") or name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                self.mem_intrinsic(st, i, name, args)
                self.rule.call(self, st, i, args)
                return [st]
            if name.startswith("llvm.expect"):
                self._set(st, i, args[0]); return [st]
            if i.ty != ("void",): self.fresh(st, i)
            return [st]
        r = self.rule.call(self, st, i, args)
        if r is not None:
            out = []
            for s2, res in r:
                if i.ty != ("void",):
                    if res is None: self.fresh(s2, i)
                    else: self._set(s2, i, res)
                out.append(s2)
            return out
        self.clobber(st, i, args)
        if i.ty != ("void",): self.fresh(st, i)
        return [st]

    def mem_intrinsic(self, st, i, name, args):
        dst = self.loc(args[0]) if args[0] != U else None
        n = args[2]
        if dst is None: return
        if isinstance(dst[0], tuple) and dst[0][0] == "al":
            for k in [k for k in st.mem if k[0] == dst[0]]:
                if not isinstance(n, int) or (dst[1] <= k[1] < dst[1] + n): del st.mem[k]
            if name.startswith("llvm.memset") and args[1] == 0 and isinstance(n, int):
                ty = dst[0][1].alloc_ty
                for off, w in scalar_offsets(self.m, ty):
                    if dst[1] <= off < dst[1] + n: st.mem[(dst[0], off)] = (0, "")
            elif name.startswith("llvm.memcpy") and isinstance(n, int) and args[1] != U:
                src = self.loc(args[1])
                for k in list(st.mem):
                    if k[0] == src[0] and src[1] <= k[1] < src[1] + n:
                        st.mem[(dst[0], dst[1] + k[1] - src[1])] = st.mem[k]

def known_bits(t, w):
    """bits of the term known to be (zero, one)"""
    if isinstance(t, int): return ~t & mask(w), t & mask(w)
    if isinstance(t, tuple) and t[0] in ("|", "&"):
        z, o = known_bits(t[1], w); c = t[2] & mask(w)
        return (z & ~c, o | c) if t[0] == "|" else ((z | ~c) & mask(w), o & c)
    return 0, 0

# ---- tagged values: ("tv", T, id): 64-bit word whose high 16 bits are the tag T (0xfff1..0xffff), or T == "num":
# any bit pattern that is a non-NaN double.  ("tvm", T, m): that word & m.  ("pl", tv): its low 48 bits.
HI = 0xffff << 48
def is_nan_bits(c): return (c >> 52) & 0x7ff == 0x7ff and c & ((1 << 52) - 1) != 0
def tv_arith(op, a, b, w):
    T = a[1]; b &= mask(w)
    if w != 64: return None
    if op == "and":
        if T != "num":
            if b & ~HI == 0: return (T << 48) & b
            if b == mask(48): return ("pl", a)
            if b == mask(64): return a
        elif b == HI: return ("tvm", T, b)
    if op in ("lshr", "ashr") and b == 48 and T != "num": return T if op == "lshr" else (T | (mask(48) << 16)) & mask(64)
    return None
def tv_decide(pred, a, b, w):
    if pred not in ("eq", "ne"): return None
    b &= mask(w)
    r = None
    if a[0] == "tv":
        if a[1] == "num":
            if is_nan_bits(b): r = False
        elif b >> 48 != a[1]: r = False
    elif a[0] == "tvm":
        if is_nan_bits(b) or is_nan_bits(b | 1) and b != 0x7ff0 << 48 and b != 0xfff0 << 48: r = False
    if r is None: return None
    return r == (pred == "eq")
def dbl_isnan(t):
    if isinstance(t, tuple):
        if t[0] == "bc":
            x = t[1]
            if isinstance(x, int): return is_nan_bits(x)
            if isinstance(x, tuple) and x[0] == "tv": return x[1] != "num"
            if isinstance(x, tuple) and x[0] == "|" and is_nan_bits(x[2]): return True
        if t[0] == "fc": return t[1] != t[1]
        if t[0] == "si": return False
        if t[0] == "cast" and t[1] in ("sitofp", "uitofp"): return False
        if t[0] == "op" and t[1] == "fneg": return dbl_isnan(t[3])
    return None

IMPLIED = {  # pred holds if any of these is known for the same operands
    "sle": ("slt", "eq"), "sge": ("sgt", "eq"), "ule": ("ult", "eq"), "uge": ("ugt", "eq"),
    "ne": ("slt", "sgt", "ult", "ugt"),
}

def scalar_offsets(m, ty, base=0):
    if ty[0] == "struct":
        for t, o in zip(ty[2], ty[3]): yield from scalar_offsets(m, t, base + o)
    elif ty[0] == "array":
        if ty[1] <= 64:
            for k in range(ty[1]): yield from scalar_offsets(m, ty[2], base + k * m.sizeof(ty[2]))
    else: yield base, m.sizeof(ty)
