"""Tape domain: a reader walks over a text whose end is marked by a NUL character or by an end pointer.  Positions are
kept exactly relative to the farthest position known to be inside the text; a read is legal when every character before
it is known not to be the terminator (or the end is known to lie behind it).  At loop back edges the tape is shifted, so
that every reader with a finite control state is covered for texts of any length."""
from sym import Rule, Explorer, State, U, mentions, mask, sgn
from flow import dominates
from build import AnalysisBroken
T = ("h", "text"); END = ("h", "end"); LEN = ("len",)
def at(k): return ("a", T, k) if k else T
def pos(t):
    if t == T: return 0
    if isinstance(t, tuple) and len(t) == 3 and t[0] == "a" and t[1] == T: return t[2]
    return None
def old(t): return isinstance(t, tuple) and t[0] == "h" and len(t) == 3 and t[1] == "old"
def mapterm(t, f):
    r = f(t)
    if r is not None: return r
    if isinstance(t, tuple) and len(t) > 1: return tuple(mapterm(x, f) if isinstance(x, tuple) else x for x in t)
    return t
def collect(t, f, out):
    if isinstance(t, tuple):
        if f(t): out.add(t); return
        for x in t[1:]:
            if isinstance(x, tuple): collect(x, f, out)
def signed(p): return "s" + p[1:] if p[0] == "u" else p

def value(t, c, v):
    """value of a term over one character"""
    if isinstance(t, int): return t
    if t == c: return v
    if t[0] in ("&", "|", "+") and isinstance(t[2], int):
        x = value(t[1], c, v)
        if x is None: return None
        return x & t[2] if t[0] == "&" else x | t[2] if t[0] == "|" else x + t[2]
    return None

class TapeEx(Explorer):
    def decide(self, st, pred, a, b, w):
        if isinstance(a, tuple) and isinstance(b, tuple):
            x, y = pos(a), pos(b)
            if x is not None and y is not None: return self.decide(st, signed(pred), x & mask(64), y & mask(64), 64)
            if x is not None and b == END: return self.decide(st, SW[signed(pred)], LEN, x & mask(64), 64)
            if y is not None and a == END: return self.decide(st, signed(pred), LEN, y & mask(64), 64)
            if old(a) and (y is not None or b == END): return {"eq": False, "ne": True}.get(pred, pred[-2:] in ("lt", "le")) if y is None or y >= 0 else None
            if old(b) and (x is not None or a == END): return {"eq": False, "ne": True}.get(pred, pred[-2:] in ("gt", "ge")) if x is None or x >= 0 else None
            if old(a) and old(b): return self.decide(st, signed(pred), a[2], b[2], 64)
        elif isinstance(a, tuple) and (pos(a) is not None or a == END or old(a)) and b == 0:
            return {"eq": False, "ne": True, "ugt": True}.get(pred)
        return Explorer.decide(self, st, pred, a, b, w)
    def assume(self, st, pred, a, b, w):
        if isinstance(a, tuple) and isinstance(b, tuple):
            x, y = pos(a), pos(b)
            if x is not None and b == END: return Explorer.assume(self, st, SW[signed(pred)], LEN, x & mask(64), 64)
            if y is not None and a == END: return Explorer.assume(self, st, signed(pred), LEN, y & mask(64), 64)
        if not Explorer.assume(self, st, pred, a, b, w): return False
        for x in (a, b):
            if isinstance(x, tuple) and x[0] == "+" and x[1] == LEN: continue
            for c in self._chs(x):
                lo, hi, ne = self.rng(st, c)
                if lo is None or lo != hi: continue
                for t, (l2, h2, n2) in st.facts.items():
                    if t != c and mentions(t, c):
                        v = value(t, c, lo)
                        if v is not None and (l2 is not None and v < l2 or h2 is not None and v > h2 or v in n2): return False
        return True
    def arith(self, st, op, a, b, w):
        if op == "sub" and isinstance(a, tuple) and isinstance(b, tuple):
            if a == END and pos(b) is not None: return ("+", LEN, -pos(b)) if pos(b) else LEN
            if pos(a) is not None and pos(b) is not None: return None
        return Explorer.arith(self, st, op, a, b, w)
    def arith_carried(self, ph, src, hdr):
        return False if getattr(self, "_tapeval", False) else Explorer.arith_carried(self, ph, src, hdr)
    def step(self, st, i):
        if i.op == "gep" and len(i.ops) == 2:
            b = self.t(st, i.ops[0]); ix = self.t(st, i.ops[1])
            if b == T and ix == LEN: self._set(st, i, END); self.rule.inst(self, st, i); return [st]
        if i.op == "trunc" and i.ty == ("int", 8):
            a = self.t(st, i.ops[0])
            if isinstance(a, tuple) and a[0] in ("ch", "cho"): self.rule.inst(self, st, i); self._set(st, i, a); return [st]
        return Explorer.step(self, st, i)
    def goto(self, st, frm, to, i, dec):
        back = to in self.lh and dominates(to, frm)
        if back:
            # positions are exact: the shift below keeps them finite
            for ph in to.phis():
                for o, pb in zip(ph.ops, ph.phi_bbs):
                    if pb is frm and (pos(self.t(st, o)) is not None or old(self.t(st, o))): self.fn._cache[("ac", ph, o)] = False
        for b2, s2 in Explorer.goto(self, st, frm, to, i, dec):
            if back:
                for ph in to.phis():       # counters that have nothing to do with the text
                    v = s2.env.get(ph)
                    if isinstance(v, int) and 12 <= v < 1 << 31: s2.env[ph] = ("v", ph)
                self.prune(b2, s2); self.shift(s2)
            yield b2, s2
    def prune(self, b, st):
        RDR = ("h", "reader")
        st.mem = {k: v for k, v in st.mem.items() if k[0] != RDR or (isinstance(v[0], tuple) and (mentions(v[0], T) or v[0] == END or v[0][0] == "h" or v[0][0] == "a"))}
        Explorer.prune(self, b, st)
        if self.rule.mode == "end" and st.facts:
            # what a character was does not matter any more unless somebody still holds it
            ref = set()
            for t in self.terms(st): collect(t, lambda x: x[0] == "ch" and len(x) == 2, ref)
            st.facts = {k: v for k, v in st.facts.items() if all(c in ref for c in self._chs(k))}
            st.rel = frozenset(r for r in st.rel if all(c in ref for c in self._chs(r[1])) and all(c in ref for c in self._chs(r[2])))
    # ---- what is known about the text
    def inside(self, st, k):
        """is position k readable"""
        if k < 0: return True
        if self.rule.mode == "end": return self.decide(st, "sgt", LEN, k & mask(64), 64) is True
        return all(self.decide(st, "ne", ("ch", j), 0, 32) is True for j in range(k))
    def passed(self, st, k):
        """are all characters before k inside the text"""
        if self.rule.mode == "end": return k <= 0 or self.decide(st, "sge", LEN, k & mask(64), 64) is True
        return self.inside(st, k)
    def terms(self, st):
        for v in st.env.values():
            if isinstance(v, tuple): yield v
        for v in st.mem.values():
            if isinstance(v[0], tuple): yield v[0]
    def shift(self, st, to=None):
        ps = set(); olds = set()
        for t in self.terms(st):
            collect(t, lambda x: pos(x) is not None, ps); collect(t, old, olds)
        ks = sorted(pos(p) for p in ps)
        if ks and ks[-1] > 200: raise AnalysisBroken("the reader runs away")
        r = to
        if r is None:
            r = 0
            if ks: r = next((k for k in range(ks[-1], 0, -1) if self.passed(st, k)), 0)
            if r <= 0 and all(k >= -8 for k in ks): return
        behind = sorted(olds, key=lambda o: o[2]) + [at(k) for k in ks if k < r]
        ren = {}
        for n, p in enumerate(behind): ren[p] = ("h", "old", n)
        chs = set(); chos = set()
        for t in self.terms(st):
            collect(t, lambda x: x[0] == "ch" and len(x) == 2, chs); collect(t, lambda x: x[0] == "cho", chos)
        n = 0
        for c in sorted(chos, key=lambda c: c[1]) + sorted((c for c in chs if c[1] < r), key=lambda c: c[1]):
            ren[c] = ("cho", n); n += 1
        def f(t):
            if t in ren: return ren[t]
            k = pos(t)
            if k is not None: return at(k - r)
            if t[0] == "ch" and len(t) == 2: return ("ch", t[1] - r)
            if t == LEN: return ("+", LEN, r) if r else LEN
            if t[0] == "+" and t[1] == LEN: return ("oldlen",) if t[2] + r > 16 else ("+", LEN, t[2] + r) if t[2] + r else LEN
            return None
        def known(t):
            dead = set(); collect(t, lambda x: x[0] == "ch" and len(x) == 2 and x[1] < r and x not in ren, dead)
            return not dead
        st.env = {k: (mapterm(v, f) if isinstance(v, tuple) else v) for k, v in st.env.items()}
        st.mem = {k: ((mapterm(v[0], f) if isinstance(v[0], tuple) else v[0]), v[1]) for k, v in st.mem.items()}
        nf = {}
        for k, v in st.facts.items():
            if k == LEN:
                lo, hi, ne = v
                lo = None if lo is None else lo - r; hi = None if hi is None else hi - r
                nf[LEN] = (lo, hi, frozenset(x - r for x in ne)); continue
            if known(k): nf[mapterm(k, f)] = v
        st.facts = nf
        st.rel = frozenset((p, mapterm(x, f), mapterm(y, f)) for p, x, y in st.rel if known(x) and known(y))
        self.rule.shifted(self, st, r)
    def forget_text(self, st):
        """the reader went on by an unknown distance, everything before is inside"""
        for d in (st.facts,):
            for k in list(d):
                if mentions(k, LEN) or any(True for _ in self._chs(k)): del d[k]
        st.rel = frozenset(x for x in st.rel if not any(True for _ in self._chs(x[1])) and not any(True for _ in self._chs(x[2])))
    def _chs(self, t):
        out = set(); collect(t, lambda x: x[0] == "ch" and len(x) == 2, out); return iter(out)

from ir import SWAP as SW

class TapeRule(Rule):
    mode = "nul"; unroll = True; merge_cases = True
    widen = (3000, 6000, 12000)
    def __init__(self, struct, fields): self.struct = struct; self.fields = fields; self.bad = []; self.unk = []; self.reads = 0; self.sites = set()
    def track_loc(self, lc): return isinstance(lc[0], tuple) and lc[0] == ("h", "reader")
    def clobbers(self, ex, i, cls): return False
    def shifted(self, ex, st, r): pass
    def keep_fact(self, t): return True
    def complain(self, i, msg, st): self.bad.append((i, msg, st))
    def unsure(self, i, msg): self.unk.append((i, msg))
    def read(self, ex, st, i, k):
        self.reads += 1; self.sites.add(i)
        if not ex.inside(st, k):
            self.complain(i, k, st); st.ts = "dead"
            return False
        return True
    def edge(self, ex, st, frm, to): return st.ts != "dead"
    def load(self, ex, st, i, addr, cls, res):
        k = pos(addr)
        if (old(addr) or k is not None and k < 0) and self.mode == "nul" and i.ty == ("int", 8): st.facts[res] = (None, None, frozenset([0])); return None
        if k is None: return None
        self.read(ex, st, i, k)
        if i.ty == ("int", 8) and k >= 0:
            lo, hi, ne = ex.rng(st, ("ch", k))
            return lo & 255 if lo is not None and lo == hi else ("ch", k)
    def call(self, ex, st, i, args):
        if st.ts == "dead": return []
        if i.callee.kind != "fn": return self.other(ex, st, i, None, args)
        n = i.callee.name
        if n == "strchr" or n == "index" or n == "memchr" and False:
            s = self.const_string(ex, i.ops[0])
            c = args[1]
            if s is not None and isinstance(c, int):
                hit = (c & 255) == 0 or (c & 255) in s
                return [(st, ("h", "found") if hit else 0)]
            if s is not None and c != U:
                out = []; b = st.copy()
                for x in sorted(set(s) | {0}):
                    a = st.copy()
                    if ex.assume(a, "eq", c, x, 32): out.append((a, ("h", "found")))
                if all(ex.assume(b, "ne", c, x, 32) for x in set(s) | {0}): out.append((b, 0))
                return out
        if n in ("strncmp", "memcmp", "strcmp", "bcmp") and self.mode == "nul":
            for x, y, yo in ((args[0], args[1], i.ops[1]), (args[1], args[0], i.ops[0])):
                k = pos(x); s = self.const_string(ex, yo)
                if k is None or s is None: continue
                self.read(ex, st, i, k)
                num = len(s) + 1 if n == "strcmp" else args[2]
                if not isinstance(num, int) or num > 64: return [(st, None)]
                if n != "strncmp" and n != "strcmp":
                    for j in range(k, k + num): self.read(ex, st, i, j)
                a = st.copy(); eq = s[:num] + (b"\0" if num > len(s) else b"")
                out = [(st, None)]
                if all(ex.assume(a, "eq", ("ch", k + j), c, 32) for j, c in enumerate(eq)): out.append((a, 0))
                return out
        if n in ("strtod", "strtoul", "strtol", "strtoull", "strtoll"):
            k = pos(args[0])
            if k is not None:
                self.read(ex, st, i, k)
                e = ex.loc(args[1])
                if args[1] == 0: return [(st, None)]
                out = []
                d = ex.rng(st, ("ch", k))
                digit = d[0] is not None and d[1] is not None and 48 <= d[0] and d[1] <= 57
                if not digit: 
                    s0 = st.copy(); s0.mem[e] = (args[0], ""); out.append((s0, None))
                s1 = st.copy(); ex.shift(s1, k); ex.forget_text(s1); s1.mem[e] = (T, ""); self.advanced(s1); out.append((s1, None))
                return out
        return self.other(ex, st, i, n, args)
    def advanced(self, st): pass
    def other(self, ex, st, i, n, args):
        for a in args:
            k = pos(a)
            if k is not None and n and not n.startswith("llvm.") and n not in ("cs_log_printf", "cs_log_print_prefix"):
                if self.mode == "nul": self.read(ex, st, i, k)
        return None
    def const_string(self, ex, v):
        if v.kind == "cexpr" and v.op in ("gep", "bitcast"): v = v.ops[0]
        if v.kind != "global": return None
        try: d = ex.m.global_data(v.name)
        except Exception: return None
        if isinstance(d, (bytes, bytearray)): return bytes(d).split(b"\0")[0]
        return None
