"""The functions that write into the code buffer, followed with the buffer, the insertion point and the numbers kept as linear terms."""
from ctx import need
from build import AnalysisBroken
from sym import Rule, Explorer, State, U, mask, sgn
from emit import lin, ladd, leq, lterm, lc, norec

C, L, BUF = ("C",), ("L",), ("buf",)

def canon(d):
    d = {k: v for k, v in d.items() if v}
    if len(d) == 1 and None not in d and list(d.values()) == [1]: return list(d)[0]
    return lterm(d)

class Buf(Rule):
    unroll = True; noalias = True; opterms = True; truncs = True
    def __init__(self, m, gen, lens, cur, P):
        self.m = m; self.gen = gen; self.outs = []; self.notes = []; self.P = P
        b = {n: off for off, n, *_ in m.struct_fields("struct.mbuf")}
        base, o = gen
        self.LEN = (base, o + b["len"]); self.BUFF = (base, o + b["buf"]); self.SIZE = (base, o + b["size"]); self.CUR = cur
        self.GEN = ("a", base, o) if o else base
    def init(self, ex): return ()
    def track_loc(self, lc_): return lc_ in (self.LEN, self.BUFF, self.CUR) or lc_[0] == self.P
    def clobbers(self, ex, i, cls): return False
    def nonzero(self, t): return isinstance(t, tuple) and t == BUF
    def binop(self, ex, st, i, op, a, b, w):
        if op not in ("add", "sub") or w not in (32, 64) or U in (a, b): return None
        x = lin(a, w); y = lin(b, w)
        if x is None or y is None: return None
        t = lterm(ladd(x, y, -1 if op == "sub" else 1))
        return t & mask(w) if isinstance(t, int) else t
    def cast(self, ex, st, i, t): return None
    def at(self, t):
        """offset into the code buffer"""
        d = {}
        while isinstance(t, tuple):
            if t[0] == "a": d = ladd(d, {None: t[2]}); t = t[1]
            elif t[0] == "op" and t[1] == "gep" and t[2] == 1:
                x = lin(t[4])
                if x is None: return None
                d = ladd(d, x); t = t[3]
            elif t == BUF: return lc(d)
            else: return None
        return None
    def add(self, st, *e): st.ts = st.ts + (e,)
    def store(self, ex, st, i, addr, cls, val):
        a = self.at(addr)
        if a is not None: self.add(st, "put", fr(a), val, i)
        elif ex.loc(addr) == self.BUFF and val != BUF: self.add(st, "?", i)
    def call(self, ex, st, i, args):
        if i.callee.kind != "fn": self.add(st, "?", i); return None
        n = i.callee.name
        if n == "cs_varint_llen":
            d = lin(args[0]); return [(st, ("llen", canon(d) if d is not None else args[0]))]
        if n in ("abort", "__assert_fail", "exit"): return []
        if n == "cs_log_print_prefix": return [(st, 0)]
        if n == "cs_log_printf": return [(st, None)]
        if n == "mbuf_insert" or n == "mbuf_append":
            k = 2 if n == "mbuf_insert" else 1
            if args[0] != self.GEN: return [(st, ("v", i))]
            at = lin(args[1]) if k == 2 else lin(st.mem[self.LEN][0]); num = lin(args[k + 1])
            if at is None or num is None: self.add(st, "?", i); return None
            src = args[k]
            if isinstance(src, tuple):
                v = st.mem.get(ex.loc(src)); src = ("val", v[0]) if v else src
            self.add(st, "ins", fr(at), fr(num), src, i)
            st.mem[self.LEN] = (lterm(ladd(lin(st.mem[self.LEN][0]), num)), "")
            return [(st, ("v", i))]
        if n == "mbuf_resize":
            return [(st, None)]
        if n == "cs_varint_encode":
            a = self.at(args[1])
            if a is None: return [(st, ("v", i))]
            d = lin(args[0]); k = lin(args[2])
            self.add(st, "num", fr(a), canon(d) if d is not None else args[0], fr(k) if k is not None else None, i)
            return [(st, ("v", i))]
        if n == "unescape":
            d = lin(args[1]); ln = canon(d) if d is not None else args[1]
            a = self.at(args[2]) if args[2] != 0 else None
            if a is not None: self.add(st, "bytes", fr(a), ("unesc", ln), i)
            elif args[2] != 0: self.add(st, "?", i)
            return [(st, ("unesc", ln))]
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
            a = self.at(args[0]); s = self.at(args[1]); k = lin(args[2])
            if a is None: return None
            if k is None: self.add(st, "?", i); return None
            self.add(st, "move" if s is not None else "bytes", fr(a), fr(s) if s is not None else fr(k), *((fr(k),) if s is not None else ()), i)
            return [(st, None)]
        if i.callee.defined and any(x in (self.P, self.GEN) for x in args): self.add(st, "?", i)
        return None
    def ret(self, ex, st, i, val): self.outs.append((st, i, val))

def fr(d): return tuple(sorted(((k, v) for k, v in lc(d).items() if v or k is None), key=repr))
def un(t): return dict(t)
def known(d, ok):
    """only symbols that mean something"""
    def f(t):
        if t is None or isinstance(t, int): return True
        if t in ok: return True
        if isinstance(t, tuple) and t and t[0] in ("llen", "unesc"): return all(f(x) for x in t[1:])
        if isinstance(t, tuple) and t and t[0] == "lin": return all(f(k) for k, v in t[1])
        return False
    return all(f(k) for k in d)

def subst1(d, ones):
    """lengths of encoded numbers that are known to be one byte"""
    r = {}
    for k, v in d.items():
        r = ladd(r, {None: v} if k in ones else {k: v})
    return lc(r)

def run(ctx, R):
    raw = ctx.raw(); m = ctx.api()
    names = [n for n in ("emit_byte", "emit_int", "emit_str", "mjs_bcode_insert_offset", "embed_string") if n in raw.fns and raw.fns[n].defined]
    need("emit_byte" in names and "mjs_bcode_insert_offset" in names, "the functions that write code")
    pm = norec(ctx, names, set(names) | {"mbuf_insert", "mbuf_append", "mbuf_resize", "cs_varint_encode", "cs_varint_llen", "unescape"})
    for n in names:
        try: one(pm, pm.fns[n], n, R)
        except AnalysisBroken as e: R.undecided("%s: %s" % (n, e))

def one(m, f, n, R):
    R.saw(f)
    mo = {x: off for off, x, *_ in m.struct_fields("struct.mjs")}; po = {x: off for off, x, *_ in m.struct_fields("struct.pstate")}
    M = ("h", "mjs"); P = ("h", "p")
    if n == "embed_string": r = Buf(m, (M, 0), None, None, None); cur = None
    else: r = Buf(m, (M, mo["bcode_gen"]), None, (P, po["cur_idx"]), P)
    ex = Explorer(m, f, r); st = State()
    for a in f.args: st.env[a] = ("v", a)
    if n == "embed_string": st.env[f.args[0]] = M
    else:
        st.env[f.args[0]] = P; st.mem[(P, po["mjs"])] = (M, ""); st.mem[r.CUR] = (C, "")
    if n == "mjs_bcode_insert_offset": st.env[f.args[1]] = M
    st.mem[r.LEN] = (L, ""); st.mem[r.BUFF] = (BUF, "")
    st.ts = ()
    ex.run(st)
    A = [("v", a) for a in f.args]
    ok = {C, L} | set(A)
    paths = 0
    def bad(key, i, msg, s): R.bad("%s:%s" % (n, key), i.where() if i is not None else f.name, "%s: %s" % (n, msg), ex.trail(s))
    for s, i, val in r.outs:
        if any(e[0] == "?" for e in s.ts): R.undecided("%s: what is written on one path" % n); continue
        paths += 1
        curd = lin(s.mem[r.CUR][0]) if r.CUR and r.CUR in s.mem else None
        if r.CUR and (curd is None or not known(curd, ok)): R.undecided("%s: where the insertion point ends up" % n); continue
        ones = {k for k, v in s.facts.items() if isinstance(k, tuple) and k[0] == "llen" and v[1] is not None and v[1] <= 1}
        for k, v in list(s.facts.items()):       # comparisons of llen - reserved with 0
            if isinstance(k, tuple) and k[0] == "lin" and v[1] is not None:
                q = [(x, c) for x, c in k[1] if x is not None]
                if len(q) == 1 and q[0][1] == 1 and q[0][0][0] == "llen" and v[1] - dict(k[1]).get(None, 0) <= 1: ones.add(q[0][0])
        if n == "mjs_bcode_insert_offset": offset(s, i, val, ex, r, A, ok, curd, ones, bad, R, n); continue
        at0 = {C: 1} if n != "embed_string" else {A[1]: 1}
        # everything is inserted at the insertion point, one piece after the other
        tot = {}; bad_ = False
        for e in s.ts:
            if e[0] != "ins": continue
            at = un(e[1]); num = un(e[2])
            if not known(at, ok) or not known(num, ok) and n != "embed_string": bad_ = None; break
            if not leq(at, ladd(at0, tot)) and not leq(at, at0):
                bad("place", e[-1], "what is inserted does not go where the insertion point is", s); bad_ = True; break
            tot = ladd(tot, num)
        if bad_ is None: R.undecided("%s: how much is inserted" % n); continue
        if bad_: continue
        if r.CUR and not leq(curd, ladd(at0, tot)): bad("advance", i, "the insertion point is not moved past exactly what was inserted", s); continue
        # contents
        want = {"emit_byte": [("byte", A[1])], "emit_int": [("num", A[1] if len(A) > 1 else None)], "emit_str": [("num", A[2] if len(A) > 2 else None), ("bytes", A[2] if len(A) > 2 else None)]}.get(n)
        if n == "embed_string":
            nums = [e for e in s.ts if e[0] == "num"]
            if len(nums) != 1: R.undecided("embed_string: where the length is written"); continue
            N = nums[0][2]; want = [("num", N), ("bytes", N)]
            if not (N == A[3] or isinstance(N, tuple) and N[0] == "unesc"): R.undecided("embed_string: the length written"); continue
        pos = lc(at0); size = {}; good = True
        for kind, v in want:
            if kind == "byte":
                e = [x for x in s.ts if x[0] == "ins" and isinstance(x[3], tuple) and x[3][0] == "val" or x[0] == "put"]
                if not e: R.undecided("%s: the byte written" % n); good = False; break
                x = e[0]; got = x[3][1] if x[0] == "ins" else x[2]
                if leq(un(x[1]), pos) is False: bad("byte", x[-1], "the byte does not go where room was made for it", s); good = False; break
                if strip(got) != v and isinstance(strip(got), int): bad("byte", x[-1], "another byte than the one given is written", s); good = False; break
                size = ladd(size, {None: 1}); pos = ladd(pos, {None: 1})
            elif kind == "num":
                e = [x for x in s.ts if x[0] == "num"]
                if len(e) != 1: R.undecided("%s: the number written" % n); good = False; break
                x = e[0]
                if strip(x[2]) != v and v is not None:
                    if isinstance(x[2], int) or known(lin(x[2]) or {U: 1}, ok): bad("number", x[-1], "another number than the one given is written", s)
                    else: R.undecided("%s: the number written" % n)
                    good = False; break
                if not leq(un(x[1]), pos): bad("number", x[-1], "the number does not go where room was made for it", s); good = False; break
                k = {("llen", v): 1}
                if x[3] is not None and known(un(x[3]), ok) and not leq(un(x[3]), k): bad("number", x[-1], "room for %s is assumed for the number" % (dict(x[3]),), s); good = False; break
                size = ladd(size, k); pos = ladd(pos, k)
            else:
                e = [x for x in s.ts if x[0] == "bytes"]
                ln = lin(v)
                if not e:
                    # nothing to copy
                    if n == "embed_string" and (ex.decide(s, "eq", A[2], 0, 64) is True): size = ladd(size, ln); continue
                    R.undecided("%s: the text written" % n); good = False; break
                x = e[-1]
                if not leq(un(x[1]), pos):
                    if known(un(x[1]), ok): bad("text", x[-1], "the text is not written behind its length", s)
                    else: R.undecided("%s: where the text is written" % n)
                    good = False; break
                if isinstance(x[2], tuple) and x[2] and x[2][0] == "unesc":
                    if x[2] != v: bad("text", x[-1], "the length written is not that of the text after unescaping", s); good = False; break
                elif not leq(un(x[2]), ln):
                    if isinstance(v, tuple) and v[0] == "unesc" or known(un(x[2]), ok): bad("text", x[-1], "the length written is not that of the text", s)
                    else: R.undecided("%s: the text written" % n)
                    good = False; break
                size = ladd(size, ln)
        if not good: continue
        d = ladd(tot, size, -1); d = {k: v for k, v in d.items() if v}
        if d:
            if n == "embed_string" and (set(d) <= {None} and d[None] == 1 or not known(d, ok)): continue
            if known(d, ok): bad("size", i, "the room made is not the size of what is written", s)
            else: R.undecided("%s: the room made" % n)
    R.count("paths", paths)
    R.ok("%s: %d paths" % (n, paths))

def strip(t):
    while isinstance(t, tuple) and t and t[0] == "op" and t[1] == "trunc": t = t[3]
    return t

def offset(s, i, val, ex, r, A, ok, curd, ones, bad, R, n):
    off, v = A[2], A[3]
    k = ("llen", v)
    num = [e for e in s.ts if e[0] == "num"]
    if len(num) != 1:
        if not num and not any(e[0] in ("put", "bytes") for e in s.ts): bad("number", i, "the distance is not written", s)
        else: R.undecided("%s: how the distance is written" % n)
        return
    e = num[0]
    if strip(e[2]) != v:
        if known(lin(e[2]) or {U: 1}, ok): bad("number", e[-1], "another distance than the one given is written", s)
        else: R.undecided("%s: the distance written" % n)
        return
    if not leq(un(e[1]), {off: 1}):
        if known(un(e[1]), ok): bad("place", e[-1], "the distance is not written where room was left for it", s)
        else: R.undecided("%s: where the distance is written" % n)
        return
    grow = lc({k: 1}, -1)
    if k in ones: grow = {None: 0}
    moved = False
    total = {}
    for e in s.ts:
        if e[0] == "move":
            d, sr, ln = un(e[1]), un(e[2]), un(e[3])
            if not (known(d, ok) and known(sr, ok) and known(ln, ok)): R.undecided("%s: what is moved" % n); return
            if not leq(subst1(ladd(d, sr, -1), ones), grow): bad("move", e[-1], "the code behind the distance is not moved by as much as it grows", s); return
            if sorted((x for x in subst1(sr, ones).items() if x[1]), key=repr) != sorted([(off, 1), (None, 1)], key=repr) and not leq(sr, {off: 1}): bad("move", e[-1], "the code moved does not begin behind the room left for the distance", s); return
            if not leq(ladd(sr, ln), {L: 1}):
                bad("move", e[-1], "the code moved does not reach to the end of the buffer", s); return
            moved = True
        elif e[0] == "ins":
            at, ln = un(e[1]), un(e[2])
            if not (known(at, ok) and known(ln, ok)): R.undecided("%s: what is inserted" % n); return
            if not leq(subst1(ln, ones), grow): bad("move", e[-1], "the code behind the distance is not moved by as much as it grows", s); return
            if not (leq(at, {off: 1}) or leq(at, {off: 1, None: 1})): bad("move", e[-1], "the code moved does not begin behind the room left for the distance", s); return
            moved = True
    if not moved and k not in ones: bad("move", i, "the code behind the distance is overwritten by it", s); return
    ln = lin(s.mem[r.LEN][0])
    if ln is not None and known(ln, ok) and not leq(subst1(ladd(ln, {L: 1}, -1), ones), grow): bad("length", i, "the length of the code does not grow with the distance", s); return
    step = subst1(ladd(curd, {C: 1}, -1), ones)
    before = any(ex.decide(s, p, C, off, 32) is True for p in ("slt", "sle", "ult", "ule"))
    if not (leq(step, grow) or before and leq(step, {})): bad("cursor", i, "the insertion point behind the distance does not move along", s); return
    rv = lin(val, 32)
    if rv is not None and known(rv, ok) and not leq(subst1(rv, ones), grow): bad("result", i, "callers are told a wrong growth", s)
