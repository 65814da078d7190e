"""Temporary resources: released exactly once on every path, never used afterwards."""
from ctx import need
from build import AnalysisBroken
from flow import strip_ptr, acc_class, gep_offset
from sym import Rule, Explorer, State, U, mentions

RULE = ("path-sensitive ownership typestate per acquiring call (heap block, FILE*, descriptor, mapping, local growable buffer, "
        "conditionally owned strings of mjs_to_string/mg_avprintf/mjs_json_stringify): on every path to every return it is released "
        "once, with the matching function, or handed over (returned, stored in memory that outlives the call, passed to a function "
        "that keeps it); nothing is loaded or stored through it after the release; an owned field is not overwritten while it holds "
        "the last reference and does not keep a released pointer")
EXPLANATION = ("Every function of the library with an acquisition or release site is explored over its CFG (LLVM IR, helpers inlined) "
               "with constants/nullness facts, so error branches, flags such as need_free and re-tested conditions are followed exactly; "
               "callees are summarised by whether they keep or release their pointer parameters.")
ASSUMPTIONS = ["a pointer stored into memory that outlives the function is the owner's business (fields of struct mjs: G16)",
               "a pointer stored inside another heap block is not followed further",
               "allocation failure paths are explored like any other path (result known to be null = nothing to release)"]
CONFIGS_THOROUGH = ["default", "aggressive_gc", "nodebug", "offset4"]

HEAP, FILE, FD, MAP, DIR, DL = "heap block", "open file", "open descriptor", "mapping", "open directory", "library handle"
ACQ = {"malloc": HEAP, "calloc": HEAP, "strdup": HEAP, "strndup": HEAP, "fopen": FILE, "fdopen": FILE, "tmpfile": FILE, "open": FD, "opendir": DIR,
       "mmap": MAP, "cs_mmap_file": MAP, "aligned_alloc": HEAP, "open_memstream": FILE}
REL = {"free": (HEAP, 0), "fclose": (FILE, 0), "close": (FD, 0), "munmap": (MAP, 0), "closedir": (DIR, 0)}
BADVAL = {FD: -1, MAP: None}
OUTSTR = {"mjs_to_string": (2, 4)}          # char **p, int *need_free
NORET = {"abort", "exit", "__assert_fail", "_exit"}

def base_name(n): return n[:-2] if n.endswith("64") else n

def const_args(i, env=None):
    out = []
    for j, o in enumerate(i.ops):
        if o.kind == "const": out.append((j, o.val))
        elif o.kind == "null": out.append((j, 0))
        elif env and o in env: out.append((j, env[o]))
    return tuple(out)

def reachable(fn, env):
    """blocks reachable when the parameters in env have constant values"""
    def ev(v, d=0):
        if v.kind == "const": return v.val
        if v.kind == "null": return 0
        if v in env: return env[v]
        if v.kind == "inst" and d < 6:
            if v.op in ("zext", "sext", "trunc"): return ev(v.ops[0], d + 1)
            if v.op == "phi":
                vs = {ev(o, d + 1) for o in v.ops}
                return vs.pop() if len(vs) == 1 else None
            if v.op == "icmp" and v.pred in ("eq", "ne"):
                a, b = ev(v.ops[0], d + 1), ev(v.ops[1], d + 1)
                if a is not None and b is not None: return int((a == b) == (v.pred == "eq"))
            if v.op == "and":
                a, b = ev(v.ops[0], d + 1), ev(v.ops[1], d + 1)
                if a == 0 or b == 0: return 0
        return None
    seen = {fn.entry}; st = [fn.entry]
    while st:
        b = st.pop(); t = b.term; succs = b.succs
        if env and t.op == "br" and t.ops:
            c = ev(t.ops[0])
            if c is not None: succs = [b.succs[0] if c & 1 else b.succs[1]]
        for s in succs:
            if s not in seen: seen.add(s); st.append(s)
    return seen

class Summ:
    def __init__(self, m, cg):
        self.m = m; self.cg = cg; self._t = {}; self._f = {}; self._acc = {}; self._mb = {}
    def fresh(self, fn, depth=0):
        """kind of a fresh resource every non-null return value of fn is, or None"""
        if fn.name in self._f: return self._f[fn.name]
        self._f[fn.name] = None
        if not fn.defined or fn.retty != ("ptr",): return None
        kinds = set(); seen = set(); work = [r.ops[0] for r in fn.rets()]
        while work:
            v = strip_ptr(work.pop())
            if v in seen: continue
            seen.add(v)
            if v.kind in ("null", "const", "undef"): continue
            if v.kind == "cexpr" : kinds.add(None); continue
            if v.kind == "inst" and v.op == "phi": work += v.ops; continue
            if v.kind == "inst" and v.op == "select": work += v.ops[1:]; continue
            if v.kind == "inst" and v.op == "call" and v.callee.kind == "fn":
                kinds.add(self.acq(v.callee)); continue
            kinds.add(None)
        r = kinds.pop() if len(kinds) == 1 else None
        self._f[fn.name] = r
        return r
    def acq(self, callee):
        n = base_name(callee.name)
        if n in ACQ: return ACQ[n]
        return self.fresh(callee) if callee.defined else None
    def takes(self, fn, k, consts=()):
        """callee may keep or release the pointer passed as parameter k. consts: ((param index, constant), ...)"""
        key = (fn.name, k, consts)
        if key in self._t: return self._t[key]
        self._t[key] = False
        if not fn.defined:
            n = base_name(fn.name)
            r = n in REL and REL[n][1] == k or n == "realloc" and k == 0
            self._t[key] = r
            return r
        if k >= len(fn.args): return False
        env = {fn.args[j]: c for j, c in consts if j < len(fn.args)}
        live = reachable(fn, env)
        insts = [i for b in fn.bbs if b in live for i in b.insts]
        web = {fn.args[k]}
        ch = True
        while ch:
            ch = False
            for i in insts:
                if i in web: continue
                if i.op in ("phi", "select", "bitcast", "gep", "inttoptr", "ptrtoint"):
                    ops = i.ops[:1] if i.op == "gep" else i.ops
                    if any(o in web for o in ops): web.add(i); ch = True
                elif i.op == "load":
                    # spilled to a local
                    p = strip_ptr(i.ops[0])
                    if p.kind == "inst" and p.op == "alloca" and any(j.op == "store" and strip_ptr(j.ops[1]) is p and j.ops[0] in web for j in insts):
                        web.add(i); ch = True
        r = False
        for i in insts:
            if i.op == "store" and i.ops[0] in web:
                p = strip_ptr(i.ops[1])
                if not (p.kind == "inst" and p.op == "alloca"): r = True
            elif i.op == "ret" and i.ops and i.ops[0] in web and i.ops[0].op != "gep" if i.op == "ret" and i.ops and i.ops[0].kind == "inst" else i.op == "ret" and i.ops and i.ops[0] in web: r = True
            elif i.op == "call" and i.callee.kind == "fn":
                for j, o in enumerate(i.ops):
                    if o in web and self.takes(i.callee, j, const_args(i, env)): r = True
        if r and any(i.op == "load" for i in web if i.kind == "inst"):
            # the parameter shares a local with other pointers: follow the paths
            tr = TakesRule(self.m, self, fn.args[k])
            ex = Explorer(self.m, fn, tr, self.cg); ex.MAXSTATES = 4000
            try: ex.run(); r = tr.hit
            except AnalysisBroken: pass
        self._t[key] = r
        return r
    def access(self, fn, cls):
        """(callee may read, callee may write) a location of class cls"""
        key = (fn.name, cls)
        if key not in self._acc:
            rd = wr = False
            for g in self.cg.reach(fn):
                if not g.defined: continue
                for i in g.insts():
                    if i.op == "load" and not rd and acc_class(self.m, i) == cls: rd = True
                    elif i.op == "store" and not wr and acc_class(self.m, i) == cls: wr = True
            self._acc[key] = (rd, wr)
        return self._acc[key]
    def mbuf_effects(self, fn, k):
        """{offset: 'init'|'free'} of growable buffers inside *param k"""
        key = (fn.name, k)
        if key in self._mb: return self._mb[key]
        self._mb[key] = {}
        out = {}
        if fn.defined and k < len(fn.args):
            for i in fn.calls("mbuf_init", "mbuf_free"):
                p = strip_ptr(i.ops[0]); off = 0
                while p.kind == "inst" and p.op == "gep":
                    o, _ = gep_offset(self.m, p)
                    off = None if o is None or off is None else off + o
                    p = strip_ptr(p.ops[0])
                if p is fn.args[k] and off is not None: out[off] = "init" if i.callee.name == "mbuf_init" else "free"
            if fn.name in ("mbuf_init", "mbuf_free"): out = {}
        self._mb[key] = out
        return out

class Rl(Rule):
    """ts: frozenset of (key, kind, term, 'held'|'rel')"""
    def __init__(self, m, S, owned): self.m = m; self.S = S; self.owned = owned; self.nacq = 0; self.nrel = 0
    def init(self, ex): return frozenset()
    def ts_syms(self, ts): return [r[2] for r in ts]
    def subst_ts(self, ts, a, b):
        from sym import subst
        if not any(mentions(r[2], a) or mentions(r[2], b) for r in ts): return ts
        out = set()
        for k, kind, t, s in ts:
            if mentions(t, b): continue          # older generation forgotten (reported at re-acquisition)
            out.add((k, kind, subst(t, a, b) if isinstance(t, tuple) else t, s))
        return frozenset(out)
    def track(self, cls): return cls in self.owned
    def find(self, ts, t, status=None):
        for r in ts:
            if r[2] == t and (status is None or r[3] == status): return r
        return None
    def bad(self, kind): return BADVAL.get(kind, 0)
    def isnull(self, ex, st, kind, t):
        """resource known not to exist on this path"""
        if kind in ("buffer",): return False
        if kind == FD:
            return ex.decide(st, "slt", t, 0, 32) is True or ex.decide(st, "eq", t, (1 << 32) - 1, 32) is True
        if kind == MAP and ex.decide(st, "eq", t, (1 << 64) - 1, 64) is True: return True
        return ex.decide(st, "eq", t, 0, 64) is True
    def lost(self, ex, st, i, tag):
        for r in st.ts:
            if r[0] == (i, tag) and r[3] == "held" and not self.isnull(ex, st, r[1], r[2]):
                ex.report(i, "the %s acquired here is overwritten in the next round of the loop without having been released" % r[1], st)
    def acquire(self, ex, st, i, kind, t, tag=0):
        key = (i, tag)
        if tag == 0: self.lost(ex, st, i, 0)
        st.ts = frozenset(r for r in st.ts if r[0] != key) | {(key, kind, t, "held")}
    def drop(self, st, t):
        st.ts = frozenset(r for r in st.ts if not (r[2] == t and r[3] == "held"))
    def release(self, ex, st, i, t, kind):
        if not isinstance(t, tuple) or t == U: return
        if t[0] == "al" or t[0] == "a" and t[1][0] == "al":
            ex.report(i, "a local variable is passed to the release function", st); return
        if t[0] == "g":
            ex.report(i, "a global or a string literal is passed to the release function", st); return
        r = self.find(st.ts, t, "rel")
        if r:
            if ex.decide(st, "eq", t, 0, 64) is not True:
                ex.report(i, "the %s is released a second time" % r[1], st)
            return
        r = self.find(st.ts, t, "held")
        if r:
            if r[1] != kind: ex.report(i, "a %s is released with a function for a %s" % (r[1], kind), st)
            st.ts = (st.ts - {r}) | {(r[0], r[1], t, "rel")}
        else:
            st.ts = st.ts | {((i, "x"), kind, t, "rel")}
        if len(st.ts) > 24: st.ts = frozenset(sorted(st.ts, key=repr)[:24])
    def stored(self, ex, st, i, val, addr, cls):
        l = ex.loc(addr)
        if isinstance(l[0], tuple) and l[0][0] == "al": return
        r = self.find(st.ts, val, "rel")
        if r and ex.decide(st, "eq", val, 0, 64) is not True:
            ex.report(i, "a pointer to a released %s is stored" % r[1], st)
        self.drop(st, val)
    def store(self, ex, st, i, addr, cls, val):
        self.deref(ex, st, i, addr)
        if isinstance(val, tuple): self.stored(ex, st, i, val, addr, cls)
        if cls in self.owned and not self.is_al(ex, addr):
            self.overwrite(ex, st, i, ex.loc(addr), cls, val)
    def is_al(self, ex, addr):
        l = ex.loc(addr)
        return isinstance(l[0], tuple) and l[0][0] == "al"
    def overwrite(self, ex, st, i, lc, cls, val):
        ent = st.mem.get(lc)
        base = lc[0]
        if self.find(st.ts, base, "held"): return            # field of an object being built
        if ent is None:
            if val == 0 and self.fresh_obj(base): return
            ex.report(i, "the owned field %s is overwritten without its old value having been released" % cls, st)
            return
        t = ent[0]
        if t == val or isinstance(t, int) or self.find(st.ts, t, "rel") or ex.decide(st, "eq", t, 0, 64) is True: return
        if isinstance(t, tuple) and t[0] == "v":
            key = (i, "old")
            st.ts = st.ts | {(key, HEAP, t, "held")}          # saved in a register: must be released or stored by the function
    def fresh_obj(self, base):
        return isinstance(base, tuple) and base[0] == "v" and base[1].kind == "inst" and base[1].op == "call"
    def clobbers(self, ex, i, cls):
        if i.callee.kind != "fn": return True
        if not i.callee.defined: return False
        return self.S.access(i.callee, cls)[1]
    def inst(self, ex, st, i):
        if i.op == "load":
            a = ex.t(st, i.ops[0])
            if a != U: self.deref(ex, st, i, a)
        elif i.op == "insertvalue":
            t = ex.t(st, i.ops[1])
            if isinstance(t, tuple): self.drop(st, t)
    def deref(self, ex, st, i, addr):
        b = ex.loc(addr)[0]
        r = self.find(st.ts, b, "rel")
        if r: ex.report(i, "a %s is accessed after it was released" % r[1], st)
    def call(self, ex, st, i, args):
        n = base_name(i.callee.name) if i.callee.kind == "fn" else None
        if n in NORET: return []
        if n is None:
            for t in args:
                if isinstance(t, tuple): self.pass_alloca(ex, st, t, None, 0)
            return None
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            d, s = ex.loc(args[0]), ex.loc(args[1])
            for x in (args[0], args[1]):
                self.deref(ex, st, i, x) if x != U else None
            if isinstance(s[0], tuple) and s[0][0] == "al" and not (isinstance(d[0], tuple) and d[0][0] == "al"):
                for k, v in st.mem.items():
                    if k[0] == s[0] and isinstance(v[0], tuple): self.drop(st, v[0])
                self.drop_buf(st, s)
            elif isinstance(d[0], tuple) and d[0][0] == "al" and not (isinstance(s[0], tuple) and s[0][0] == "al"):
                self.drop_buf(st, d)
            return None
        if n.startswith("llvm."): return None
        if n in REL:
            kind, k = REL[n]
            self.nrel += 1
            self.release(ex, st, i, args[k], kind)
            ex.clobber(st, i, [])if False else None
            if i.ty != ("void",): ex.fresh(st, i)
            return [(st, ("v", i))] if i.ty != ("void",) else [(st, None)]
        if n == "realloc":
            out = []
            s2 = st.copy()
            for s, ok in ((st, True), (s2, False)):
                ex.fresh(s, i)
                if ok:
                    s.facts[("v", i)] = (None, None, frozenset({0}))
                    if isinstance(args[0], tuple): self.release(ex, s, i, args[0], HEAP)
                    self.acquire(ex, s, i, HEAP, ("v", i))
                else: ex.assume(s, "eq", ("v", i), 0, 64)
                out.append((s, ("v", i) if ok else 0))
            return out
        if n in OUTSTR and len(args) > max(OUTSTR[n]) and i.callee.defined:
            pk, fk = OUTSTR[n]
            lp, lf = ex.loc(args[pk]), ex.loc(args[fk])
            ex.clobber(st, i, args); ex.fresh(st, i)
            if not self.is_al(ex, args[pk]) or not self.is_al(ex, args[fk]): return [(st, ("v", i))]
            self.lost(ex, st, i, "str"); ex.renew(st, ("v", i, "lit")); ex.renew(st, ("v", i, "str"))
            s2 = st.copy()
            st.mem[lf] = (0, ""); st.mem[lp] = (("v", i, "lit"), "")
            s2.mem[lf] = (1, ""); s2.mem[lp] = (("v", i, "str"), "")
            self.nacq += 1
            self.acquire(ex, s2, i, HEAP, ("v", i, "str"), "str")
            ex.assume(s2, "eq", ("v", i), 0, 32)
            return [(st, ("v", i)), (s2, 0)]
        if n in ("mg_avprintf", "mg_asprintf") and i.callee.defined:
            lp = ex.loc(args[0]); al = self.is_al(ex, args[0])
            ent = st.mem.get(lp); size = args[1]
            cls = self.cls_of(i.ops[0])
            for k, t in enumerate(args):
                if isinstance(t, tuple): self.use(ex, st, i, t)
            if not al and cls in self.owned:
                self.overwrite(ex, st, i, lp, cls, None)
            ex.clobber(st, i, args[1:]); ex.fresh(st, i)
            outs = []
            new = ("v", i, "buf")
            self.lost(ex, st, i, "buf"); ex.renew(st, new)
            if size != 0:
                s2 = st.copy()
                if al and ent: s2.mem[lp] = ent
                outs.append((s2, ("v", i)))
            if al:
                self.nacq += 1
                self.acquire(ex, st, i, HEAP, new, "buf")
                st.mem[lp] = (new, "")
                if ent and isinstance(ent[0], tuple): st.rel = st.rel | {("ne", new, ent[0])}
            elif cls in self.owned: st.mem[lp] = (new, cls)
            outs.append((st, ("v", i)))
            return outs
        if n == "mjs_json_stringify" and len(args) == 5 and i.callee.defined and i.callee is not ex.fn:
            lp = ex.loc(args[4]); al = self.is_al(ex, args[4])
            ex.clobber(st, i, args); ex.fresh(st, i)
            if not al: return [(st, ("v", i))]
            self.lost(ex, st, i, "buf"); ex.renew(st, ("v", i, "buf"))
            s2 = st.copy()
            ex.assume(st, "ne", ("v", i), 0, 32)
            if s2.mem.get(lp) is None: s2.mem[lp] = (("v", i, "buf"), "")
            new = ("v", i, "buf"); s2.mem[lp] = (new, "")
            outs = [(st, ("v", i))]
            if args[3] != 0:
                s3 = s2.copy(); s3.mem[lp] = (args[2], ""); outs.append((s3, 0))
                if isinstance(args[2], tuple): s2.rel = s2.rel | {("ne", new, args[2])}
            self.nacq += 1
            self.acquire(ex, s2, i, HEAP, new, "buf")
            outs.append((s2, 0))
            return outs
        if n in ("mbuf_init", "mbuf_append", "mbuf_insert", "mbuf_resize", "mbuf_append_and_free") and args[0] != U and self.is_al(ex, args[0]):
            l = ex.loc(args[0])
            if n == "mbuf_append_and_free" and isinstance(args[1], tuple): self.drop(st, args[1])
            kind = "buffer"
            key = ("buf", l[0], l[1])
            if n != "mbuf_init" or args[1] != 0:
                st.ts = frozenset(r for r in st.ts if r[0] != key) | {(key, kind, ("buf",) + l, "held")}
            ex.clobber(st, i, args)
            if i.ty != ("void",): ex.fresh(st, i); return [(st, ("v", i))]
            return [(st, None)]
        if n in ("mbuf_free",) and args[0] != U and self.is_al(ex, args[0]):
            l = ex.loc(args[0]); key = ("buf", l[0], l[1])
            st.ts = frozenset(r for r in st.ts if r[0] != key)
            ex.clobber(st, i, args)
            return [(st, None)]
        # generic callee
        for k, t in enumerate(args):
            if not isinstance(t, tuple) or t == U: continue
            self.use(ex, st, i, t)
            tk = self.S.takes(i.callee, k, const_args(i))
            if tk:
                if self.find(st.ts, t, "held"): self.drop(st, t)
            self.pass_alloca(ex, st, t, i.callee, k)
        if i.callee.defined:
            for lc, v in list(st.mem.items()):
                if v[1] in self.owned and isinstance(v[0], tuple) and self.find(st.ts, v[0], "rel") and ex.decide(st, "eq", v[0], 0, 64) is not True:
                    rd, wr = self.S.access(i.callee, v[1])
                    if rd and not wr and any(isinstance(t, tuple) and ex.loc(t)[0] == lc[0] for t in args):
                        ex.report(i, "%s is called while the field %s still points to released memory" % (n, v[1]), st)
        kind = self.S.acq(i.callee)
        if kind:
            self.nacq += 1
            ex.clobber(st, i, args); ex.fresh(st, i)
            self.acquire(ex, st, i, kind, ("v", i))
            return [(st, ("v", i))]
        return None
    def cls_of(self, v):
        from flow import field_class
        return field_class(self.m, v)
    def use(self, ex, st, i, t):
        r = self.find(st.ts, t, "rel") or self.find(st.ts, ex.loc(t)[0], "rel")
        if r and ex.decide(st, "eq", t, 0, 64) is not True and not self.reldecl(i):
            ex.report(i, "a released %s is passed to %s" % (r[1], i.callee.name), st)
    def reldecl(self, i): return False
    def pass_alloca(self, ex, st, t, callee, k):
        l = ex.loc(t)
        if not (isinstance(l[0], tuple) and l[0][0] == "al"): return
        if callee is not None and callee.defined:
            eff = self.S.mbuf_effects(callee, k)
            for off, e in eff.items():
                key = ("buf", l[0], l[1] + off)
                st.ts = frozenset(r for r in st.ts if r[0] != key)
                if e == "init": st.ts = st.ts | {(key, "buffer", ("buf", l[0], l[1] + off), "held")}
        if callee is not None and not callee.defined: return
        for kk, v in st.mem.items():
            if kk[0] == l[0] and isinstance(v[0], tuple) and self.find(st.ts, v[0], "held"):
                if callee is None or self.may_take_inner(callee, k): self.drop(st, v[0])
    def may_take_inner(self, callee, k):
        """callee may take ownership of a pointer stored inside *param k"""
        key = ("inner", callee.name, k, ())
        c = self.S._t
        if key in c: return c[key]
        c[key] = False
        r = False
        if callee.defined and k < len(callee.args):
            a = callee.args[k]
            from flow import apath
            for i in callee.insts():
                if i.op == "load" and i.ty == ("ptr",) and apath(self.m, i.ops[0])[0] is a:
                    for j in callee.insts():
                        if j.op == "store" and j.ops[0] is i or j.op == "ret" and j.ops and j.ops[0] is i: r = True
                        if j.op == "call":
                            for x, o in enumerate(j.ops):
                                if o is i and (j.callee.kind != "fn" or self.S.takes(j.callee, x)): r = True
                elif i.op == "call":
                    for x, o in enumerate(i.ops):
                        if strip_ptr(o) is a and i.callee.kind == "fn" and i.callee.defined and self.may_take_inner(i.callee, x): r = True
                elif i.op == "store" and i.ops[0] is a: r = True
        c[key] = r
        return r
    def drop_buf(self, st, l):
        st.ts = frozenset(r for r in st.ts if not (r[1] == "buffer" and r[2][1] == l[0]))
    def ret(self, ex, st, i, val):
        if i.ops and i.ops[0].ty[0] == "struct":
            for k, v in st.mem.items():
                if k[0][0] == "al" and isinstance(v[0], tuple): self.drop(st, v[0])
        for key, kind, t, s in st.ts:
            if s != "held": continue
            if kind == "buffer":
                src = [k for k in st.mem if k[0] == t[1]]
                ex.report(i, "the local buffer '%s' is not released when %s returns" % (t[1][1].name or "?", ex.fn.name), st); continue
            if t == val or isinstance(val, tuple) and mentions(val, t): continue
            if self.isnull(ex, st, kind, t): continue
            w = key[0]
            ex.report(w if hasattr(w, "op") else i, "the %s acquired here is not released on a path to the return at %s" % (kind, i.where().split(":")[-1] and "the end of the function" ), st)
        for lc, v in st.mem.items():
            if v[1] in self.owned and isinstance(v[0], tuple) and self.find(st.ts, v[0], "rel") and ex.decide(st, "eq", v[0], 0, 64) is not True:
                if self.find(st.ts, lc[0], "rel"): continue
                if isinstance(lc[0], tuple) and lc[0][0] == "al": continue
                ex.report(i, "the field %s still points to released memory when %s returns" % (v[1], ex.fn.name), st)

class TakesRule(Rl):
    def __init__(self, m, S, arg): Rl.__init__(self, m, S, set()); self.t = ("v", arg); self.hit = False
    def release(self, ex, st, i, t, kind):
        if t == self.t: self.hit = True
        Rl.release(self, ex, st, i, t, kind)
    def stored(self, ex, st, i, val, addr, cls):
        if val == self.t and not self.is_al(ex, addr): self.hit = True
        Rl.stored(self, ex, st, i, val, addr, cls)
    def call(self, ex, st, i, args):
        n = base_name(i.callee.name) if i.callee.kind == "fn" else None
        if n is not None and n not in REL and n not in OUTSTR:
            for k, t in enumerate(args):
                if t == self.t and (i.callee is ex.fn or self.S.takes(i.callee, k, const_args(i))): self.hit = i.callee is not ex.fn or self.hit
        return Rl.call(self, ex, st, i, args)
    def ret(self, ex, st, i, val):
        if val == self.t: self.hit = True

def owned_fields(m):
    """field classes whose loaded content is released somewhere"""
    out = {}
    for f in m.fns.values():
        if not f.defined: continue
        for i in f.calls("free"):
            p = strip_ptr(i.ops[0])
            if p.kind == "inst" and p.op == "load":
                c = acc_class(m, p)
                if c and c.startswith("mjs."): out.setdefault(c, []).append(i)
    return out

SKIP = {"main"}
def sites_of(m, S, f, owned):
    n = 0
    for i in f.insts():
        if i.op == "call" and i.callee.kind == "fn":
            c = base_name(i.callee.name)
            if c in REL or c in OUTSTR or c in ("realloc", "mg_avprintf", "mg_asprintf", "mjs_json_stringify") or S.acq(i.callee): n += 1
            elif i.callee.name == "mbuf_init" or any(S.mbuf_effects(i.callee, k) for k, o in enumerate(i.ops) if strip_ptr(o).kind == "inst" and strip_ptr(o).op == "alloca"): n += 1
        elif i.op == "store" and acc_class(m, i) in owned: n += 1
    return n

def explore(R, m, S, f, owned, cg, limit):
    ex = Explorer(m, f, Rl(m, S, set(owned)), cg)
    ex.MAXSTATES = limit
    ex.run()
    R.count("states", ex.visited_states)
    for inst, msg, trail in ex.reports:
        callee = inst.callee.name if inst.op == "call" and inst.callee.kind == "fn" else inst.op
        R.bad("%s:%s:%s" % (f.name, callee, msg), inst.where(), "%s (in %s)" % (msg, f.name), trail)

def check(ctx, R):
    m = ctx.api(); cg = ctx.cg(m)
    S = Summ(m, cg)
    owned = owned_fields(m)
    need("mjs.error_msg" in owned, "no release of mjs.error_msg found")
    R.count("owned fields", len(owned))
    n = 0; big = []
    for f in sorted(m.fns.values(), key=lambda f: f.name):
        if not f.defined or f.name in SKIP: continue
        src = next((i.file for i in f.insts() if i.file), "") or ""
        if "frozen" in src: continue
        sites = sites_of(m, S, f, owned)
        if not sites: continue
        R.saw(f); n += sites
        try: explore(R, m, S, f, owned, cg, 12000)
        except AnalysisBroken: big.append(f.name); continue
        R.ok("resources of %s (%d sites)" % (f.name, sites))
    R.count("acquisition/release sites", n)
    need(n > 30, "too few resource sites found")
    if big:
        # too many paths with all helpers inlined: the function and its helpers one by one
        m2 = ctx.raw(); cg2 = ctx.cg(m2); S2 = Summ(m2, cg2)
        todo = set(); work = list(big)
        while work:
            g = work.pop()
            if g in todo or g not in m2.fns or not m2.fns[g].defined: continue
            todo.add(g)
            for i in m2.fns[g].insts():
                if i.op == "call" and i.callee.kind == "fn" and (i.callee.name not in m.fns or not m.fns[i.callee.name].defined): work.append(i.callee.name)
        for g in sorted(todo):
            f = m2.fns[g]
            src = next((i.file for i in f.insts() if i.file), "") or ""
            if "frozen" in src or not sites_of(m2, S2, f, owned): continue
            try: explore(R, m2, S2, f, owned if g in big else (), cg2, 20000)   # what a helper leaves in a field is its caller's business
            except AnalysisBroken as e: R.undecided("%s: %s" % (g, e)); continue
            R.saw(f); R.ok("resources of %s" % g)
    check_outstr(ctx, R, m)

class OutRule(Rl):
    """mjs_to_string itself: a heap block stored in *p comes with *need_free != 0, anything else with 0"""
    def __init__(self, m, S, owned, pk, fk): Rl.__init__(self, m, S, owned); self.pk, self.fk = pk, fk
    def track_loc(self, lc): return lc in (self.lp, self.lf)
    def init(self, ex):
        self.lp = (("v", ex.fn.args[self.pk]), 0); self.lf = (("v", ex.fn.args[self.fk]), 0)
        return frozenset()
    def stored(self, ex, st, i, val, addr, cls): pass
    def clobbers(self, ex, i, cls): return False
    def ret(self, ex, st, i, val):
        p = st.mem.get(self.lp); fl = st.mem.get(self.lf)
        if fl is None: ex.report(i, "the ownership flag is not set on some path", st); return
        if p is None: return
        held = self.find(st.ts, p[0], "held")
        f0 = ex.decide(st, "eq", fl[0], 0, 32)
        if held and not self.isnull(ex, st, HEAP, p[0]) and f0 is True: ex.report(i, "an allocated string is returned with the ownership flag clear", st)
        if not held and f0 is False and not isinstance(p[0], int): ex.report(i, "a string that was not allocated is returned with the ownership flag set", st)
        for key, kind, t, s in st.ts:
            if s == "held" and t != p[0] and not self.isnull(ex, st, kind, t): ex.report(key[0], "the heap block acquired here is not handed over", st)

def check_outstr(ctx, R, m):
    for n, (pk, fk) in OUTSTR.items():
        f = m.fns.get(n)
        if f is None or not f.defined or len(f.args) <= max(pk, fk): R.undecided("%s not found" % n); continue
        R.saw(f)
        ex = Explorer(m, f, OutRule(m, Summ(m, ctx.cg(m)), set(), pk, fk), ctx.cg(m)).run()
        for inst, msg, trail in ex.reports: R.bad("%s:%s" % (n, msg), inst.where(), "%s: %s" % (n, msg), trail)
        R.ok("ownership flag of %s agrees with the string" % n)
