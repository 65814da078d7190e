"""Native recursion driven by programs or data is bounded by nesting counters, which are given back."""
from ctx import need, BASELINE
from build import AnalysisBroken
from sym import Explorer, State, Rule, mentions, subst
from flow import acc_class, field_class, strip_ptr, gep_offset
from ir import sccs

RULE = ("every cycle of the call graph contains a call that is made only with a nesting counter (an integer or stack length held in a structure) increased since "
        "the function was entered and compared with a constant that the path is below (or a self-call whose constant argument excludes another one); no call of the cycle is made with the counter "
        "lower than at entry; the counter is back at its entry value at every successful return (at every return if it outlives the operation); limit x frame sizes fits a stack")
EXPLANATION = ("Strongly connected components of the call graph (indirect calls resolved by role: native functions, FFI callbacks, walkers) are computed; each member is "
               "explored path-sensitively with its counters tracked symbolically, guarded calls are removed and the rest must be acyclic.")
ASSUMPTIONS = ["the native stack is at least 8 MiB", "data recursion in mg_match_prefix_n (pattern supplied by the embedding program), mjs_struct_to_obj (descriptor tables of the embedding program), "
               "mjs_ffi_sig_copy (signatures nest once, see mjs_parse_ffi_signature) and the second attempt of mjs_json_stringify are not judged"]
CONFIGS_THOROUGH = ["default", "aggressive_gc", "nodebug", "m32"]
EXEMPT = {"mg_match_prefix_n", "mjs_struct_to_obj", "mjs_ffi_sig_copy", "mjs_json_stringify"}
STACK = 8 << 20
MAXK = 1 << 20

def fullclass(m, v):
    return field_class(m, v)

def counters(m, fns):
    """integer field classes that some function steps up or down (also stack lengths changed through the mbuf helpers)"""
    out = set()
    for f in fns:
        for i in f.insts():
            if i.op == "store":
                c = acc_class(m, i)
                v = strip_ptr(i.ops[0])
                while v.kind == "inst" and v.op in ("trunc", "sext", "zext"): v = v.ops[0]
                if c and v.kind == "inst" and v.op in ("add", "sub"):
                    x = v.ops[0]
                    while x.kind == "inst" and x.op in ("trunc", "sext", "zext"): x = x.ops[0]
                    if x.kind == "inst" and x.op == "load" and acc_class(m, x) == c and v.ops[1].kind == "const": out.add(c)
    return out

class Rl(Rule):
    def __init__(self, m, scc, cls, ephemeral):
        self.m = m; self.scc = scc; self.cls = cls; self.eph = ephemeral
        self.locs = {}; self.sign = 0
        self.edges = []                # (inst, callee, {cls: (k, hi)}, consts)
        self.rets = []
    def track(self, c): return c in self.cls
    def track_loc(self, lc): return lc in self.locs
    def clobbers(self, ex, i, c): return False
    def keep_fact(self, t): return isinstance(t, tuple) and (t[:2] == ("v", "ent") or t[0] == "/")
    def keep_mem(self, k, v): return k in self.locs
    def edge(self, ex, st, frm, to):
        if self.flow is None: self.flow = retflow(ex.fn)
        st.facts = {k: v for k, v in st.facts.items() if k[0] == "/" or k[0] == "v" and (k[1] == "ent" or k[1] in self.flow or k[1].kind == "arg")}
        st.rel = frozenset()
        if len(ex.fn.bbs) > 300: st.mem = {k: v for k, v in st.mem.items() if k in self.locs}
        if len(ex.fn.bbs) > 300: st.env = {k: v for k, v in st.env.items() if isinstance(v, tuple) and (v[0] in ("al", "a") or v[0] == "v" and v[1] == "ent" or v[0] in "+cmp" and any(mentions(v, x[0]) for x in st.mem.values() if isinstance(x[0], tuple)))}
        return True
    flow = None
    def init(self, ex):
        return ()
    def seed(self, ex):
        st = State(); m = self.m
        for f in [ex.fn]:
            for i in f.insts():
                if i.op in ("load", "store"):
                    c = acc_class(m, i)
                    if c not in self.cls: continue
                    a = i.ops[0] if i.op == "load" else i.ops[1]
                    a = strip_ptr(a); off = 0; good = True
                    while a.kind == "inst" and a.op == "gep":
                        o, _ = gep_offset(m, a)
                        if o is None: good = False; break
                        off += o; a = strip_ptr(a.ops[0])
                    if good and a.kind == "arg":
                        self.locs[(("v", a), off)] = c
                        st.mem[(("v", a), off)] = (("v", "ent", c, off), c)
        sg = m.sig(ex.fn.name)
        for a, ty in zip(ex.fn.args, (sg or [])[1:]):
            for c in self.cls:
                p = c.split(".")
                if not ty or ty != "struct.%s*" % p[0]: continue
                off = 0; sn = "struct." + p[0]
                for x in p[1:]:
                    fl = [q for q in m.struct_fields(sn) or () if q[1] == x]
                    if not fl: off = None; break
                    off += fl[0][0]; sn = fl[0][2]
                if off is None or (("v", a), off) in st.mem: continue
                self.locs[(("v", a), off)] = c
                st.mem[(("v", a), off)] = (("v", "ent", c, off), c)
        st.ts = ()
        return st
    # -- current value of each counter relative to entry
    def values(self, st):
        out = {}
        for k, (t, c) in st.mem.items():
            c = self.locs.get(k, c)
            if c in self.cls and not (isinstance(k[0], tuple) and k[0][0] == "al"):
                out.setdefault(c, []).append(t)
        return out
    def rel(self, st):
        out = {}
        for c, ts in self.values(st).items():
            ks = []
            for t in ts:
                k = 0; b = t
                while isinstance(b, tuple) and b[0] == "+": k += sx(b[2]); b = b[1]
                if isinstance(b, tuple) and b[:2] == ("v", "ent") and b[2] == c: ks.append((k, self.upper(st, b)))
                else: ks.append((None, None))
            if ks and all(k[0] is not None for k in ks): out[c] = min(ks, key=lambda x: x[0])
            else: out[c] = (None, None)
        return out
    num_terms = True
    def upper(self, st, b):
        hi = st.facts.get(b, (None, None))[1]
        for t, f in st.facts.items():
            if t[0] == "/" and f[1] is not None and (t[1] == b or t[1][0] == "+" and t[1][1] == b):
                h = f[1] * t[2] + t[2] - 1
                if hi is None or h < hi: hi = h
        return hi
    def call(self, ex, st, i, args):
        m = self.m
        n = i.callee.name if i.callee.kind == "fn" else None
        if n in ("abort", "__assert_fail", "exit", "_exit"): return []
        d = None
        if n in ("push_mjs_val", "mbuf_append") and args: d = 8 if n == "push_mjs_val" else args[2] if isinstance(args[2], int) else None
        elif n == "mjs_pop_val" and args: d = -8
        if n in ("push_mjs_val", "mbuf_append", "mjs_pop_val") and d is not None:
            c = field_class(m, i.ops[0], acc=False)
            c = c + ".len" if c else None
            if c in self.cls:
                lo = [x for x in m.struct_fields("struct.mbuf") if x[1] == "len"][0][0]
                l = ex.loc(args[0]); l = (l[0], l[1] + lo)
                cur = st.mem.get(l)
                t = cur[0] if cur else ("v", "ent", c, l[1])
                b, k = (t[1], sx(t[2])) if isinstance(t, tuple) and t[0] == "+" else (t, 0)
                k += d
                if abs(k) > 4096: b, k = ("v", "many", c), 0
                st.mem[l] = ((("+", b, k & (2 ** 64 - 1)) if k else b), c)
        tg = self.targets(i)
        hit = [f for f in tg if f in self.scc]
        if hit:
            r = self.rel(st)
            for f in hit: self.edges.append((i, f, r, {k: a for k, a in enumerate(args) if isinstance(a, int)}, self.params(ex, st), ex.trail(st)))
            # result: success leaves the counters as they were; an error may leave those of the operation higher
            if self.eph and i.ty[0] == "int" and i.ty[1] > 1:
                ok = st.copy(); bad = st.copy(); ex.fresh(ok, i); ex.fresh(bad, i)
                out = []
                if ex.assume(ok, "eq", ("v", i), 0, i.ty[1]): ok.env[i] = 0; out.append((ok, 0))
                if ex.assume(bad, "ne", ("v", i), 0, i.ty[1]):
                    if self.sign: ex.assume(bad, "slt" if self.sign < 0 else "sgt", ("v", i), 0, i.ty[1])
                    for k, (t, c) in list(bad.mem.items()):
                        c = self.locs.get(k, c)
                        if c in self.eph and not (isinstance(k[0], tuple) and k[0][0] == "al"): bad.mem[k] = (("v", "dirty", c), c)
                    out.append((bad, ("v", i)))
                return out
        return None
    def params(self, ex, st):
        out = {}
        for k, a in enumerate(ex.fn.args):
            f = st.facts.get(("v", a))
            if f: out[k] = f
        return out
    def store(self, ex, st, i, addr, cls, val):
        pass
    def ret(self, ex, st, i, val):
        ok = None
        if isinstance(val, int): ok = (val == 0)
        elif val is not None:
            d = ex.decide(st, "eq", val, 0, 32)
            ok = d
        self.rets.append((i, ok, self.rel(st), self.values(st), ex.trail(st), val))

def sx(v): return v - (1 << 64) if v >= 1 << 63 else v - (1 << 32) if (1 << 31) <= v < (1 << 32) else v

def retflow(f):
    """values that may be what the function returns"""
    out = set(); work = [o for i in f.rets() for o in i.ops]
    while work:
        v = work.pop()
        if v in out or v.kind != "inst": continue
        out.add(v)
        if v.op in ("phi", "zext", "sext", "trunc", "freeze"): work += v.ops
        elif v.op == "select": work += v.ops[1:]
    return out

def retsign(s):
    """sign of the error codes these functions return: -1, 1 or 0 (mixed)"""
    neg = pos = False
    for f in s:
        if f.retty[0] != "int": continue
        for v in retflow(f) | {o for i in f.rets() for o in i.ops}:
            for o in ([v] if v.kind == "const" else v.ops if v.op == "phi" else v.ops[1:] if v.op == "select" else ()):
                if o.kind == "const" and sx(o.val) > 0: pos = True
                if o.kind == "const" and sx(o.val) < 0: neg = True
    return -1 if neg else 1 if pos else 0

def frame(m, f):
    s = 160
    for i in f.insts():
        if i.op == "alloca" and i.alloc_ty:
            try: s += m.sizeof(i.alloc_ty)
            except Exception: pass
    return s

def check(ctx, R):
    m = ctx.api(); cg = ctx.cg(m)
    def targets(i):
        t = [f for f in cg.targets(i) if f.defined]
        # a native function that is not ours may call any FFI callback
        return t
    g = {f: [t for t in cg.direct[f] if t.defined] for f in cg.direct}
    comps = []
    for s in sccs(g):
        s = list(s)
        if len(s) > 1 or s[0] in g[s[0]]: comps.append(s)
    need(m.fns.get("mjs_execute") is not None and m.fns.get("parse_statement") is not None or comps, "call graph has no recursion at all: the entry points were not found")
    localstructs = set()
    for f in m.fns.values():
        if not f.defined: continue
        for i in f.insts():
            if i.op == "alloca" and i.alloc_ty and i.alloc_ty[0] == "struct": localstructs.add(str(i.alloc_ty[1]).replace("struct.", ""))
    allcls = counters(m, [f for f in m.fns.values() if f.defined])
    for s in sorted(comps, key=lambda s: sorted(x.name for x in s)):
        S = set(s); nm = sorted(x.name for x in s)
        if S and all(x.name in EXEMPT for x in S): R.count("exempt cycles"); continue
        sub = set()
        for f in s:
            for i in f.insts():
                if i.op in ("load", "store"):
                    c = acc_class(m, i)
                    if c in allcls or c and c.endswith(".len"): sub.add(c)
        # stack lengths of the interpreter's own stacks change with the program; keep only those compared in the cycle
        sub = {c for c in sub if c and compared(m, s, c)}
        eph = {c for c in sub if c.split(".")[0] in localstructs}
        edges = []; und = False; rets = {}; sign = retsign(s)
        R.count("recursive functions", len(s))
        for f in sorted(s, key=lambda f: f.name):
            R.saw(f)
            r = Rl(m, S, sub, eph); r.targets = targets
            r.sign = sign
            ex = Explorer(m, f, r, cg)
            try: ex.run(r.seed(ex))
            except AnalysisBroken as e:
                R.undecided("%s: %s" % (f.name, e)); und = True; continue
            R.count("paths ended", ex.paths_ended)
            bysite = {}
            for e in r.edges: bysite.setdefault((e[0], e[1]), []).append(e)
            for (i, t), es in bysite.items(): edges.append((f, t, i, es))
            rets[f] = r.rets
        if und: continue
        R.count("recursive calls", len(edges))
        used = {}
        G = {f: set() for f in s}; kept = {}
        low = []
        for f, t, i, es in edges:
            best = None
            for c in sub:
                if all(e[2].get(c, (None, None))[0] is not None and e[2][c][0] > 0 and e[2][c][1] is not None and e[2][c][1] < MAXK * 8 for e in es):
                    k = max(e[2][c][1] // max(1, e[2][c][0]) for e in es)
                    if best is None or k < best[1]: best = (c, k)
            for e in es:
                for c, (k, hi) in e[2].items():
                    if k is not None and k < 0: low.append((f, t, i, c, e[5]))
            if best:
                used.setdefault(best[0], []).append(best[1])
                continue
            if len(s) == 1 and excluded(es): R.count("self-calls with an excluding constant"); continue
            G[f].add(t); kept[(f, t)] = (i, es)
        rest = [x for x in sccs(G) if len(list(x)) > 1 or list(x)[0] in G[list(x)[0]]]
        good = True
        for x in rest:
            x = list(x); names = sorted(y.name for y in x); good = False
            # a representative call of the cycle
            i, es = None, None
            for y in x:
                for z in G[y]:
                    if z in x and (y, z) in kept: i, es = kept[(y, z)]
            R.bad("cycle:" + "+".join([n for n in names if n in BASELINE][:6] or names[:6]), i.where(), "recursion without a limit: %s" % " -> ".join(cycle(G, x)), es[0][5])
        for f, t, i, c, tr in low:
            if c in used:
                good = False
                R.bad("%s:%s:low" % (f.name, c), i.where(), "%s calls %s with the nesting counter %s lower than it was at entry" % (f.name, t.name, c), tr)
        for c in used:
            K = max(used[c]); fr = sum(frame(m, f) for f in s)
            R.count("limit of %s" % c, K)
            if K * fr > STACK * 4:
                good = False
                R.bad("limit:" + c, s[0].name, "nesting limit %d of %s is too large for a native stack (%d bytes of frames per level)" % (K, c, fr))
            for f, rs in rets.items():
                for i, ok, rel, vals, tr, val in rs:
                    if c not in rel: continue
                    k = rel[c][0]
                    if c in eph and ok is not True and f.retty != ("void",): 
                        if ok is None and k not in (0, None):
                            pass
                        continue
                    if k == 0: continue
                    if k is None:
                        if any(v == ("v", "dirty", c) for v in vals[c]) and ok is True:
                            good = False
                            R.bad("%s:%s:dirty" % (f.name, c), i.where(), "%s goes on after a failure without putting the nesting counter %s back" % (f.name, c), tr)
                        else: R.undecided("%s: %s at return" % (f.name, c))
                        continue
                    good = False
                    R.bad("%s:%s:balance" % (f.name, c), i.where(), "%s returns with the nesting counter %s %s than at entry" % (f.name, c, "higher" if k > 0 else "lower"), tr)
        if good: R.ok("%d mutually recursive functions (%s, ...): limited by %s" % (len(s), nm[0], ", ".join(sorted(used)) or "constant arguments"))

def compared(m, s, c):
    """is the field (or the field plus a constant) compared with a constant limit"""
    for f in s:
        for i in f.insts():
            if i.op == "icmp":
                for o, p in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                    if p.kind != "const" or p.val in (0, 1) or p.val & 0x80000000 and p.val >= (1 << 32) - 2 or p.val >= (1 << 64) - 2: continue
                    seen = set(); w = [o]
                    while w:
                        o = w.pop()
                        if o in seen or o.kind != "inst": continue
                        seen.add(o)
                        if o.op in ("zext", "sext", "trunc", "freeze", "phi"): w += o.ops
                        elif o.op in ("add", "sub", "udiv", "lshr") and o.ops[1].kind == "const": w.append(o.ops[0])
                        elif o.op == "load" and acc_class(m, o) == c: return True
    return False

def excluded(es):
    """self-call: every site passes the same constant for a parameter that the path knows to be different from it"""
    ks = set(es[0][3])
    for e in es: ks &= set(e[3])
    for k in ks:
        cs = {e[3][k] for e in es}
        if len(cs) != 1: continue
        c = cs.pop()
        if all(k in e[4] and (c in e[4][k][2] or e[4][k][0] is not None and c < e[4][k][0] or e[4][k][1] is not None and c > e[4][k][1]) for e in es): return True
    return False

def cycle(G, x):
    x = set(x); a = sorted(x, key=lambda f: f.name)[0]
    from collections import deque
    q = deque([(a, [a.name])]); seen = {a}
    while q:
        v, p = q.popleft()
        for t in sorted(G[v], key=lambda f: f.name):
            if t is a: return p + [a.name]
            if t in x and t not in seen: seen.add(t); q.append((t, p + [t.name]))
    return [a.name]
