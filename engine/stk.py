"""Symbolic model of the interpreter's stacks (operand, call, argument, scope, loop-address) for the path explorer.

Every stack is a pair (number of elements of the entry stack that were popped, elements pushed since), or ("set", size term, elements)
after its length was assigned, or ("?",) once the effect is no longer a constant."""
from sym import Rule, U, mentions, subst
from flow import dominates, natural_loop, loop_headers

STACKS = ("stack", "call_stack", "arg_stack", "scopes", "loop_addresses")
NORET = {"abort", "exit", "__assert_fail", "_exit"}
EMPTY = (0, ())
CAP = 14

class StackRule(Rule):
    num_terms = True
    merge_cases = True
    def __init__(self, m, natives, frame_items):
        self.m = m; self.natives = natives; self.nframe = frame_items
        self.offs = {}
        for o, n, *_ in m.struct_fields("struct.mjs"): self.offs[n] = o
        self.byoff = {self.offs[n]: n for n in STACKS if n in self.offs}
        lenoff = [x[0] for x in m.struct_fields("struct.mbuf") if x[1] == "len"][0]
        self.lenoffs = {self.offs[n] + lenoff: n for n in STACKS if n in self.offs}
        self.start = None; self.loops = {}
        vals = self.offs["vals"]
        this = [x[0] for x in m.struct_fields("struct.mjs_vals") if x[1] == "this_obj"][0]
        self.this_off = vals + this; self.err_off = self.offs["error"]
        self.native_calls = 0
    # ts = (tuple of stacks in STACKS order, tag)
    def init(self, ex):
        self.base = ("v", ex.fn.args[0])
        return (tuple(EMPTY for _ in STACKS), ())
    def ts_syms(self, ts):
        for s in ts[0]:
            for x in s[1:]:
                if isinstance(x, tuple):
                    for e in ([x] if s[0] == "set" and x is s[1] else x):
                        if isinstance(e, tuple): yield e
    def subst_ts(self, ts, a, b):
        def sb(x): return tuple(subst(e, a, b) if isinstance(e, tuple) else e for e in x)
        out = []
        for s in ts[0]:
            if s[0] == "?": out.append(s)
            elif s[0] == "set": out.append(("set", subst(s[1], a, b) if isinstance(s[1], tuple) else s[1], sb(s[2])))
            else: out.append((s[0], sb(s[1])))
        return (tuple(out), ts[1])
    def track_loc(self, lc): return lc[0] == self.base and lc[1] in (self.this_off, self.err_off)
    def get(self, st, X): return st.ts[0][STACKS.index(X)]
    def put(self, st, X, s):
        k = STACKS.index(X); l = list(st.ts[0]); l[k] = s; st.ts = (tuple(l), st.ts[1])
    def which(self, t):
        """stack named by the address term of its buffer descriptor"""
        if isinstance(t, tuple) and t[0] == "a" and t[1] == self.base: return self.byoff.get(t[2])
        return None
    def push(self, st, X, v, inst):
        s = self.get(st, X)
        if s[0] == "?": self.forget_size(st, X); return
        el = s[-1]
        v = v if v is not None else U
        if len(el) >= 2 and el[-1] == ("many", inst): return
        if el and isinstance(el[-1], tuple) and el[-1][:1] == ("el",) and el[-1][2] is inst:
            self.put(st, X, s[:-1] + (el[:-1] + (("many", inst),),)); return
        if len(el) >= CAP: self.put(st, X, ("?",)); return
        self.put(st, X, s[:-1] + (el + (("el", v, inst),),))
    def forget_size(self, st, X):
        a = ("dsz", X)
        st.env = {k: (v if not (isinstance(v, tuple) and mentions(v, a)) else ("v", k)) for k, v in st.env.items()}
        st.mem = {k: v for k, v in st.mem.items() if not (isinstance(v[0], tuple) and mentions(v[0], a))}
        st.facts = {k: v for k, v in st.facts.items() if not mentions(k, a)}
        st.rel = frozenset(r for r in st.rel if not (mentions(r[1], a) or mentions(r[2], a)))
    def inner(self, i):
        """is the instruction in a loop that lies within the explored region"""
        c = self.loops.get(i.bb)
        if c is None:
            c = any(i.bb in natural_loop(i.fn, h) for h in loop_headers(i.fn) if self.start is None or dominates(self.start, h))
            self.loops[i.bb] = c
        return c
    def pop(self, st, X, inst=None):
        s = self.get(st, X)
        if s[0] == "?": self.forget_size(st, X); return None
        if inst is not None and self.inner(inst) and not s[-1]:
            self.put(st, X, ("?",)); self.forget_size(st, X); return None
        el = s[-1]
        if el:
            if el[-1][0] == "many": self.put(st, X, ("?",)); return None
            self.put(st, X, s[:-1] + (el[:-1],)); return el[-1][1]
        if s[0] == "set":
            self.put(st, X, ("set", self.add(s[1], -1), ())); return None
        if s[0] >= CAP: self.put(st, X, ("?",)); return None
        self.put(st, X, (s[0] + 1, ()))
        return ("be", X, s[0] + 1)
    @staticmethod
    def add(t, n):
        if isinstance(t, int): return t + n
        if isinstance(t, tuple) and t[0] == "+": n += t[2]; t = t[1]
        return t if n == 0 else ("+", t, n)
    def size(self, st, X):
        s = self.get(st, X)
        if s[0] == "?": return ("dsz", X)
        if any(e[0] == "many" for e in s[-1]): return None
        if s[0] == "set": return self.add(s[1], len(s[2]))
        return self.add(("sz", X), len(s[1]) - s[0])
    def top(self, st, X, k):
        """element k (negative from the top)"""
        s = self.get(st, X)
        if s[0] == "?" or k >= 0: return None
        el = s[-1]
        if -k <= len(el):
            if any(e[0] == "many" for e in el[k:]): return None
            return el[k][1]
        if any(e[0] == "many" for e in el) or s[0] == "set": return None
        return ("be", X, s[0] + (-k - len(el)))
    def setlen(self, st, X, t):
        """the stack now has t elements (a term), or unknown when None"""
        if t is None: self.put(st, X, ("?",)); self.forget_size(st, X); return
        s = self.get(st, X)
        b, n = (t[1], t[2]) if isinstance(t, tuple) and t[0] == "+" else (t, 0)
        if b == ("sz", X) and s[0] not in ("?",):
            if s[0] == "set": self.put(st, X, (-n, ()) if n <= 0 else ("?",)); return
            keep = n + s[0]
            if 0 <= keep <= len(s[1]): self.put(st, X, (s[0], s[1][:keep])); return
            if n <= 0 and -n >= s[0]: self.put(st, X, (-n, ())); return
            self.put(st, X, ("?",)); return
        if b == ("sz", X) and n <= 0: self.put(st, X, (-n, ())); return
        self.put(st, X, ("set", t, ()))
    def res(self, ex, st, i, t): return [(st, t)]
    def native(self, ex, st, i):
        """contract of a native function: the arguments are replaced by the result"""
        self.native_calls += 1
        idx = self.top(st, "call_stack", -1)
        n = None
        if idx is not None: n = idx[1] if isinstance(idx, tuple) and idx[0] == "num" else ("gi", idx)
        if isinstance(n, tuple) and n[0] == "si": n = n[1]
        self.setlen(st, "stack", self.add(n, -1) if n is not None else None)
        self.push(st, "stack", U, i)
        self.clob_err(st)
    def clob_err(self, st): st.mem.pop((self.base, self.err_off), None)
    def call(self, ex, st, i, args):
        if i.callee.kind != "fn":
            if len(args) >= 1 and args[0] == self.base and len(args) == 1:
                self.native(ex, st, i); return [(st, None)]
            return None
        f = i.callee; n = f.name
        if n in NORET: return []
        a0 = args[0] if args else None
        X = self.which(a0)
        if n == "mjs_push" and a0 == self.base: self.push(st, "stack", args[1], i); return [(st, None)]
        if n == "mjs_pop" and a0 == self.base:
            r = self.pop(st, "stack", i); return [(st, r if r not in (None, U) else None)]
        if n == "push_mjs_val":
            if X: self.push(st, X, args[1], i); return [(st, None)]
        if n == "mjs_pop_val" and X:
            r = self.pop(st, X, i); return [(st, r if r not in (None, U) else None)]
        if n == "vtop" and X:
            r = self.top(st, X, -1); return [(st, r if r not in (None, U) else None)]
        if n == "vptr" and X:
            k = args[1]
            if isinstance(k, int):
                if k >= 1 << 31: k -= 1 << 32 if k < 1 << 32 else 1 << 64
                s = self.get(st, X)
                if s[0] not in ("?", "set") and k < 0 and not any(e[0] == "many" for e in s[1]):
                    return [(st, ("sl", X, len(s[1]) - s[0] + k))]
            return [(st, None)]
        if n == "mjs_stack_size" and X:
            return [(st, self.size(st, X))]
        if n == "mjs_mk_number" and len(args) == 2 and args[1] != U: return [(st, ("num", args[1]))]
        if n in ("mjs_get_int", "mjs_get_double") and len(args) == 2 and isinstance(args[1], tuple):
            x = args[1]
            if x[0] == "num":
                y = x[1]
                if n == "mjs_get_int": y = y[1] if isinstance(y, tuple) and y[0] == "si" else None
                return [(st, y)]
            if x[0] == "be" and n == "mjs_get_int": return [(st, ("gi", x))]
            return [(st, None)]
        if n in ("mjs_set_errorf", "mjs_prepend_errorf") and a0 == self.base and len(args) > 1:
            e = args[1]
            if isinstance(e, int): st.mem[(self.base, self.err_off)] = (e, "")
            else: self.clob_err(st)
            return [(st, e if isinstance(e, int) else None)]
        if n == "mjs_execute":
            return self.execute(ex, st, i)
        if f in self.natives and a0 == self.base and len(args) == 1 or n == "mjs_ffi_call2":
            self.native(ex, st, i); return [(st, None)]
        if n == "mjs_return" and a0 == self.base:
            self.native(ex, st, i); return [(st, None)]
        for X in STACKS:
            # somebody else gets hold of the descriptor
            if any(self.which(a) == X for a in args) and n not in ("mbuf_trim",): self.put(st, X, ("?",))
        if self.base in args: self.clob_err(st) if self.may_err(f) else None
        return None
    def clobbers(self, ex, i, cls): return False
    def may_err(self, f): return True
    def execute(self, ex, st, i):
        """contract of mjs_execute, called with the callee's frame on the call stack"""
        s = self.get(st, "call_stack")
        ok = st.copy(); bad = st.copy()
        cs = self.get(ok, "call_stack")
        if cs[0] not in ("?", "set") and len(cs[1]) >= self.nframe and not any(x[0] == "many" for x in cs[1]):
            fr = cs[1][-self.nframe:]
            this = fr[0][1]; idx = fr[-1][1]
            self.put(ok, "call_stack", (cs[0], cs[1][:-self.nframe]))
            n = idx[1] if isinstance(idx, tuple) and idx[0] == "num" else ("gi", idx)
            if isinstance(n, tuple) and n[0] == "si": n = n[1]
            self.setlen(ok, "stack", self.add(n, -1))
            ok.mem[(self.base, self.this_off)] = (this, "")
        elif cs[0] == 0 and not cs[1]: pass          # a program: no frame of its own, its result is popped
        else:
            self.put(ok, "call_stack", ("?",)); self.put(ok, "stack", ("?",))
        ok.mem[(self.base, self.err_off)] = (0, "")
        bad.mem[(self.base, self.err_off)] = (("err", 1), ""); bad.facts[("err", 1)] = (None, None, frozenset({0}))
        for s2 in (ok, bad): ex.clobber(s2, i, [ex.t(s2, o) for o in i.ops])
        return [(ok, None), (bad, None)]
    def load(self, ex, st, i, addr, cls, res):
        lc = ex.loc(addr)
        if isinstance(addr, tuple) and addr[0] == "sl":
            X, pos = addr[1], addr[2]; s = self.get(st, X)
            if s[0] not in ("?", "set"):
                r = self.top(st, X, pos - (len(s[1]) - s[0]))
                if r not in (None, U): return r
            return None
        if lc[0] == self.base and lc[1] in self.lenoffs:
            t = self.size(st, self.lenoffs[lc[1]])
            if t is not None: return ("*", t, 8) if not isinstance(t, int) else t * 8
        return None
    def store(self, ex, st, i, addr, cls, val):
        if isinstance(addr, tuple) and addr[0] == "sl":
            X, pos = addr[1], addr[2]; s = self.get(st, X)
            if s[0] not in ("?", "set"):
                k = pos + s[0]
                if 0 <= k < len(s[1]): self.put(st, X, (s[0], s[1][:k] + (("el", val, i),) + s[1][k + 1:]))
            return
        lc = ex.loc(addr)
        if lc[0] == self.base and lc[1] in self.lenoffs:
            X = self.lenoffs[lc[1]]
            self.setlen(st, X, self.bytes(val))
    def bytes(self, val):
        if isinstance(val, int): return val // 8 if val % 8 == 0 else None
        if isinstance(val, tuple):
            if val[0] == "*" and val[2] == 8: return val[1]
            if val[0] == "+":
                b = self.bytes(val[1])
                if b is not None and val[2] % 8 == 0: return self.add(b, val[2] // 8)
            if val[0] == "v": return ("/8", val)
        return None
    def net(self, st, X):
        """net number of elements, or a description"""
        s = self.get(st, X)
        if s[0] == "?": return None
        if s[0] == "set": return ("set", self.add(s[1], len(s[2])))
        if any(e[0] == "many" for e in s[1]): return None
        return len(s[1]) - s[0]
