"""What the parser emits, as seen by the interpreter.

semantics(): every bytecode instruction's operand layout, successors and stack effects, read off the dispatch loop of the
interpreter.  Emit: explores one parsing function with the code buffer modelled as a tape of instructions, operands and
pieces emitted by other parsing functions, all of symbolic length; jump operands are resolved to the places on the tape
their value is the distance to.  verify(): decodes a finished tape the way the interpreter does and follows its stacks."""
from ctx import need, BASELINE
from build import AnalysisBroken
from sym import Rule, Explorer, State, U, mask, sgn, tsize
from flow import dominates
from stk import STACKS
from opfx import OpRule, dispatch, op_names, frame_items, init_state

# ---- linear terms
def lin(t, w=64):
    """term -> {symbol: coefficient, None: constant} or None"""
    if isinstance(t, int): return {None: sgn(t & mask(w), w)}
    if not isinstance(t, tuple) or t == U: return None
    if t[0] == "lin": return dict(t[1])
    if t[0] == "+":
        a = lin(t[1], w)
        return None if a is None else ladd(a, {None: t[2]})
    if t[0] == "op" and t[1] in ("add", "sub") and len(t) == 5:
        a = lin(t[3], t[2]); b = lin(t[4], t[2])
        if a is None or b is None: return None
        return ladd(a, b, -1 if t[1] == "sub" else 1)
    if t[0] == "-":
        a = lin(t[1], w); b = lin(t[2], w)
        return None if a is None or b is None else ladd(a, b, -1)
    if t[0] in ("a",):
        a = lin(t[1], w)
        return None if a is None else ladd(a, {None: t[2]})
    if t[0] == "si": return lin(t[1], w)
    return {t: 1}
def ladd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        n = r.get(k, 0) + s * v
        if n: r[k] = n
        else: r.pop(k, None)
    return r
def lc(d, k=0):
    r = dict(d)
    if k: r = ladd(r, {None: k})
    r.setdefault(None, 0)
    return r
def leq(a, b): return lc(a) == lc(b)
def lterm(d):
    d = {k: v for k, v in d.items() if v}
    if set(d) <= {None}: return d.get(None, 0) & mask(64)
    return ("lin", tuple(sorted(d.items(), key=repr)))

# ---- the interpreter
class Sem:
    """one instruction: operands: list of 'int'/'skip'; raw: bytes following; succ: set of (target, net stack, net scopes, net loops, net args)
    target: 'next', ('jump', k), 'loop', 'dead'; call: pushes a call frame; labels: for records pushed on the loop stack: operand numbers"""
    def __init__(self): self.nops = 0; self.skip = (); self.raw = 0; self.succ = set(); self.call = False; self.labels = None; self.bad = None; self.entry = None; self.where = ""

class SemRule(OpRule):
    opterms = True
    def __init__(self, m, nat, nf, b, raw=None):
        OpRule.__init__(self, m, nat, nf, b); self.raw = raw
    def track_loc(self, lc_):
        return OpRule.track_loc(self, lc_) or isinstance(lc_[0], tuple) and lc_[0][0] == "v" and getattr(lc_[0][1], "op", None) == "alloca"
    def call(self, ex, st, i, args):
        n = i.callee.name if i.callee.kind == "fn" else None
        if n == "cs_varint_decode_unsafe":
            k = sum(1 for t in st.ts[1] if isinstance(t, tuple) and t[0] == "dec")
            st.ts = (st.ts[0], st.ts[1] + (("dec", args[0]),))
            if args[1] != U: st.mem[ex.loc(args[1])] = (("llen", k), "")
            return [(st, ("dec", k))]
        if n == "mjs_mk_function" and args[1] != U: return [(st, ("func", args[1]))]
        if n in ("__errno_location",): return None
        return OpRule.call(self, ex, st, i, args)
    def load(self, ex, st, i, addr, cls, res):
        r = OpRule.load(self, ex, st, i, addr, cls, res)
        if r is not None: return r
        # a byte of the code that is not part of a decoded number
        if i.ty == ("int", 8) and isinstance(addr, tuple):
            k = self.codepos(ex, st, addr)
            if k == 1:
                st.ts = (st.ts[0], st.ts[1] + (("raw",),)) if ("raw",) not in st.ts[1] else st.ts
                if self.raw is not None: return self.raw
        return None
    def codepos(self, ex, st, addr):
        return code_offset(addr, self.ipc)
    def edge(self, ex, st, frm, to):
        n = len(self.ends)
        r = OpRule.edge(self, ex, st, frm, to)
        for e in self.ends[n:]: e.decs = tuple(t[1] for t in st.ts[1] if isinstance(t, tuple) and t[0] == "dec"); e.israw = ("raw",) in st.ts[1]
        return r

def code_offset(addr, ipc):
    """constant c such that the address is code + i + c"""
    c = 0
    while isinstance(addr, tuple):
        if addr[0] == "a": c += addr[2]; addr = addr[1]
        elif addr[0] == "op" and addr[1] == "gep" and addr[2] == 1:
            l = lin(addr[4])
            if l is not None and l.get(("v", ipc)) == 1:
                r = {k: v for k, v in l.items() if k not in (None, ("v", ipc))}
                return c + l.get(None, 0) if not r else None
            if isinstance(addr[4], int): c += sgn(addr[4] & mask(64), 64); addr = addr[3]
            else: return None
        else: return None
    return None

def semantics(ctx, m, cg, toks=()):
    f = m.fns.get("mjs_execute"); need(f is not None and f.defined, "mjs_execute not found")
    sw = dispatch(f); names = op_names(m); nat = set(cg.cfuncs); nf = frame_items(m)
    # the program counter: the loop-carried value the opcode is loaded at
    x = sw.ops[0]
    while x.kind == "inst" and x.op in ("zext", "sext", "trunc", "phi", "load"):
        if x.op == "load":
            a = x.ops[0]
            break
        x = x.ops[0]
    need(x.kind == "inst" and x.op == "load" and a.kind == "inst" and a.op == "gep", "how the interpreter fetches an instruction")
    ipc = a.ops[1]
    need(ipc.kind == "inst" and ipc.op == "phi", "the interpreter's program counter")
    out = {}
    def one(cv, b, raw):
        s = Sem(); s.where = b.insts[0].where()
        r = SemRule(m, nat, nf, b, raw); r.ipc = ipc; ex = Explorer(m, f, r, cg)
        try: ex.run(init_state(r, ex), start=b)
        except AnalysisBroken as e: s.bad = str(e); return s
        for e in r.ends:
            if e.err: continue
            if e.native: s.call = True; continue
            pcs = [lin(t) for p, t in e.pc.items() if same_pc(p, ipc, f)]
            pc = pcs[0] if pcs else None
            k = len(e.decs); s.nops = max(s.nops, k)
            if e.israw: s.raw = 1
            # operands are read one after the other
            want = lc({("v", ipc): 1}, 1)
            for q, a_ in enumerate(e.decs):
                got = addr_lin(a_, ipc)
                if got is not None and not leq(got, want) and s.entry is None:
                    # a string may lie in between
                    s.bad = s.bad or "operand %d is read elsewhere" % q
                want = ladd(want, {("llen", q): 1})
            net = tuple(e.net[X] for X in ("stack", "scopes", "loop_addresses", "arg_stack"))
            if e.net["call_stack"] not in (0,):
                if e.net["call_stack"] == nf: s.call = True
                else: s.succ.add(("dead",) + (None,) * 4)
                continue
            base = {("v", ipc): 1}
            for q in range(k): base[("llen", q)] = 1
            if pc is None: s.bad = "successor not recognised"; continue
            d = ladd(pc, base, -1)
            if s.raw and k == 0: d = ladd(d, {None: -1})
            d = {a_: v for a_, v in d.items() if v}
            if not d: s.succ.add(("next",) + net)
            elif len(d) == 1 and list(d)[0] is not None and list(d)[0][0] == "dec" and list(d.values()) == [1]: s.succ.add((("jump", list(d)[0][1]),) + net)
            elif any(mentions_loops(a_) for a_ in d):
                if len([a_ for a_ in pc if pc[a_] and a_ is not None]) != 1 or pc.get(None, 0) != -1: s.bad = "a recorded address is not the one jumped to"
                s.succ.add((("loop", rel_label(d, ipc, k)),) + net)
            elif any(isinstance(a_, tuple) and a_[0] == "v" for a_ in d) and d.get(("v", ipc)) == -1 or any(a_ is not None and a_[0] not in ("dec", "llen") for a_ in d): s.succ.add(("dead",) + net)
            else: s.bad = "successor %s" % (sorted(map(str, d.items())),); continue
            if e.net["loop_addresses"] not in (0, None) and not any(mentions_loops(a_) for a_ in d):
                lab = []
                for el in e.stacks["loop_addresses"][-1]:
                    v = el[1]
                    l = lin(v[1]) if isinstance(v, tuple) and v[0] == "num" else None
                    if l is None: lab.append(None); continue
                    if l == {("sz", "scopes"): 1} or set(l) <= {None, ("sz", "scopes")}: lab.append("scopes"); continue
                    q = [a_[1] for a_ in l if a_ is not None and a_[0] == "dec"]
                    if len(q) == 1:
                        w_ = lc({("v", ipc): 1, ("dec", q[0]): 1}, 1)
                        for z in range(q[0] + 1): w_ = ladd(w_, {("llen", z): 1})
                        lab.append(q[0] if leq(l, w_) else ("off", q[0]))
                    else: lab.append(None)
                s.labels = tuple(lab)
            if e.net["stack"] == 1 and e.stacks["stack"][-1] and isinstance(e.stacks["stack"][-1][-1], tuple):
                v = e.stacks["stack"][-1][-1][1]
                if isinstance(v, tuple) and v[0] == "func":
                    l = lin(v[1])
                    q = [a_[1] for a_ in (l or {}) if a_ is not None and a_[0] == "dec"]
                    if len(q) == 1 and l[("dec", q[0])] == -1 and l.get(("v", ipc)) == 1 and l.get(None, 0) == 0: s.entry = q[0]
                    else: s.bad = "entry point of a function not recognised"
        return s
    expr = None
    for cv, b in sw.cases:
        n = names.get(cv, "#%d" % cv)
        out[cv] = one(cv, b, None); out[cv].name = n; out[cv].block = b
        if out[cv].raw and out[cv].nops == 0 and len(out[cv].succ) > 1: expr = (cv, b)
    tok = {}
    if expr:
        def byte(t):
            if t not in tok: tok[t] = one(expr[0], expr[1], t); tok[t].name = "%s %s" % (out[expr[0]].name, t)
            return tok[t]
        out["expr"] = (expr[0], byte)
    return out

def rel_label(d, ipc, k):
    """position on the loop stack (1: top) of the label that is jumped to"""
    for a in d:
        x = find_be(a)
        if x is not None: return x[2]
    return None
def find_be(t):
    if isinstance(t, tuple):
        if t[:2] == ("be", "loop_addresses"): return t
        for x in t[1:]:
            r = find_be(x)
            if r is not None: return r
    return None
def mentions_loops(t): return find_be(t) is not None
def addr_lin(a, ipc):
    l = {}
    while isinstance(a, tuple):
        if a[0] == "a": l = ladd(l, {None: a[2]}); a = a[1]
        elif a[0] == "op" and a[1] == "gep" and a[2] == 1:
            x = lin(a[4])
            if x is None: return None
            l = ladd(l, x); a = a[3]
        else: break
    return lc(l)
def same_pc(p, ipc, f):
    """is the phi p (at the end of an instruction) the value the program counter is computed from"""
    seen = set(); work = [ipc]
    while work:
        x = work.pop()
        if x in seen or x.kind != "inst" or len(seen) > 200: continue
        seen.add(x)
        if x is p: return True
        if x.op in ("phi",): work += x.ops
        elif x.op in ("add",) and x.ops[1].kind == "const": work.append(x.ops[0])
    return False

# ---- the parser
VALUE, REF = 1, 2
PARSERS = ("parse_statement parse_statement_list parse_block parse_block_or_stmt parse_let parse_for parse_for_in parse_while parse_if parse_return "
           "parse_function parse_object_literal parse_array_literal parse_expr parse_assignment parse_literal parse_call_dot_mem parse_postfix parse_unary "
           "parse_mul_div_rem parse_plus_minus parse_shifts parse_comparison parse_equality parse_bitwise_and parse_bitwise_xor parse_bitwise_or "
           "parse_logical_and parse_logical_or parse_ternary").split()
STMT = {"parse_statement", "parse_statement_list", "parse_block", "parse_block_or_stmt", "parse_if", "parse_for", "parse_for_in", "parse_while"}
REFS = {"parse_literal", "parse_call_dot_mem", "parse_postfix", "parse_unary"}          # may leave a reference (key and object)
LEVELS = {"parse_mul_div_rem", "parse_plus_minus", "parse_shifts", "parse_comparison", "parse_equality", "parse_bitwise_and", "parse_bitwise_xor",
          "parse_bitwise_or", "parse_logical_and", "parse_logical_or", "parse_ternary"}  # take the operator to their left
PRIM = {"parse_literal", "parse_call_dot_mem"}
EMITTERS = {"emit_byte", "emit_int", "emit_str", "mjs_bcode_insert_offset", "embed_string"}
KEEP = EMITTERS | {"pnext", "mjs_set_errorf", "mjs_prepend_errorf", "mbuf_append", "mbuf_insert", "mbuf_resize", "mbuf_free", "mjs_bcode_commit",
                   "cs_varint_encode", "cs_varint_llen"}
LOOPS = 3

def written(m):
    """global variables that instructions store to or that are not private to the library"""
    w = m.__dict__.get("_written")
    if w is None:
        w = {g for g in m.globals.values() if g.linkage not in (8, 9)}
        for f in m.fns.values():
            if f.defined:
                for i in f.insts():
                    if i.op != "store": continue
                    x = i.ops[1]
                    while x.kind in ("inst", "cexpr") and x.op in ("gep", "getelementptr", "bitcast"): x = x.ops[0]
                    if x.kind == "global": w.add(x)
        m._written = w
    return w

class T:
    """typestate: the tape, the cursor on it, counters"""
    __slots__ = ("items", "cur", "uid", "visits", "head", "_h")
    def __init__(self, items=(), cur=0, uid=0, visits=(), head=0): self.items = items; self.cur = cur; self.uid = uid; self.visits = visits; self.head = head; self._h = None
    def k(self): return (self.items, self.cur, self.uid, self.visits, self.head)
    def __eq__(self, o): return self.k() == o.k()
    def __hash__(self):
        if self._h is None: self._h = hash(self.k())
        return self._h
    def but(self, **kw):
        d = dict(items=self.items, cur=self.cur, uid=self.uid, visits=self.visits, head=self.head); d.update(kw); return T(**d)

def size(it):
    k = it[0]
    if k in ("op", "byte"): return {None: 1}
    if k == "var": return {None: 1, ("sz", it[1]): 1}
    if k in ("mark", "lab", "?", "fail"): return {}
    return {("sz", it[1]): 1}

class Emit(Rule):
    unroll = True; noalias = True; opterms = True; truncs = True
    def binop(self, ex, st, i, op, a, b, w):
        """distances and positions stay linear"""
        if op not in ("add", "sub") or w not in (32, 64) or a == U or b == U: return None
        x = lin(a, w); y = lin(b, w)
        if x is None or y is None: return None
        if not any(k is not None and k[0] in ("sz", "cur0", "len0") for k in list(x) + list(y)): return None
        t = lterm(ladd(x, y, -1 if op == "sub" else 1))
        return t & mask(w) if isinstance(t, int) else t
    widen = (1 << 30,) * 3
    def __init__(self, m, fn, toks, prev_op):
        self.m = m; self.outs = []; self.toks = toks; self.prev_op = prev_op; self.notes = []; self.viol = []
        self.P = ("h", "p"); self.M = ("h", "mjs")
        o = {n: off for off, n, *_ in m.struct_fields("struct.pstate")}
        t = {n: off for off, n, *_ in m.struct_fields("struct.tok")}
        mo = {n: off for off, n, *_ in m.struct_fields("struct.mjs")}
        b = {n: off for off, n, *_ in m.struct_fields("struct.mbuf")}
        for f in ("cur_idx", "prev_tok", "tok", "pos", "mjs"): need(f in o, "field %s of the parser state not found" % f)
        need("tok" in t and "bcode_gen" in mo and "len" in b, "layout of tokens and of the code buffer")
        self.CUR = (self.P, o["cur_idx"]); self.PREV = (self.P, o["prev_tok"]); self.TOK = (self.P, o["tok"] + t["tok"])
        self.tokrange = (o["tok"], o["tok"] + m.sizeof(("struct", "struct.tok")) if False else o["tok"] + 16)
        self.POS = (self.P, o["pos"]); self.MJS = (self.P, o["mjs"])
        self.LEN = (self.M, mo["bcode_gen"] + b["len"]); self.GEN = ("a", self.M, mo["bcode_gen"]) if mo["bcode_gen"] else self.M
        self.assign = {v for k, v in toks.items() if k == "TOK_ASSIGN" or k.endswith("_ASSIGN")}
        self.post = {toks["TOK_PLUS_PLUS"], toks["TOK_MINUS_MINUS"]}
        self.zero = m.enumval.get("EMBSTR_ZERO_TERM", 0)
        self.dot = toks["TOK_DOT"]; self.eof = toks["TOK_EOF"]; self.name = toks["TOK_IDENT"]
    def init(self, ex): return T()
    def track_loc(self, lc_): return lc_[0] in (self.P, self.M)
    def clobbers(self, ex, i, cls): return False
    # -- tape
    def pre(self, st, k):
        d = {("cur0",): 1}
        for it in st.ts.items[:k]: d = ladd(d, size(it))
        return d
    def total(self, st):
        d = {("len0",): 1}
        for it in st.ts.items: d = ladd(d, size(it))
        return d
    def place(self, st, d, items=None):
        """index of the place on the tape whose position is d"""
        d = lc(d); p = {("cur0",): 1}
        items = st.ts.items if items is None else items
        if lc(p) == d: return 0
        for k, it in enumerate(items):
            p = ladd(p, size(it))
            if it[0] != "mark" and lc(p) == d: return k + 1
        return None
    def put(self, st, it, adv=True, at=None):
        ts = st.ts; k = ts.cur if at is None else at
        st.ts = ts.but(items=ts.items[:k] + (it,) + ts.items[k:], cur=ts.cur + (1 if adv else 0), uid=ts.uid + 1)
    def note(self, st, i, msg): self.notes.append((i, msg)); return []
    def const(self, ex, st, t):
        if isinstance(t, int): return t
        if isinstance(t, tuple) and t[0] == "op" and t[1] == "trunc":
            c = self.const(ex, st, t[3]); return None if c is None else c & mask(t[2])
        lo, hi, ne = ex.rng(st, t)
        return lo if lo is not None and lo == hi else None
    # -- memory
    def load(self, ex, st, i, addr, cls, res):
        lc_ = ex.loc(addr)
        if lc_ == self.CUR: return lterm(self.pre(st, st.ts.cur))
        if lc_ == self.LEN: return lterm(self.total(st))
        if isinstance(lc_[0], tuple) and lc_[0][0] == "g" and isinstance(lc_[1], int) and i.ty[0] == "int": return self.constant(lc_[0][1], lc_[1], i.ty[1] // 8)
        return None
    def nonzero(self, t):
        """positions behind something that was emitted"""
        return isinstance(t, tuple) and t[0] == "lin" and all(v > 0 for v in dict(t[1]).values()) and dict(t[1]).get(None, 0) > 0 and any(k is not None for k, v in t[1])
    def constant(self, g, off, n):
        """a number from a table that nothing writes to"""
        gl = self.m.globals.get(g) if isinstance(g, str) else g
        if gl is None or getattr(gl, "kind", "") != "global" or n != 4 or off % 4: return None
        if not gl.const and gl in written(self.m): return None
        d = self.m.global_data(gl)
        if not isinstance(d, list) or not 0 <= off // 4 < len(d) or not isinstance(d[off // 4], int): return None
        return d[off // 4]
    def store(self, ex, st, i, addr, cls, val):
        lc_ = ex.loc(addr)
        if lc_ == self.CUR: self.seek(st, i, val)
        elif lc_ == self.LEN: self.cut(st, i, val)
    def seek(self, st, i, val):
        d = lin(val); k = self.place(st, d) if d is not None else None
        if k is None: self.kill(st, i, "the insertion point is moved to a place that is not recognised")
        else: st.ts = st.ts.but(cur=k)
    def cut(self, st, i, val):
        d = lin(val)
        if d is not None:
            p = {("len0",): 1}; k = 0
            while True:
                if leq(p, d): st.ts = st.ts.but(items=st.ts.items[:k]); return
                if k >= len(st.ts.items): break
                p = ladd(p, size(st.ts.items[k])); k += 1
        self.kill(st, i, "the code buffer is cut at a place that is not recognised")
    def kill(self, st, i, msg):
        self.notes.append((i, msg)); st.ts = st.ts.but(items=(("?",),) + st.ts.items)
    # -- tokens
    def advance(self, ex, st, far=False):
        k = st.mem[self.POS][0][1] if self.POS in st.mem and st.mem[self.POS][0][0] == "pos" else 0
        old = st.mem.get(self.TOK, (("tok", k), ""))[0]
        # the next token: the same when it was looked at before
        n = k + (1 if not far else 1000 * (1 + k // 1000) - k)
        st.mem[self.PREV] = ((("prevof", n) if far else old), "")
        for a in [x for x in st.mem if x[0] == self.P and self.tokrange[0] <= x[1] < self.tokrange[1]]: del st.mem[a]
        st.mem[self.TOK] = (("tok", n), ""); st.mem[self.POS] = (("pos", n), "")
        return ("tok", n)
    def among(self, ex, st, t, S):
        """True/False/None: is the token one of S"""
        c = self.const(ex, st, t)
        if c is not None: return c in S
        if all(ex.decide(st, "eq", t, x, 32) is False for x in S): return False
        return None
    # -- calls
    def call(self, ex, st, i, args):
        if i.callee.kind != "fn": return self.note(st, i, "an indirect call")
        n = i.callee.name
        if n.startswith("llvm.memcpy"):
            d = ex.loc(args[0]); s = ex.loc(args[1]); k = args[2]
            if s[0] == self.P and isinstance(k, int) and s[1] <= self.CUR[1] < s[1] + k and d[0] != self.P:
                st.mem[(d[0], d[1] + self.CUR[1] - s[1])] = (lterm(self.pre(st, st.ts.cur)), "")
            if isinstance(s[0], tuple) and s[0][0] == "g" and isinstance(k, int) and isinstance(s[1], int):
                for z in range(0, k - 3, 4):
                    c = self.constant(s[0][1], s[1] + z, 4)
                    if c is not None: st.mem[(d[0], d[1] + z)] = (c, "")
                return None
            if d[0] == self.P and isinstance(k, int):
                for a in [x for x in st.mem if x[0] == self.P and d[1] <= x[1] < d[1] + k]: del st.mem[a]
                for a in [x for x in st.mem if x[0] == s[0] and s[1] <= x[1] < s[1] + k]:
                    t = (self.P, d[1] + a[1] - s[1])
                    if t == self.CUR: self.seek(st, i, st.mem[a][0])
                    else: st.mem[t] = st.mem[a]
            return None
        if n == "cs_log_print_prefix": return [(st, 0)]
        if n == "cs_log_printf": return [(st, None)]
        if n == "abort" or n == "__assert_fail" or n == "exit": return []
        if n == "pnext":
            if ex.decide(st, "eq", st.mem.get(self.TOK, (("tok", 0), ""))[0], self.eof, 32) is True: self.failed(st, "the source ended", i)
            t = self.advance(ex, st)
            st.ts = st.ts.but(uid=st.ts.uid + 1)
            return [(st, t)]
        if n in ("mjs_set_errorf", "mjs_prepend_errorf"):
            if self.const(ex, st, args[1]) not in (None, 0): self.failed(st, "an error was reported", i)
            return [(st, args[1])]
        if n == "emit_byte":
            b = args[1]
            c = self.const(ex, st, b)
            if c is not None: c &= 255
            self.put(st, ("b", c if c is not None else b, i)); self.fix(st)
            return [(st, None)]
        if n == "emit_int":
            d = lin(args[1])
            ref = None
            # the distance from the instruction the number belongs to
            ops = [k for k in range(st.ts.cur) if st.ts.items[k][0] == "op"]
            if d is not None and ops and isinstance(st.ts.items[ops[-1]][1], int) and st.ts.items[ops[-1]][1] in self.sem and self.sem[st.ts.items[ops[-1]][1]].entry is not None:
                z = ladd(self.pre(st, ops[-1]), d, -1)
                ref = self.place(st, z)
                if ref is None and not any(a is not None and a[0] == "v" for a in d) and any(a is not None and a[0] in ("sz", "cur0") for a in d): ref = "far"
            self.put(st, ("int", st.ts.uid, lterm(d) if d is not None else None, ref if not isinstance(ref, int) else ("at", self.ident(st, ref)), i))
            return [(st, None)]
        if n == "emit_str": self.put(st, ("str", st.ts.uid, i)); return [(st, None)]
        if n == "embed_string":
            d = lin(args[1]); k = self.place(st, d) if d is not None else None
            if args[0] != self.GEN or k is None: return self.note(st, i, "a string is embedded at a place that is not recognised")
            fl = self.const(ex, st, args[4]) if len(args) > 4 else None
            if fl is not None and fl & self.zero: self.viol.append(("operands", i, "a string is embedded with a byte behind it that is not part of it", st)); return []
            if k < st.ts.cur: return self.note(st, i, "a string is embedded before the insertion point")
            self.put(st, ("str", st.ts.uid, i), adv=False, at=k)
            return [(st, None)]
        if n == "mjs_bcode_insert_offset": return self.insert(ex, st, i, args)
        if n in PARSERS: return self.nonterm(ex, st, i, n, args)
        if n in ("modf", "strtod", "strtoul", "strlen", "cs_varint_llen", "__errno_location", "strtol", "cs_log_print_prefix", "cs_log_printf", "memcmp", "strncmp"):
            if n == "modf" and isinstance(args[1], tuple): st.mem.pop(ex.loc(args[1]), None)
            return None
        if i.callee.defined and (args and (self.P in args or self.M in args or self.GEN in args)): return self.note(st, i, "calls %s" % n)
        return None
    def ident(self, st, k):
        """name of a place that survives insertions elsewhere: the unique number of a mark put there"""
        for q in range(k, len(st.ts.items)):
            it = st.ts.items[q]
            if it[0] == "lab": continue
            break
        u = st.ts.uid
        ts = st.ts
        st.ts = ts.but(items=ts.items[:k] + (("lab", u),) + ts.items[k:], cur=ts.cur + (1 if k <= ts.cur else 0), uid=u + 1)
        return u
    def closed(self, c):
        """after an operator or a short-circuit jump no assignment target follows"""
        s = self.sem.get(c) if isinstance(c, int) else None
        return s is None or s.raw or {x[1] for x in s.succ} == {0} and len(s.succ) == 2
    def fix(self, st):
        """tell instructions from operand bytes"""
        ts = st.ts; it = ts.items[ts.cur - 1]
        v = it[1]; pend = pending(ts.items[:ts.cur - 1], self.sem)
        new = ("byte", v, it[2]) if pend else ("op", v, it[2], ts.uid)
        st.ts = ts.but(items=ts.items[:ts.cur - 1] + (new,) + ts.items[ts.cur:])
    def insert(self, ex, st, i, args):
        off = lin(args[2]); v = lin(args[3])
        k = self.place(st, off) if off is not None else None
        items = st.ts.items
        if k is None:
            if off is None or any(a is not None and a[0] == "v" for a in off): return self.note(st, i, "an offset is filled in at a place that is not recognised")
            self.viol.append(("patch", i, "an offset is filled in at a place where no room was left for one", st)); return []
        while k < len(items) and items[k][0] in ("lab", "mark"): k += 1
        if k >= len(items) or items[k][0] != "byte":
            self.viol.append(("patch", i, "an offset is filled in where no room was left for one", st)); return []
        if v is None: return self.note(st, i, "an offset that is not recognised")
        t = self.place(st, ladd(ladd(off, v), {None: 1}))
        if t is None:
            if any(a is not None and a[0] == "v" for a in v): return self.note(st, i, "an offset that is not recognised")
            self.viol.append(("target", i, "an offset is filled in that leads to the middle of what was emitted", st)); return []
        if t <= k: self.viol.append(("target", i, "an offset is filled in that leads backwards", st)); return []
        u = st.ts.uid
        lab = self.ident(st, t)
        ts = st.ts
        it = ("var", u, lab, i)
        st.ts = ts.but(items=ts.items[:k] + (it,) + ts.items[k + 1:], uid=ts.uid + 1)
        return [(st, ("sz", u))]
    def failed(self, st, what, i):
        ts = st.ts
        st.ts = ts.but(items=ts.items[:ts.cur] + (("fail", ts.uid, what, i),) + ts.items[ts.cur:], cur=ts.cur + 1, uid=ts.uid + 1)
    def nonterm(self, ex, st, i, n, args):
        if n != "parse_literal" and ex.decide(st, "eq", st.mem.get(self.PREV, (("prev",), ""))[0], self.dot, 32) is True: return self.note(st, i, "%s is called behind a dot" % n)
        if n == "parse_literal" and ex.decide(st, "eq", st.mem.get(self.PREV, (("prev",), ""))[0], self.dot, 32) is True:
            if ex.decide(st, "eq", st.mem.get(self.TOK, (("tok", 0), ""))[0], self.name, 32) is not True:
                self.viol.append(("nested", i, "something that need not be a name is compiled behind a dot, on top of the object", st)); return []
        fail = st.copy(); u = st.ts.uid
        self.advance(ex, fail, far=True)
        fail.ts = fail.ts.but(items=fail.ts.items[:fail.ts.cur] + (("fail", u, n, i),) + fail.ts.items[fail.ts.cur:], cur=fail.ts.cur + 1, uid=u + 1)
        e = ("nterr", u); fail.facts[e] = (None, None, frozenset({0}))
        out = [(fail, e)]
        prev = st.mem.get(self.PREV, (("prev",), ""))[0]
        eff = 1
        if n in LEVELS and len(args) > 1:
            c = self.const(ex, st, args[1])
            if c is None and not (isinstance(args[1], tuple) and args[1][0] == "v" and args[1][1].kind == "arg"): self.note(st, i, "operator handed to %s is not known" % n); return out
            if c is None and self.prev_op is None: return out
            if c != self.eof: eff = ("left", c if c is not None else args[1])
        # ++ and -- apply to names and properties, not to further operators
        if n == "parse_unary" and any(ex.decide(st, "eq", prev, x, 32) is True for x in self.post): return out
        def var(s, kind, dot=False):
            t = self.advance(ex, s, far=True)
            # no construct ends with a dot, none but expressions with ++ or --
            pv = s.mem[self.PREV][0]
            for x in ({self.dot} | self.post if n in PRIM or n in STMT else {self.dot}): ex.assume(s, "ne", pv, x, 32)
            self.put(s, ("nt", u, n, kind - (1 if dot else 0), eff, i))
            return s, t
        def without(s, t, S): return all(ex.assume(s, "ne", t, x, 32) for x in S)
        def pick(s, kind, dot, S, neg):
            """states after the call whose next token is (not) in S"""
            if neg:
                s2, t = var(s.copy(), kind, dot)
                if without(s2, t, S): out.append((s2, 0))
            else:
                for x in sorted(S):
                    s2, t = var(s.copy(), kind, dot)
                    if ex.assume(s2, "eq", t, x, 32): out.append((s2, 0))
        if n in REFS or n in LEVELS:
            both = self.assign | self.post
            if n in PRIM or n == "parse_postfix":
                # the token before decides: after ++ and -- a reference is left, after a dot the object is consumed
                for p in sorted(self.post) + [self.dot, None]:
                    s = st.copy()
                    if p is None:
                        if not all(ex.assume(s, "ne", prev, x, 32) for x in self.post | {self.dot}): continue
                    elif not ex.assume(s, "eq", prev, p, 32): continue
                    if p is not None and p != self.dot:
                        if n == "parse_postfix": pick(s, REF, False, both, True)
                        else: pick(s, REF, False, both, True)
                    else:
                        dot = p == self.dot
                        if dot and n != "parse_literal": continue
                        S = both if n in PRIM else self.assign
                        pick(s, VALUE, dot, S, True)
                        e0 = st.mem.get(("entry", 0))
                        pick(s, REF, dot, S, False)
            else:
                # (a short-circuited operand or a right operand is not a target)
                pick(st, VALUE, False, self.assign, True)
                if not any(x[0] == "op" and self.closed(x[1]) for x in st.ts.items) and eff == 1: pick(st, REF, False, self.assign, False)
            return out
        ends = [None]
        if n == "parse_statement_list" and len(args) > 1:
            c = self.const(ex, st, args[1])
            if c is not None: ends = sorted({c, self.eof})
        for e in ends:
            s2, t = var(st.copy(), VALUE)
            if e is None or ex.assume(s2, "eq", t, e, 32): out.append((s2, 0))
        return out
    # -- loops and the end
    def forget(self, st, head, phi):
        """rounds that emit something stand for any number of rounds: what they count is not known"""
        v = dict(st.ts.visits).get(phi.fn.bbs.index(head))
        if v is None or v[0] != st.ts.uid or v[1] <= 1: return False
        # (a loop that counts to a limit is followed as often as it runs)
        return not any(i.op == "icmp" and phi in i.ops for i in phi.fn.insts())
    def edge(self, ex, st, frm, to):
        if to not in ex.lh: return True
        ts = st.ts; v = dict(ts.visits); h = ex.fn.bbs.index(to)
        last, cnt, act = v.get(h, (None, 0, None))
        if not dominates(to, frm): cnt = 0; act = ts.uid; last = None
        if last == ts.uid: return True
        v[h] = (ts.uid + 1, cnt + 1, act)
        if cnt + 1 > LOOPS: return False
        st.ts = ts.but(items=ts.items[:ts.cur] + (("mark", (h, act), cnt + 1),) + ts.items[ts.cur:], cur=ts.cur + 1, uid=ts.uid + 1, visits=tuple(sorted(v.items())))
        return True
    def ret(self, ex, st, i, val): self.outs.append((st, i, val))

def pending(items, sem):
    """does the next byte belong to the instruction emitted last"""
    # find the last instruction and count what followed
    n = 0
    for it in reversed(items):
        if it[0] in ("lab", "mark"): continue
        if it[0] == "op":
            s = sem.get(it[1]) if isinstance(it[1], int) else None
            if s is None: return False
            return n < s.nops + s.raw
        if it[0] in ("nt", "fail", "?"): return False
        n += 1
    return False

def norec(ctx, roots, keep):
    roots = tuple(sorted(roots)); keep = frozenset(keep)
    return ctx._mk(("norec", roots, keep), roots=roots, leaf=True, keep_fn=lambda n, rec, addr, link: n in keep or n in BASELINE)

class Bad(Exception): pass

def decode(items, sem, expr):
    """[(kind, item, operands)] and {label: instruction number}, marks: [(mark, instruction number)]"""
    code = []; labs = {}; marks = []; k = 0; n = len(items); errs = []
    while k < n:
        it = items[k]
        if it[0] == "lab": labs[it[1]] = len(code); k += 1; continue
        if it[0] == "mark": marks += [(it[1], len(code))] if it[2] > 1 else []; k += 1; continue
        if it[0] in ("nt", "fail"): code.append((it[0], it, ())); k += 1; continue
        if it[0] == "?": return None
        if it[0] != "op": errs.append(("operands", place_of(it), "a %s is emitted that belongs to no instruction" % {"str": "string", "int": "number", "byte": "byte", "var": "offset"}[it[0]])); k += 1; continue
        s = sem.get(it[1]) if isinstance(it[1], int) else None
        if s is None:
            if isinstance(it[1], int): errs.append(("unknown", it[2], "instruction %d is emitted, which the interpreter does not know" % it[1])); k += 1; continue
            return None
        if s.bad or s is None: return None
        ops = []; k += 1
        want = s.nops + s.raw
        while len(ops) < want:
            if k >= n or items[k][0] in ("op", "nt", "fail", "?"):
                errs.append(("operands", it[2], "%s is emitted with %d operand%s, the interpreter reads %d" % (s.name, len(ops), "" if len(ops) == 1 else "s", want))); break
            o = items[k]; k += 1
            if o[0] == "lab": labs[o[1]] = ("inside", s.name); continue
            if o[0] == "mark": continue
            j = len(ops)
            skip = any(x[0] == ("jump", j) for x in s.succ); nxt = any(x[0] == "next" for x in s.succ)
            pure = skip and not nxt
            if s.raw and j >= s.nops:
                if o[0] != "byte": errs.append(("operands", it[2], "%s is followed by a %s, the interpreter reads one byte" % (s.name, o[0])))
            elif o[0] == "str":
                if not pure: errs.append(("operands", o[2], "%s is emitted with a string as operand %d, the interpreter reads a number" % (s.name, j + 1)))
            elif o[0] == "int":
                if skip and not pure or pure and leads(s): errs.append(("operands", o[-1], "%s is emitted with a plain number for a distance" % s.name))
                elif pure: errs.append(("operands", o[-1], "%s is emitted with a number as operand %d, the interpreter reads a string" % (s.name, j + 1)))
            elif o[0] == "byte":
                if not (isinstance(o[1], int) and 0 <= o[1] < 0x80): errs.append(("operands", o[2], "%s is emitted with a byte that is not a complete number as operand %d" % (s.name, j + 1)))
            ops.append(o)
        code.append(("op", it, tuple(ops), s))
    return code, labs, marks, errs

def place_of(it): return it[2] if it[0] in ("op", "byte") else it[-1]
def leads(s): return True

def verify(items, sem, expr, low=0):
    """[(kind, inst, message)], state at the end (None: not reached) or None when the tape is not understood"""
    d = decode(items, sem, expr)
    if d is None: return None
    code, labs, marks, errs = d
    if errs: return errs, None
    N = len(code)
    out = []
    def bad(kind, inst, msg): out.append((kind, inst, msg))
    state = {}; work = []
    def flow(k, s, inst, what="", ):
        if isinstance(k, tuple): bad("target", inst, "a jump leads into the middle of %s" % k[1]); return
        if k not in state: state[k] = s; work.append(k)
        elif state[k] != s: bad("join", inst, differ(state[k], s))
    flow(0, (None, 0, 0, (), ()), None)
    steps = 0
    while work and not out:
        k = work.pop(); ctx_, h, sc, lp, ar = state[k]
        steps += 1
        if k >= N: continue
        c = code[k]; it = c[1]
        if c[0] == "fail": return None
        if c[0] == "nt":
            _, u, name, kind, eff, inst = it
            if name in STMT:
                if lp:
                    brk, cont, lsc, lh = lp[-1]
                    flow(cont, (ctx_, h, lsc, lp, ar), inst); flow(brk, (ctx_, h + 1, lsc, lp[:-1], ar), inst)
                elif h != 0 or ar: bad("nested", inst, "a statement is compiled while %d value%s of the enclosing construct lie%s on the stack" % (h, "" if h == 1 else "s", "s" if h == 1 else ""))
            n = kind
            if eff != 1:
                n -= 1
                if isinstance(eff[1], int):
                    s = expr[1](eff[1])
                    if s.bad: return None
                    nets = {x[1:] for x in s.succ}
                    if nets - {(-1, 0, 0, 0)}: bad("operator", inst, "operator %d is compiled as a binary operator, the interpreter's effect on the stack is %s" % (eff[1], sorted(x[0] for x in nets)))
            flow(k + 1, (ctx_, h + n, sc, lp, ar), inst)
            continue
        s = c[3]; ops = c[2]; inst = it[2]
        if s.raw and s.nops == 0 and expr and it[1] == expr[0]:
            b = ops[0][1]
            if isinstance(b, int):
                s = expr[1](b)
                if s.bad: return None
            else:
                flow(k + 1, (ctx_, h - 1, sc, lp, ar), inst); continue          # the operator to the left: binary
        if s.call:
            if not ar: bad("call", inst, "%s is emitted without the start of the arguments having been marked" % s.name); continue
            flow(k + 1, (ctx_, ar[-1], sc, lp, ar[:-1]), inst); continue
        if s.entry is not None:
            o = ops[s.entry]
            if o[0] == "int" and isinstance(o[3], tuple):
                flow(labs[o[3][1]], (("fn", o[1]), 0, 0, (), ()), o[-1])
            elif o[0] == "int" and o[3] == "far": bad("target", o[-1], "%s names an entry point in the middle of what was emitted" % s.name)
            else: return None
        for t, ns, nsc, nl, na in s.succ:
            if t == "dead":
                continue
            if t == "next":
                if nl == 3 or s.labels:
                    idx = [x for x in s.labels if isinstance(x, int)]
                    if len(s.labels) != nl or len(idx) != 2: return None
                    tg = []
                    for q in idx:
                        o = ops[q]
                        if o[0] == "var": tg.append(labs[o[2]])
                        elif o[0] == "byte" and o[1] == 0 and q == s.nops - 1: tg.append(k + 1)
                        elif o[0] == "byte" and o[1] == 0: bad("target", inst, "a distance of %s is never filled in" % s.name)
                        else: return None
                    if out: break
                    if any(isinstance(x, tuple) for x in tg): bad("target", inst, "a label of %s lies in the middle of an instruction" % s.name); break
                    # order on the record: as pushed
                    rec = {}
                    z = iter(tg)
                    for pos, x in enumerate(s.labels): rec[len(s.labels) - pos] = next(z) if isinstance(x, int) else None
                    flow(k + 1, (ctx_, h + ns, sc, lp + ((rec[brkpos(sem)], rec[contpos(sem)], sc, h),), ar), inst)
                    continue
                if None in (ns, nsc, nl, na) or isinstance(nsc, tuple): return None
                if nl or na and na != 2: return None
                if h + ns < (low if ctx_ is None else 0): bad("end", inst, "%s takes a value this construct did not leave" % s.name)
                if sc + nsc < 0: bad("scope", inst, "%s removes a scope this construct did not add" % s.name)
                flow(k + 1, (ctx_, h + ns, sc + nsc, lp, ar + ((h,) if na == 2 else ())), inst)
            elif t[0] == "jump":
                o = ops[t[1]]
                if o[0] == "var":
                    flow(labs[o[2]], (ctx_, h + ns, sc + nsc, lp, ar), inst)
                elif o[0] == "str": flow(k + 1, (ctx_, h + ns, sc + nsc, lp, ar), inst)
                elif o[0] == "byte" and o[1] == 0: bad("target", inst, "the distance of %s is never filled in" % s.name)
                else: return None
            elif t[0] == "loop":
                if not lp:
                    # a jump of the enclosing loop: the statement's value for break, nothing for continue
                    if nl == 0 and h != 0 or nl and h != 1 or ar: bad("nested", inst, "%s is emitted with %d value%s on the stack" % (s.name, h, "" if h == 1 else "s"))
                    continue
                brk, cont, lsc, lh = lp[-1]
                if nl == 0: flow(cont, (ctx_, h + ns, lsc, lp, ar), inst)
                else: flow(brk, (ctx_, h + ns, lsc, lp[:-1], ar), inst)
    return out, state.get(N)

def differ(a, b):
    if a[0] != b[0]: return "a function's code and the code around it run into each other"
    r = []
    if a[1] != b[1]: r.append("%d or %d values on the operand stack" % (min(a[1], b[1]), max(a[1], b[1])))
    if a[2] != b[2]: r.append("%d or %d scopes" % (min(a[2], b[2]), max(a[2], b[2])))
    if a[3] != b[3]: r.append("%d or %d loops" % (len(a[3]), len(b[3])) if len(a[3]) != len(b[3]) else "loops with different labels")
    if a[4] != b[4]: r.append("different argument lists")
    return "two ways lead to the same place with " + ", ".join(r)

def looppos(sem, net):
    for s in sem.values():
        if isinstance(s, tuple): continue
        for x in s.succ:
            if isinstance(x[0], tuple) and x[0][0] == "loop" and (x[3] == 0) == (net == 0): return x[0][1]
    return None
def brkpos(sem): return looppos(sem, 1)
def contpos(sem): return looppos(sem, 0)
