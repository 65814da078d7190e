"""Operators: each one is applied to its own operands, in order, by their kinds."""
import struct
from ctx import need
from build import AnalysisBroken
from conc import Conc, H, run
from tags import Tags
from sym import mentions, NEG

RULE = ("the expression evaluator is interpreted for every operator x every kind of each operand: the value pushed is the machine operation of that operator "
        "on the operands in source order (numbers, pointer arithmetic), the concatenation (strings with +), the comparison of the two (false unless both are "
        "numbers), equality by kind; NaN in, NaN out; every combination without a meaning sets an error; assignments store to and deliver for the property "
        "they name; integer division only behind a test that its divisor is not zero and the quotient representable")
EXPLANATION = ("Abstract interpretation of exec_expr with its helpers inlined; operand values stay symbolic with their kind as tag, so results are terms whose "
               "operation and operand order are compared with the operator's definition.")
ASSUMPTIONS = ["s_concat, s_cmp, mjs_get_v, mjs_set_v, mjs_is_truthy are separate operations (see the other properties)", "numeric results of the machine operations themselves"]
CONFIGS_THOROUGH = ["default", "nodebug", "m32"]

KEEP = {"mjs_pop", "mjs_push", "push_mjs_val", "mjs_pop_val", "mjs_mk_number", "mjs_mk_boolean", "mjs_mk_string", "mjs_mk_foreign", "mjs_get_v",
        "mjs_set_v", "s_concat", "s_cmp", "mjs_typeof", "mjs_stringify_type", "mjs_prepend_errorf", "mjs_set_errorf", "mjs_is_truthy", "mjs_to_boolean_v", "cs_log_print_prefix",
        "cs_log_printf"}
ARITH = {"MINUS": {"fsub"}, "PLUS": {"fadd"}, "MUL": {"fmul"}, "DIV": {"fdiv"}, "REM": {"srem", "urem", "frem"}, "AND": {"and"}, "OR": {"or"}, "XOR": {"xor"},
         "LSHIFT": {"shl"}, "RSHIFT": {"ashr"}, "URSHIFT": {"lshr"}}
BINOPS = {"fsub", "fadd", "fmul", "fdiv", "frem", "srem", "urem", "sdiv", "udiv", "and", "or", "xor", "shl", "ashr", "lshr", "add", "sub", "mul"}
COMM = {"fadd", "fmul", "and", "or", "xor", "add", "mul"}
CMP = {"LT": ("lt", True), "LE": ("le", True), "GT": ("le", False), "GE": ("lt", False)}

class Rl(Conc):
    opterms = True
    def __init__(self, operands, cur=None, truthy=None):
        super().__init__(); self.operands = operands; self.cur = cur; self.truthy = truthy; self.div = []; self.badnum = []
    def cast(self, ex, st, i, t): return ("cast", i.op, (i.ops[0].ty if i.ops[0].ty[0] == "int" else i.ty)[1] if "int" in (i.ops[0].ty[0], i.ty[0]) else 0, t)
    def inst(self, ex, st, i):
        if i.op in ("sdiv", "srem", "udiv", "urem"): self.div.append((i, ex.t(st, i.ops[0]), ex.t(st, i.ops[1]), dict(st.facts)))
    def store(self, ex, st, i, addr, cls, val):
        b, off = ex.loc(addr)
        if isinstance(b, tuple) and b[0] == "al": return
        self.event(st, "store", addr, val, str(i.ops[0].ty))
    def load(self, ex, st, i, addr, cls, res):
        if isinstance(addr, tuple) and (mentions(addr, self.operands[-1]) if self.operands and isinstance(self.operands[-1], tuple) else False):
            self.event(st, "mem", addr)
    def indirect(self, ex, st, i, args): self.event(st, "unknown", i); return None
    def direct(self, ex, st, i, name, a):
        if name in ("mjs_pop", "mjs_pop_val"):
            if name == "mjs_pop_val" and not self.isstack(ex, a[0]): return None
            n = sum(1 for e in st.ts if e[0] == "pop")
            self.event(st, "pop")
            return [(st, self.operands[-1 - n] if n < len(self.operands) else None)]
        if name == "mjs_push": self.event(st, "push", a[1]); return [(st, None)]
        if name == "push_mjs_val":
            if self.isstack(ex, a[0]): self.event(st, "push", a[1])
            return [(st, None)]
        if name in ("mjs_prepend_errorf", "mjs_set_errorf"):
            self.event(st, "error", a[1]); return [(st, a[1])]
        if name == "mjs_get_v": self.event(st, "get", a[1], a[2]); return [(st, self.cur)]
        if name == "mjs_set_v": self.event(st, "set", a[1], a[2], a[3]); return [(st, 0)]
        if name == "mjs_is_truthy": return [(st, ("truthy", a[1]))]
        if name == "mjs_to_boolean_v": return [(st, ("conv", "mjs_mk_boolean", ("truthy", a[1])))]
        if name == "s_concat": return [(st, ("concat", a[1], a[2]))]
        if name == "s_cmp": return [(st, ("scmp", a[1], a[2]))]
        if name == "mjs_mk_number":
            if isinstance(a[1], tuple) and a[1][0] == "bc": return [(st, a[1][1])]
            if isinstance(a[1], tuple) and a[1][0] == "fc": return [(st, self.nan if a[1][1] != a[1][1] else struct.unpack("<Q", struct.pack("<d", a[1][1]))[0])]
            return [(st, ("conv", name, a[1]))]
        if name == "mjs_typeof": return [(st, ("typeof", a[0]))]
        if name in ("mjs_mk_boolean", "mjs_mk_string", "mjs_mk_foreign"): return [(st, ("conv", name) + tuple(a[1:]))]
        if name.startswith("cs_log") or name.startswith("llvm."): return None
        self.event(st, "unknown", i)
        return None
    def isstack(self, ex, t): return True

def leaves_unknown(t):
    """a symbol of unknown origin inside of the term"""
    if isinstance(t, tuple):
        if t and t[0] in ("v", "u"): return True
        return any(leaves_unknown(x) for x in t[1:] if isinstance(x, tuple))
    return False

def opnodes(t, a, b, out):
    """binary operations one side of which is made from a alone and the other from b alone"""
    if not isinstance(t, tuple): return
    if t[0] == "op" and len(t) == 5 and t[1] in BINOPS:
        x, y = t[3], t[4]
        if mentions(x, a) and not mentions(x, b) and mentions(y, b) and not mentions(y, a): out.append((t[1], True, t))
        elif mentions(x, b) and not mentions(x, a) and mentions(y, a) and not mentions(y, b): out.append((t[1], False, t))
    for x in t[1:]: opnodes(x, a, b, out)

def norm(t, pol=True):
    """boolean term -> (base, polarity) or const"""
    while True:
        if isinstance(t, int): return (t & 1) == 1 if pol else (t & 1) == 0
        if t[0] == "cmp" and t[1] in ("eq", "ne") and t[3] == 0 and isinstance(t[2], tuple) and t[2][0] in ("op", "cmp", "truthy"):
            if t[2][0] == "op" and not t[2][1].startswith("fcmp") and t[2][1] != "xor": return t, pol
            pol = pol == (t[1] == "ne"); t = t[2]; continue
        if t[0] == "cmp" and t[1] in ("eq", "ne") and t[3] == 1 and isinstance(t[2], tuple) and t[2][0] in ("op", "cmp"):
            pol = pol == (t[1] == "eq"); t = t[2]; continue
        if t[0] == "op" and t[1] == "xor" and t[2] == 1 and t[4] == 1: pol = not pol; t = t[3]; continue
        return t, pol

def fbase(t, a, b):
    """('lt'|'le'|'eq', in order a,b) with polarity for a comparison of the numbers a and b"""
    if t[0] == "op" and t[1].startswith("fcmp "):
        p = t[1][6:]; x, y = t[3], t[4]
        x0 = x[1] if x[0] == "bc" else x; y0 = y[1] if isinstance(y, tuple) and y[0] == "bc" else y
        if (x0, y0) == (b, a): p = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p, p)
        elif (x0, y0) != (a, b): return None
        return {"lt": ("lt", True), "ge": ("lt", False), "le": ("le", True), "gt": ("le", False), "eq": ("eq", True), "ne": ("eq", False)}.get(p)
    return None

def outcome(val, st, want):
    """Does the boolean pushed equal the wanted base comparison? want(term) -> polarity or None. True / False / None"""
    f = norm(val)
    if isinstance(f, bool):
        known = None
        for t, (lo, hi, ne) in st.facts.items():
            w = want(t)
            if w is None: continue
            v = True if lo == hi and lo not in (None, 0) or 0 in ne else False if lo == hi == 0 else None
            if v is not None: known = v == w
        for p, x, y in st.rel:
            w = want(("cmp", p, x, y, 64))
            if w is not None: known = w
        if known is None: return None
        return known == f
    w = want(f[0])
    if w is None: return None
    return w == f[1]

def check(ctx, R):
    m = ctx.rooted(["exec_expr"], KEEP, leaf=True); f = m.fns.get("exec_expr")
    need(f is not None and f.defined and len(f.args) == 2, "exec_expr not found")
    R.saw(f)
    T = Tags(); kinds = list(T.kinds); NAN = T.t["NAN"]; NULL = T.t["NULL"]; UNDEF = T.t["UNDEFINED"]
    boolval = {T.t["BOOLEAN"] | 1: 1, T.t["BOOLEAN"]: 0}
    try: tok = {n: m.enumval["TOK_" + n] for n in ("MINUS", "PLUS", "MUL", "DIV", "REM", "XOR", "AND", "OR", "LSHIFT", "RSHIFT", "URSHIFT", "LT", "GT", "LE", "GE", "EQ_EQ",
               "NE_NE", "UNARY_MINUS", "UNARY_PLUS", "NOT", "TILDA", "ASSIGN", "POSTFIX_PLUS", "POSTFIX_MINUS", "PLUS_PLUS", "MINUS_MINUS", "KEYWORD_TYPEOF", "EQ", "NE")}
    except KeyError as e: raise AnalysisBroken("operator %s not found" % e)
    for n in ARITH: tok[n + "_ASSIGN"] = m.enumval.get("TOK_%s_ASSIGN" % n)
    cnt = [0]; bad = set(); und = set()
    mkbool = m.sig("mjs_mk_boolean")
    def go(op, operands, cur=None):
        cnt[0] += 1
        rl = Rl(operands, cur); rl.nan = NAN
        run(m, f, rl, [H("mjs"), tok[op]])
        return rl
    def report(op, key, msg, where=None):
        k = "%s:%s" % (op, key)
        if k in bad: return
        bad.add(k); R.bad("op:" + k, where or "%s:%s" % (f.file, f.line), msg)
    def unk(op, why):
        if (op, why) in und: return
        und.add((op, why)); R.undecided("%s: %s" % (op, why))
    def results(rl, op, what):
        """paths that return: (events by kind, pushed values, state)"""
        for kind, ev, val, st in rl.outs:
            if kind == "abort":
                report(op, "abort", "operator %s aborts the process for %s" % (op, what), val.where()); continue
            pushes = [e[1] for e in ev if e[0] == "push"]; errs = [e for e in ev if e[0] == "error"]
            unknown = any(e[0] == "unknown" for e in ev)
            yield ev, pushes, errs, unknown, st
    def divisions(rl, op, what, a, b):
        for i, x, y, facts in rl.div:
            if isinstance(y, int):
                if y == 0: report(op, "div0", "operator %s divides by zero for %s" % (op, what), i.where())
                continue
            core = y
            while isinstance(core, tuple) and core[0] == "cast" and core[1] in ("fptosi", "fptoui") or isinstance(core, tuple) and core[0] == "op" and core[1] == "fneg":
                core = core[3]
            if leaves_unknown(y): unk(op, "divisor"); continue
            safe = False; neg = None
            for t, (lo, hi, ne) in facts.items():
                true = lo == hi and lo not in (0, None) or 0 in ne; false = lo == hi == 0
                if t == y or t == core and isinstance(core, tuple) and core[0] != "bc":
                    if 0 in ne or (lo is not None and lo > 0): safe = True
                    if lo is not None and lo >= 0: neg = False
                if isinstance(t, tuple) and t[0] == "op" and t[1].startswith("fcmp ") and isinstance(t[4], tuple) and t[4][0] == "fc":
                    p = t[1][6:]; z = t[4][1]
                    intval = isinstance(t[3], tuple) and (t[3][0] == "cast" and t[3][1] in ("sitofp", "uitofp") or t[3][0] == "op")
                    c3 = t[3]
                    if z == 0 and c3 == core or (c3[0] == "op" and c3[1] == "fneg" and c3[3] == core):
                        flip = c3 != core
                        if (p == "ne" and true or p == "eq" and false) and intval: safe = True
                        if p in ("lt", "gt"):
                            neg = (true if p == "lt" else (not true)) if (true or false) else neg
                            if flip: neg = not neg
                            if true and intval: safe = True
            if not safe:
                report(op, "divzero", "operator %s: an integer division whose divisor is not known to be nonzero (it traps)" % op, i.where())
            elif i.op[0] == "s":
                negs = 0; z = y
                while isinstance(z, tuple) and (z[0] == "cast" and z[1] in ("fptosi", "fptoui") or z[0] == "op" and z[1] == "fneg"):
                    negs += z[0] == "op"; z = z[3]
                if neg is None or (neg and negs % 2 == 0) or (not neg and negs % 2 == 1):
                    if neg is None and any(isinstance(t, tuple) and mentions(t, core) and t[0] in ("cmp", "op") and "ne" not in t[1] and "eq" not in t[1] for t in facts): unk(op, "sign of the divisor"); continue
                    report(op, "divneg", "operator %s: the divisor of an integer division may be -1: the smallest integer divided by it traps" % op, i.where())
    # ---- binary operators
    for op in list(ARITH) + list(CMP) + ["EQ_EQ", "NE_NE"]:
        for ka in kinds:
            for kb in kinds:
                a = T.with_id(ka, "A"); b = T.with_id(kb, "B"); ca = T.cls(ka); cb = T.cls(kb); what = "%s and %s" % (ka, kb)
                rl = go(op, [a, b])
                if op in ARITH: divisions(rl, op, what, a, b)
                for ev, pushes, errs, unknown, st in results(rl, op, what):
                    if unknown: unk(op, "unknown call"); continue
                    if sum(1 for e in ev if e[0] == "pop") != 2: unk(op, "operands"); continue
                    if op in ARITH:
                        num = {"number", "foreign"}
                        if ca in num and cb in num:
                            if "foreign" in (ca, cb) and not (op == "MINUS" or op == "PLUS" and "number" in (ca, cb)):
                                if not errs: report(op, "ptr", "operator %s is applied to %s without an error" % (op, what))
                                continue
                            if errs: report(op, "err:num", "operator %s refuses %s" % (op, what)); continue
                            if len(pushes) != 1: unk(op, "result"); continue
                            r = pushes[0]
                            if "NaN" in (ka, kb):
                                if isinstance(r, int) and r == NAN: continue
                                if isinstance(r, tuple) and (r[0] == "conv" and isinstance(r[2], tuple) and not isinstance(r[2], int) and leaves_unknown(r[2])): unk(op, "NaN"); continue
                                if isinstance(r, tuple) and r[0] == "conv" and r[1] == "mjs_mk_number" and r[2][0] == "op" and r[2][1] in ("fsub", "fadd", "fmul", "fdiv", "frem"): continue
                                report(op, "nan", "operator %s with a NaN operand (%s) does not give NaN" % (op, what)); continue
                            if r == NAN:
                                # not a number: only for a zero divisor
                                if op not in ("DIV", "REM"): report(op, "givesnan", "operator %s gives NaN for %s" % (op, what))
                                else:
                                    z = False
                                    for t, (lo, hi, ne) in st.facts.items():
                                        if not mentions(t, b): continue
                                        tr = lo == hi and lo not in (0, None) or 0 in ne; fa = lo == hi == 0
                                        if t[0] == "op" and t[1].startswith("fcmp "): z = z or t[1][6:] == "ne" and fa or t[1][6:] == "eq" and tr
                                        elif t[0] == "op" and t[1] == "fneg": pass
                                        else: z = z or fa
                                    if not z: report(op, "givesnan", "operator %s gives NaN for %s without a zero divisor" % (op, what))
                                continue
                            wantk = "mjs_mk_foreign" if (ca == "foreign") != (cb == "foreign") else "mjs_mk_number"
                            if not (isinstance(r, tuple) and r[0] == "conv"): 
                                if isinstance(r, int) or not leaves_unknown(r): report(op, "res", "operator %s on %s does not give the result of its operation" % (op, what))
                                else: unk(op, "result")
                                continue
                            if r[1] != wantk: report(op, "kind", "operator %s on %s gives a value of another kind" % (op, what)); continue
                            nodes = []; opnodes(r[2], a if ca == "number" else ("pl", a), b if cb == "number" else ("pl", b), nodes)
                            if not nodes:
                                if leaves_unknown(r[2]): unk(op, "operation")
                                else: report(op, "operation", "operator %s on %s: the result does not combine the two operands" % (op, what))
                                continue
                            good = any(o in ARITH[op] and (order or o in COMM) for o, order, _ in nodes)
                            if not good:
                                if all(o in {x for s in ARITH.values() for x in s} for o, _, _ in nodes): report(op, "operation", "operator %s computes %s on its operands%s" % (op, nodes[0][0], "" if nodes[0][1] else " in the wrong order"))
                                else: unk(op, "operation")
                        elif ca == "string" and cb == "string" and op == "PLUS":
                            if errs or len(pushes) != 1 or pushes[0] != ("concat", a, b):
                                if not errs and pushes and leaves_unknown(pushes[0]): unk(op, "concatenation")
                                else: report(op, "concat", "strings are not concatenated in order by +")
                        else:
                            if not errs: report(op, "noerr", "operator %s on %s is not an error" % (op, what))
                    else:
                        if errs: report(op, "err:cmp", "operator %s refuses %s" % (op, what)); continue
                        if len(pushes) != 1: unk(op, "result"); continue
                        r = pushes[0]
                        if isinstance(r, int) and r in boolval: r = ("conv", "mjs_mk_boolean", boolval[r])
                        if not (isinstance(r, tuple) and r[0] == "conv" and r[1] == "mjs_mk_boolean"):
                            if isinstance(r, int): report(op, "kind", "operator %s does not give a boolean" % op)
                            else: unk(op, "result")
                            continue
                        val = r[2]
                        if op in CMP:
                            if (ka, kb) == ("number", "number"):
                                base, pol = CMP[op]
                                def want(t):
                                    if not (isinstance(t, tuple) and t[0] == "op"): return None
                                    fb = fbase(t, a, b)
                                    return None if fb is None or fb[0] != base else fb[1] == pol
                                o = outcome(val, st, want)
                                if o is None:
                                    g = norm(val); g = g[0] if not isinstance(g, bool) else None
                                    if g is not None and fbase(g, a, b) is not None or g is None and any(isinstance(t, tuple) and fbase(t, a, b) is not None for t in st.facts) or isinstance(val, int):
                                        report(op, "cmp", "operator %s compares its operands in another way" % op)
                                    else: unk(op, "comparison")
                                elif not o: report(op, "cmp", "operator %s gives the opposite of its comparison" % op)
                            else:
                                g = norm(val)
                                if g is not False:
                                    if g is True: report(op, "cmpkind", "operator %s holds between %s" % (op, what))
                                    else: unk(op, "comparison")
                            continue
                        eqop = op == "EQ_EQ"
                        def want(t):
                            if not isinstance(t, tuple): return None
                            if t[0] == "cmp" and t[1] == "eq" and {t[2], t[3]} == {a, b}: return eqop
                            if ca == cb == "number":
                                fb = fbase(t, a, b)
                                return None if fb is None or fb[0] != "eq" else fb[1] == eqop
                            if ca == cb == "string":
                                if t in (("scmp", a, b), ("scmp", b, a)): return not eqop
                                if t[0] == "cmp" and t[1] in ("eq", "ne") and t[2] in (("scmp", a, b), ("scmp", b, a)) and t[3] == 0: return (t[1] == "eq") == eqop
                            if {ca, cb} == {"null", "foreign"}:
                                p = ("pl", a if ca == "foreign" else b)
                                if t == p: return not eqop
                                if t[0] == "cmp" and t[1] in ("eq", "ne") and t[2] == p and t[3] == 0: return (t[1] == "eq") == eqop
                            if ca == cb and ca not in ("number", "string") and t[0] == "cmp" and t[1] in ("eq", "ne") and {t[2], t[3]} == {a, b}:
                                return (t[1] == "eq") == eqop
                            return None
                        same = ca == cb and ca in ("undefined", "null")
                        if same or (ca != cb and {ca, cb} != {"null", "foreign"}) or "NaN" in (ka, kb):
                            g = norm(val); exp = same == eqop
                            if isinstance(g, bool):
                                if g != exp: report(op, "eqkind", "operator %s: %s are %s" % (op, what, "different" if same else "the same"))
                            else: unk(op, "equality of %s" % what)
                            continue
                        o = outcome(val, st, want)
                        if o is None and ca == cb == "string":
                            g = norm(val); sc = [(lo, hi, ne) for t, (lo, hi, ne) in st.facts.items() if t in (("scmp", a, b), ("scmp", b, a))]
                            if isinstance(g, bool) and sc and (g != eqop or sc[0][:2] != (0, 0)):
                                report(op, "eq", "operator %s on strings does not hold exactly when they compare as equal" % op); continue
                            if not isinstance(g, bool) and g[0][0] == "cmp" and g[0][2] in (("scmp", a, b), ("scmp", b, a)):
                                report(op, "eq", "operator %s on strings does not hold exactly when they compare as equal" % op); continue
                        if o is None:
                            g = norm(val)
                            rels = [(p, x, y) for p, x, y in st.rel if {x, y} == {a, b}]
                            other = [t for t in st.facts if isinstance(t, tuple) and (mentions(t, a) or mentions(t, b))]
                            if isinstance(g, bool) and not other:
                                report(op, "eq", "operator %s on %s: two %s are told %s by the bits of the value alone" % (op, what, "equal numbers (0 and -0)" if ca == "number" else "equal values", "apart" if g != eqop else "the same"))
                            else: unk(op, "equality of %s" % what)
                        elif not o: report(op, "eq", "operator %s on %s gives the opposite" % (op, what))
    # ---- unary operators
    for op in ("UNARY_MINUS", "UNARY_PLUS", "NOT", "TILDA", "KEYWORD_TYPEOF"):
        for ka in kinds:
            a = T.with_id(ka, "A"); rl = go(op, [a]); ca = T.cls(ka)
            for ev, pushes, errs, unknown, st in results(rl, op, ka):
                if unknown: unk(op, "unknown call"); continue
                npop = sum(1 for e in ev if e[0] == "pop")
                if op == "UNARY_PLUS":
                    if npop == len(pushes) == 0: continue
                    if npop != len(pushes): report(op, "stack", "unary + loses its operand")
                    continue
                if npop != 1 or len(pushes) != 1:
                    if errs: continue
                    unk(op, "operand"); continue
                r = pushes[0]
                if op == "NOT":
                    if isinstance(r, int) and r in boolval: r = ("conv", "mjs_mk_boolean", boolval[r])
                    o = outcome(r[2], st, lambda t: False if t == ("truthy", a) else (t[1] == "eq") if isinstance(t, tuple) and t[0] == "cmp" and t[1] in ("eq", "ne") and t[2] == ("truthy", a) and t[3] == 0 else None) if isinstance(r, tuple) and r[0] == "conv" and r[1] == "mjs_mk_boolean" else None
                    if o is None:
                        if r == ("conv", "mjs_mk_boolean", ("truthy", a)): report(op, "not", "! does not negate")
                        else: unk(op, "result")
                    elif not o: report(op, "not", "! does not negate")
                elif op == "KEYWORD_TYPEOF":
                    if isinstance(r, tuple) and r[0] == "conv" and r[1] == "mjs_mk_string" and r[2] == ("typeof", a): continue
                    if leaves_unknown(r): unk(op, "result")
                    else: report(op, "typeof", "typeof does not give the name of the kind of its operand")
                elif op == "UNARY_MINUS":
                    if ka != "number":
                        if errs or r == NAN: continue
                        if isinstance(r, tuple) and r[0] == "conv" and r[1] == "mjs_mk_number": continue
                        report(op, "kind", "unary - of %s is a value of another kind" % ka); continue
                    x = r[2] if isinstance(r, tuple) and r[0] == "conv" and r[1] == "mjs_mk_number" else None
                    if x == ("op", "fneg", 64, ("bc", a)): continue
                    if isinstance(x, tuple) and x[0] == "op" and x[1] in ("fsub", "fmul"): continue
                    if leaves_unknown(r): unk(op, "result")
                    else: report(op, "neg", "unary - does not negate")
                else:
                    if ka != "number": continue
                    x = r[2] if isinstance(r, tuple) and r[0] == "conv" and r[1] == "mjs_mk_number" else None
                    def hasnot(t): return isinstance(t, tuple) and (t[0] == "op" and t[1] == "xor" and isinstance(t[4], int) and t[4] & 0xffffffff == 0xffffffff and mentions(t[3], a) or any(hasnot(y) for y in t[1:]))
                    def hassub(t): return isinstance(t, tuple) and (t[0] in ("-", "+") or t[0] == "op" and t[1] in ("sub", "add", "fsub", "fadd") or any(hassub(y) for y in t[1:]))
                    if hasnot(x) or hassub(x): continue
                    if leaves_unknown(r): unk(op, "result")
                    else: report(op, "inv", "~ does not invert the bits of its operand")
    # ---- == and != are errors
    for op in ("EQ", "NE"):
        rl = go(op, [T.with_id("number", "A"), T.with_id("number", "B")])
        for ev, pushes, errs, unknown, st in results(rl, op, "numbers"):
            if not errs and not unknown: report(op, "noerr", "operator %s is not refused" % op)
    # ---- assignments: key, object, value
    obj = T.with_id("object", "O"); arr = T.with_id("array", "O"); key = T.with_id("string_o", "K")
    reps = ["number", "string_o", "undefined", "null", "foreign", "object", "boolean", "function"]
    for op in ["ASSIGN"] + [n + "_ASSIGN" for n in ARITH] + ["PLUS_PLUS", "MINUS_MINUS", "POSTFIX_PLUS", "POSTFIX_MINUS"]:
        if tok.get(op) is None: unk(op, "no such operator"); continue
        comp = op.endswith("_ASSIGN"); incdec = not comp and op != "ASSIGN"
        for ko in kinds:
            for kk in ("string_o", "number", "object", "undefined"):
                for kv in (reps if not incdec else ["none"]):
                    for kc in (reps if op != "ASSIGN" and T.cls(ko) in ("object", "array") and kk == "string_o" else ["undefined"]):
                        o = T.with_id(ko, "O"); k = T.with_id(kk, "K"); v = T.with_id(kv, "V") if not incdec else None; c = T.with_id(kc, "C")
                        co = T.cls(ko); what = "%s[%s]%s" % (ko, kk, "" if incdec else " and " + kv)
                        rl = go(op, [k, o] + ([] if incdec else [v]), c)
                        if comp: divisions(rl, op, what, c, v)
                        for ev, pushes, errs, unknown, st in results(rl, op, what):
                            if unknown: unk(op, "unknown call"); continue
                            sets = [e for e in ev if e[0] == "set"]; gets = [e for e in ev if e[0] == "get"]; stores = [e for e in ev if e[0] == "store"]
                            isobj = co in ("object", "array")
                            if isobj and (op == "ASSIGN" or kk == "string_o"):
                                if len(sets) != 1 or sets[0][1:3] != (o, k):
                                    if errs: report(op, "refused", "%s on %s is refused" % (op, what))
                                    elif stores and not sets: unk(op, "store")
                                    else: report(op, "target", "%s on %s does not set the property it names" % (op, what))
                                    continue
                                if op == "ASSIGN":
                                    if sets[0][3] != v:
                                        report(op, "value", "assignment to %s stores another value" % what)
                                    elif len(pushes) != 1 or pushes[0] != v: report(op, "result", "the value of an assignment to %s is not the assigned one" % what)
                                    continue
                                if len(gets) != 1 or gets[0][1:3] != (o, k): report(op, "target", "%s on %s does not read the property it names" % (op, what)); continue
                                if incdec:
                                    base = "PLUS" if "PLUS" in op else "MINUS"
                                    if kc not in ("number", "foreign"):
                                        if not errs: report(op, "noerr", "%s on a property that is %s is not an error" % (op, kc))
                                        continue
                                    x = sets[0][3]
                                    core = x[2] if isinstance(x, tuple) and x[0] == "conv" else x
                                    def one(t): return isinstance(t, tuple) and t[0] == "fc" and t[1] in (1.0, -1.0) or isinstance(t, tuple) and any(one(y) for y in t[1:])
                                    def opof(t):
                                        if isinstance(t, tuple):
                                            if t[0] == "op" and t[1] in ("fadd", "fsub"): return t
                                            for y in t[1:]:
                                                z = opof(y)
                                                if z: return z
                                    n = opof(core)
                                    if errs: report(op, "err", "%s on a number is refused" % op); continue
                                    if n is None:
                                        if leaves_unknown(x): unk(op, "value")
                                        else: report(op, "value", "%s stores something else than the property changed by one" % op)
                                        continue
                                    n1 = const_of(n[4]); step = None if n1 is None else (n1 if n[1] == "fadd" else -n1)
                                    if not mentions(n[3], c): unk(op, "value"); continue
                                    if step is None: unk(op, "step"); continue
                                    if step != (1 if base == "PLUS" else -1): report(op, "value", "%s changes the property by %s" % (op, step)); continue
                                    exp = c if op.startswith("POSTFIX") else x
                                    if len(pushes) != 1 or pushes[0] != exp: report(op, "result", "the value of %s is not the %s one" % (op, "old" if op.startswith("POSTFIX") else "new"))
                                    continue
                                base = op[:-7]; ok = (kc == kv == "number") or ({kc, kv} <= {"number", "foreign"} and (base == "MINUS" or base == "PLUS" and kc != kv)) or (kc == kv == "string_o" and base == "PLUS")
                                x = sets[0][3]
                                if not ok:
                                    if not errs: report(op, "noerr", "%s on a property that is %s with %s is not an error" % (op, kc, kv))
                                    continue
                                if errs: report(op, "err", "%s refuses %s with %s" % (op, kc, kv)); continue
                                if kc == "string_o":
                                    if x != ("concat", c, v): report(op, "value", "%s does not append" % op)
                                elif x == NAN: pass
                                else:
                                    nodes = []; opnodes(x, c if kc == "number" else ("pl", c), v if kv == "number" else ("pl", v), nodes)
                                    if nodes and not any(q in ARITH[base] and (order or q in COMM) for q, order, _ in nodes): report(op, "value", "%s computes %s" % (op, nodes[0][0]))
                                    elif not nodes and not leaves_unknown(x): report(op, "value", "%s does not combine the property and the value" % op)
                                if len(pushes) != 1 or pushes[0] != x: report(op, "result", "the value of %s is not the one it assigned" % op)
                            elif co == "foreign" and op == "ASSIGN":
                                if stores:
                                    if kk != "number" or kv != "number": report(op, "memkind", "assignment through a pointer with %s" % what); continue
                                    ival = ivals(v, st)
                                    if errs: report(op, "memerr", "an assignment through a pointer that is an error writes memory")
                                    elif ival is None: unk(op, "range of the stored value")
                                    elif not ival: report(op, "memrange", "assignment through a pointer stores a value that does not fit the byte")
                                    for e in stores:
                                        if not (mentions(e[1], ("pl", o)) and mentions(e[1], k)): report(op, "memaddr", "assignment through a pointer does not write the byte it names") if not leaves_unknown(e[1]) else unk(op, "address")
                                elif not errs: report(op, "memlost", "assignment through a pointer is lost without an error (%s)" % what)
                            else:
                                if sets or stores: report(op, "nonobj", "%s on %s is carried out" % (op, what))
                                elif not errs: report(op, "noerr", "%s on %s is not an error" % (op, what))
    R.count("evaluations", cnt[0])
    if not bad: R.ok("%d operator/operand combinations" % cnt[0])

def const_of(t):
    while isinstance(t, tuple) and t[0] == "bc": t = t[1]
    if isinstance(t, tuple) and t[0] == "fc": return t[1]
    if isinstance(t, int):
        return struct.unpack("<d", struct.pack("<Q", t & (1 << 64) - 1))[0]
    if isinstance(t, tuple) and t[0] == "conv" and t[1] == "mjs_mk_number": return const_of(t[2])
    return None

def ivals(v, st):
    """the path knows the number v to be within 0..255"""
    lo_ok = hi_ok = False; seen = False
    for t, (lo, hi, ne) in st.facts.items():
        if isinstance(t, tuple) and mentions(t, v):
            seen = True
            if t[0] == "cast":
                if lo is not None and lo >= 0: lo_ok = True
                if hi is not None and hi <= 255: hi_ok = True
    if lo_ok and hi_ok: return True
    return False if not any(isinstance(t, tuple) and t[0] == "op" and mentions(t, v) for t in st.facts) else None
