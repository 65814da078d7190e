"""A value of one kind is never used as a value of another kind."""
import itertools, glob, os, re
from ctx import need, BASELINE, pmap
from build import AnalysisBroken, REPO
from conc import Conc, H, run, NORET
from tags import Tags
from sym import mentions, Explorer, State
from flow import acc_class, dominates
from opfx import dispatch, op_names

RULE = ("every native function of the language, every API function that takes values and every bytecode instruction is interpreted for every kind of each "
        "value it inspects (arguments, `this`, operands, property values): no path uses the payload of a value of another kind as an object, an FFI signature "
        "or memory, dereferences the NULL which the accessors give for another kind, or reaches an abort that only some kinds reach")
EXPLANATION = ("Abstract interpretation per function over the partition of values by tag, payload symbolic; a value which a path never inspects stays "
               "unresolved, the others are enumerated in all combinations (four or more: the representative kinds).")
ASSUMPTIONS = ["a property name is a string (checked where properties are made)", "pointers made by C code (foreign values) are the script's and embedder's own responsibility"]
CONFIGS_THOROUGH = ["default", "aggressive_gc", "nodebug", "m32"]

SKIP = {"mjs_mk_property", "gc_mark", "gc_check_val", "gc_check_ptr", "gc_string_mjs_val_to_offset", "gc_mark_object", "mjs_own", "mjs_disown", "mjs_push", "push_mjs_val", "mjs_return",
        "main", "mjs_dump", "mjs_execute", "get_object_struct", "mjs_get_ffi_sig_struct", "get_ptr", "mjs_get_func_addr", "mjs_get_string"}
NULLBAD = {"strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strtoul": (0,), "strtol": (0,), "strtod": (0,), "atoi": (0,), "memcmp": (0, 1), "memcpy": (0, 1), "memmove": (0, 1),
           "memset": (0,), "strdup": (0,), "strchr": (0,), "strstr": (0, 1), "fopen": (0,), "strcpy": (0, 1), "fputs": (0,), "cs_varint_decode": (0,), "cs_varint_decode_unsafe": (0,), "mjs_exec_file": (1,),
           "json_walk": (0,), "mjs_json_parse": (1,), "mjs_parse_ffi_signature": (1,), "unescape": (0,), "cs_read_file": (0,), "cstr_to_ulong": (0,), "mjs_exec": (1,), "mjs_exec_internal": (2,), "mjs_parse": (1,)}
SIZED = {"strncmp": 2, "memcmp": 2, "memcpy": 2, "memmove": 2, "memset": 2, "json_walk": 1, "mjs_json_parse": 2, "mjs_parse_ffi_signature": 2, "unescape": 1}
PURE = {"mjs_is_object", "mjs_is_array", "mjs_is_string", "mjs_is_number", "mjs_is_boolean", "mjs_is_null", "mjs_is_undefined", "mjs_is_foreign", "mjs_is_function",
        "mjs_is_ffi_sig", "get_object_struct", "mjs_get_ffi_sig_struct", "get_ptr", "mjs_get_ptr", "mjs_get_func_addr", "mjs_get_type", "mjs_get_bool", "mjs_get_double", "mjs_get_int", "mjs_get_int32",
        "mjs_check_arg", "mjs_to_string", "mjs_get_cstring", "mjs_strcmp", "str_to_ulong", "mjs_typeof", "mjs_stringify_type", "mjs_mk_number", "mjs_mk_boolean", "mjs_mk_foreign", "mjs_mk_null", "mjs_mk_undefined",
        "mjs_mk_foreign_func", "mjs_pointer_to_value", "mjs_legit_pointer_to_value", "mjs_object_to_value", "mjs_mk_function"}
TOO = {"mjs_to_string", "mjs_get_cstring", "mjs_strcmp"}
READS = {"mbuf_append", "mbuf_insert", "mjs_strcmp", "mjs_get_cstring", "strlen", "strcmp", "strncmp", "memcmp", "strtoul", "strtod", "s_cmp", "free", "printf", "fprintf", "fputs", "fopen", "mjs_own", "mjs_disown"}
FEW = ["number", "string_o", "object", "foreign", "undefined", "function_ffi"]

class Rl(Conc):
    opterms = True
    unroll = False
    widen = (4, 100, 300)
    def __init__(self, m, T, assign):
        super().__init__(); self.m = m; self.T = T; self.assign = assign; self.bad = {}; self.insp = set(); self.aborts = set(); self.dec = set(); self.over = False
        self.this = m_off(m)
    def sym(self, name):
        k = self.assign.get(name)
        return ("x", name) if k is None else self.T.with_id(k, name)
    def track_loc(self, lc): return True
    def keep_mem(self, k, v): return isinstance(v[0], tuple) and v[0][0] == "tv"
    def keep_env(self, v): return isinstance(v, tuple) and v[0] == "tv"
    def keep_int(self, ex, i): return ex.boolean(i)
    def look(self, t):
        """a value which is inspected"""
        if isinstance(t, tuple):
            if t[0] == "x" and isinstance(t[1], str) and t[1][:1] == "@": self.insp.add(t[1])
            for x in t[1:]: self.look(x)
    def rep(self, key, i, msg):
        self.bad.setdefault((key, msg), i)
    def deref(self, ex, st, i, addr):
        if isinstance(addr, int) and addr < 4096: self.rep("null", i, "NULL is dereferenced"); return
        if addr is None: return
        b, off = ex.loc(addr)
        if b == 0: self.rep("null", i, "NULL is dereferenced"); return
        if isinstance(b, tuple) and b[0] == "pl":
            v = b[1]
            if isinstance(v, tuple) and v[0] == "tv": 
                k = self.kind(v)
                if k is None: return
                c = acc_class(self.m, i) or ""
                c = c.split(".")[0]
                if k == "foreign":
                    if c in ("mjs_object", "mjs_property", "mjs_ffi_sig"): self.rep("payload", i, "the payload of a value of kind %s is used as a %s" % (k, c))
                    return
                if k in ("object", "array"):
                    if c and not c.startswith(("mjs_object", "gc_", "anon", "?")): self.rep("payload", i, "the payload of a value of kind %s is used as a %s" % (k, c))
                elif k == "function_ffi":
                    if c.startswith(("mjs_object", "mjs_property")): self.rep("payload", i, "the payload of a value of kind %s is used as a %s" % (k, c))
                else: self.rep("payload", i, "the payload of a value of kind %s is used as memory" % k)
        elif isinstance(b, tuple): self.look(b)
    def kind(self, v):
        for n, t in self.T.kinds.items():
            if isinstance(t, tuple) and t[1] == v[1]: return n
        return None
    def load(self, ex, st, i, addr, cls, res):
        self.deref(ex, st, i, addr)
        if isinstance(res, tuple) and res[0] == "v":
            c = acc_class(self.m, i)
            if c == "mjs_property.name": return ("tv", self.T.kinds["string_o"][1], ("name", i))
            if c == "mjs_property.value": return self.sym("@the value of a property")
    def loaded(self, ex, st, i, addr): pass
    def store(self, ex, st, i, addr, cls, val):
        self.deref(ex, st, i, addr)
        if acc_class(self.m, i) == "mjs_property.name": self.named(i, val)
    def named(self, i, val):
        if isinstance(val, (int, tuple)):
            if isinstance(val, tuple) and val[0] == "tv" and not (self.kind(val) or "string").startswith("string"): self.rep("name", i, "a value of kind %s becomes the name of a property" % self.kind(val))
            elif isinstance(val, int) and val in (self.T.t["UNDEFINED"], self.T.t["NULL"], self.T.t["NAN"]): self.rep("name", i, "a value which is no string becomes the name of a property")
            else: self.look(val)
    def inst(self, ex, st, i):
        if i.op == "icmp" or i.op == "switch" or i.op == "fcmp":
            for o in i.ops: self.look(ex.t(st, o))
        if i.op in ("br", "switch") and i.ops:
            c = ex.t(st, i.ops[0])
            if isinstance(c, int) or isinstance(c, tuple) and "'tv'" in repr(c):
                for b in i.bb.succs:
                    if b not in self.dec and any(x.op == "call" and x.callee is not None and x.callee.kind == "fn" and x.callee.name in NORET for x in b.insts): self.dec.add(b)
    def call(self, ex, st, i, args):
        if i.callee.kind == "fn" and i.callee.name in NORET:
            if self.bykind(ex, st, i): self.aborts.add(i)
            self.outs.append(("abort", st.ts, i, st)); return []
        return super().call(ex, st, i, args)
    def bykind(self, ex, st, i):
        """is the test in front of the abort decided by the kinds?"""
        return i.bb in self.dec
    def val(self, st, name): return [(st, self.sym(name))]
    def direct(self, ex, st, i, name, a):
        if name in NULLBAD:
            for k in NULLBAD[name]:
                if k < len(a) and a[k] == 0:
                    n = SIZED.get(name)
                    if n is not None:
                        sz = a[n]
                        if sz == 0 or sz is None: continue
                        if not isinstance(sz, int) and ex.decide(st, "eq", sz, 0, 64) is not False: continue
                    self.rep("null", i, "NULL is passed to %s" % name)
        if name == "mjs_arg":
            k = a[1]
            return self.val(st, "@arg%d" % k) if isinstance(k, int) and k < 6 else [(st, ("x", "argN"))]
        if name == "vptr":
            h = H(("slot", i)); st.mem.setdefault((h, 0), (self.sym("@the called value"), "")); return [(st, h)]
        if name == "mjs_nargs": return [(st, ("nargs",))]
        if name in ("mjs_return", "mjs_push", "push_mjs_val", "mjs_set_errorf", "mjs_prepend_errorf", "mjs_own", "gc_mark"): return [(st, ("x", "err") if name.endswith("errorf") else None)]
        if name in ("mbuf_append", "mbuf_insert"): return [(st, None)]
        if name in ("gc_check_val", "gc_check_ptr"): return [(st, 1)]
        if name == "mjs_get_string":
            p = a[1]; lc = ex.loc(p) if p is not None else None
            v = st.mem.get(lc, (None,))[0] if lc else None
            size = a[2] if len(a) > 2 else 0
            def out(st, r, n):
                if size not in (0, None): st.mem[ex.loc(size)] = (n, "")
                return (st, r)
            self.look(v)
            if isinstance(v, tuple) and v[0] == "tv" or isinstance(v, int):
                k = self.kind(v) if isinstance(v, tuple) else "const"
                if k and k.startswith("string"): return [out(st, ("h", ("text", v)), ("len", v))]
                return [out(st, 0, 0)]
            return [out(st, ("x", ("text", v)), ("x", ("len", v)))]
        if name == "mjs_to_string":
            v = st.mem.get(ex.loc(a[1]), (None,))[0] if a[1] is not None else None
            self.look(v); k = self.kind(v) if isinstance(v, tuple) and v[0] == "tv" else "const" if isinstance(v, int) else None
            def put(st, *vals):
                for p, x in zip(a[2:5], vals): st.mem[ex.loc(p)] = (x, "")
            r = []
            if k not in ("object", "array", "function", "function_ffi"):
                s2 = st.copy(); put(s2, ("h", ("text", v)), ("len", v), ("x", ("nf", v)) if k is None else int(k == "number" or v == self.T.t["NAN"])); r.append((s2, 0))
            if k in (None, "object", "array", "function", "function_ffi"):
                s2 = st.copy(); put(s2, 0, 0, 0); r.append((s2, self.m.enumval.get("MJS_TYPE_ERROR", 3)))
            return r
        if name == "mjs_mk_property": self.named(i, a[1]); return [(st, H("newprop"))]
        if name == "mjs_mk_string": return [(st, ("tv", self.T.kinds["string_o"][1], ("str", i)))]
        if name == "new_property": return [(st, H("newprop"))]
        if name in ("new_object", "new_ffi_sig"): return [(st, H(name))]
        if not name.startswith("llvm.") and name not in READS:
            for x in a:
                b = ex.loc(x)[0] if isinstance(x, tuple) else None
                if isinstance(b, tuple) and b[0] == "al":
                    for lc in [k for k in st.mem if k[0] == b]: st.mem[lc] = (("x", (name, i, lc[1])), "")
        if name in self.m.fns and self.m.sig(name) and self.m.sig(name)[0] == "mjs_val_t" and not name.startswith("mjs_mk_"):
            return self.val(st, "@the result of " + name)
        return None
    def indirect(self, ex, st, i, args):
        return None

_off = {}
def m_off(m):
    k = id(m)
    if k not in _off:
        offs = {n: o for o, n, *_ in m.struct_fields("struct.mjs")}
        this = [x[0] for x in m.struct_fields("struct.mjs_vals") if x[1] == "this_obj"][0]
        _off[k] = offs["vals"] + this
    return _off[k]

class OpRl(Rl):
    """one bytecode instruction"""
    def __init__(self, m, T, assign, start): super().__init__(m, T, assign); self.start = start
    def edge(self, ex, st, frm, to):
        if dominates(self.start, to): return True
        self.outs.append(("ret", st.ts, None, st)); return False
    def direct(self, ex, st, i, name, a):
        stack = ("a", self.base, self.soff)
        if name == "mjs_pop" or name == "mjs_pop_val" and a[0] == stack:
            d = sum(1 for e in st.ts if e[0] == "pop"); p = sum(1 for e in st.ts if e[0] == "push")
            if p: self.event(st, "unpush"); return [(st, ("x", "pushed"))]
            self.event(st, "pop"); return self.val(st, "@op%d" % (d + 1))
        if name == "vtop" and a[0] == stack:
            d = sum(1 for e in st.ts if e[0] == "pop")
            return self.val(st, "@op%d" % (d + 1))
        if name == "vptr" and a[0] == stack:
            if isinstance(a[1], int) and a[1] < 0 or isinstance(a[1], int) and a[1] > 1 << 31:
                n = -a[1] if a[1] < 0 else (1 << 32) - a[1]
                h = H(("slot", n)); st.mem.setdefault((h, 0), (self.sym("@op%d" % n), "")); return [(st, h)]
            h = H(("slot", "n")); st.mem.setdefault((h, 0), (self.sym("@opn"), "")); return [(st, h)]
        return super().direct(ex, st, i, name, a)

def public_names():
    return set(re.findall(r"\b(\w+)\s*\(", "".join(open(h, errors="replace").read() for h in glob.glob(os.path.join(REPO, "src", "*public*.h")))))

def constants(m, f):
    """parameters of an internal function which are one constant at every call; pointers which are NULL at some calls"""
    out = {}
    calls = [i for g in m.fns.values() if g.defined for i in g.calls(f.name)]
    for k, p in enumerate(f.args):
        if p.ty[0] == "ptr":
            if any(i.ops[k].kind in ("null", "const") for i in calls): out[k] = "null" if any(i.ops[k].kind not in ("null", "const") for i in calls) else 0
            continue
        vs = {i.ops[k].val if i.ops[k].kind == "const" else None if i.ops[k] is not p else "own" for i in calls} - {"own"}
        if len(vs) == 1 and isinstance(next(iter(vs)), int): out[k] = next(iter(vs))
    return out

def check(ctx, R):
    T = Tags(); ma = ctx.api(); cg = ctx.cg(ma)
    natives = [f.name if hasattr(f, "name") else f for f in cg.cfuncs]
    natives = [n for n in natives if n in ma.fns and ma.fns[n].defined and n not in SKIP]
    need(len(natives) >= 10, "native functions not found")
    api = [n for n, f in ma.fns.items() if f.defined and n in BASELINE and n not in SKIP and (n not in PURE or n in TOO) and n not in natives and any(p in ("mjs_val_t", "mjs_val_t*") for p in ma.sig(n)[1:])]
    natives += [n for n in ("mjs_ffi_call2",) if n in ma.fns and ma.fns[n].defined]
    roots = sorted(set(natives) | set(api) | {"mjs_execute"})
    heavy = {n for n in BASELINE if n not in PURE} | {"snquote", "append_hex"}
    m = ctx.rooted(roots, heavy | set(natives), leaf=False)
    public = public_names()
    roots_ = [("fn", n) for n in sorted(set(natives) | set(api)) if n in m.fns and m.fns[n].defined]
    f = m.fns["mjs_execute"]; need(f.defined, "mjs_execute not found"); R.saw(f)
    sw = dispatch(f); names = op_names(m)
    soff = {n2: o for o, n2, *_ in m.struct_fields("struct.mjs")}["stack"]
    items = roots_ + [("op", cv, b) for cv, b in sw.cases]
    items.sort(key=lambda x: 0 if x[0] == "op" and names.get(x[1]) == "OP_EXPR" or x[1] == "to_json_or_debug" else 1)
    def one(it, R):
        R.count("functions and instructions")
        if it[0] == "fn":
            fname = it[1]; f = m.fns[fname]; R.saw(f); sig = m.sig(fname)
            fixed = constants(m, f) if fname not in public else {}
            nullable = [k for k, v in fixed.items() if v == "null"]
            for nulls in itertools.product((False, True), repeat=len(nullable)):
                none = {k for k, x in zip(nullable, nulls) if x}
                def runner(asg):
                    r = Rl(m, T, asg); args = []; mem = {}
                    for k, (p, ty) in enumerate(zip(f.args, sig[1:])):
                        if k in none or fixed.get(k) == 0 and p.ty[0] == "ptr": args.append(0)
                        elif ty == "struct.mjs*": args.append(H("mjs")); mem[(H("mjs"), r.this)] = r.sym("@this")
                        elif ty == "mjs_val_t": args.append(r.sym("@par%d" % k))
                        elif ty == "mjs_val_t*": h = H("p%d" % k); args.append(h); mem[(h, 0)] = r.sym("@par%d" % k)
                        elif ty.endswith("*"): args.append(H("p%d" % k))
                        else: args.append(fixed.get(k))
                    try: run(m, f, r, args, mem=mem, maxstates=6000 if fname == "to_json_or_debug" else 2500)
                    except AnalysisBroken: r.over = True
                    return r
                enum(R, T, fname, runner)
        else:
            f = m.fns["mjs_execute"]; _, cv, b = it
            op = names.get(cv, "#%d" % cv)
            def runner(asg):
                r = OpRl(m, T, asg, b); r.soff = soff
                ex = Explorer(m, f, r); ex.MAXSTATES = 4000
                r.base = ("v", f.args[0])
                st = State(); st.ts = ()
                st.mem[(r.base, r.this)] = (r.sym("@this"), "")
                try: ex.run(st, start=b)
                except AnalysisBroken: r.over = True
                return r
            enum(R, T, op, runner)
    pmap(R, items, one)
    R.ok("%d combinations" % R.counts.get("kind combinations", 0))

NAMES = (("@the", "the"), ("@arg", "argument "), ("@op", "operand "), ("@par", "parameter "), ("@", ""))
def nice(n):
    for a, b in NAMES:
        if n.startswith(a): return b + n[len(a):]
def when(asg): return " and ".join("%s is of kind %s" % (nice(k), v) for k, v in sorted(asg.items()))

def enum(R, T, fname, runner):
    """lazily enumerate kinds of inspected values"""
    import time, sys; t0 = time.time()
    r0 = runner({})
    if r0.over: R.undecided(fname)
    names = sorted(r0.insp); done = set()
    work = [frozenset(names)]; allab = {}; tot = {}
    def report(b, asg):
        for (key, msg), i in b.items(): R.bad("%s:%s" % (key, fname), i.where(), "%s: %s%s" % (fname, msg, " when " + when(asg) if asg else ""))
    while work:
        ns = tuple(sorted(work.pop()))
        if ns in done or not ns: continue
        done.add(ns)
        main = [x for x in ns if not x.startswith("@the ")]
        def kinds(x):
            if len(ns) == 1 or len(main) < 3 and x in main: return list(T.kinds)
            return FEW + (["NaN", "null", "array", "string_i"] if len(ns) <= 3 and x in main else ["array"] if x not in main else [])
        over = False; extra = set(); combos = list(itertools.product(*map(kinds, ns))); tot[ns] = len(combos)
        for combo in combos:
            asg = dict(zip(ns, combo)); R.count("kind combinations")
            r = runner(asg)
            if r.over: over = True
            extra |= r.insp - set(ns)
            if r.insp - set(ns): continue
            report(r.bad, asg)
            for i in r.aborts: allab.setdefault((ns, i), []).append((r.over, asg))
        if extra and len(ns) + len(extra) <= 4: work.append(frozenset(ns) | extra)
        if over and ns: R.undecided("%s with %s" % (fname, ", ".join(ns)))
    if not names: report(r0.bad, {})
    if "PROF" in os.environ: print("%-40s %.1fs" % (fname, time.time() - t0), sorted(done), r0.over, file=sys.stderr)
    for (ns, i), l in allab.items():
        sure = [a for o, a in l if not o]
        if sure and len(l) < tot[ns]: R.bad("abort:%s" % fname, i.where(), "%s aborts when %s" % (fname, when(sure[0])))
