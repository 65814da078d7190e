"""C callbacks made from script functions: signatures, implementations and argument delivery agree."""
import itertools
from ctx import need
from build import AnalysisBroken
from conc import Conc, H, run
from tags import Tags
from sym import Rule, Explorer
from flow import strip_ptr

RULE = ("the signature validator, the selection of a callback implementation, every implementation and the common delivery function are evaluated over "
        "signatures (all type vectors up to 2 parameters, up to 3 of the distinguished types, and up to 6 with two unusual ones): an accepted signature has the declared shape; the selected "
        "implementation has a parameter of the declared machine type at every declared position and hands each one over at its own index together with the "
        "userdata; delivery makes the k-th script argument from the k-th C argument by its declared type, calls the registered function, and converts the "
        "result by declared type; no accepted signature reaches abort")
EXPLANATION = ("Exhaustive abstract evaluation over finite signature domains with symbolic C arguments; the parser of signatures is explored path-sensitively "
               "to see which signatures reach the selection.")
ASSUMPTIONS = ["C code calls a callback through the type it was declared with"]
CONFIGS_THOROUGH = ["default", "nodebug", "m32"]
CONV = {"mjs_get_int", "mjs_get_int32", "mjs_get_double", "mjs_get_bool", "mjs_get_ptr", "mjs_mk_number", "mjs_mk_boolean", "mjs_mk_string", "mjs_mk_foreign"}

class Base(Conc):
    def cast(self, ex, st, i, t):
        return ("cast", i.op, i.ops[0].ty[1] if i.ops[0].ty[0] == "int" else 0, t)
    def direct(self, ex, st, i, name, a):
        if name in ("mjs_prepend_errorf", "mjs_set_errorf"): return [(st, a[1])]
        if name in CONV: return [(st, ("conv", name) + tuple(a[1:]))]
        return None

class Deliver(Base):
    def __init__(self, d): super().__init__(); self.d = d; self.applies = []
    def load(self, ex, st, i, addr, cls, res):
        b, off = ex.loc(addr)
        if b == H("data"): return ("darg", off, str(i.ty))
        e = st.mem.get((b, off))
        if e and e[0] == ("resval",): return ("jsres",)
    def direct(self, ex, st, i, name, a):
        if name in ("calloc", "malloc"): return [(st, H("new"))]
        if name == "mjs_apply":
            self.applies.append((i, a, {k: v[0] for k, v in st.mem.items()}))
            st.mem[ex.loc(a[1])] = (("resval",), "")
            s2 = st.copy(); self.event(st, "ok"); self.event(s2, "failed")
            return [(st, 0), (s2, None)]
        return super().direct(ex, st, i, name, a)

class Wrap(Base):
    def __init__(self, g): super().__init__(); self.g = g; self.seen = []
    def direct(self, ex, st, i, name, a):
        if name == self.g:
            self.seen.append((i, a, {k: v[0] for k, v in st.mem.items()}))
            return [(st, ("gres",))]
        return super().direct(ex, st, i, name, a)
    def load(self, ex, st, i, addr, cls, res):
        return None

class ParseRule(Rule):
    widen = (10, 20, 30)
    def __init__(self, lay, C, sels, cbval): self.lay = lay; self.sels = sels; self.cb = cbval; self.nsel = 0; self.oks = 0; self.fnst = 0; self.targets = []
    def track(self, cls): return cls is not None and cls.startswith("mjs_ffi_sig.")
    def keep_fact(self, t): return isinstance(t, tuple) and t[0] == "v" and t[1].kind == "arg"
    def keep_mem(self, k, v): return True
    def init(self, ex): return ()
    def flagword(self, ex, sig): return (ex.loc(sig)[0], ex.loc(sig)[1] + self.lay["flags"])
    def call(self, ex, st, i, a):
        if i.callee.kind != "fn":
            t = ex.t(st, i.callee)
            self.targets.append((i, t))
            src = i.callee
            l = src if src.kind == "inst" and src.op == "load" else None
            from flow import acc_class
            ok = l is not None and acc_class(ex.m, l) == "mjs.dlsym"
            r = ("v", i, "sym" if ok else "ind")
            st.facts.pop(r, None)
            return [(st, r)]
        n = i.callee.name
        if n in ("abort", "__assert_fail"): return []
        if n == "mjs_ffi_sig_init": st.mem[self.flagword(ex, a[0])] = (0, "mjs_ffi_sig.flags"); return [(st, None)]
        if n == "mjs_ffi_sig_validate":
            k = self.flagword(ex, a[1]); o = st.mem.get(k, (None,))[0]
            out = []
            for v in (0, 1):
                s2 = st.copy()
                if isinstance(o, int): s2.mem[k] = ((o & ~(1 << self.lay["vbit"])) | (v << self.lay["vbit"]), "mjs_ffi_sig.flags")
                else: s2.mem.pop(k, None)
                out.append((s2, v))
            return out
        if n in self.sels:
            self.nsel += 1
            if ex.decide(st, "eq", ("v", ex.fn.args[4]), self.cb, 32) is not True:
                ex.report(i, "a callback implementation is looked up for a signature that need not be a callback's: it has no userdata, which aborts the host program", st)
            return [(st, ("v", i, "sel"))]
        if n == "mjs_prepend_errorf" or n == "mjs_set_errorf": return [(st, a[1])]
        if n == "mjs_ffi_sig_set_val_type": return [(st, None)]
        return None
    def clobbers(self, ex, i, cls): return False

def check(ctx, R):
    raw = ctx.raw(); cgr = ctx.cg(raw)
    gen = [f for f in raw.fns.values() if f.defined and any(f.calls("mjs_apply")) and any((i.file or "").endswith("mjs_ffi.c") for i in f.insts())]
    need(len(gen) == 1, "the function delivering C callbacks was not recognised")
    gen = gen[0].name
    def dreach(f, depth=4):
        return any(c.name == gen or depth and c.defined and dreach(c, depth - 1) for c in {i.callee for i in f.insts() if i.op == "call" and i.callee.kind == "fn"})
    wrappers = {f.name for f in raw.fns.values() if f.defined and f in cgr.taken and dreach(f)
                and f.name != gen and any((i.file or "").endswith("mjs_ffi.c") for i in f.insts()) and f not in set(cgr.cfuncs)}
    wrappers = {w for w in wrappers if all(a.ty[0] in ("int", "double", "ptr") for a in raw.fns[w].args) and not any(s == "struct.mjs*" for s in raw.sig(w))}
    need(wrappers, "no callback implementations found")
    def mentions_fn(f):
        for i in f.insts():
            for o in i.ops:
                x = strip_ptr(o)
                if x.kind == "fn" and x.name in wrappers and not (i.op == "call" and i.callee is x): return True
        return False
    sels = sorted(f.name for f in raw.fns.values() if f.defined and mentions_fn(f))
    sigf = {x[1]: x for x in raw.struct_fields("struct.mjs_ffi_sig")}; rec = {x[1]: x[0] for x in raw.struct_fields("struct.mjs_ffi_cb_args")}
    need(all(k in sigf for k in ("val_types", "args_cnt", "is_valid", "is_callback")), "struct mjs_ffi_sig not understood")
    C = {k[14:]: v for k, v in raw.enumval.items() if k.startswith("MJS_FFI_CTYPE_")}
    FUNC, CB = raw.enumval["FFI_SIG_FUNC"], raw.enumval["FFI_SIG_CALLBACK"]
    vt = sigf["val_types"][0]; nvt = sigf["val_types"][4] // 8; ac = sigf["args_cnt"][0]
    def flag(n):
        x = sigf[n]; return x[0], x[3]
    names = [n for n in C]
    inv = {v: k for k, v in C.items()}
    tg = Tags(); badset = set()
    def bad(key, where, msg):
        if key in badset: return
        badset.add(key); R.bad(key, where, msg)
    # ---- vectors
    USUAL = ["INT", "BOOL", "DOUBLE", "FLOAT", "CHAR_PTR", "VOID_PTR", "STRUCT_MG_STR_PTR"]
    ALL = [n for n in names if n != "NONE"]
    vecs = set()
    for n in range(0, 3): vecs.update(itertools.product(ALL, repeat=n))
    vecs.update(itertools.product(("USERDATA", "CALLBACK", "DOUBLE", "CHAR_PTR", "INT"), repeat=3))
    for n in range(4, nvt):
        for p, q in itertools.permutations(range(n), 2):
            for A in ("USERDATA", "CALLBACK", "DOUBLE"):
                for B in ("USERDATA", "CALLBACK", "DOUBLE", "CHAR_PTR"):
                    v = ["INT"] * n; v[p] = A; v[q] = B; vecs.add(tuple(v))
        vecs.add(tuple(["INT"] * n))
        for p, q, r in itertools.permutations(range(n), 3):
            v = ["INT"] * n; v[p] = "USERDATA"; v[q] = "DOUBLE"; v[r] = "DOUBLE"; vecs.add(tuple(v))
    vecs = sorted(vecs, key=lambda v: (len(v), v))
    # ---- validator
    mv = ctx.rooted(["mjs_ffi_sig_validate"], ["mjs_prepend_errorf"], leaf=True); fv = mv.fns.get("mjs_ffi_sig_validate")
    need(fv is not None and fv.defined and len(fv.args) == 3, "mjs_ffi_sig_validate not found")
    R.saw(fv); nval = 0
    S = H("sig")
    rets = {"FUNC": {"NONE", "INT", "BOOL", "DOUBLE", "FLOAT", "VOID_PTR", "CHAR_PTR"}, "CB": {"NONE", "INT", "BOOL", "DOUBLE", "FLOAT", "VOID_PTR"}}
    def sigmem(rt, v, base=S, off=0):
        mem = {(base, off + vt): C[rt], (base, off + ac): 0}
        for k in range(nvt - 1): mem[(base, off + vt + 1 + k)] = C[v[k]] if k < len(v) else 0
        mem[(base, off + (flag("is_valid")[0]))] = 0
        return mem
    valid_cb = []
    def validate(rt, v, kind):
        nonlocal nval
        nval += 1
        rl = Base()
        outs = run(mv, fv, rl, [H("mjs"), S, FUNC if kind == "FUNC" else CB], sigmem(rt, v))
        d = "%s(%s) as %s" % (rt, ", ".join(v), "a function" if kind == "FUNC" else "a callback")
        ok = None
        for k, ev, val, st in outs:
            if k == "abort": bad("validate-abort:" + kind, val.where(), "checking the signature %s aborts the host program" % d); continue
            o, bit = flag("is_valid"); w = st.mem.get((S, o), (None,))[0]
            fl = None if not isinstance(w, int) else (w >> bit) & 1
            if fl is None: R.undecided("validity of %s" % d); return None
            if ok is not None and ok != fl: R.undecided("validity of %s" % d); return None
            ok = fl
            cnt = st.mem.get((S, ac), (None,))[0]
            if fl and isinstance(cnt, int) and cnt & 0xff != len(v): bad("args_cnt", fv.name, "the signature %s is taken to have %d parameters" % (d, cnt & 0xff))
        if ok is None: return None
        ud = v.count("USERDATA"); cb = v.count("CALLBACK"); odd = [t for t in v if t not in USUAL and t not in ("USERDATA", "CALLBACK")]
        good = not odd and rt in rets[kind] and ud <= 1 and (ud == 1 and cb == 0 if kind == "CB" else (ud > 0) == (cb > 0))
        if ok and not good:
            why = "an unusable parameter type" if odd else "an unusable return type" if rt not in rets[kind] else "userdata and callbacks that do not pair up"
            bad("accepts:%s:%s" % (kind, why), fv.name, "a signature with %s is accepted: %s" % (why, d))
        if good and not ok and cb < 2: bad("refuses:" + kind, fv.name, "a usable signature is refused: " + d)
        return ok
    for v in vecs:
        for kind in ("FUNC", "CB"):
            try: ok = validate("INT", v, kind)
            except AnalysisBroken as e: R.undecided(str(e)); continue
            if kind == "CB" and ok: valid_cb.append(v)
    for rt in names:
        for v, kind in (((), "FUNC"), (("INT",), "FUNC"), (("USERDATA",), "CB"), (("USERDATA", "INT"), "CB")):
            try: validate(rt, v, kind)
            except AnalysisBroken as e: R.undecided(str(e))
    R.count("signatures validated", nval)
    need(len(valid_cb) > 50, "the validator accepts too few callback signatures")
    # ---- wrappers
    mw = ctx.rooted(sorted(wrappers), [gen], leaf=True)
    info = {}
    for w in sorted(wrappers):
        f = mw.fns.get(w)
        if f is None or not f.defined: continue
        R.saw(f)
        rl = Wrap(gen); ins = [("p", k, str(a.ty)) for k, a in enumerate(f.args)]
        try: outs = run(mw, f, rl, ins)
        except AnalysisBroken as e: R.undecided(str(e)); continue
        if len(rl.seen) != 1: R.undecided("%s: delivery call not recognised" % w); continue
        i, a, mem = rl.seen[0]
        db = a[-1]; b, off = (db[1], db[2]) if isinstance(db, tuple) and db[0] == "a" else (db, 0)
        data = {k: mem.get((b, off + 8 * k)) for k in range(nvt - 1)}
        info[w] = (i, a[-2], data, f)
        for k, ev, val, st in outs:
            if k == "abort": bad("wrapper-abort:" + w, val.where(), "%s aborts the host program" % w)
            elif isinstance(val, int) and str(f.retty) != "('void',)": bad("wrapper-result:" + w, f.name, "%s returns a constant instead of the callback's result" % w)
    need(info, "no callback implementation understood")
    # ---- selection
    nsel = 0; sel_aborts_plain = False
    for s in sels:
        ms = ctx.rooted([s], ["mjs_prepend_errorf"], leaf=True); fs = ms.fns.get(s)
        if s == "mjs_parse_ffi_signature" or len(fs.args) != 1: R.undecided("selection of a callback implementation in %s" % s); continue
        R.saw(fs)
        def select(rt, v, bits):
            mem = sigmem(rt, v); mem[(S, ac)] = len(v); mem[(S, flag("is_valid")[0])] = bits
            rl = Base()
            return run(ms, fs, rl, [S], mem)
        bits = (1 << flag("is_valid")[1]) | (1 << flag("is_callback")[1])
        for v in [()] + [("INT",), ("INT", "INT")]:
            try: sel_aborts_plain |= any(o[0] == "abort" for o in select("INT", v, bits))
            except AnalysisBroken: pass
        for v in valid_cb:
            for rt in (("INT", "NONE", "BOOL", "DOUBLE", "FLOAT", "VOID_PTR") if len(v) <= 2 else ("INT",)):
                nsel += 1; d = "%s (*)(%s)" % (rt, ", ".join(v))
                try: outs = select(rt, v, bits)
                except AnalysisBroken as e: R.undecided(str(e)); continue
                for k, ev, val, st in outs:
                    if k == "abort": bad("select-abort", val.where(), "the accepted callback signature %s aborts the host program" % d); continue
                    if val == 0:
                        if rt in ("INT", "NONE", "BOOL") and (not set(v) & {"FLOAT", "DOUBLE"} or len(v) == 2 and v.count("DOUBLE") == 1 and "FLOAT" not in v):
                            bad("select-none", fs.name, "no implementation is found for the callback signature %s" % d)
                        continue
                    if not (isinstance(val, tuple) and val[0] == "f"): R.undecided("implementation for %s" % d); continue
                    if val[1] not in info: R.undecided("implementation %s" % val[1]); continue
                    i, par, data, f = info[val[1]]; w = fs.name; g = val[1]
                    if rt in ("DOUBLE", "FLOAT"): bad("select-ret:%s" % rt, w, "a callback declared %s gets an implementation that returns a word" % d); continue
                    u = v.index("USERDATA")
                    if len(f.args) < len(v): bad("select-few:%s:%d" % (g, len(v)), w, "a callback declared %s gets %s, which has only %d parameters" % (d, g, len(f.args))); continue
                    for k2, T in enumerate(v):
                        dbl = f.args[k2].ty[0] == "double"
                        if dbl != (T == "DOUBLE"):
                            bad("select-type:%s:%d" % (g, k2), w, "a callback declared %s gets %s, whose parameter %d is %s" % (d, g, k2 + 1, "a double" if dbl else "a word")); break
                        x = data.get(k2)
                        if x is None: bad("hand:%s:%d" % (g, k2), i.where(), "%s does not hand over parameter %d" % (g, k2 + 1))
                        elif isinstance(x, tuple) and x[0] == "p" and x[1] != k2: bad("hand:%s:%d" % (g, k2), i.where(), "%s hands over parameter %d in place of parameter %d" % (g, x[1] + 1, k2 + 1))
                        elif isinstance(x, int): bad("hand:%s:%d" % (g, k2), i.where(), "%s hands over a constant in place of parameter %d" % (g, k2 + 1))
                        elif isinstance(x, tuple) and x[0] == "cast": bad("hand:%s:%d" % (g, k2), i.where(), "%s converts parameter %d on the way" % (g, k2 + 1))
                    else:
                        if isinstance(par, tuple) and par[0] == "p" and par[1] != u:
                            bad("userdata:%s:%d" % (g, u), w, "for a callback declared %s, %s takes parameter %d for the userdata" % (d, g, par[1] + 1))
    R.count("callback signatures resolved", nsel)
    # ---- which signatures reach the selection
    keep = set(sels) | {n for n in raw.fns if n.startswith("mg_")} | {"mjs_ffi_sig_init", "mjs_ffi_sig_validate", "mjs_ffi_sig_set_val_type", "mjs_ffi_sig_free", "mjs_prepend_errorf"}
    mp = ctx.rooted(["mjs_parse_ffi_signature"], keep, leaf=True); fp = mp.fns.get("mjs_parse_ffi_signature")
    need(fp is not None and fp.defined and len(fp.args) == 5, "mjs_parse_ffi_signature not found")
    R.saw(fp)
    if sel_aborts_plain:
        o, b = flag("is_valid")
        pr = ParseRule({"flags": o, "vbit": b}, C, set(sels), CB); ex = Explorer(mp, fp, pr)
        try:
            ex.run()
            for inst, msg, trail in ex.reports: bad("plain-callback", inst.where(), msg)
            if pr.nsel == 0: R.undecided("selection is not reached in mjs_parse_ffi_signature")
        except AnalysisBroken as e: R.undecided(str(e))
    # ---- delivery
    md = ctx.rooted([gen], CONV | {n for n in raw.fns if n.startswith("cs_log")} | {"mjs_apply", "mjs_own", "mjs_disown", "mjs_print_error", "mjs_prepend_errorf"}, leaf=True); fd = md.fns.get(gen)
    need(fd is not None and len(fd.args) in (2, 3), "the delivery function was not understood")
    R.saw(fd); nd = 0
    REC = H("rec"); func = ("tv", tg.t["FUNCTION"] >> 48, "func"); ud = ("tv", tg.t["OBJECT"] >> 48, "ud")
    seenv = set()
    def darg(t, out):
        if isinstance(t, tuple):
            if t[0] == "darg": out.add((t[1], t[2]))
            for x in t: darg(x, out)
        return out
    for v in valid_cb:
        if "FLOAT" in v: continue
        if len(v) == 3 and v not in seenv and len(set(v)) < 3 and v.count("INT") < 2: continue
        for rt in (("INT", "NONE", "BOOL", "VOID_PTR") if len(v) == 1 else ("INT",)):
            if rt not in rets["CB"]: continue
            nd += 1
            mem = sigmem(rt, v, REC, rec["sig"]); mem[(REC, rec["sig"] + ac)] = len(v)
            mem[(REC, rec["mjs"])] = H("mjs"); mem[(REC, rec["func"])] = func; mem[(REC, rec["userdata"])] = ud
            rl = Deliver(None); d = "%s (*)(%s)" % (rt, ", ".join(v))
            a0 = [REC, H("data")] if len(fd.args) == 2 else [H("out"), REC, H("data")]
            try: outs = run(md, fd, rl, a0, mem)
            except AnalysisBroken as e: R.undecided(str(e)); continue
            for k, ev, val, st in outs:
                if k == "abort": bad("deliver-abort:%s" % ("arg" if not ev else "result:" + rt), val.where(), "a C call of a callback declared %s aborts the host program" % d); continue
                if not any(e[0] == "ok" for e in ev) or len(fd.args) != 2: continue
                want = {"INT": {"mjs_get_int", "mjs_get_int32", "mjs_get_double"}, "BOOL": {"mjs_get_bool", "mjs_is_truthy", "mjs_get_int"}, "VOID_PTR": {"mjs_get_ptr"}}.get(rt)
                if want is None: continue
                x = val
                if isinstance(x, tuple) and x[0] == "cast": x = x[3]
                if isinstance(x, int): bad("deliver-result:" + rt, fd.name, "the result of a callback declared %s is a constant" % d)
                elif isinstance(x, tuple) and x[0] == "conv" and (x[1] not in want or ("jsres",) not in x): bad("deliver-result:" + rt, fd.name, "the result of a callback declared %s is made with %s" % (d, x[1]))
            if not rl.applies: R.undecided("%s: no call of the script function recognised" % d); continue
            for i, a, mm in rl.applies:
                w = i.where()
                if a[0] != H("mjs"): bad("deliver-mjs", w, "the callback is run in another interpreter")
                if a[2] != func: bad("deliver-func", w, "the script function called is not the registered one")
                if isinstance(a[4], int) and a[4] != len(v): bad("deliver-count", w, "the callback declared %s gets %d arguments" % (d, a[4]))
                arr = a[5]; b, off = (arr[1], arr[2]) if isinstance(arr, tuple) and arr[0] == "a" else (arr, 0)
                for k, T in enumerate(v):
                    x = mm.get((b, off + 8 * k)); key = "deliver:%s" % T
                    def e(msg): bad(key + ":" + msg.split(" C argument")[0], w, "argument %d of a callback declared %s %s" % (k + 1, d, msg))
                    if x is None: e("is not set"); continue
                    if T == "USERDATA":
                        if x != ud: e("is not the registered userdata")
                        continue
                    if isinstance(x, int):
                        e("is a constant"); continue
                    if x == ud: e("is the userdata"); continue
                    if not (isinstance(x, tuple) and x[0] == "conv"): continue
                    src = darg(x, set()); offs = {s[0] for s in src}
                    if offs and offs != {8 * k}: e("is made from C argument %s" % sorted(o // 8 + 1 for o in offs)); continue
                    want = {"INT": "mjs_mk_number", "DOUBLE": "mjs_mk_number", "BOOL": "mjs_mk_boolean", "CHAR_PTR": "mjs_mk_string", "VOID_PTR": "mjs_mk_foreign", "STRUCT_MG_STR_PTR": "mjs_mk_string"}[T]
                    if x[1] != want: e("is made with %s" % x[1]); continue
                    y = x[2]
                    if T == "INT":
                        if isinstance(y, tuple) and y[0] == "cast" and (y[1] != "sitofp" or y[2] != 32): e("is widened as %s of %d bits: negative numbers change" % (y[1], y[2]))
                        elif src and any(s[1] == "('double',)" for s in src): e("is read as a double")
                    if T == "DOUBLE" and not any(s[1] in ("('double',)",) for s in src) and not (isinstance(y, tuple) and y[0] == "bc"): e("is not read as a double")
                    if T in ("CHAR_PTR", "STRUCT_MG_STR_PTR") and len(x) > 4 and x[4] == 0: e("is not copied")
    R.count("callback deliveries", nd)
    if not badset: R.ok("signatures, implementations and deliveries agree")
