"""FFI calls: script arguments become the declared C arguments or the call is refused; the result becomes a script value."""
from ctx import need
from build import AnalysisBroken
from conc import Conc, H, run, NORET
from tags import Tags
from sym import mentions, term_syms

RULE = ("the marshalling function is evaluated for every declared argument type x every kind of script value x every position, every callback/userdata "
        "placement, every result type and every mismatch of argument counts: the C function is entered only when every value fits its declared type, the "
        "k-th slot then has the declared machine kind and a value derived from the k-th script argument alone, the call uses the imported function and the "
        "declared count, and the result is converted by declared type; a mismatch or a refusal of the trampoline ends in an error, never in abort")
EXPLANATION = ("Exhaustive abstract evaluation of mjs_ffi_call2 (helpers inlined, classification functions evaluated over the tag space of values). "
               "Values carry their origin (argument number), so exchanged, stale or shared slots are seen; strings must be taken from the slot's own copy.")
ASSUMPTIONS = ["signatures reaching the call are validated ones (see G14)", "the number conversions mjs_get_int, mjs_get_double are outside this rule"]
CONFIGS_THOROUGH = ["default", "nodebug", "m32"]

CONV = {"mjs_get_int", "mjs_get_int32", "mjs_get_double", "mjs_get_bool", "mjs_get_ptr", "mjs_mk_number", "mjs_mk_boolean", "mjs_mk_string",
        "mjs_mk_foreign", "mjs_mk_foreign_func", "mjs_is_truthy", "mjs_mk_null", "mjs_mk_undefined"}
KEEP = (CONV - {"mjs_mk_null", "mjs_mk_undefined"}) | {"ffi_call", "mjs_arg", "mjs_get_string", "mjs_get_cstring", "mjs_return", "mjs_prepend_errorf",
        "mjs_set_errorf", "mjs_stack_size", "mjs_nargs", "mjs_getretvalpos", "vptr", "vtop", "mjs_typeof", "mjs_ffi_sig_copy", "mjs_stringify_type"}
BASE = 100

class Rl(Conc):
    def __init__(self, m, lay, vals, n, cnt, types, rtype):
        super().__init__(); self.m = m; self.lay = lay; self.vals = vals; self.n = n; self.stackoff = lay["stack"]
        self.calls = []
        self.P = ("pl", vals["sig"])
        mem = {(self.P, lay["val_types"]): rtype, (self.P, lay["args_cnt"]): cnt, (self.P, lay["fn"]): H("fn"), (self.P, lay["cb_sig"]): H("cbsig"),
               (H("cbsig"), lay["fn"]): H("cbfn")}
        for k in range(lay["nvt"] - 1): mem[(self.P, lay["val_types"] + 1 + k)] = types[k] if k < len(types) else 0
        self.mem = mem
    def cast(self, ex, st, i, t):
        if i.op in ("sitofp", "uitofp") and i.ops[0].ty[0] == "int": return ("cast", i.op, i.ops[0].ty[1], t)
        return ("cast", i.op, 0, t)
    def load(self, ex, st, i, addr, cls, res):
        b, off = ex.loc(addr)
        if addr == H("sigslot"): return self.vals["sig"]
        if b == H("res"): return ("res", str(i.ty))
        if isinstance(b, tuple) and b[0] == "al" and (b, off) in st.mem and st.mem[(b, off)][0] == ("resval",): return ("res", str(i.ty))
    def direct(self, ex, st, i, name, a):
        lay = self.lay
        if name == "mjs_arg":
            k = a[1]
            if isinstance(k, int): return [(st, self.vals.get(k, self.vals["undef"]))]
            return [(st, None)]
        if name in ("mjs_stack_size",):
            if ex.loc(a[0]) == (H("mjs"), self.stackoff): return [(st, BASE + self.n)]
            return [(st, 8)]
        if name == "mjs_nargs": return [(st, self.n)]
        if name == "mjs_getretvalpos": return [(st, BASE - 1)]
        if name == "vptr": return [(st, H("sigslot") if ex.loc(a[0]) == (H("mjs"), self.stackoff) else None)]
        if name == "vtop": return [(st, ("callpos",))]
        if name == "mjs_get_int" and a[1] == ("callpos",): return [(st, BASE)]
        if name in ("mjs_get_string", "mjs_get_cstring"):
            v = st.mem.get(ex.loc(a[1]), (None,))[0]
            if len(a) > 2: st.mem[ex.loc(a[2])] = (("strlen", v), "")
            return [(st, ("str", ex.loc(a[1]), v))]
        if name in CONV: return [(st, ("conv", name) + tuple(a[1:]))]
        if name in ("calloc", "malloc"):
            t = H("new"); st.facts[t] = (None, None, frozenset([0])); return [(st, t)]
        if name == "mjs_prepend_errorf" or name == "mjs_set_errorf":
            self.event(st, "err"); return [(st, a[1])]
        if name == "mjs_ffi_sig_copy":
            self.event(st, "sigcopy", ex.loc(a[0]), a[1]); return [(st, None)]
        if name in ("memcmp", "bcmp"):
            t = ("cmpres", a[0], a[1]); return [(st, t)]
        if name == "mjs_return":
            self.event(st, "return", a[1]); return [(st, None)]
        if name in ("mjs_typeof", "mjs_stringify_type"): return [(st, H("txt"))]
        if name == "ffi_call":
            snap = {k: v[0] for k, v in st.mem.items()}
            self.event(st, "ffi", len(self.calls)); self.calls.append((i, a, snap, dict(st.facts), st.rel))
            ra = ex.loc(a[2])
            st.mem[(ra[0], ra[1] + lay["v"])] = (("resval",), "")
            s2 = st.copy(); self.event(s2, "refused")
            return [(st, 0), (s2, 0xffffffff)]
        return None
    def indirect(self, ex, st, i, a): return None

def argsof(t, out):
    if isinstance(t, tuple):
        if t and t[0] == "tv" and isinstance(t[2], tuple) and t[2][0] == "arg": out.add(t[2][1])
        for x in t: argsof(x, out)
    return out

def check(ctx, R):
    m = ctx.rooted(["mjs_ffi_call2"], KEEP, leaf=True); f = m.fns.get("mjs_ffi_call2")
    need(f is not None and f.defined and len(f.args) == 1, "mjs_ffi_call2 not found")
    need(any(f.calls("ffi_call")), "mjs_ffi_call2 does not call ffi_call")
    R.saw(f)
    sig = {x[1]: x for x in m.struct_fields("struct.mjs_ffi_sig")}; arg = {x[1]: x for x in m.struct_fields("struct.ffi_arg")}
    mj = {x[1]: x[0] for x in m.struct_fields("struct.mjs")}; cb = {x[1]: x[0] for x in m.struct_fields("struct.mjs_ffi_cb_args")}
    need(all(k in sig for k in ("val_types", "args_cnt", "fn", "cb_sig")) and "stack" in mj and all(k in cb for k in ("func", "userdata", "sig", "mjs")), "FFI structures not understood")
    lay = {k: sig[k][0] for k in ("val_types", "args_cnt", "fn", "cb_sig")}
    lay.update(nvt=sig["val_types"][4] // 8, stack=mj["stack"], ctype=arg["ctype"][0], v=arg["v"][0])
    asz = max(arg["v"][0] + 8, 16) if m.ptrsize == 8 else None
    for i in f.insts():
        if i.op == "gep" and i.gep_ty[0] == "struct" and i.gep_ty[1] == "struct.ffi_arg": asz = m.sizeof(i.gep_ty); break
    C = {k[14:]: v for k, v in m.enumval.items() if k.startswith("MJS_FFI_CTYPE_")}; F = {k[10:]: v for k, v in m.enumval.items() if k.startswith("FFI_CTYPE_")}
    need(len(C) >= 12 and len(F) == 4, "FFI type enumerators not found")
    tg = Tags(); kinds = sorted(tg.kinds)
    NUM = {"number", "NaN"}; STR = {k for k in kinds if k.startswith("string")}
    accept = {"INT": NUM | {"boolean"}, "BOOL": NUM | {"boolean"}, "DOUBLE": None, "FLOAT": None, "CHAR_PTR": STR | {"null"},
              "VOID_PTR": STR | {"null", "foreign"}, "STRUCT_MG_STR_PTR": STR}
    slot = {"INT": "WORD", "BOOL": "WORD", "DOUBLE": "DOUBLE", "FLOAT": "FLOAT", "CHAR_PTR": "WORD", "VOID_PTR": "WORD", "STRUCT_MG_STR_PTR": "WORD"}
    cbaccept = {"function", "function_ffi", "foreign"}
    sigv = ("tv", tg.t["FUNCTION_FFI"] >> 48, "sig"); undef = tg.kinds["undefined"]
    badset = set(); stat = {"n": 0, "calls": 0}
    maxn = lay["nvt"] - 1

    def go(types, kds, rtype, n, desc):
        """types: declared names; kds: kinds of the actual values"""
        stat["n"] += 1
        vals = {k: tg.with_id(kd, ("arg", k)) for k, kd in enumerate(kds)}
        vals["sig"] = sigv; vals["undef"] = undef
        rl = Rl(m, lay, vals, n, len(types), [C[t] for t in types], C[rtype])
        try: outs = run(m, f, rl, [H("mjs")], rl.mem, {sigv: (None, None, frozenset([0]))}, 6000)
        except AnalysisBroken as x: R.undecided("%s: %s" % (desc, x)); return None
        return rl, outs
    def bad(key, where, msg):
        if key in badset: return
        badset.add(key); R.bad(key, where, msg)
    def slotof(c, k):
        al, base = c[1][3][1:] if isinstance(c[1][3], tuple) and c[1][3][0] == "a" else (None, None)
        a = c[1][3]
        b, off = (a[1], a[2]) if isinstance(a, tuple) and a[0] == "a" else (a, 0)
        return c[2].get((b, off + k * asz + lay["ctype"])), c[2].get((b, off + k * asz + lay["v"])), (b, off + k * asz)
    def common(rl, outs, desc, types, n):
        """call target and count; aborts; failures are errors"""
        for kind, ev, val, st in outs:
            if kind == "abort": bad("abort:" + desc, val.where(), "the host program is aborted: %s" % desc); continue
            ffis = [x for x in ev if x[0] == "ffi"]
            if len(ffis) > 1: bad("twice:" + desc, "mjs_ffi_call2", "the C function is called twice: %s" % desc)
            if (not ffis or any(x[0] == "refused" for x in ev)) and val == 0:
                bad("silent:" + desc, f.name, "success is reported although the C function was not called: %s" % desc)
            if ffis and not any(x[0] == "refused" for x in ev) and isinstance(val, int) and val != 0:
                bad("failed:" + desc, f.name, "an error is reported after a successful call: %s" % desc)
        for c in rl.calls:
            if c[1][0] != H("fn"): bad("target", c[0].where(), "the function called is not the imported one")
            if c[1][1] != n: bad("count:" + desc, c[0].where(), "the C function is called with %s arguments instead of %d: %s" % (c[1][1], n, desc))
    def okval(T, kd, k, c, ctype, v, loc):
        """error text or None"""
        if ctype is None or v is None: return "is not set"
        if loc[0][0] == "al" and loc[1] + asz > m.sizeof(loc[0][1].alloc_ty): return "lies beyond the array of arguments"
        if isinstance(ctype, int) and ctype != F[slot[T]]: return "is passed as the wrong machine type"
        src = argsof(v, set())
        if kd == "null":
            if T in ("CHAR_PTR", "VOID_PTR") and v != 0: return "is not the null pointer"
            return None
        if kd.startswith("string") and T in ("CHAR_PTR", "VOID_PTR", "STRUCT_MG_STR_PTR"):
            if T == "STRUCT_MG_STR_PTR":
                b, off = (v[1], v[2]) if isinstance(v, tuple) and v[0] == "a" else (v, 0)
                s = c[2].get((b, off)); ln = c[2].get((b, off + m.ptrsize))
                if s is None: return None if not (isinstance(v, tuple) and v[0] in ("al", "a")) else "points to no string"
                if isinstance(ln, tuple) and ln[0] == "strlen" and argsof(ln, set()) - {k}: return "has the length of another argument"
                v = s
            if isinstance(v, tuple) and v[0] == "str":
                holder = c[2].get(v[1])
                if argsof(v[2], set()) != {k}: return "is the string of another argument"
                if holder is None or argsof(holder, set()) != {k}: return "points into a variable that holds something else by the time of the call"
                return None
            return "does not come from the string"
        if isinstance(v, int): return None if kd in ("null", "undefined", "NaN") or T == "BOOL" or kd == "boolean" else "is a constant"
        if src and src != {k}: return "gets the value of argument %s" % ", ".join(str(x + 1) for x in sorted(src))
        if not src and kd not in ("NaN", "undefined"): return "does not come from the script value"
        return None

    # single arguments: every type, kind, position
    for T in accept:
        if T not in C: continue
        for kd in kinds:
            for p in range(maxn):
                n = p + 1 if p < maxn - 1 else maxn
                types = ["INT"] * n; types[p] = T
                kds = ["number"] * n; kds[p] = kd
                desc = "%s value for a parameter declared %s" % (kd, T)
                r = go(types, kds, "INT", n, desc)
                if r is None: continue
                rl, outs = r; stat["calls"] += len(rl.calls)
                common(rl, outs, desc, types, n)
                ok = accept[T] is None or kd in accept[T]
                if rl.calls and not ok: bad("accepts:%s:%s" % (T, kd), rl.calls[0][0].where(), "the C function is called with a %s value for a parameter declared %s" % (kd, T))
                if not rl.calls and ok and (accept[T] is not None or kd in NUM): bad("refuses:%s:%s" % (T, kd), f.name, "a %s value is refused for a parameter declared %s" % (kd, T))
                if not ok: continue
                for c in rl.calls:
                    for k in range(n):
                        if accept[types[k]] is None and kds[k] not in NUM: continue
                        e = okval(types[k], kds[k], k, c, *slotof(c, k))
                        if e: bad("slot:%s:%s:%s" % (types[k], kds[k], e.split(" of ")[0]), c[0].where(), "argument %d (declared %s, %s value) %s" % (k + 1, types[k], kds[k], e))
    # two strings at once must not share storage; mixed kinds keep their positions
    for A in ("CHAR_PTR", "VOID_PTR", "STRUCT_MG_STR_PTR"):
        for B in ("CHAR_PTR", "VOID_PTR", "STRUCT_MG_STR_PTR"):
            for p, q in ((0, 1), (1, 2), (0, maxn - 1), (2, 4)):
                n = max(p, q) + 1; types = ["INT"] * n; types[p] = A; types[q] = B; kds = ["number"] * n; kds[p] = kds[q] = "string_i"
                r = go(types, kds, "INT", n, "%s and %s" % (A, B))
                if r is None: continue
                for c in r[0].calls:
                    for k in (p, q):
                        e = okval(types[k], kds[k], k, c, *slotof(c, k))
                        if e: bad("slot2:%s:%s" % (types[k], e), c[0].where(), "argument %d of two string arguments %s" % (k + 1, e))
    # counts
    for cnt in range(0, maxn + 1):
        for n in range(0, maxn + 2):
            desc = "%s arguments" % ("too many" if n > cnt else "too few" if n < cnt else "the declared number of")
            r = go(["INT"] * cnt, ["number"] * n, "INT", n, desc)
            if r is None: continue
            common(r[0], r[1], desc, ["INT"] * cnt, n)
            if r[0].calls and n != cnt: bad("countmis", r[0].calls[0][0].where(), "the C function is called with %d arguments, but %d are declared" % (n, cnt))
            if not r[0].calls and n == cnt: bad("countrefuse", f.name, "a call with the declared %d arguments is refused" % n)
    # results
    for rt, want in (("NONE", None), ("INT", "mjs_mk_number"), ("BOOL", "mjs_mk_boolean"), ("DOUBLE", "mjs_mk_number"), ("FLOAT", "mjs_mk_number"),
                     ("CHAR_PTR", "mjs_mk_string"), ("VOID_PTR", "mjs_mk_foreign")):
        r = go([], [], rt, 0, "result " + rt)
        if r is None: continue
        rl, outs = r; common(rl, outs, "result " + rt, [], 0)
        wk = {"DOUBLE": "DOUBLE", "FLOAT": "FLOAT", "BOOL": "BOOL"}.get(rt, "WORD")
        for c in rl.calls:
            a = c[1][2]; b, off = (a[1], a[2]) if isinstance(a, tuple) and a[0] == "a" else (a, 0)
            ct = c[2].get((b, off + lay["ctype"]))
            if isinstance(ct, int) and ct != F[wk]: bad("rctype:" + rt, c[0].where(), "a function declared to return %s is called as returning another machine type" % rt)
        got = 0
        for kind, ev, val, st in outs:
            if kind != "ret" or not any(x[0] == "ffi" for x in ev) or any(x[0] == "refused" for x in ev): continue
            rv = [x for x in ev if x[0] == "return"]
            if not rv: continue
            v = rv[-1][1]; got += 1
            key = "result:" + rt; w = f.name
            if want is None:
                if v != undef: bad(key, w, "a void function does not return undefined to the script")
                continue
            if isinstance(v, int):
                if rt == "CHAR_PTR" and v == tg.kinds["null"]:
                    continue
                bad(key, w, "the result of a function declared %s is replaced by a constant" % rt); continue
            if not (isinstance(v, tuple) and v[0] == "conv"): continue
            if v[1] != want: bad(key, w, "the result of a function declared %s is made with %s" % (rt, v[1])); continue
            x = v[2]
            if rt == "INT":
                if isinstance(x, tuple) and x[0] == "cast" and (x[1] != "sitofp" or x[2] != 32): bad(key, w, "an int result is widened as %s of %d bits" % (x[1], x[2]))
                elif isinstance(x, tuple) and x[0] == "res" and x[1] == "('double',)": bad(key, w, "an int result is read as a double")
            elif rt == "DOUBLE":
                if x[0] == "cast" or x[0] == "res" and x[1] not in ("('double',)", "('int', 64)"): bad(key, w, "a double result is read as %s" % (x[1],))
            elif rt == "FLOAT":
                y = x[3] if isinstance(x, tuple) and x[0] == "cast" and x[1] == "fpext" else x
                if isinstance(y, tuple) and (y[0] == "cast" or y[0] == "res" and y[1] != "('float',)"): bad(key, w, "a float result is read as %s" % (y[1],))
            elif rt in ("CHAR_PTR", "VOID_PTR"):
                if isinstance(x, tuple) and x[0] == "res" and not x[1].startswith(("('int'", "('ptr'")): bad(key, w, "a pointer result is read as %s" % x[1])
                if rt == "CHAR_PTR" and len(v) > 4 and v[4] == 0: bad(key + ":copy", w, "the string returned by C is not copied: it may go away")
                if rt == "CHAR_PTR" and len(v) > 3 and v[3] not in (0xffffffffffffffff, 0xffffffff): bad(key + ":len", w, "the string returned by C is not taken up to its terminator")
        if not got: R.undecided("result %s: no delivered result recognised" % rt)
    # callbacks
    ncb = 0
    for p in range(0, maxn):
        for q in range(0, maxn):
            if p == q: continue
            n = max(p, q) + 1
            for kd in kinds:
                if kd not in ("function", "foreign", "function_ffi", "number", "undefined", "object", "string_o") and (p, q) != (0, 1): continue
                types = ["INT"] * n; types[p] = "CALLBACK"; types[q] = "USERDATA"
                kds = ["number"] * n; kds[p] = kd; kds[q] = "object"
                desc = "%s value for a callback" % kd
                r = go(types, kds, "INT", n, desc)
                if r is None: continue
                rl, outs = r; ncb += 1
                common(rl, outs, desc, types, n)
                ok = kd in cbaccept
                if rl.calls and not ok: bad("accepts:CALLBACK:" + kd, rl.calls[0][0].where(), "the C function is called with a %s value for a callback" % kd)
                if not rl.calls and ok: bad("refuses:CALLBACK:" + kd, f.name, "a %s value is refused for a callback" % kd)
                if not ok: continue
                sc = {}
                for kind, ev, val, st in outs:
                    for x in ev:
                        if x[0] == "ffi": sc.setdefault(x[1], set()).update(y[1:] for y in ev if y[0] == "sigcopy")
                for ci, c in enumerate(rl.calls):
                    w = c[0].where()
                    ct, v, _ = slotof(c, p)
                    if v is None: bad("cbslot", w, "the callback pointer (argument %d) is not set" % (p + 1))
                    elif v != H("cbfn"): bad("cbslot", w, "the callback pointer (argument %d) is not the implementation chosen for its signature" % (p + 1))
                    if isinstance(ct, int) and ct != F["WORD"]: bad("cbtype", w, "the callback pointer is not passed as a pointer")
                    ct, u, _ = slotof(c, q)
                    if isinstance(ct, int) and ct != F["WORD"]: bad("udtype", w, "the userdata is not passed as a pointer")
                    if u is None: bad("udslot", w, "the userdata (argument %d) is not set" % (q + 1)); continue
                    if isinstance(u, int): bad("udslot", w, "the userdata is a constant"); continue
                    if argsof(u, set()): bad("udslot", w, "the userdata pointer is not the callback record"); continue
                    va, vb = rl.vals[p], rl.vals[q]
                    if u == H("new"):
                        for fld, want in (("func", va), ("userdata", vb), ("mjs", H("mjs"))):
                            g = c[2].get((u, cb[fld]))
                            if g != want: bad("cbrec:" + fld, w, "a new callback record does not hold the callback's %s" % fld)
                        if sc.get(ci) is not None and not any(x[0] == (u, cb["sig"]) and x[1] == H("cbsig") for x in sc[ci]) and \
                           not any(k[0] == u and cb["sig"] <= k[1] < cb["sig"] + 8 for k in c[2]): bad("cbrec:sig", w, "a new callback record does not hold the callback's signature")
                    else:
                        # a record found in the list: same function, userdata and signature
                        def eqf(off, want):
                            l = c[2].get((u, off))
                            if l == want: return True
                            if l is None: return None
                            return any(p_ == "eq" and {x, y} == {l, want} for p_, x, y in c[4])
                        for fld, want in (("func", va), ("userdata", vb)):
                            e = eqf(cb[fld], want)
                            if not e: bad("reuse:" + fld, w, "a callback record with another %s is reused" % fld)
                        lo, hi = cb["sig"], cb["sig"] + sig["is_valid"][0] + 4
                        def touches(t):
                            if not isinstance(t, tuple): return False
                            if t[0] == "a" and t[1] == u and lo <= t[2] < hi: return True
                            return any(touches(x) for x in t)
                        sg = any(isinstance(t, tuple) and t[0] == "cmpres" and touches(t) and fa[0] == fa[1] == 0 for t, fa in c[3].items())
                        sg = sg or any(p_ == "eq" and (x, y) != (va, vb) and any(c[2].get(k) in (x, y) for k in c[2] if k[0] == u and lo <= k[1] < hi) for p_, x, y in c[4])
                        if not sg: bad("reuse:signature", w, "a callback record made for another signature is reused: C arguments would be taken for something else")
    need(stat["calls"] > 50, "no calls recognised")
    R.count("type, kind and position combinations", stat["n"]); R.count("call states checked", stat["calls"]); R.count("callback placements", ncb)
    if not badset: R.ok("all combinations are marshalled as declared or refused")
