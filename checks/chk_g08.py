"""Every script value has exactly one kind, on which all classifiers, constructors, getters and conversions agree."""
from ctx import need
from build import AnalysisBroken
from conc import Conc, H, run, NORET
from tags import Tags
from sym import mentions

RULE = ("the value space is partitioned by the tag bits (all doubles, NaN and every tag constructors give out); on each part every classifier gives its definite "
        "answer (true exactly for its own kinds), type query and typeof name agree with them and never abort; every constructor gives a value of its own kind "
        "for any argument (a NaN double becomes the canonical NaN) which its getter turns back into the argument; getters of another kind give the neutral "
        "value; truthiness and conversion to text are decided for every kind by the rules of the language")
EXPLANATION = ("Abstract interpretation of the classification, construction and conversion functions over the finite tag partition; payloads stay symbolic.")
ASSUMPTIONS = ["pointers fit 48 bits (asserted by the code)", "bytecode offsets fit 48 bits"]
CONFIGS_THOROUGH = ["default", "nodebug", "m32"]

CLS = {"mjs_is_number": {"number"}, "mjs_is_boolean": {"boolean"}, "mjs_is_string": {"string"}, "mjs_is_object": {"object", "array"}, "mjs_is_array": {"array"},
       "mjs_is_function": {"function"}, "mjs_is_foreign": {"foreign"}, "mjs_is_null": {"null"}, "mjs_is_undefined": {"undefined"}, "mjs_is_ffi_sig": {"function_ffi"}}
TYPE = {"number": "NUMBER", "boolean": "BOOLEAN", "string": "STRING", "object": "OBJECT_GENERIC", "array": "OBJECT_ARRAY", "function": "OBJECT_FUNCTION",
        "function_ffi": "OBJECT_FUNCTION", "foreign": "FOREIGN", "null": "NULL", "undefined": "UNDEFINED"}
NAME = {"number": "number", "boolean": "boolean", "string": "string", "object": "object", "array": "array", "function": "function", "function_ffi": "function",
        "foreign": "foreign_ptr", "null": "null", "undefined": "undefined"}
GET = ["mjs_get_double", "mjs_get_bool", "mjs_get_ptr", "get_ptr", "mjs_get_func_addr", "mjs_get_ffi_sig_struct", "get_object_struct"]
MK = ["mjs_mk_number", "mjs_mk_boolean", "mjs_mk_null", "mjs_mk_undefined", "mjs_mk_foreign", "mjs_mk_foreign_func", "mjs_mk_function", "mjs_mk_object", "mjs_mk_array",
      "mjs_object_to_value", "mjs_ffi_sig_to_value", "mjs_mk_ffi_sig", "mjs_mk_string"]
CONV = ["mjs_to_boolean_v", "mjs_is_truthy", "mjs_to_string", "mjs_typeof", "mjs_stringify_type", "mjs_get_type"]
M48 = (1 << 48) - 1

class Rl(Conc):
    opterms = True
    def __init__(self, m, depth=0): super().__init__(); self.m = m; self.depth = depth; self.fps = {}
    def cast(self, ex, st, i, t): return ("cast", i.op, 0, t)
    def indirect(self, ex, st, i, args): return None
    def direct(self, ex, st, i, name, a):
        if name in ("new_object", "new_ffi_sig", "gc_alloc_cell"): return [(st, H("cell"))]
        if name in ("malloc", "calloc"):
            s2 = st.copy(); self.event(st, "alloc", i)
            return [(st, ("h", "mem")), (s2, 0)]
        if name in ("mjs_set_errorf", "mjs_prepend_errorf"): self.event(st, "error"); return [(st, a[1])]
        if name == "mjs_get_string":
            if len(a) > 2 and a[2] != 0: st.mem[ex.loc(a[2])] = (("strlen",), "")
            return [(st, H("text"))]
        if name in ("strlen",): return [(st, ("strlen", a[0]))]
        f = self.m.fns.get(name)
        if f is not None and f.defined and self.depth < 6 and (name in CLS or name in GET or name in CONV or name in MK and name != "mjs_mk_string"):
            if any(isinstance(x, tuple) and x[0] == "al" for x in a): return None
            outs = run(self.m, f, Rl(self.m, self.depth + 1), list(a))
            r = []
            seen = set()
            for kind, ev, val, s3 in outs:
                if kind == "abort": self.outs.append(("abort", st.ts + ev, val, s3)); continue
                k = (val, tuple(sorted(s3.facts.items(), key=repr)))
                if k in seen: continue
                seen.add(k)
                s2 = st.copy(); s2.ts = st.ts + ev
                for t, v in s3.facts.items(): s2.facts.setdefault(t, v)
                r.append((s2, val))
            return r
        return None

def ptrlegit(st): return True

def check(ctx, R):
    names = list(CLS) + GET + MK + CONV
    m = ctx.rooted(names, set(names) | {"mjs_get_string", "mjs_set_errorf", "mjs_prepend_errorf", "mjs_jprintf", "new_object", "new_ffi_sig", "gc_alloc_cell", "mjs_ffi_sig_init", "json_printf"})
    T = Tags(); NAN = T.t["NAN"]; n = [0]; bad = set()
    def F(name, must=True):
        f = m.fns.get(name)
        if f is None or not f.defined:
            need(not must, "%s not found" % name); return None
        R.saw(f); return f
    def ev(name, args, facts=None):
        n[0] += 1
        f = F(name)
        return run(m, f, Rl(m), args, facts=facts), "%s:%s" % (f.file, f.line)
    def rep(key, where, msg):
        if key in bad: return
        bad.add(key); R.bad(key, where, msg)
    def truth(v):
        if isinstance(v, int): return v & 0xffffffff != 0
        return None
    def classify(val, own, where, what, facts):
        """all classifiers on a constructed value"""
        for c, ks in CLS.items():
            outs, w = ev(c, [val], facts)
            for k, e, r, st in outs:
                t = truth(r)
                if t is None: R.undecided("%s on the result of %s" % (c, what)); break
                if t != (own in ks): rep("mk:%s:%s" % (what, c), where, "%s makes a value for which %s is %s" % (what, c, str(t).lower())); break
    # classifiers, type and typeof per kind
    for kind, v in T.kinds.items():
        c = T.cls(kind)
        for fn, ks in CLS.items():
            outs, w = ev(fn, [v])
            vals = {truth(o[2]) if o[0] == "ret" else "abort" for o in outs}
            if vals == {None}: R.undecided("%s of %s" % (fn, kind)); continue
            exp = c in ks
            if vals != {exp}:
                if None in vals and not (not exp) in vals: R.undecided("%s of %s" % (fn, kind)); continue
                rep("is:%s:%s" % (fn, kind), w, "%s is %s for a value of kind %s" % (fn, "aborting" if "abort" in vals else "true" if not exp else "false", kind))
        outs, w = ev("mjs_get_type", [v]); want = m.enumval.get("MJS_TYPE_" + TYPE[c])
        need(want is not None, "MJS_TYPE_%s not found" % TYPE[c])
        for k, e, r, st in outs:
            if k == "abort": rep("type:" + kind, r.where(), "the type of a value of kind %s is unknown: aborts" % kind)
            elif r != want: 
                if isinstance(r, int): rep("type:" + kind, w, "the type of a value of kind %s is reported as another one" % kind)
                else: R.undecided("type of %s" % kind)
        outs, w = ev("mjs_typeof", [v])
        for k, e, r, st in outs:
            if k == "abort": rep("typeof:" + kind, r.where(), "typeof aborts for a value of kind %s" % kind); continue
            s = text(m, r)
            if s is None: R.undecided("typeof of %s" % kind)
            elif s != NAME[c]: rep("typeof:" + kind, w, "typeof of a value of kind %s is \"%s\"" % (kind, s))
    # getters
    for kind, v in T.kinds.items():
        c = T.cls(kind)
        outs, w = ev("mjs_get_double", [H("mjs"), v])
        for k, e, r, st in outs:
            if r != ("bc", v): rep("get:double:" + kind, w, "mjs_get_double does not give the number of a value of kind %s" % kind) if c == "number" and not unknown(r) else None
        outs, w = ev("mjs_get_ptr", [H("mjs"), v])
        for k, e, r, st in outs:
            if c == "foreign":
                if r != ("pl", v) and not (isinstance(r, tuple) and unknown(r)): rep("get:ptr", w, "mjs_get_ptr does not give the pointer of a foreign value")
            elif r != 0:
                if not unknown(r): rep("get:ptr:" + kind, w, "mjs_get_ptr takes a value of kind %s for a pointer" % kind)
        outs, w = ev("mjs_get_bool", [H("mjs"), v])
        for k, e, r, st in outs:
            if c == "boolean": continue
            if r != 0 and not unknown(r): rep("get:bool:" + kind, w, "mjs_get_bool is not 0 for a value of kind %s" % kind)
    for b in (0, 1):
        outs, w = ev("mjs_get_bool", [H("mjs"), T.t["BOOLEAN"] | b])
        for k, e, r, st in outs:
            if truth(r) is None: R.undecided("mjs_get_bool")
            elif truth(r) != bool(b): rep("get:bool", w, "mjs_get_bool gives the opposite")
    # constructors
    for name, args, facts in [("mjs_mk_null", [], None), ("mjs_mk_undefined", [], None), ("mjs_mk_boolean", [H("mjs"), 0], None), ("mjs_mk_boolean", [H("mjs"), 1], None), ("mjs_mk_boolean", [H("mjs"), 256], None), ("mjs_mk_boolean", [H("mjs"), 2], None),
                              ("mjs_mk_number", [H("mjs"), ("bc", T.kinds["number"])], None), ("mjs_mk_number", [H("mjs"), ("bc", NAN)], None), ("mjs_mk_number", [H("mjs"), ("bc", 0x7ff8 << 48)], None),
                              ("mjs_mk_number", [H("mjs"), ("bc", T.t["OBJECT"] | 16)], None), ("mjs_mk_foreign", [H("mjs"), ("x", "p")], None), ("mjs_mk_foreign", [H("mjs"), 0], None), ("mjs_mk_foreign_func", [H("mjs"), ("x", "p")], None),
                              ("mjs_mk_function", [H("mjs"), ("&", ("x", "o"), M48)], None), ("mjs_object_to_value", [H("cell")], None), ("mjs_ffi_sig_to_value", [H("cell")], None), ("mjs_mk_object", [H("mjs")], None), ("mjs_mk_array", [H("mjs")], None), ("mjs_mk_ffi_sig", [H("mjs")], None)]:
        if F(name, False) is None: continue
        own = {"mjs_mk_null": "null", "mjs_mk_undefined": "undefined", "mjs_mk_boolean": "boolean", "mjs_mk_number": "number", "mjs_mk_foreign": "foreign", "mjs_mk_foreign_func": "foreign", "mjs_mk_function": "function",
               "mjs_object_to_value": "object", "mjs_ffi_sig_to_value": "function_ffi", "mjs_mk_object": "object", "mjs_mk_array": "array", "mjs_mk_ffi_sig": "function_ffi"}[name]
        outs, w = ev(name, args)
        rets = [o for o in outs if o[0] == "ret"]
        if not rets: R.undecided(name); continue
        for k, e, r, st in rets:
            if r == T.t["NULL"] and name in ("mjs_mk_object", "mjs_object_to_value", "mjs_ffi_sig_to_value", "mjs_mk_ffi_sig") and not any(st.facts): continue
            if name == "mjs_mk_number":
                x = args[1][1]
                if x == T.kinds["number"] and r != x: rep("mk:number", w, "mjs_mk_number changes a number") if not unknown(r) else R.undecided(name)
                if x != T.kinds["number"] and r != NAN: rep("mk:nan", w, "mjs_mk_number makes a NaN whose bits are those of another kind of value (or another NaN)") if not unknown(r) else R.undecided(name)
                if x == T.kinds["number"] or r == NAN: classify(r, own, w, name, None)
                continue
            if name == "mjs_mk_boolean" and r != (T.t["BOOLEAN"] | bool(args[1])):
                rep("mk:boolean", w, "mjs_mk_boolean does not make the boolean of its argument") if isinstance(r, int) else R.undecided(name)
                continue
            classify(r, own, w, name, None)
            if name in ("mjs_mk_foreign",):
                o2, w2 = ev("mjs_get_ptr", [H("mjs"), r])
                for k2, e2, r2, s2 in o2:
                    if args[1] == 0: 
                        if r2 != 0 and not unknown(r2): rep("rt:foreign", w, "a NULL foreign pointer does not come back")
                    elif not unknown(r2) and not low48(r2, args[1]): rep("rt:foreign", w, "the pointer put into a foreign value does not come back")
            if name == "mjs_mk_function":
                o2, w2 = ev("mjs_get_func_addr", [r])
                for k2, e2, r2, s2 in o2:
                    if not unknown(r2) and not low48(r2, args[1]): rep("rt:function", w2, "the address put into a function value does not come back")
            if name == "mjs_object_to_value":
                o2, w2 = ev("get_object_struct", [r])
                for k2, e2, r2, s2 in o2:
                    if k2 == "ret" and not unknown(r2) and not low48(r2, args[0]): rep("rt:object", w2, "the object put into a value does not come back")
            if name == "mjs_ffi_sig_to_value":
                o2, w2 = ev("mjs_get_ffi_sig_struct", [r])
                for k2, e2, r2, s2 in o2:
                    if k2 == "ret" and not unknown(r2) and not low48(r2, args[0]): rep("rt:ffi", w2, "the signature put into a value does not come back")
    # strings: tags
    F("mjs_mk_string")
    # truthiness
    for kind, v in list(T.kinds.items()) + [("true", T.t["BOOLEAN"] | 1), ("false", T.t["BOOLEAN"])]:
        outs, w = ev("mjs_to_boolean_v", [H("mjs"), v]); c = T.cls(kind)
        for k, e, r, st in outs:
            if k == "abort": rep("bool:" + kind, r.where(), "truthiness of a value of kind %s aborts" % kind); continue
            if r not in (T.t["BOOLEAN"], T.t["BOOLEAN"] | 1): R.undecided("truthiness of %s" % kind); continue
            b = r & 1
            if kind == "boolean": continue
            if kind in ("undefined", "null", "NaN", "false"): exp = 0
            elif c in ("object", "array", "function", "foreign", "true"): exp = 1
            elif c == "function_ffi": continue
            elif c == "number":
                z = None
                for t, (lo, hi, ne) in st.facts.items():
                    if isinstance(t, tuple) and t[0] == "op" and t[1].startswith("fcmp ") and mentions(t, v):
                        tr = lo == hi and lo not in (0, None) or 0 in ne; fa = lo == hi == 0
                        q = t[1][6:]
                        if q == "ne" and (tr or fa): z = tr
                        elif q == "eq" and (tr or fa): z = fa
                        else: z = "other"
                if z == "other": rep("bool:number", w, "truthiness of a number is not decided by comparing it with zero"); continue
                if z is None:
                    if any(mentions(t, v) for t in st.facts): R.undecided("truthiness of numbers")
                    else: rep("bool:number", w, "all numbers are taken for %s" % ("true" if b else "false"))
                    continue
                exp = int(z)
            else:
                f0 = st.facts.get(("strlen",)); z = None
                if f0: z = 1 if (f0[0] or 0) > 0 or 0 in f0[2] else 0 if f0[0] == f0[1] == 0 or f0[1] == 0 else None
                if z is None:
                    if any(mentions(t, v) or mentions(t, ("strlen",)) for t in st.facts): R.undecided("truthiness of strings")
                    else: rep("bool:" + kind, w, "all strings are taken for %s, whatever their length" % ("true" if b else "false"))
                    continue
                exp = z
            if b != exp: rep("bool:" + kind, w, "a value of kind %s is taken for %s" % (kind, "true" if b else "false"))
    # conversion to text
    f = F("mjs_to_string")
    for kind, v in T.kinds.items():
        rl = Rl(m); n[0] += 1; c = T.cls(kind)
        P = H("pv"); outs = run(m, f, Rl3(m, v), [H("mjs"), P, H("pp"), H("psize"), H("pneed")], mem={(P, 0): v})
        for k, e, r, st in outs:
            w = "%s:%s" % (f.file, f.line)
            if k == "abort": rep("str:" + kind, r.where(), "conversion of a value of kind %s to text aborts" % kind); continue
            need_free = st.mem.get((H("pneed"), 0), (None,))[0]; p = st.mem.get((H("pp"), 0), (None,))[0]
            err = any(x[0] == "error" for x in e)
            alloc = any(x[0] == "alloc" for x in e)
            if not isinstance(r, int): R.undecided("conversion of %s" % kind); continue
            if r == 0 and p in (0, None): rep("str:" + kind, w, "conversion of a value of kind %s to text succeeds without a text" % kind)
            if r == 0 and p not in (0, None) and need_free in (0, 1) and (need_free == 1) != alloc: rep("str:free:" + kind, w, "conversion of a value of kind %s to text reports the wrong ownership" % kind)
            if r == 0 and c in ("object", "array", "function", "function_ffi"): pass
            if r != 0 and c in ("string", "boolean", "undefined", "null"): rep("str:err:" + kind, w, "conversion of a value of kind %s to text fails" % kind)
            if r == 0 and c in ("undefined", "null"):
                s = text(m, p)
                if s is not None and s != c: rep("str:text:" + kind, w, "the text of %s is \"%s\"" % (c, s))
                sz = st.mem.get((H("psize"), 0), (None,))[0]
                if s is not None and isinstance(sz, int) and sz != len(s): rep("str:len:" + kind, w, "the text of %s has a wrong length" % c)
    R.count("evaluations", n[0])
    if not bad: R.ok("%d evaluations" % n[0])

class Rl3(Rl):
    def __init__(self, m, v): super().__init__(m); self.v = v

def low48(t, p):
    if t == p or t == ("pl", p): return True
    if isinstance(t, tuple) and t[0] == "&" and t[2] & M48 == M48: return low48(t[1], p)
    if isinstance(p, tuple) and p[0] == "&": return t == p
    return False

def unknown(t):
    if isinstance(t, tuple):
        if t and t[0] in ("v", "u"): return True
        return any(unknown(x) for x in t[1:] if isinstance(x, tuple))
    return t is None

def text(m, t):
    if not (isinstance(t, tuple) and t[0] == "g"): return None
    g = next((g for g in m.globals.values() if g.name == t[1]), None) if isinstance(m.globals, dict) else next((g for g in m.globals if g.name == t[1]), None)
    if g is None: return None
    d = m.global_data(g)
    if isinstance(d, (bytes, bytearray)): return bytes(d).split(b"\0")[0].decode("latin1")
    if isinstance(d, tuple) and len(d) > 1 and isinstance(d[-1], (bytes, bytearray)): return bytes(d[-1]).split(b"\0")[0].decode("latin1")
    if isinstance(d, list): return bytes(x if isinstance(x, int) else 0 for x in d).split(b"\0")[0].decode("latin1")
    return None
