"""Methods of arrays and strings."""
from ctx import need, pmap
from build import AnalysisBroken
from conc import run
from tags import Tags
from sym import mentions
from heap import Heap, HeapRl
from chk_g06 import m_off

RULE = ("each method of arrays and strings on every small length, position (negative, inside, at the end, beyond), count and number of arguments: push appends in order and gives the new length; "
        "splice removes and returns exactly the addressed items in order, inserts the new ones at that place and keeps the order of the others; slice takes the addressed part; indexOf finds the first "
        "occurrence at or after the position; at / charCodeAt give the unsigned byte or undefined outside; length and subscripts by whole name and index; bytes outside of the text are never read")
EXPLANATION = ("Abstract interpretation of the native functions over abstract arrays (items are opaque) and texts (known by class and length only).")
ASSUMPTIONS = ["objects as maps (G20)", "strings keep their text", "positions beyond the range of int"]
CONFIGS_THOROUGH = ["default", "aggressive_gc", "nodebug"]

KEEP = {"mjs_get_string", "mjs_mk_string", "mjs_to_string", "new_property", "new_object", "str_to_ulong", "cstr_to_ulong", "mjs_check_arg", "mjs_nargs", "mjs_arg", "mjs_get_int", "mjs_mk_number",
        "mjs_prepend_errorf", "mjs_set_errorf", "mjs_return", "c_vsnprintf", "c_snprintf", "mjs_own", "mjs_disown", "mg_strstr", "mjs_mk_foreign_func", "mjs_mk_foreign"}
MJS = ("h", "mjs")
KEEPB = KEEP | {"mjs_array_splice", "mjs_array_push_internal", "mjs_string_slice", "mjs_string_index_of", "mjs_string_char_code_at", "mjs_array_length"}

def norm(i, n): return max(i + n, 0) if i < 0 else min(i, n)

class S:
    def __init__(self, ctx, R, name, keep):
        self.ctx = ctx; self.R = R; self.name = name; self.bad = set(); self.und = set()
        self.m = ctx.rooted([name], keep, leaf=True); self.f = self.m.fns.get(name)
        self.T = Tags(); self.this = m_off(self.m)
    def rep(self, key, msg, where=None):
        if key in self.bad: return
        self.bad.add(key); self.R.bad("%s:%s" % (self.name, key), where or "%s:%s" % (self.f.file, self.f.line), msg)
    def go(self, h, args, what, this=None, cargs=(), bytes_ok=False):
        self.R.count("abstract runs")
        rl = HeapRl(h, cargs, this); rl.bytes_ok = bytes_ok
        mem = dict(h.mem)
        if this is not None: mem[(MJS, self.this)] = this
        for kind, ev, val, st in run(self.m, self.f, rl, args, mem=mem):
            out = next((e for e in ev if e[0] == "outside"), None)
            if out is not None: self.rep("outside", "%s reads outside of the text: %s" % (self.name, what), out[1].where() if out[1] is not None else None); continue
            unk = next((e[1] for e in ev if e[0] == "unknown"), None)
            if unk is not None:
                if unk not in self.und: self.und.add(unk); self.R.undecided("%s: %s" % (self.name, unk))
                continue
            nul = next((e[1] for e in ev if e[0] == "null"), None)
            if nul is not None: self.rep("null", "%s follows a pointer that is NULL: %s" % (self.name, what), nul.where()); continue
            if kind == "abort": self.rep("abort", "%s aborts: %s" % (self.name, what), val.where()); continue
            yield ev, val, st

def arr(h, n, order, holes=()):
    A = [h.T.t["STRING_I"] | 0xcc0001 + 0x10000 * k for k in range(n)]
    pr = [(h.string(str(k).encode()), A[k]) for k in range(n) if k not in holes]
    if order: pr = pr[::-1]
    v, a, ps = h.obj(pr, "ARRAY")
    return v, a, A

def items(h, st, a):
    c = h.chain(st, a, 40)
    if c is None: return None
    return {h.bytes_of(n): v for p, n, v in c} if len({h.bytes_of(n) for p, n, v in c}) == len(c) else None

def retval(ev):
    r = [e[1] for e in ev if e[0] == "return"]
    return r[0] if len(r) == 1 else None

def splice(n, ctx, R):
    s = S(ctx, R, "mjs_array_splice", KEEP)
    need(s.f is not None, "mjs_array_splice not found"); R.saw(s.f)
    U = s.T.t["UNDEFINED"]
    if True:
        for order in (0, 1):
            for start in sorted({-n - 1, -n, -1, 0, 1, n - 1, n, n + 1}):
                for dc in [None] + sorted({-1, 0, 1, 2, n - 1, n, n + 2}):
                    for ins in ([0] if dc is None else [0, 1, 2, 3]):
                        h = Heap(s.m, s.T); v, a, A = arr(h, n, order)
                        new = [h.T.t["STRING_I"] | 0xdd0001 + 0x10000 * k for k in range(ins)]
                        cargs = [h.number(start)] + ([h.number(dc)] if dc is not None else []) + new
                        what = "splice(%s) of %d items" % (", ".join([str(start)] + ([str(dc)] if dc is not None else []) + ["new"] * ins), n)
                        st0 = norm(start, n); cnt = n - st0 if dc is None else max(0, min(dc, n - st0))
                        for ev, val, st in s.go(h, [MJS], what, v, cargs):
                            r = retval(ev)
                            if r is None: s.rep("return", "%s: no result is returned" % what); continue
                            if any(e[0] == "error" for e in ev): s.rep("error", "%s is refused" % what); continue
                            want = A[:st0] + new + A[st0 + cnt:]
                            got = items(h, st, a)
                            if got is None: s.rep("broken", "%s breaks the property list of the array" % what); continue
                            if got != {str(k).encode(): x for k, x in enumerate(want)}:
                                s.rep("rest", "%s leaves the wrong items: %s instead of %s" % (what, desc(got, A, new), desc({str(k).encode(): x for k, x in enumerate(want)}, A, new))); continue
                            if not isinstance(r, int) or r >> 48 << 48 != s.T.t["ARRAY"]:
                                s.rep("result", "%s does not return an array" % what) if isinstance(r, int) else R.undecided("splice result"); continue
                            g2 = items(h, st, r & ((1 << 48) - 1))
                            if g2 != {str(k).encode(): x for k, x in enumerate(A[st0:st0 + cnt])}:
                                s.rep("removed", "%s returns the wrong items: %s instead of %s" % (what, desc(g2 or {}, A, new), desc({str(k).encode(): x for k, x in enumerate(A[st0:st0 + cnt])}, A, new)))
    return s

def desc(d, A, new):
    def one(v):
        return "old%d" % A.index(v) if v in A else "new%d" % new.index(v) if v in new else "undefined" if isinstance(v, int) and v >> 48 == 0xfff3 else "?"
    return "{" + ", ".join("%s: %s" % (k.decode() if k is not None else "?", one(v)) for k, v in sorted(d.items(), key=lambda x: (len(x[0] or b""), x[0] or b""))) + "}"

def push(ctx, R):
    s = S(ctx, R, "mjs_array_push_internal", KEEP)
    need(s.f is not None, "mjs_array_push_internal not found"); R.saw(s.f)
    for n in range(0, 4):
        for order in (0, 1):
            for ins in range(0, 4):
                h = Heap(s.m, s.T); v, a, A = arr(h, n, order)
                new = [h.T.t["STRING_I"] | 0xdd0001 + 0x10000 * k for k in range(ins)]
                what = "push of %d items on %d" % (ins, n)
                for ev, val, st in s.go(h, [MJS], what, v, new):
                    got = items(h, st, a); want = {str(k).encode(): x for k, x in enumerate(A + new)}
                    if got is None: s.rep("broken", "%s breaks the property list" % what)
                    elif got != want: s.rep("items", "%s gives %s" % (what, desc(got, A, new)))
                    r = retval(ev)
                    if r is None: s.rep("return", "%s: no result is returned" % what)
                    elif h.num_of(r) is None: R.undecided("push result")
                    elif h.num_of(r) != n + ins: s.rep("result", "%s gives the length %s" % (what, h.num_of(r)))

TXT = [b"", b"a", b"ab", b"abc", b"abcde", b"abcdef", b"ab\0cab", b"aab", b"abab"]
def slice_(ctx, R):
    s = S(ctx, R, "mjs_string_slice", KEEP); need(s.f is not None, "mjs_string_slice not found"); R.saw(s.f)
    for t in TXT:
        n = len(t)
        for b in sorted({-n - 1, -n, -1, 0, 1, n - 1, n, n + 1}):
            for e in [None] + sorted({-n - 2, -n, -1, 0, 1, 2, n - 1, n, n + 2}):
                h = Heap(s.m, s.T); v = h.string(t); what = "slice(%s) of a text of %d bytes" % (b if e is None else "%d, %d" % (b, e), n)
                for ev, val, st in s.go(h, [MJS], what, v, [h.number(b)] + ([h.number(e)] if e is not None else [])):
                    r = retval(ev); g = h.bytes_of(r) if isinstance(r, int) else None
                    want = t[norm(b, n):n if e is None else max(norm(e, n), norm(b, n))]
                    if any(x[0] == "error" for x in ev): s.rep("error", "%s is refused" % what); continue
                    if g is None:
                        if isinstance(r, int): s.rep("result", "%s does not give a string" % what)
                        else: R.undecided("slice result")
                    elif g != want: s.rep("part", "%s gives %d bytes from the wrong place or of the wrong number" % (what, len(g)))

def index_of(ctx, R):
    s = S(ctx, R, "mjs_string_index_of", KEEP); need(s.f is not None, "mjs_string_index_of not found"); R.saw(s.f)
    for t in TXT:
        n = len(t)
        for q in (b"", b"a", b"ab", b"b", b"c", b"cab", b"abcdef", b"abcdefg", b"\0c"):
            for e in [None] + sorted({-1, 0, 1, 2, 3, n, n + 1, n + 2}):
                h = Heap(s.m, s.T); v = h.string(t); what = "indexOf of a text of %d in one of %d bytes%s" % (len(q), n, "" if e is None else " from %d" % e)
                for ev, val, st in s.go(h, [MJS], what, v, [h.string(q)] + ([h.number(e)] if e is not None else [])):
                    r = retval(ev); x = h.num_of(r) if isinstance(r, int) else None
                    want = t.find(q, min(max(e or 0, 0), n))
                    if any(x[0] == "error" for x in ev): s.rep("error", "%s is refused" % what); continue
                    if x is None: R.undecided("indexOf result"); continue
                    if x != want: s.rep("position", "%s gives %d instead of %d" % (what, x, want))

def code_at(ctx, R):
    s = S(ctx, R, "mjs_string_char_code_at", KEEP); need(s.f is not None, "mjs_string_char_code_at not found"); R.saw(s.f)
    U = s.T.t["UNDEFINED"]
    for t in TXT:
        n = len(t)
        for b in sorted({-n - 1, -n, -1, 0, 1, n - 1, n, n + 1}):
            h = Heap(s.m, s.T); v = h.string(t); what = "charCodeAt(%d) of a text of %d bytes" % (b, n)
            for ev, val, st in s.go(h, [MJS], what, v, [h.number(b)], bytes_ok=True):
                r = retval(ev); k = norm(b, n)
                sg = next((e[1] for e in ev if e[0] == "signed"), None)
                if sg is not None and not masked(r): s.rep("signed", "%s takes the byte for a signed number" % what, sg.where()); continue
                if k >= n:
                    if isinstance(r, int) and r != U: s.rep("end", "%s does not give undefined" % what)
                    elif not isinstance(r, int): s.rep("end", "%s gives a byte outside of the text" % what)
                    continue
                if r == U: s.rep("undefined", "%s gives undefined" % what); continue
                at = byte_of(r)
                if at is None: R.undecided("charCodeAt result"); continue
                if at - h.text(t) != k: s.rep("place", "%s gives the byte at %d" % (what, at - h.text(t)))

def byte_of(t):
    while isinstance(t, tuple):
        if t[0] == "byte": return t[1]
        if t[0] in ("conv", "cast"): t = t[-1]; continue
        if masked(t): t = t[1] if t[0] == "&" else t[3]; continue
        return None
    return None

def masked(t):
    while isinstance(t, tuple) and t[0] in ("conv", "cast"): t = t[-1]
    return isinstance(t, tuple) and (t[0] == "&" and t[2] == 255 or t[0] == "op" and t[1] == "and" and t[4] == 255)

METHODS = {"string": {b"at": "mjs_string_char_code_at", b"charCodeAt": "mjs_string_char_code_at", b"indexOf": "mjs_string_index_of", b"slice": "mjs_string_slice"},
           "array": {b"splice": "mjs_array_splice", b"push": "mjs_array_push_internal"}}
def props(ctx, R):
    s = S(ctx, R, "getprop_builtin", KEEPB)
    if s.f is None: R.undecided("getprop_builtin not found"); return
    R.saw(s.f); U = s.T.t["UNDEFINED"]; res = ("h", "res")
    keys = [b"at", b"charCodeAt", b"indexOf", b"slice", b"splice", b"push", b"length", b"a", b"ats", b"lengt", b"lengthx", b"length\0", b"slice\0x", b"push\0", b"x", b"", b"other"]
    for cls in ("string", "array", "object", "number", "boolean"):
        for k in keys + [b"apply"]:
            h = Heap(s.m, s.T)
            if cls == "string": v = h.string(b"abcdefg")
            elif cls == "array": v, a, A = arr(h, 3, 0)
            elif cls == "object": v, a, ps = h.obj([(h.string(k), U)])
            else: v = s.T.with_id(cls, "x")
            for ev, val, st in s.go(h, [MJS, v, h.string(k), res], "property %s of %s" % (k, cls), None):
                got = st.mem.get((res, 0), (None,))[0]
                if not isinstance(val, int): R.undecided("builtin property found or not"); continue
                name = k.decode("latin1").replace("\0", "\\0")
                if k == b"apply" and cls != "string": continue
                want = METHODS.get(cls, {}).get(k)
                if want is None and not (k == b"length" and cls in METHODS):
                    if val: s.rep("name:" + cls, "the property \"%s\" of a value of kind %s is taken for a builtin one" % (name, cls))
                    continue
                if not val: s.rep("missing:%s:%s" % (cls, name), "the builtin property \"%s\" of a value of kind %s is not found" % (name, cls)); continue
                if k == b"length":
                    n = h.num_of(got) if isinstance(got, int) else None
                    if cls == "array":
                        if n is None and mentions(got, ("arrlen", v)): continue
                        if n is None: R.undecided("length of an array")
                        elif n != 3: s.rep("length", "the length of an array of 3 is %d" % n)
                        continue
                    if n is None: R.undecided("length")
                    elif n != 7: s.rep("length", "the length of a text of 7 bytes is %d" % n)
                    continue
                if isinstance(got, tuple) and got[0] == "foreign" and isinstance(got[1], tuple) and got[1][0] == "f":
                    if got[1][1] != want: s.rep("method:%s:%s" % (cls, name), "the property \"%s\" of a value of kind %s is the function %s" % (name, cls, got[1][1]))
                else: R.undecided("method " + name)
    for t in TXT:
        for k in (b"0", b"1", b"2", b"5", b"6", b"7", b"255", b"256", b"2147483648", b"4294967296", b"4294967297"):
            h = Heap(s.m, s.T); v = h.string(t)
            for ev, val, st in s.go(h, [MJS, v, h.string(k), res], "subscript %s of a text of %d bytes" % (k.decode(), len(t))):
                got = st.mem.get((res, 0), (None,))[0]; n = int(k)
                if not isinstance(val, int) or not isinstance(got, int): R.undecided("subscript"); continue
                if not val: s.rep("subscript", "a subscript of a text is not found"); continue
                b = h.bytes_of(got)
                if n >= len(t):
                    if got != U: s.rep("subscript-end", "subscript %d of a text of %d bytes is not undefined" % (n, len(t)))
                elif b != t[n:n + 1]: s.rep("subscript-char", "subscript %d of a text of %d bytes gives the wrong character" % (n, len(t)))

def check(ctx, R):
    ctx.raw()
    pmap(R, [(lambda c, r, n=n: splice(n, c, r)) for n in (4, 3, 2, 1, 0)] + [push, slice_, index_of, code_at, props], lambda f, r: f(ctx, r))
    need(R.counts.get("abstract runs", 0) > 500, "methods not explored")
    if not R.violations: R.ok("%d abstract runs" % R.counts["abstract runs"])
