"""Objects are maps from texts to values."""
from ctx import need
from build import AnalysisBroken
from conc import run
from tags import Tags
from heap import Heap, HeapRl

RULE = ("on every abstract heap of up to three properties (names by class: length on both sides of the inline limit, equal / different / common prefix / embedded NUL) and every class of "
        "queried text: lookup gives the property of exactly that text or none; reading gives its value or undefined, along the prototypes; setting replaces that value or adds one "
        "property with the name in the form that lookup compares, leaving the rest; deleting unlinks exactly it; iteration yields each name once; arrays name their items "
        "by decimal index in all operations, and length is the greatest index plus one")
EXPLANATION = ("Abstract interpretation of the property functions over a finite domain of heaps; bytes of texts are not looked at, comparisons are decided by the class of the two texts.")
ASSUMPTIONS = ["mjs_mk_string / mjs_get_string keep the text and choose the inline form by length (other property)", "conversion of keys that are no strings to text"]
CONFIGS_THOROUGH = ["default", "aggressive_gc", "nodebug", "m32"]

KEEP = {"mjs_get_string", "mjs_mk_string", "mjs_to_string", "new_property", "new_object", "str_to_ulong", "cstr_to_ulong", "mjs_check_arg", "mjs_nargs", "mjs_arg", "mjs_get_int", "mjs_mk_number",
        "mjs_prepend_errorf", "mjs_set_errorf", "mjs_return", "c_vsnprintf", "c_snprintf", "mjs_own", "mjs_disown"}
TEXTS = [b"", b"a", b"b", b"a\0b", b"a\0c", b"abcd", b"abcde", b"abcdf", b"abcdef", b"abcdeg", b"abcdefg", b"ab\0cde", b"ab\0cdf", b"p" * 40, b"p" * 39 + b"q", b"p" * 300, b"p" * 299 + b"q"]
ROOTS = ["mjs_get_own_property", "mjs_get_own_property_v", "mjs_get", "mjs_get_v", "mjs_get_v_proto", "mjs_set", "mjs_set_v", "mjs_set_internal", "mjs_del", "mjs_next",
         "mjs_array_get", "mjs_array_get2", "mjs_array_set", "mjs_array_del", "mjs_array_length", "mjs_array_push"]
MJS = ("h", "mjs")

def show(t): return '"%s"' % t.decode("latin1").replace("\0", "\\0") if len(t) < 20 else '"%s...%s" of %d bytes' % (t[:1].decode(), t[-1:].decode(), len(t))

def check(ctx, R):
    T = Tags(); mods = {n: ctx.rooted([n], KEEP, leaf=True) for n in ROOTS}
    fn = {n: mods[n].fns.get(n) for n in ROOTS}; m = mods[ROOTS[0]]
    for n in ROOTS:
        need(fn[n] is not None and fn[n].defined, "%s not found" % n); R.saw(fn[n])
    U = T.t["UNDEFINED"]; M1 = (1 << (8 * m.ptrsize)) - 1
    tot = [0]; bad = set(); und = set()
    def rep(f, key, msg, where=None):
        k = "%s:%s" % (f, key)
        if k in bad: return
        bad.add(k); R.bad("map:" + k, where or "%s:%s" % (fn[f].file, fn[f].line), msg)
    def go(f, h, args, what, this=None, cargs=(), limit=20000):
        tot[0] += 1
        rl = HeapRl(h, cargs, this)
        for kind, ev, val, st in run(mods[f], fn[f], rl, args, mem=h.mem, maxstates=limit):
            unk = next((e[1] for e in ev if e[0] == "unknown"), None)
            if unk is not None:
                if (f, unk) not in und: und.add((f, unk)); R.undecided("%s: %s" % (f, unk))
                continue
            nul = next((e[1] for e in ev if e[0] == "null"), None)
            if nul is not None: rep(f, "null", "%s follows a pointer that is NULL: %s" % (f, what), nul.where()); continue
            if kind == "abort": rep(f, "abort", "%s aborts: %s" % (f, what), val.where()); continue
            over = next((e[1] for e in ev if e[0] == "over"), None)
            if over is not None: rep(f, "over", "%s compares more bytes than one of the texts has: %s" % (f, what), over.where()); continue
            yield ev, val, st
    def names(h, texts): return [(h.string(t), T.t["STRING_I"] | 0xabc001 + 0x10000 * k) for k, t in enumerate(texts)]
    def snapshot(h, st, a):
        c = h.chain(st, a)
        return None if c is None else [(h.bytes_of(n), n, v) for p, n, v in c]
    # heaps: every pair of texts in every position, with a third one in front or behind
    heaps = [()] + [(a,) for a in TEXTS] + [(a, b) for a in TEXTS for b in TEXTS if a != b]
    heaps = [x for x in heaps if len(x) < 2 or (len(x[0]) > 9) == (len(x[1]) > 9)]
    full = heaps + [(TEXTS[5], a, b) for a in TEXTS[6:] for b in TEXTS[:4]]
    few = [()] + [(a,) for a in TEXTS] + [(a, b) for a, b in zip(TEXTS, TEXTS[1:])] + [(b, a) for a, b in zip(TEXTS, TEXTS[1:])] + [(TEXTS[1], a, b) for a, b in zip(TEXTS[2:], TEXTS[3:])]
    VAL = T.t["STRING_I"] | 0xdef003
    def desc(hp, q): return "query %s on an object with {%s}" % (show(q), ", ".join(show(t) for t in hp))
    # 1. lookup
    for hp in full:
        for q in TEXTS:
            h = Heap(m, T); o, a, ps = h.obj(names(h, hp)); w = desc(hp, q)
            qp = h.text(q, False)
            want = ps[hp.index(q)] if q in hp else 0
            for ev, val, st in go("mjs_get_own_property", h, [MJS, o, qp, len(q)], w):
                if not isinstance(val, int): R.undecided("mjs_get_own_property result")
                elif val != want: rep("mjs_get_own_property", "found", "mjs_get_own_property: %s: %s" % (w, "finds the property of another text" if val else "does not find it"))
    for hp in few:
        qs = [q for q in TEXTS if q in hp or q in TEXTS[::3] or any(q[:2] == x[:2] for x in hp)]
        for q in qs:
            w = desc(hp, q)
            idx = hp.index(q) if q in hp else None
            for form in (None, "O", "F"):
                if form == "O" and len(q) <= 5: continue
                h = Heap(m, T); o, a, ps = h.obj(names(h, hp)); key = h.string(q, form)
                want = ps[idx] if idx is not None else 0
                for ev, val, st in go("mjs_get_own_property_v", h, [MJS, o, key], w):
                    if isinstance(val, int) and val != want: rep("mjs_get_own_property_v", "found", "mjs_get_own_property_v: %s: wrong result" % w)
                for f, args in (("mjs_get_v", [MJS, o, key]), ("mjs_get_v_proto", [MJS, o, key])):
                    wv = names(h, hp)[idx][1] if idx is not None else U
                    for ev, val, st in go(f, h, args, w):
                        if isinstance(val, int) and val != wv: rep(f, "value", "%s: %s: gives %s" % (f, w, "undefined" if val == U else "the value of another property"))
                # setting
                for f, args in (("mjs_set_v", [MJS, o, key, VAL]),):
                    setcheck(h, f, args, w, a, hp, idx, q, VAL, go, rep, snapshot, names, T, R)
            for args_n in ("len", "strlen"):
                if args_n == "strlen" and b"\0" in q: continue
                h = Heap(m, T); o, a, ps = h.obj(names(h, hp)); n0 = names(h, hp)
                qp = h.text(q, args_n == "strlen"); ln = len(q) if args_n == "len" else M1
                wv = n0[idx][1] if idx is not None else U
                for ev, val, st in go("mjs_get", h, [MJS, o, qp, ln], w):
                    if isinstance(val, int) and val != wv: rep("mjs_get", "value", "mjs_get: %s: gives %s" % (w, "undefined" if val == U else "the value of another property"))
                if not q or args_n == "len":
                    pass
                for ev, val, st in go("mjs_del", h, [MJS, o, qp, ln], w):
                    c = snapshot(h, st, a)
                    before = [(t, n, v) for t, (n, v) in zip(hp, n0)]
                    want = [x for x in before if x[0] != q]
                    if c is None or any(x[0] is None for x in c): rep("mjs_del", "broken", "mjs_del: %s: the property list is broken afterwards" % w) if c is None else R.undecided("mjs_del")
                    elif [x[0] for x in c] != [x[0] for x in want] and sorted(x[0] for x in c) != sorted(x[0] for x in want): rep("mjs_del", "list", "mjs_del: %s: leaves {%s}" % (w, ", ".join(show(x[0]) for x in c)))
                    elif sorted(x[1:] for x in c) != sorted(x[1:] for x in want if True) and [x[2] for x in sorted(c)] != [x[2] for x in sorted(want)]: rep("mjs_del", "values", "mjs_del: %s: changes other properties" % w)
                    if isinstance(val, int) and (val == 0) != (idx is not None): rep("mjs_del", "result", "mjs_del: %s: reports %s" % (w, "success" if val == 0 else "failure"))
                setcheck(h, "mjs_set", [MJS, o, qp, ln, VAL], w, a, hp, idx, q, VAL, go, rep, snapshot, names, T, R)
        # iteration
        h = Heap(m, T); o, a, ps = h.obj(names(h, hp)); n0 = names(h, hp)
        it = ("h", "it"); FT = T.t["FOREIGN"]
        for k in range(-1, len(hp)):
            h.mem[(it, 0)] = U if k < 0 else FT | ps[k]
            for ev, val, st in go("mjs_next", h, [MJS, o, it], "iteration over {%s} after %d" % (", ".join(map(show, hp)), k + 1)):
                nx = st.mem.get((it, 0), (None,))[0]
                last = k + 1 >= len(hp)
                wn, wi = (U, U) if last else (n0[k + 1][0], FT | ps[k + 1])
                if not isinstance(val, int) or not isinstance(nx, int): R.undecided("mjs_next result"); continue
                if h.bytes_of(val) != h.bytes_of(wn) or (val == U) != (wn == U): rep("mjs_next", "name", "mjs_next gives the wrong name as number %d of {%s}" % (k + 2, ", ".join(map(show, hp))))
                elif (nx == U) != (wi == U) or (nx != U and nx & ((1 << 48) - 1) != wi & ((1 << 48) - 1)): rep("mjs_next", "it", "mjs_next leaves the iterator at the wrong property (number %d of %d)" % (k + 2, len(hp)))
    # non-objects
    for kind, v in T.kinds.items():
        if T.cls(kind) in ("object", "array"): continue
        h = Heap(m, T); v = T.with_id(kind, "x")
        for f, args, ok in (("mjs_get_own_property", [MJS, v, h.text(b"abcdef", False), 6], 0), ("mjs_get", [MJS, v, h.text(b"abcdef", False), 6], U), ("mjs_array_length", [MJS, v], 0), ("mjs_array_get", [MJS, v, 1], U)):
            for ev, val, st in go(f, h, args, "a value of kind %s" % kind):
                if isinstance(val, int) and val != ok: rep(f, "kind", "%s finds something in a value of kind %s" % (f, kind))
        for f, args in (("mjs_set", [MJS, v, h.text(b"abcdef", False), 6, VAL]), ("mjs_array_set", [MJS, v, 1, VAL]), ("mjs_del", [MJS, v, h.text(b"abcdef", False), 6])):
            for ev, val, st in go(f, h, args, "a value of kind %s" % kind):
                if isinstance(val, int) and val == 0: rep(f, "kind", "%s succeeds on a value of kind %s" % (f, kind))
    # prototypes
    PN = b"__p"
    for depth in range(0, 5):
        for where in list(range(depth + 1)) + [None]:
            for q in (b"x", b"abcdef", PN):
                if q == PN and where is not None: continue
                h = Heap(m, T); vals = []
                nxt = None; objs = []
                for d in range(depth, -1, -1):
                    pr = [(h.string(b"other"), VAL)]
                    if where is not None and d >= where: pr.insert(0, (h.string(q), T.t["STRING_I"] | (0xaa0001 + 0x10000 * d)))
                    if nxt is not None: pr.append((h.string(PN), nxt))
                    nxt, a, ps = h.obj(pr); objs.append(nxt)
                want = T.t["STRING_I"] | (0xaa0001 + 0x10000 * where) if where is not None else U
                if q == PN: want = objs[-2] if depth else U
                for ev, val, st in go("mjs_get_v_proto", h, [MJS, nxt, h.string(q)], "%s on a chain of %d prototypes, found in number %s" % (show(q), depth, where)):
                    if isinstance(val, int) and val != want: rep("mjs_get_v_proto", "chain", "mjs_get_v_proto: %s along %d prototypes: %s" % (show(q), depth, "undefined, although number %s has it" % where if val == U else "not the nearest one's value" if where is not None else "something, although none has it"))
    for clen in (1, 2, 3):                  # cycles
        for lead in (0, 1, 2):
            h = Heap(m, T); os_ = [h.obj([(h.string(b"other"), VAL), (h.string(PN), U)]) for k in range(clen + lead)]
            for k, (v, a, ps) in enumerate(os_):
                h.mem[(ps[1] + h.p_value, 0)] = os_[k + 1][0] if k + 1 < len(os_) else os_[lead][0]
            try:
                for ev, val, st in go("mjs_get_v_proto", h, [MJS, os_[0][0], h.string(b"x")], "a cycle of prototypes", limit=100000):
                    if isinstance(val, int) and val != U: rep("mjs_get_v_proto", "cycle", "mjs_get_v_proto finds something in a cycle of prototypes where no object has it")
            except AnalysisBroken: rep("mjs_get_v_proto", "endless", "mjs_get_v_proto does not end on %d objects whose prototypes make a cycle" % (lead + clen)); break
    # arrays
    A = lambda k: T.t["STRING_I"] | 0xcc0001 + 0x10000 * k
    lists = [[], ["0"], ["1", "0"], ["2", "0"], ["10", "9", "2"], ["x", "1", "0"], ["0", "length"], ["12", "a1", "3"], ["1", "0", "-1"], ["7", "1x", ""], ["123456", "4294967293"]]
    for L in lists:
        nums = [int(x) for x in L if x.isdigit()]
        for k in sorted({0, 1, 2, 3, 9, 10, 11, 123456, 4294967293} | set(nums)):
            h = Heap(m, T); pr = [(h.string(x.encode()), A(n)) for n, x in enumerate(L)]
            o, a, ps = h.obj(pr, "ARRAY"); has = str(k) in L; w = "index %d of an array with {%s}" % (k, ", ".join(L))
            wv = A(L.index(str(k))) if has else U
            for ev, val, st in go("mjs_array_get", h, [MJS, o, k], w):
                if isinstance(val, int) and val != wv: rep("mjs_array_get", "value", "mjs_array_get: %s: gives %s" % (w, "undefined" if val == U else "something else"))
            hasp = ("h", "has")
            for ev, val, st in go("mjs_array_get2", h, [MJS, o, k, hasp], w):
                hv = st.mem.get((hasp, 0), (None,))[0]
                if isinstance(val, int) and val != wv or isinstance(hv, int) and bool(hv & 0xffffffff) != has: rep("mjs_array_get2", "value", "mjs_array_get2: %s: wrong result" % w)
            for f, args in (("mjs_array_set", [MJS, o, k, VAL]),):
                for ev, val, st in go(f, h, args, w):
                    c = snapshot(h, st, a)
                    want = sorted([(x.encode(), A(n)) for n, x in enumerate(L) if x != str(k)] + [(str(k).encode(), VAL)])
                    if c is None: rep(f, "broken", "%s: %s: breaks the property list" % (f, w)); continue
                    if any(x[0] is None for x in c): R.undecided(f); continue
                    if sorted((x[0], x[2]) for x in c) != want: rep(f, "item", "%s: %s: leaves {%s}" % (f, w, ", ".join(show(x[0]) for x in c)))
                    elif isinstance(val, int) and val != 0: rep(f, "result", "%s: %s: reports an error" % (f, w))
            for ev, val, st in go("mjs_array_del", h, [MJS, o, k], w):
                c = snapshot(h, st, a)
                want = sorted((x.encode(), A(n)) for n, x in enumerate(L) if x != str(k))
                if c is None: rep("mjs_array_del", "broken", "mjs_array_del: %s: breaks the property list" % w); continue
                if any(x[0] is None for x in c): R.undecided("mjs_array_del"); continue
                if sorted((x[0], x[2]) for x in c) != want: rep("mjs_array_del", "item", "mjs_array_del: %s: leaves {%s}" % (w, ", ".join(show(x[0]) for x in c)))
        h = Heap(m, T); o, a, ps = h.obj([(h.string(x.encode()), A(n)) for n, x in enumerate(L)], "ARRAY")
        ln = max(nums) + 1 if nums else 0
        for ev, val, st in go("mjs_array_length", h, [MJS, o], "an array with {%s}" % ", ".join(L)):
            if isinstance(val, int) and val != ln: rep("mjs_array_length", "length", "mjs_array_length of an array with {%s} is %d" % (", ".join(L), val))
        for ev, val, st in go("mjs_array_push", h, [MJS, o, VAL], "an array with {%s}" % ", ".join(L)):
            c = snapshot(h, st, a)
            if c is None: rep("mjs_array_push", "broken", "mjs_array_push breaks the property list"); continue
            if any(x[0] is None for x in c): R.undecided("mjs_array_push"); continue
            if sorted((x[0], x[2]) for x in c) != sorted([(x.encode(), A(n)) for n, x in enumerate(L)] + [(str(ln).encode(), VAL)]): rep("mjs_array_push", "item", "mjs_array_push on an array with {%s} leaves {%s}" % (", ".join(L), ", ".join(show(x[0]) for x in c)))
    R.count("abstract runs", tot[0])
    if not bad: R.ok("%d abstract heaps and queries" % tot[0])

def setcheck(h, f, args, w, a, hp, idx, q, VAL, go, rep, snapshot, names, T, R):
    n0 = names(h, hp)
    for ev, val, st in go(f, h, args, w):
        c = snapshot(h, st, a)
        if c is None: rep(f, "broken", "%s: %s: the property list is broken afterwards" % (f, w)); continue
        if any(x[0] is None for x in c): R.undecided("%s: name of the new property" % f); continue
        if isinstance(val, int) and val != 0: rep(f, "result", "%s: %s: reports an error" % (f, w)); continue
        want = sorted([(t, v) for t, (n, v) in zip(hp, n0) if t != q] + [(q, VAL)])
        if sorted((t, v) for t, n, v in c) != want:
            rep(f, "list", "%s: %s: afterwards the object has {%s}" % (f, w, ", ".join(show(x[0]) + ("" if x[2] != VAL else "=new") for x in c))); continue
        for t, n, v in c:
            form = n >> 48 << 48
            if form == T.t["STRING_F"]: rep(f, "form", "%s: %s: the name is stored as a foreign string, whose text may change" % (f, w))
            elif len(t) <= 5 and form == T.t["STRING_O"] and t == q and idx is None: rep(f, "form", "%s: %s: the short name is stored in a form that lookup does not compare" % (f, w))
