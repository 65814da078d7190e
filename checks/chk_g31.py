"""Formats are program text and match what is passed."""
import re
from ctx import need
from flow import strip_ptr, acc_class

RULE = ("every call of a formatting function (variadic or va_list, of the C library, the logger, the JSON printer or mjs itself): the format comes only from "
        "string literals (through conditionals, parameters and wrappers), never from memory or from the result of a call; each literal has exactly as many directives as there are "
        "arguments, and each argument has the machine type the directive reads; only directives known to the function")
EXPLANATION = ("Origins of the format operand are followed through phis, selects and, for parameters, to all callers; literals are parsed and compared with the types of "
               "the variable arguments in the typed IR (so on every configuration with its own integer widths).")
ASSUMPTIONS = ["pointed-to types of %s and %p arguments are not compared"]
CONFIGS_THOROUGH = ["default", "aggressive_gc", "nodebug", "m32"]

EXT = {"printf": 0, "fprintf": 1, "snprintf": 2, "sprintf": 1, "dprintf": 1, "asprintf": 1, "__isoc99_sscanf": 1, "sscanf": 1, "vprintf": 0, "vfprintf": 1, "vsnprintf": 2, "vsprintf": 1, "vasprintf": 1,
       "syslog": 1, "__printf_chk": 1, "__fprintf_chk": 2, "__snprintf_chk": 4}
DIR = re.compile(r"%([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|q|j|z|t|L)?(.)", re.S)
JDIR = re.compile(r"%(lld|llu|zu|M|B|H|V|Q|\.\*Q|[-+ #0'*.\dhlzjt]*[sdfFeEgGuicx])")

def directives(fmt, json, scan, psz):
    """list of expected types ('i32', 'i64', 'ptr', 'double', None = any) or None when a directive is not understood"""
    out = []; k = 0
    while True:
        k = fmt.find("%", k)
        if k < 0: return out
        if json and not scan:
            j = JDIR.match(fmt, k)
            if not j: return None
            d = j.group(1)
            sp = {"lld": [64], "llu": [64], "zu": [psz], "M": ["any"], "B": [32], "H": [32, "ptr"], "V": ["ptr", 32], "Q": ["ptr"], ".*Q": [32, "ptr"]}.get(d)
            if sp is not None: out += sp; k += len(d) + 1; continue
        mt = DIR.match(fmt, k)
        if not mt: return None
        fl, w, pr, ln, c = mt.groups(); k = mt.end()
        if c == "%": continue
        if scan:
            if w == "*": continue
            if c == "[":
                k = fmt.find("]", k) + 1
                if k == 0: return None
            out.append("ptr"); continue
        if w == "*": out.append(32)
        if pr == "*": out.append(32)
        size = {None: 32, "hh": 32, "h": 32, "l": psz, "ll": 64, "q": 64, "j": 64, "z": psz, "t": psz}.get(ln)
        if c in "dioxXuc": out.append(size if c != "c" else 32)
        elif c in "eEfFgGaA": out.append("double" if ln != "L" else "any")
        elif c in "sp": out.append("ptr")
        elif c == "m": pass
        else: return None

def tyname(m, t): return {"ptr": "ptr", "double": "double"}.get(t[0], t[1] if t[0] == "int" else t[0])


def literal(m, v):
    v = strip_ptr(v)
    if v.kind == "cexpr" and v.op == "gep": v = strip_ptr(v.ops[0])
    if v.kind != "global" or not v.const: return None
    d = m.global_data(v) if v.init_ptr else None
    return bytes(d).split(b"\0")[0].decode("latin1") if isinstance(d, (bytes, bytearray)) else None

def table(m, v):
    """all texts of a constant table of strings (the address loaded from)"""
    v = strip_ptr(v)
    while v.kind in ("inst", "cexpr") and v.op == "gep": v = strip_ptr(v.ops[0])
    if v.kind != "global" or not v.const: return None
    d = m.global_data(v) if v.init_ptr else None
    out = []; work = [d]
    while work:
        x = work.pop()
        if isinstance(x, (list, tuple)): work += list(x)
        elif isinstance(x, (bytes, bytearray)): out.append(bytes(x).split(b"\0")[0].decode("latin1"))
        elif hasattr(x, "kind"):
            t = literal(m, x)
            if t is not None: out.append(t)
            elif x.kind != "null": return None
    return out or None

def sources(m, v, seen=None):
    """origins of a pointer: ('lit', text) / ('param', arg) / ('null',) / ('alloca', v) / ('other', v)"""
    seen = set() if seen is None else seen
    v = strip_ptr(v)
    if v in seen: return []
    seen.add(v)
    t = literal(m, v)
    if t is not None: return [("lit", t)]
    if v.kind == "null" or v.kind == "undef": return [("null",)]
    if v.kind == "arg": return [("param", v)]
    if v.kind == "inst" and v.op == "phi": return [x for o in v.ops for x in sources(m, o, seen)]
    if v.kind == "inst" and v.op == "select": return [x for o in v.ops[1:] for x in sources(m, o, seen)]
    if v.kind in ("inst", "cexpr") and v.op == "gep":
        r = sources(m, v.ops[0], seen)
        return [("other", v) if x[0] == "lit" else x for x in r]
    if v.kind == "inst" and v.op == "alloca": return [("alloca", v)]
    if v.kind == "inst" and v.op == "load":
        t = table(m, v.ops[0])
        if t is not None: return [("lit", x) for x in t]
        c = acc_class(m, v)
        if c and not c.startswith("mjs."):
            if not hasattr(m, "_stores"):
                m._stores = {}
                for f in m.fns.values():
                    if f.defined:
                        for i in f.insts():
                            if i.op == "store" and i.ops[0].ty[0] == "ptr": m._stores.setdefault(acc_class(m, i), []).append(i)
            out = [x for i in m._stores.get(c, ()) for x in sources(m, i.ops[0], seen)]
            if out: return out
    if v.kind == "inst" and v.op == "call" and v.callee.kind == "fn" and v.callee.defined:
        out = []
        for r in v.callee.rets():
            for x in sources(m, r.ops[0], seen):
                if x[0] == "param": out += sources(m, v.ops[v.callee.args.index(x[1])], seen)
                else: out.append(x)
        if out: return out
    return [("other", v)]

COPY = {"strncpy", "strcpy", "memcpy", "memmove", "snprintf", "strcat", "strncat"}
def copied(f, al):
    """parameters of f that are copied into its local buffer al, or None if anything else is"""
    out = []
    for i in f.insts():
        if i.op == "call" and i.callee.kind == "fn" and (i.callee.name in COPY or i.callee.name.startswith(("llvm.memcpy", "llvm.memmove"))):
            d = strip_ptr(i.ops[0])
            while d.kind == "inst" and d.op == "gep": d = strip_ptr(d.ops[0])
            if d is al:
                s = strip_ptr(i.ops[1])
                out.append(s)
    return out

def check(ctx, R):
    m = ctx.raw()
    psz = m.ptrsize * 8
    fmts = {}            # (function, index) -> variadic?
    for f in m.fns.values():
        if f.name in EXT: fmts[(f, EXT[f.name])] = f.vararg
        elif f.vararg and f.defined and m.sig(f.name):
            s = m.sig(f.name)
            if len(s) >= 3 and s[-2] == "char*": fmts[(f, len(f.args) - 1)] = True
    need(len(fmts) >= 5, "formatting functions not found")
    isjson = {}
    def json_like(f, d=0):
        if f.name.startswith("json_"): return True
        return False
    done = set(); work = list(fmts)
    callers = {}
    for g in m.fns.values():
        if g.defined:
            for i in g.insts():
                if i.op == "call" and i.callee is not None and i.callee.kind == "fn": callers.setdefault(i.callee, []).append(i)
    cg = ctx.cg(m); used = set()
    for g in m.fns.values():
        if g.defined and (g.file or "").startswith("src/mjs_"): used |= {g} | set(cg.reach(g))
    need(len(used) >= 100, "functions of mjs not found")
    while work:
        f, k = work.pop()
        if (f, k) in done: continue
        done.add((f, k)); var = fmts[(f, k)]
        js = json_like(f); scan = "scanf" in f.name
        for i in callers.get(f, []):
            if k >= len(i.ops): continue
            g = i.fn; R.saw(g); R.count("format operands")
            for src in sources(m, i.ops[k]):
                if src[0] == "lit":
                    if not var: continue
                    nfix = len(f.args) if f.defined else k + 1
                    args = i.ops[nfix:]
                    want = directives(src[1], js, scan, psz)
                    R.count("literal formats")
                    if want is None: R.bad("directive:%s:%s" % (g.name, src[1][:40]), i.where(), "%s passes %s a format it does not understand: %r" % (g.name, f.name, src[1])); continue
                    got = [tyname(m, o.ty) for o in args]
                    if len(got) < len(want):
                        R.bad("count:%s:%s" % (g.name, src[1][:40]), i.where(), "%s passes %d values to the format %r, which takes %d" % (g.name, len(got), src[1], len(want))); continue
                    for n, (w, t) in enumerate(zip(want, got)):
                        if w != "any" and w != t:
                            R.bad("type:%s:%s" % (g.name, src[1][:40]), i.where(), "%s passes a value of type %s as value %d of the format %r, which reads %s" % (g.name, t, n + 1, src[1], w)); break
                    if js and not scan:
                        for q in re.finditer("%([sdfFeEgGlhuIcx.*0-9-]*)", src[1]):
                            if len(q.group(1)) + 1 >= 20: R.bad("long:%s:%s" % (g.name, src[1][:40]), i.where(), "%s: directive %r is longer than the JSON printer's buffer for it" % (g.name, q.group(0)))
                elif src[0] == "param":
                    a = src[1]
                    h = next((x for x in m.fns.values() if x.defined and a in x.args), None)
                    if h is None: R.undecided("format of %s" % g.name); continue
                    kk = h.args.index(a)
                    if (h, kk) not in fmts: fmts[(h, kk)] = False; work.append((h, kk))
                elif src[0] == "null": continue
                elif src[0] == "alloca":
                    h = src[1].fn; cp = copied(h, src[1])
                    ps = [p for c in cp for p in sources(m, c)]
                    for p in ps:
                        if p[0] == "param":
                            kk = h.args.index(p[1])
                            if (h, kk) not in fmts: fmts[(h, kk)] = False; work.append((h, kk))
                    if not ps: R.undecided("format built in %s" % g.name)
                else:
                    v = src[1]
                    if v.kind == "inst" and v.op == "load" and any("va_list" in t for t in m.sig(g.name)[1:]): R.count("formats taken from a va_list"); continue
                    if g not in used: R.count("formats in functions mjs does not use"); continue
                    what = "the result of %s" % v.callee.name if v.kind == "inst" and v.op == "call" and v.callee.kind == "fn" else "text loaded from memory" if v.kind == "inst" and v.op == "load" else "part of a string"
                    if what == "part of a string": R.undecided("format of %s: %s" % (g.name, v)); continue
                    R.bad("origin:%s:%s" % (g.name, f.name), i.where(), "%s passes %s as the format of %s" % (g.name, what, f.name))
    need(R.counts.get("literal formats", 0) >= 50, "literal formats not found")
    R.ok("%d formats" % R.counts["literal formats"])
