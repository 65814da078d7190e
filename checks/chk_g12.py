"""An imported C function is entered with the declared parameter types and its result is read as the declared type."""
import itertools
from ctx import need
from build import AnalysisBroken
from conc import Conc, H, run

RULE = ("the FFI trampoline is evaluated for every count of arguments (0-7), every kind of each argument and every kind of result: on each there is "
        "either no call and a negative result, or exactly one call of the given function whose k-th parameter has the machine type of the k-th "
        "argument and gets that argument's own union member, whose result type is that of the declared result, stored in the matching member; "
        "all-word calls up to 6 arguments and calls with up to 2 floating ones are not refused; no combination reaches abort")
EXPLANATION = ("Exhaustive abstract evaluation of ffi_call over its finite input domain (argument count, argument kinds, result kind); argument values "
               "stay symbolic. Every member a call site passes, its type and the type of the called signature are compared with the declared kinds.")
ASSUMPTIONS = ["arguments beyond the declared count are ignored by the C calling convention"]
CONFIGS_THOROUGH = ["default", "nodebug", "m32"]

class Rl(Conc):
    def __init__(self, vo, step): super().__init__(); self.vo = vo; self.step_ = step
    def load(self, ex, st, i, addr, cls, res):
        b, off = ex.loc(addr)
        if b == H("args") and off % self.step_ != self.co: return ("val", off, str(i.ty))
    def store(self, ex, st, i, addr, cls, val):
        b, off = ex.loc(addr)
        if b == H("res") and off == self.vo: self.event(st, "res", str(i.ops[0].ty), val)
        elif b in (H("res"), H("args")): self.event(st, "overwrites", b, off)
    def indirect(self, ex, st, i, args):
        f = ex.t(st, i.callee)
        self.event(st, "call", f, tuple(str(o.ty) for o in i.ops), tuple(args), str(i.ty), i)
        return [(st, ("rv", str(i.ty)))]
    def cast(self, ex, st, i, t): return ("cast", i.op, str(i.ty), t)

def enums(m):
    e = {}
    for n in ("WORD", "BOOL", "FLOAT", "DOUBLE"):
        try: e[n] = m.enumval["FFI_CTYPE_" + n]
        except KeyError: e[n] = None
    return e

def check(ctx, R):
    m = ctx.rooted(["ffi_call"]); f = m.fns.get("ffi_call")
    need(f is not None and f.defined and len(f.args) == 4, "ffi_call not found")
    fl = {x[1]: x[0] for x in m.struct_fields("struct.ffi_arg")}
    need("ctype" in fl and "v" in fl, "struct ffi_arg not understood")
    e = enums(m)
    need(all(v is not None for v in e.values()), "FFI_CTYPE_* not found")
    size = next((m.sizeof(i.gep_ty) for i in f.insts() if i.op == "gep" and i.gep_ty[0] == "struct" and i.gep_ty[1] == "struct.ffi_arg"), 16)
    R.saw(f)
    word = ("int", m.ptrsize * 8)
    want = {"WORD": str(word), "FLOAT": "('float',)", "DOUBLE": "('double',)"}
    def strip(v, ty):
        """the union member read: offset, type of the load or None"""
        if isinstance(v, tuple) and v[0] == "bc": v = v[1]
        return v if isinstance(v, tuple) and v[0] == "val" else None
    n = 0; calls = 0; bad = set()
    for cnt in range(0, 8):
        combos = itertools.product(("WORD", "FLOAT", "DOUBLE"), repeat=cnt) if cnt < 6 else \
            [tuple("WORD" if k not in pos else kd for k in range(cnt)) for kd in ("FLOAT", "DOUBLE") for r in range(0, 3) for pos in itertools.combinations(range(cnt), r)]
        for kinds in combos:
            for rk in ("WORD", "BOOL", "FLOAT", "DOUBLE"):
                n += 1
                rl = Rl(fl["v"], size); rl.co = fl["ctype"]
                mem = {(H("args"), k * size + fl["ctype"]): e[x] for k, x in enumerate(kinds)}
                mem[(H("res"), fl["ctype"])] = e[rk]
                try: outs = run(m, f, rl, [H("func"), cnt, H("res"), H("args")], mem)
                except AnalysisBroken as x: R.undecided("%s -> %s: %s" % (kinds, rk, x)); continue
                d = "%s(%s)" % (rk.lower(), ", ".join(kinds).lower())
                def bad_(key, where, msg):
                    if (key, where) in bad: return
                    bad.add((key, where)); R.bad("%s:%s" % (key, d), where, "%s, for a call declared %s" % (msg, d))
                fp = sum(1 for x in kinds if x != "WORD")
                must = cnt <= 6 and (fp == 0 or cnt <= 2) and len({k for k in kinds + (rk,) if k in ("FLOAT", "DOUBLE")}) < 2
                for kind, ev, val, st in outs:
                    if kind == "abort": bad_("abort", val.where(), "the host program is aborted"); continue
                    cs = [x for x in ev if x[0] == "call"]
                    neg = isinstance(val, int) and val & 0x80000000
                    if not cs:
                        if val == 0: bad_("silent", f.name, "reports success without calling the function")
                        elif neg and must: bad_("refused", f.name, "refuses a supported combination of types")
                        continue
                    calls += 1
                    c = cs[0]; i = c[5]; w = i.where()
                    if len(cs) > 1: bad_("twice", w, "calls the function more than once")
                    if neg: bad_("failed", w, "reports failure after calling the function")
                    if c[1] != H("func"): bad_("target", w, "calls something other than the given function")
                    if len(c[2]) < cnt: bad_("count", w, "passes only %d of %d arguments" % (len(c[2]), cnt)); continue
                    for k, x in enumerate(kinds):
                        if c[2][k] != want[x]: bad_("param%d" % k, w, "argument %d is passed as %s" % (k + 1, c[2][k])); continue
                        v = strip(c[3][k], c[2][k])
                        if v is None:
                            if isinstance(c[3][k], tuple) and c[3][k][0] == "cast": bad_("conv%d" % k, w, "argument %d is converted on the way" % (k + 1))
                            elif isinstance(c[3][k], int): bad_("conv%d" % k, w, "argument %d is passed as a constant" % (k + 1))
                            continue
                        if v[1] != k * size + fl["v"]: bad_("pos%d" % k, w, "argument %d gets the value of another one" % (k + 1))
                        elif x != "WORD" and v[2] != want[x] and not (x == "DOUBLE" and v[2] == "('int', 64)" and c[3][k][0] == "bc"):
                            bad_("member%d" % k, w, "argument %d is read as %s" % (k + 1, v[2]))
                    rt = c[4]
                    if rk == "BOOL": okr = rt in ("('int', 1)", "('int', 8)")
                    else: okr = rt == want.get(rk)
                    if not okr: bad_("result", w, "the function is called as returning %s" % rt)
                    rs = [x for x in ev if x[0] == "res"]
                    if not rs: bad_("nores", w, "the result is not stored"); continue
                    r = rs[-1]; v = r[2]
                    while isinstance(v, tuple) and v[0] == "cast" and isinstance(v[3], tuple) and v[3][0] == "cast" and (v[1], v[3][1]) == ("fptrunc", "fpext"): v = v[3][3]
                    if isinstance(v, int): bad_("constres", w, "the result is replaced by a constant")
                    elif isinstance(v, tuple) and v[0] == "cast": bad_("castres", w, "the result is converted (%s)" % v[1])
                    elif rk in ("FLOAT", "DOUBLE") and r[1] != want[rk] and v[0] != "bc": bad_("resmember", w, "the result is stored as %s" % r[1])
                    elif rk in ("WORD", "BOOL") and not r[1].startswith("('int'"): bad_("resmember", w, "the result is stored as %s" % r[1])
                    if any(x[0] == "overwrites" for x in ev): bad_("overwrites", w, "argument descriptions are overwritten")
    need(calls > 100, "no calls of the imported function recognised")
    R.count("argument and result kind combinations", n); R.count("calls checked", calls)
    if not bad: R.ok("every supported combination is called with its declared types")
