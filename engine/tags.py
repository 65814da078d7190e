"""Partition of the 64-bit value space into kinds, from the current headers' tag macros, and evaluation of value
classifiers over that partition (abstract interpretation of their bodies, one run per kind)."""
import build
from build import AnalysisBroken
from sym import Rule, Explorer, State

class Tags:
    def __init__(self):
        p = build.probe()
        if len(p) < 16: raise AnalysisBroken("tag macros not found in mjs_core.h")
        self.t = {k[8:]: v for k, v in p.items()}   # OBJECT -> 0xfff1...
        t = self.t
        self.kinds = {"number": ("tv", "num", "v"), "NaN": t["NAN"], "undefined": t["UNDEFINED"], "null": t["NULL"]}
        for k in ("OBJECT", "ARRAY", "FUNCTION", "FUNCTION_FFI", "FOREIGN", "BOOLEAN", "STRING_I", "STRING_5", "STRING_O",
                  "STRING_F"):
            self.kinds[k.lower()] = ("tv", t[k] >> 48, "v")
    def cls(self, kind):
        """script-visible class of the kind"""
        if kind in ("number", "NaN"): return "number"
        if kind.startswith("string"): return "string"
        return kind
    def with_id(self, kind, ident):
        v = self.kinds[kind]
        return ("tv", v[1], ident) if isinstance(v, tuple) else v

class Eval(Rule):
    def __init__(self, noreturn=("abort", "__assert_fail", "exit")):
        self.rets = []; self.aborts = []; self.calls = []; self.nr = noreturn
    def init(self, ex): return 0
    def call(self, ex, st, i, args):
        n = i.callee.name if i.callee.kind == "fn" else None
        if n in self.nr: self.aborts.append(i); return []
        self.calls.append((i, tuple(args)))
        return None
    def ret(self, ex, st, i, val): self.rets.append(val)

def evaluate(m, fn, args, rule=None):
    r = rule or Eval()
    ex = Explorer(m, fn, r)
    st = State()
    for a, v in zip(fn.args, args):
        if v is not None: st.env[a] = v
    st.ts = r.init(ex)
    ex.run(st)
    return r
