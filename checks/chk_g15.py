"""Interpreter instances share no writable state."""
from ctx import need
from flow import strip_ptr

RULE = ("no function of the library (logging excepted) stores into a global or static object, passes the address of one to a function that "
        "writes through that parameter, or calls a C library function that changes process-wide state the engine depends on")
EXPLANATION = ("Every store, memory intrinsic and call of every compiled library function is visited; the written address is traced through "
               "pointer arithmetic, phis and selects to its root; callee parameters are summarised as written or not, recursively.")
ASSUMPTIONS = ["logging level and log file (src/common/cs_dbg.c) are documented process-wide settings",
               "the command line program (main) is not part of the library"]
CONFIGS_THOROUGH = ["default", "aggressive_gc", "nodebug", "m32"]

DST = {"memcpy": 0, "memmove": 0, "memset": 0, "strcpy": 0, "strncpy": 0, "strcat": 0, "strncat": 0, "sprintf": 0, "snprintf": 0,
       "vsnprintf": 0, "vsprintf": 0, "fread": 0, "read": 1, "fgets": 0, "strftime": 0, "gettimeofday": 0, "strtok_r": 2, "free": None}
STATEFUL = {"strtok", "setlocale", "srand", "srandom", "rand", "random", "drand48", "setenv", "putenv", "unsetenv", "chdir", "umask", "signal",
            "sigaction", "atexit", "asctime", "ctime", "localtime", "gmtime", "tmpnam", "setvbuf", "setbuf", "freopen", "uselocale", "fesetround",
            "feenableexcept", "clearenv"}

def roots(v, seen=None):
    """possible roots of an address"""
    seen = set() if seen is None else seen
    v = strip_ptr(v)
    if v in seen: return
    seen.add(v)
    if v.kind in ("inst", "cexpr") and v.op == "gep": yield from roots(v.ops[0], seen)
    elif v.kind == "inst" and v.op == "phi":
        for o in v.ops: yield from roots(o, seen)
    elif v.kind == "inst" and v.op == "select":
        for o in v.ops[1:]: yield from roots(o, seen)
    elif v.kind == "inst" and v.op == "load":
        # a pointer kept in a local variable
        p = strip_ptr(v.ops[0])
        if p.kind == "inst" and p.op == "alloca":
            for j in v.bb.fn.insts():
                if j.op == "store" and strip_ptr(j.ops[1]) is p: yield from roots(j.ops[0], seen)
        else: yield v
    else: yield v

class W:
    def __init__(self): self.c = {}
    def writes(self, fn, k):
        """fn may write through its pointer parameter k"""
        key = (fn.name, k)
        if key in self.c: return self.c[key]
        self.c[key] = False
        if not fn.defined:
            n = fn.name
            if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")): r = k == 0
            else: r = DST.get(n, -1) == k
            self.c[key] = r; return r
        if k >= len(fn.args): return False
        a = fn.args[k]; r = False
        for i in fn.insts():
            if i.op == "store" and any(x is a for x in roots(i.ops[1])): r = True
            elif i.op == "call" and i.callee.kind == "fn":
                for j, o in enumerate(i.ops):
                    if o.ty == ("ptr",) and any(x is a for x in roots(o)) and self.writes(i.callee, j): r = True
            if r: break
        self.c[key] = r
        return r

def src(f): return next((i.file for i in f.insts() if i.file), "") or ""

def check(ctx, R):
    m = ctx.raw(); w = W()
    # objects that no code could write are of no interest
    globs = [g for g in m.globals.values() if g.defined and not g.name.startswith((".str", "__func__", "__PRETTY"))]
    R.count("global and static objects", len(globs))
    need(globs, "no globals found")
    n = 0; hit = set()
    for f in m.fns.values():
        if not f.defined or f.name == "main" or src(f).endswith("cs_dbg.c"): continue
        R.saw(f)
        for i in f.insts():
            tgt = None
            if i.op == "store": tgt = i.ops[1]; n += 1
            elif i.op == "call" and i.callee.kind == "fn":
                if i.callee.name in STATEFUL and not i.callee.defined:
                    R.bad("%s:%s" % (f.name, i.callee.name), i.where(), "%s calls %s, which changes process-wide state" % (f.name, i.callee.name))
                for j, o in enumerate(i.ops):
                    if o.ty != ("ptr",): continue
                    n += 1
                    for x in roots(o):
                        if x.kind == "global" and w.writes(i.callee, j):
                            hit.add(x.name)
                            R.bad("%s:%s" % (f.name, x.name), i.where(), "%s lets %s write into the process-wide object %s" % (f.name, i.callee.name, x.name))
            if tgt is None: continue
            for x in roots(tgt):
                if x.kind == "global" and x.defined is not None and not x.const:
                    hit.add(x.name)
                    R.bad("%s:%s" % (f.name, x.name), i.where(), "%s writes the process-wide object %s: it is shared by all interpreter instances" % (f.name, x.name))
    R.count("stores and pointer arguments", n)
    need(n > 500, "too few stores found")
    for g in globs:
        if g.name not in hit: R.ok("%s is never written by the engine" % g.name)
