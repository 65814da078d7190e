"""Analysis context: one compiled configuration, normalised views of it, and the result collector."""
import gc, json, os, shutil, sys, time, hashlib
import build
from build import AnalysisBroken, REPO
import ir
from flow import CallGraph

HERE = os.path.dirname(os.path.abspath(__file__))
BASELINE = set(open(os.path.join(HERE, "boundary.txt")).read().split())

class Ctx:
    def __init__(self, config="default"):
        gc.disable()
        self.config = config
        self.path, self.tmp = build.compile_module(config)
        self._mods = {}
        self._first = None
        self._cg = {}

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def _mk(self, key, **kw):
        m = self._mods.get(key)
        if m is None:
            m = ir.Module(self.path, tmp=self.tmp, debug=self._first, **kw)
            if self._first is None: self._first = m
            self._mods[key] = m
        return m

    def api(self):
        """Every function that is not part of the internal/external interface is inlined into its callers."""
        return self._mk("api", keep_fn=lambda n, rec, addr, link: n in BASELINE or rec or addr)

    def raw(self):
        return self._mk("raw", keep_fn=lambda n, rec, addr, link: True)

    def rooted(self, roots, keep=(), leaf=False):
        """Whole call tree of the roots inlined, except recursive functions and `keep`.
        leaf: nothing is done inside the kept functions."""
        roots = tuple(roots); keep = tuple(sorted(keep))
        return self._mk(("rooted", roots, keep, leaf), roots=roots, leaf=leaf,
                        keep_fn=lambda n, rec, addr, link: rec or n in keep)

    def cg(self, m):
        c = self._cg.get(id(m))
        if c is None: c = self._cg[id(m)] = CallGraph(m)
        return c

class Result:
    def __init__(self, prop):
        self.prop = prop; self.violations = []; self.obl = []; self.und = []; self.fns = set(); self.notes = []
        self.counts = {}
    def ok(self, what): self.obl.append((what, True))
    def bad(self, key, where, msg, trail=()):
        """A violation. key is stable (no line numbers) and identifies the construct for known-findings."""
        if any(v["key"] == key for v in self.violations): return
        self.obl.append((key, False))
        self.violations.append({"key": key, "where": where, "message": msg, "path": list(trail)})
    def undecided(self, what): self.und.append(what)
    def saw(self, *fns):
        for f in fns: self.fns.add(f.name if hasattr(f, "name") else f)
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n

def need(cond, msg):
    if not cond: raise AnalysisBroken(msg)

_job = None
def _run(k):
    fn, items, prop = _job
    R = Result(prop)
    try: fn(items[k], R)
    except AnalysisBroken as e:
        if "state budget exceeded" not in str(e): return ("broken", str(e))
        R.undecided(str(e))
    return ("ok", R.violations, R.obl, R.und, R.fns, R.counts)

def pmap(R, items, fn):
    """fn(item, R) for every item, in parallel processes; the results are merged into R in the order of the items"""
    global _job
    import multiprocessing as mp
    items = list(items); _job = (fn, items, R.prop)
    with mp.get_context("fork").Pool(min(os.cpu_count() or 1, 8)) as p:
        res = p.map(_run, range(len(items)), chunksize=1)
    for r in res:
        if r[0] == "broken": raise AnalysisBroken(r[1])
        _, viol, obl, und, fns, counts = r
        bad = {v["key"] for v in viol}
        for what, good in obl:
            if good: R.ok(what)
        for v in viol: R.bad(v["key"], v["where"], v["message"], v["path"])
        R.und += und; R.fns |= fns
        for k, n in counts.items(): R.count(k, n)
