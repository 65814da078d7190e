"""Readers of source text and JSON text never look behind its end, and the reader of source text always makes progress."""
from ctx import need
from build import AnalysisBroken
from sym import State, Rule, Explorer, U
from tape import TapeEx, TapeRule, T, END, LEN, at, pos, old
from conc import H

RULE = ("the function that reads the next token of a script is explored on a text of unknown length: every character it reads (itself or through the C library) "
        "lies before or at the first NUL; it leaves the reader at or before the NUL and either advanced or standing on it; the functions that read JSON text read "
        "only characters before the end pointer, from every position they can be entered with; scripts read from a file and JSON text copied for parsing get their "
        "terminating NUL at the place behind the last character")
EXPLANATION = ("Tape domain: positions are exact relative to the farthest position known to be inside, characters are symbols constrained by the comparisons on the "
               "path, at loop back edges the tape is shifted; so texts of every length and content are covered.")
ASSUMPTIONS = ["scripts given to mjs_exec are NUL-terminated C strings", "strtod, strtoul and strchr as specified by the C standard"]
CONFIGS_THOROUGH = ["default", "nodebug", "m32"]
RD = H("reader")

class Base(TapeRule):
    def __init__(self, m, struct, keep=()):
        super().__init__(struct, ()); self.m = m; self.keepn = keep; self.rets = 0
    def init(self, ex): return 0
    def shifted(self, ex, st, r):
        if r > 0 and st.ts != "dead": st.ts = 1
    def advanced(self, st): st.ts = 1 if st.ts != "dead" else "dead"

class Lex(Base):
    def ret(self, ex, st, i, val):
        if st.ts == "dead": return
        self.rets += 1
        e = st.mem.get((RD, self.posoff))
        k = pos(e[0]) if e else None
        if k is None:
            self.unk.append((i, "the position after the token is unknown"))
            return
        if not ex.passed(st, k): self.bad.append((i, "may leave the reader behind the end of the text", st)); return
        if k + st.ts < 1 and ex.decide(st, "eq", ("ch", k), 0, 32) is not True: self.bad.append((i, "may return without having advanced although the text is not finished", st))

class Json(Base):
    mode = "end"
    def ret(self, ex, st, i, val): self.rets += 1
    def other(self, ex, st, i, n, args):
        if n in self.keepn:
            b = ex.loc(args[0])[0]
            e = st.mem.get((b, self.endoff)); p = st.mem.get((b, self.posoff))
            if e is None or e[0] != END or p is None or pos(p[0]) is None and not old(p[0]): self.unk.append((i, "calls %s with an unknown reader" % n)); return [(st, None)]
            k = pos(p[0])
            if k is not None: ex.shift(st, min(k, max([j for j in range(k + 1) if ex.passed(st, j)] or [0])))
            else: pass
            ex.forget_text(st); st.mem[(b, self.posoff)] = (T, ""); self.advanced(st)
            return [(st, None)]
        return TapeRule.other(self, ex, st, i, n, args)

def field(m, s, n):
    for off, name, *_ in m.struct_fields(s) or []:
        if name == n: return off
    return None

def explore(R, m, f, rl, mem, what, maxstates=200000):
    ex = TapeEx(m, f, rl); ex.MAXSTATES = maxstates
    st = State(); st.env[f.args[0]] = RD
    if mem is None: st.env[f.args[0]] = T; st.env[f.args[1]] = LEN; mem = {}
    for k, v in mem.items(): st.mem[k] = (v, "")
    st.ts = 0
    try: ex.run(st)
    except AnalysisBroken as e: R.undecided("%s: %s" % (f.name, e))
    R.saw(f); R.count("states", ex.visited_states); R.count("paths ended", rl.rets); R.count("reads of the text checked", rl.reads)
    for i, msg in rl.unk: R.undecided("%s: %s" % (i.where(), msg))
    seen = set()
    for i, msg, s in rl.bad:
        if isinstance(msg, int): msg = "may read a character behind the end of the text"
        key = "%s:%s" % (i.where().split(" ")[0] if False else what, msg)
        if (i, msg) in seen: continue
        seen.add((i, msg))
        R.bad(key, i.where(), "%s: %s" % (what, msg), ex.trail(s))
    if not rl.bad and not rl.unk and ex.visited_states: R.ok("%s: %d reads at %d places" % (what, rl.reads, len(rl.sites)))
    return ex

class Sent(Rule):
    """a block for X characters and a NUL, NUL stored at X"""
    opterms = True
    def __init__(self, sink): self.sink = sink; self.bad = []; self.unk = []; self.good = 0; self.size = {}
    def init(self, ex): return frozenset()
    def track_loc(self, lc): return True
    def clobbers(self, ex, i, cls): return False
    def call(self, ex, st, i, a):
        n = i.callee.name if i.callee.kind == "fn" else None
        if n in ("malloc", "calloc", "realloc"):
            t = ("blk", i); sz = a[1] if n == "realloc" else a[0]
            if n == "calloc": sz = a[0] if a[1] == 1 else a[1] if a[0] == 1 else U
            self.size[t] = sz
            if n == "calloc" and isinstance(sz, tuple) and sz[0] == "+": st.ts = st.ts | {(t, sz[1])}
            s2 = st.copy(); st.facts[t] = (None, None, frozenset([0]))
            return [(st, t), (s2, 0)]
        if n == self.sink: self.check(ex, st, i, a[0], a[1], "hands over")
        if n in ("memcpy", "memmove", "fread", "fseek", "ftell", "fopen", "fclose", "memset"): return [(st, None)]
        return None
    def store(self, ex, st, i, addr, cls, val):
        if val == 0 and isinstance(addr, tuple):
            if addr[:3] == ("op", "gep", 1): st.ts = st.ts | {(addr[3], addr[4])}
    def check(self, ex, st, i, blk, n, verb):
        if blk == 0: return
        if not (isinstance(blk, tuple) and blk[0] == "blk"): self.unk.append((i, "%s a text that was not allocated here" % verb)); return
        sz = self.size.get(blk)
        if n is None:
            if isinstance(sz, tuple) and sz[0] == "+" and sz[2] == 1: n = sz[1]
            elif (blk, sz) in st.ts: self.bad.append((i, "the NUL is stored behind the allocated block", st)); return
            elif not any(b == blk for b, k in st.ts): self.bad.append((i, "the text is handed over without a terminating NUL", st)); return
            else: self.unk.append((i, "the size of the text is not recognised")); return
        if sz == n: self.bad.append((i, "the text is handed over without room for a terminating NUL", st)); return
        if not (isinstance(sz, tuple) and sz[0] == "+" and sz[1] == n): self.unk.append((i, "the size of the text is not recognised")); return
        if (blk, n) in st.ts: self.good += 1
        elif any(b == blk and k != n for b, k in st.ts): self.bad.append((i, "the NUL is not stored behind the last character of the text", st))
        else: self.bad.append((i, "the text is handed over without a terminating NUL", st))
    def ret(self, ex, st, i, val):
        if self.sink is None and val is not None and val != 0: self.check(ex, st, i, val, None, "returns")

def sentinel(ctx, R, fn, sink, what):
    m = ctx.rooted([fn], keep=[sink] if sink else [])
    f = m.fns.get(fn)
    if f is None or not f.defined: R.undecided("%s not found" % fn); return
    rl = Sent(sink); ex = Explorer(m, f, rl)
    try: ex.run()
    except AnalysisBroken as e: R.undecided("%s: %s" % (fn, e)); return
    R.saw(f); R.count("texts with a terminator checked", rl.good)
    for i, msg in rl.unk: R.undecided("%s: %s" % (i.where(), msg))
    seen = set()
    for i, msg, s in rl.bad:
        if (i, msg) in seen: continue
        seen.add((i, msg)); R.bad("%s:%s" % (what, msg), i.where(), "%s: %s" % (what, msg), ex.trail(s))
    if not rl.unk and not rl.bad:
        if rl.good: R.ok("%s: NUL behind the last character on %d paths" % (what, rl.good))
        else: R.undecided("%s: no text is handed over" % what)

def recursive(m, cg, root):
    """functions reachable from root that can reach themselves"""
    reach = {}
    def cone(f):
        if f in reach: return reach[f]
        s = set(); w = [f]
        while w:
            x = w.pop()
            for i in x.insts():
                if i.op == "call" and i.callee.kind == "fn" and i.callee.defined and i.callee not in s: s.add(i.callee); w.append(i.callee)
        reach[f] = s; return s
    return [g for g in sorted(cone(root), key=lambda g: g.name) if g in cone(g)]

def check(ctx, R):
    raw = ctx.raw()
    # the lexer
    logs = sorted(g.name for g in raw.fns.values() if g.defined and g.name.startswith("cs_log"))
    m = ctx.rooted(["pnext"], keep=logs)
    f = m.fns.get("pnext"); need(f is not None and f.defined, "pnext not found")
    po = field(m, "struct.pstate", "pos")
    if po is None: R.undecided("struct pstate has no field pos")
    else:
        rl = Lex(m, "struct.pstate"); rl.posoff = po
        explore(R, m, f, rl, {(RD, po): T}, "next token")
    # the JSON reader
    root = raw.fns.get("json_walk"); need(root is not None and root.defined, "json_walk not found")
    rec = recursive(raw, None, root)
    names = sorted(g.name for g in rec); R.count("recursive JSON functions", len(names))
    for g in names + ["json_walk"]:
        m = ctx.rooted([g], keep=names + logs)
        f = m.fns.get(g)
        co, eo = field(m, "struct.frozen", "cur"), field(m, "struct.frozen", "end")
        if f is None or co is None or eo is None: R.undecided("struct frozen not recognised"); break
        rl = Json(m, "struct.frozen", set(names)); rl.posoff = co; rl.endoff = eo
        explore(R, m, f, rl, {(RD, co): T, (RD, eo): END} if g != "json_walk" else None, "JSON text (%s)" % g)
    for g in ("json_unescape",):
        m = ctx.rooted([g], keep=logs); f = m.fns.get(g)
        if f is None or not f.defined or len(f.args) < 2: R.undecided("%s not found" % g); continue
        rl = Json(m, "", set()); rl.posoff = rl.endoff = -1
        explore(R, m, f, rl, None, "JSON string (%s)" % g)
    sentinel(ctx, R, "cs_read_file", None, "script file")
    sentinel(ctx, R, "mjs_json_parse", "json_walk", "JSON text")
