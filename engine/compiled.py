"""Runs the exploration of the parsing functions and sorts what it finds."""
from ctx import need, pmap, Result
from build import AnalysisBroken
from sym import Explorer, State
import emit
from emit import *

GROUP = {"operands": "layout", "unknown": "layout", "patch": "layout", "target": "layout",
         "join": "balance", "nested": "balance", "call": "balance", "scope": "balance", "end": "balance", "operator": "balance",
         "dropped": "errors"}

def explore(m, f, sem, expr, toks, prev_op, before, R, group):
    r = Emit(m, f, toks, prev_op); r.sem = sem
    ex = Explorer(m, f, r); ex.MAXSTATES = 400000
    st = State()
    for a in f.args: st.env[a] = ("v", a)
    st.env[f.args[0]] = r.P
    if f.name == "parse_literal": st.env[f.args[1]] = ex.padd(r.P, r.tokrange[0])
    if f.name in LEVELS:
        if prev_op is None: st.env[f.args[1]] = r.eof
        else: st.facts[("v", f.args[1])] = (None, None, frozenset({r.eof}))
    st.mem = {r.MJS: (r.M, ""), r.POS: (("pos", 0), ""), r.TOK: (("tok", 0), ""), r.PREV: (("prev",), "")}
    t = {"dot": r.dot, "++": toks["TOK_PLUS_PLUS"], "--": toks["TOK_MINUS_MINUS"]}.get(before)
    if t is not None:
        st.facts[("prev",)] = (t, t, frozenset())
        st.facts[("tok", 0)] = (r.name, r.name, frozenset())          # a name comes behind a dot (established at the call), ++ or -- (assumed)
    else: st.facts[("prev",)] = (None, None, frozenset({r.dot} | (r.post if f.name in PRIM or f.name == "parse_postfix" else set())))
    st.ts = r.init(ex)
    ex.run(st)
    for i, msg in r.notes: R.undecided("%s: %s" % (f.name, msg))
    for kind, i, msg, s in r.viol:
        if GROUP[kind] == group: R.bad("%s:%s" % (f.name, kind), i.where(), "%s: %s" % (f.name, msg), ex.trail(s))
    n = 0
    for s, i, val in r.outs:
        c = r.const(ex, s, val)
        if c is not None and c != 0 or c is None and ex.decide(s, "ne", val, 0, 32) is True: continue
        n += 1
        items = s.ts.items
        fails = [it for it in items if it[0] == "fail"]
        if fails:
            if group == "errors": R.bad("%s:dropped" % f.name, fails[0][3].where(), "%s may succeed although %s" % (f.name, fails[0][2] if " " in fails[0][2] else fails[0][2] + " failed"), ex.trail(s))
            continue
        if group == "errors": continue
        dot = f.name == "parse_literal" and ex.decide(s, "eq", ("prev",), r.dot, 32) is True
        left = 1 if f.name in LEVELS and prev_op is not None else 0
        v = verify(items, sem, expr, -left - (1 if dot else 0))
        if v is None: R.undecided("%s: what is emitted on one path" % f.name); continue
        out, end = v
        for kind, inst, msg in out:
            if GROUP[kind] == group: R.bad("%s:%s" % (f.name, kind), inst.where() if inst is not None else f.name, "%s: %s" % (f.name, msg), ex.trail(s))
        if out or end is None or group != "balance": continue
        tok = s.mem.get(r.TOK, (("?",), ""))[0]
        both = r.assign | r.post
        prefix = any(ex.decide(s, "eq", ("prev",), x, 32) is True for x in r.post)
        h = end[1] + left + (1 if dot else 0)
        S = both if f.name in PRIM else r.assign
        if prefix and (r.among(ex, s, tok, both) is not False or f.name == "parse_unary"): continue
        if end[0] is not None or end[2] or end[3] or end[4]:
            R.bad("%s:end" % f.name, i.where(), "%s: the code emitted ends with %s" % (f.name, "; ".join(x for x, y in (("code of a function", end[0]), ("%d scopes added" % end[2], end[2]), ("a loop that is not left", end[3]), ("arguments that were not used", end[4])) if y)), ex.trail(s)); continue
        good = h == 1
        if f.name in REFS | LEVELS:
            am = r.among(ex, s, tok, S)
            if h == 2 and (am or prefix): good = True
            if h == 1 and am is not False and not prefix and f.name in PRIM:
                last = [it for it in items if it[0] in ("op", "nt", "str", "int")]
                if last and last[-1][0] == "op" and isinstance(last[-1][1], int) and {x[1] for x in sem[last[-1][1]].succ} == {-1}: good = False
        if not good: R.bad("%s:end" % f.name, i.where(), "%s: the code emitted leaves %d values, callers count on one" % (f.name, h), ex.trail(s))
    R.count("paths", n); R.count("states", ex.visited_states)
    return n

def contexts(n):
    """what the token before the construct may be: None: none of the ones that matter"""
    if n == "parse_literal": return ["dot", "++", "--", None]
    if n in ("parse_call_dot_mem", "parse_postfix"): return ["++", "--", None]
    return [None]

def run(ctx, R, group):
    raw = ctx.raw(); m = ctx.api(); cg = ctx.cg(m)
    sem = emit.semantics(ctx, m, cg)
    expr = sem.pop("expr", None)
    toks = None
    for n, e in raw.enums.items():
        if "TOK_EOF" in e and "TOK_ASSIGN" in e: toks = dict(e)
    need(toks is not None, "the tokens")
    have = [n for n in PARSERS if n in raw.fns and raw.fns[n].defined]
    need("parse_statement_list" in have and len(have) > 5, "the parsing functions")
    pm = norec(ctx, have, KEEP | set(have))
    jobs = []
    for n in have:
        for b in contexts(n): jobs.append((n, None, b))
        if n in LEVELS: jobs.append((n, 1, None))
    def one(j, R):
        f = pm.fns[j[0]]; R.saw(f)
        try: k = explore(pm, f, sem, expr, toks, j[1], j[2], R, group)
        except AnalysisBroken as e: R.undecided("%s: %s" % (j[0], e)); return
        R.ok("%s%s%s: %d paths" % (j[0], "" if j[1] is None else " after an operator", "" if j[2] is None else " after " + j[2], k))
    pmap(R, jobs, one)
