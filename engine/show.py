"""Debug printer: show.py FUNCTION [rooted|api|raw] [keep,keep]"""
import sys
from ctx import Ctx
def fmt(i):
    s = "  %-18s= %s " % (repr(i), i.op) if i.ty != ("void",) else "  " + i.op + " "
    if i.op == "phi": s += ", ".join("[%r,%r]" % (v, b) for v, b in zip(i.ops, i.phi_bbs))
    elif i.op == "call": s += "%r(%s)" % (i.callee, ", ".join(map(repr, i.ops)))
    elif i.op == "br": s += ", ".join(map(repr, i.ops)) + " -> " + ", ".join(map(repr, i.bb.succs))
    elif i.op == "switch": s += "%r %s default %r" % (i.ops[0], i.cases, i.default)
    else: s += (i.pred or "") + " " + ", ".join(map(repr, i.ops))
    return s + "      ;%s" % i.where()
def show(f):
    print(f.name, f.args)
    for b in f.bbs:
        print(b, b.name, "preds", b.preds)
        for i in b.insts: print(fmt(i))
if __name__ == "__main__":
    c = Ctx()
    mode = sys.argv[2] if len(sys.argv) > 2 else "api"
    keep = sys.argv[3].split(",") if len(sys.argv) > 3 else []
    m = c.rooted([sys.argv[1]], keep) if mode == "rooted" else getattr(c, mode)()
    show(m.fns[sys.argv[1]])
    c.close()
