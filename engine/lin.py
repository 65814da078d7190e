"""Affine forms of integer/pointer SSA values: {atom: Fraction} (atom 1 = constant). Loads from the same struct field
path of the same root are one atom."""
from fractions import Fraction as F
from flow import strip_ptr, apath, acc_path, gep_offset

def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + c * k
        if r[x] == 0: del r[x]
    return r
def scale(a, k): return {x: c * k for x, c in a.items()} if k else {}

def atom_of_load(m, v):
    root, path = acc_path(m, v)
    rk = root.name if root.kind in ("arg", "global") else repr(root) + str(id(root))
    return ("ld", rk) + path

def lin(m, v, env=None, depth=0):
    """env: {inst: form} substitutions"""
    if env and v in env: return env[v]
    if v.kind == "const": return {1: F(v.signed())} if v.signed() else {}
    if v.kind == "null": return {}
    if v.kind == "arg": return {("arg", v.name): F(1)}
    if v.kind == "global": return {("g", v.name): F(1)}
    if v.kind != "inst" or depth > 40: return {("?", id(v)): F(1)}
    op = v.op
    L = lambda x: lin(m, x, env, depth + 1)
    if op in ("bitcast", "inttoptr", "ptrtoint", "zext", "sext", "freeze") and v.ops[0].ty[0] not in ("double", "float"):
        return L(v.ops[0])
    if op == "trunc" and v.ty[0] == "int" and v.ty[1] >= 32: return L(v.ops[0])
    if op == "add": return add(L(v.ops[0]), L(v.ops[1]))
    if op == "sub": return add(L(v.ops[0]), L(v.ops[1]), -1)
    if op == "mul":
        a, b = L(v.ops[0]), L(v.ops[1])
        for x, y in ((a, b), (b, a)):
            if set(x) <= {1}: return scale(y, x.get(1, F(0)))
    if op == "shl" and v.ops[1].kind == "const": return scale(L(v.ops[0]), F(1 << v.ops[1].val))
    if op in ("udiv", "sdiv") and v.ops[1].kind == "const" and v.ops[1].val: return scale(L(v.ops[0]), F(1, v.ops[1].signed()))
    if op in ("lshr", "ashr") and v.ops[1].kind == "const": return scale(L(v.ops[0]), F(1, 1 << v.ops[1].val))
    if op == "gep":
        r = L(v.ops[0]); ty = v.gep_ty
        for k, ix in enumerate(v.ops[1:]):
            if k == 0: r = add(r, scale(L(ix), F(m.sizeof(ty)))); continue
            if ty[0] == "struct":
                c = ix.signed(); r = add(r, {1: F(ty[3][c])}) if ty[3][c] else r; ty = ty[2][c]
            elif ty[0] == "array":
                r = add(r, scale(L(ix), F(m.sizeof(ty[2])))); ty = ty[2]
        return r
    if op == "load": return {atom_of_load(m, v): F(1)}
    return {("i", v): F(1)}
