"""LLVM IR in plain Python objects, read through the LLVM C API (ctypes)."""
import ctypes as C, os, re, subprocess, glob
from build import AnalysisBroken

def _lib():
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so",
              "/usr/lib/llvm-18/lib/libLLVM.so.18.1"):
        if os.path.exists(p):
            return C.CDLL(p)
    raise AnalysisBroken("libLLVM-18 not found")

L = _lib()
P = C.c_void_p
def _sig(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f
for n, r, a in [
    ("LLVMContextCreate", P, []),
    ("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, [C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p)]),
    ("LLVMParseIRInContext", C.c_int, [P, P, C.POINTER(P), C.POINTER(C.c_char_p)]),
    ("LLVMGetFirstFunction", P, [P]), ("LLVMGetNextFunction", P, [P]),
    ("LLVMGetFirstGlobal", P, [P]), ("LLVMGetNextGlobal", P, [P]),
    ("LLVMGetFirstBasicBlock", P, [P]), ("LLVMGetNextBasicBlock", P, [P]),
    ("LLVMGetFirstInstruction", P, [P]), ("LLVMGetNextInstruction", P, [P]),
    ("LLVMGetInstructionOpcode", C.c_int, [P]), ("LLVMGetNumOperands", C.c_int, [P]),
    ("LLVMGetOperand", P, [P, C.c_uint]), ("LLVMGetICmpPredicate", C.c_int, [P]),
    ("LLVMGetFCmpPredicate", C.c_int, [P]),
    ("LLVMTypeOf", P, [P]), ("LLVMGetTypeKind", C.c_int, [P]), ("LLVMGetIntTypeWidth", C.c_uint, [P]),
    ("LLVMConstIntGetZExtValue", C.c_ulonglong, [P]), ("LLVMGetValueKind", C.c_int, [P]),
    ("LLVMGetCalledValue", P, [P]), ("LLVMGetGEPSourceElementType", P, [P]), ("LLVMGetNumArgOperands", C.c_uint, [P]),
    ("LLVMGetStructName", C.c_char_p, [P]), ("LLVMCountStructElementTypes", C.c_uint, [P]),
    ("LLVMStructGetTypeAtIndex", P, [P, C.c_uint]), ("LLVMGetElementType", P, [P]), ("LLVMGetArrayLength", C.c_uint, [P]),
    ("LLVMOffsetOfElement", C.c_ulonglong, [P, P, C.c_uint]), ("LLVMABISizeOfType", C.c_ulonglong, [P, P]),
    ("LLVMGetModuleDataLayout", P, [P]), ("LLVMCountIncoming", C.c_uint, [P]),
    ("LLVMGetIncomingValue", P, [P, C.c_uint]), ("LLVMGetIncomingBlock", P, [P, C.c_uint]),
    ("LLVMGetNumSuccessors", C.c_uint, [P]), ("LLVMGetSuccessor", P, [P, C.c_uint]),
    ("LLVMGetBasicBlockTerminator", P, [P]), ("LLVMBasicBlockAsValue", P, [P]),
    ("LLVMGetDebugLocLine", C.c_uint, [P]),
    ("LLVMInstructionGetDebugLoc", P, [P]), ("LLVMDILocationGetLine", C.c_uint, [P]),
    ("LLVMDILocationGetScope", P, [P]), ("LLVMDILocationGetInlinedAt", P, [P]),
    ("LLVMDIScopeGetFile", P, [P]), ("LLVMDIFileGetFilename", P, [P, C.POINTER(C.c_uint)]),
    ("LLVMGetValueName2", P, [P, C.POINTER(C.c_size_t)]),
    ("LLVMGetLinkage", C.c_int, [P]), ("LLVMSetLinkage", None, [P, C.c_int]),
    ("LLVMIsDeclaration", C.c_int, [P]), ("LLVMIsGlobalConstant", C.c_int, [P]), ("LLVMGetInitializer", P, [P]),
    ("LLVMGlobalGetValueType", P, [P]), ("LLVMGetFirstParam", P, [P]), ("LLVMGetNextParam", P, [P]),
    ("LLVMGetAllocatedType", P, [P]), ("LLVMPrintValueToString", P, [P]), ("LLVMDisposeMessage", None, [P]),
    ("LLVMGetConstOpcode", C.c_int, [P]), ("LLVMGetReturnType", P, [P]), ("LLVMIsFunctionVarArg", C.c_int, [P]),
    ("LLVMGetEnumAttributeKindForName", C.c_uint, [C.c_char_p, C.c_size_t]),
    ("LLVMCreateEnumAttribute", P, [P, C.c_uint, C.c_ulonglong]),
    ("LLVMAddAttributeAtIndex", None, [P, C.c_uint, P]),
    ("LLVMRemoveEnumAttributeAtIndex", None, [P, C.c_uint, C.c_uint]),
    ("LLVMGetEnumAttributeAtIndex", P, [P, C.c_uint, C.c_uint]),
    ("LLVMRunPasses", P, [P, C.c_char_p, P, P]), ("LLVMCreatePassBuilderOptions", P, []),
    ("LLVMGetErrorMessage", P, [P]), ("LLVMConstRealGetDouble", C.c_double, [P, C.POINTER(C.c_int)]),
    ("LLVMIsConstantString", C.c_int, [P]), ("LLVMGetAsString", P, [P, C.POINTER(C.c_size_t)]),
    ("LLVMGetAggregateElement", P, [P, C.c_uint]),
    ("LLVMGetIndices", C.POINTER(C.c_uint), [P]), ("LLVMGetNumIndices", C.c_uint, [P]),
    ("LLVMPrintModuleToFile", C.c_int, [P, C.c_char_p, C.POINTER(C.c_char_p)]),
    ("LLVMGetUndef", P, [P]),
    ("LLVMIsConstant", C.c_int, [P]), ("LLVMGetMetadata", P, [P, C.c_uint]), ("LLVMGetMDKindIDInContext", C.c_uint, [P, C.c_char_p, C.c_uint]),
    ("LLVMGetMDNodeNumOperands", C.c_uint, [P]), ("LLVMGetMDNodeOperands", None, [P, C.POINTER(P)]),
    ("LLVMGetMDString", P, [P, C.POINTER(C.c_uint)]), ("LLVMIsAMDString", P, [P]),
    ("LLVMGetIntrinsicID", C.c_uint, [P]),
]:
    _sig(n, r, *a)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 7: "unreachable", 66: "fneg", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp",
       43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "va_arg", 50: "extractelement", 51: "insertelement",
       52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze", 67: "callbr", 55: "fence",
       56: "cmpxchg", 57: "atomicrmw"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
NEG = {"eq": "ne", "ne": "eq", "ugt": "ule", "ule": "ugt", "uge": "ult", "ult": "uge",
       "sgt": "sle", "sle": "sgt", "sge": "slt", "slt": "sge"}
SWAP = {"eq": "eq", "ne": "ne", "ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge",
        "sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge"}

class V:
    """Base of all values."""
    __slots__ = ("ty", "uses")
    kind = "?"
    def __init__(self, ty=None):
        self.ty = ty; self.uses = []

class Const(V):
    __slots__ = ("val",)
    kind = "const"
    def __init__(self, ty, val): V.__init__(self, ty); self.val = val
    def signed(self):
        w = self.ty[1]
        return self.val - (1 << w) if self.val >> (w - 1) else self.val
    def __repr__(self): return "%d" % self.signed() if self.ty[0] == "int" else "c%r" % (self.val,)

class FConst(V):
    __slots__ = ("val",)
    kind = "fconst"
    def __init__(self, ty, val): V.__init__(self, ty); self.val = val
    def __repr__(self): return "%r" % self.val

class Null(V):
    kind = "null"
    def __repr__(self): return "null"

class Undef(V):
    kind = "undef"
    def __repr__(self): return "undef"

class Arg(V):
    __slots__ = ("fn", "idx", "name")
    kind = "arg"
    def __repr__(self): return "%s" % self.name

class Global(V):
    __slots__ = ("name", "const", "init_ptr", "valty", "mod", "linkage", "defined", "_init")
    kind = "global"
    def __repr__(self): return "@" + self.name

class CExpr(V):
    __slots__ = ("op", "ops", "gep_ty", "ptr")
    kind = "cexpr"
    def __repr__(self): return "cexpr:%s(%s)" % (self.op, ",".join(map(repr, self.ops)))

class Other(V):
    __slots__ = ("txt",)
    kind = "other"
    def __repr__(self): return self.txt

class Inst(V):
    __slots__ = ("op", "ops", "bb", "fn", "idx", "pred", "callee", "phi_bbs", "cases", "default", "gep_ty", "alloc_ty",
                 "line", "file", "name", "indices", "inl", "_path", "tbaa")
    kind = "inst"
    def __repr__(self): return "%%%s" % (self.name or "i%d" % self.idx)
    def where(self):
        return "%s:%d" % (self.file or "?", self.line or 0)
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o

class BB:
    __slots__ = ("fn", "insts", "succs", "preds", "idx", "name", "rpo")
    def __repr__(self): return "bb%d" % self.idx
    @property
    def term(self): return self.insts[-1]
    def phis(self):
        for i in self.insts:
            if i.op != "phi": break
            yield i

class Fn(V):
    __slots__ = ("name", "args", "bbs", "defined", "linkage", "mod", "vararg", "retty", "_dom", "_pdom", "_reach", "file",
                 "line", "addr_taken", "_cache")
    kind = "fn"
    def __repr__(self): return "@" + self.name
    @property
    def entry(self): return self.bbs[0]
    def insts(self):
        for b in self.bbs:
            for i in b.insts: yield i
    def calls(self, *names):
        for i in self.insts():
            if i.op == "call" and i.callee is not None and i.callee.kind == "fn" and (not names or i.callee.name in names):
                yield i
    def rets(self):
        return [b.term for b in self.bbs if b.term.op == "ret"]

def strip_sfx(n):
    return re.sub(r"\.\d+$", "", n)

class Module:
    def __init__(self, path, tmp=None, passes=True, keep_fn=None, roots=None, debug=None, leaf=False):
        """roots: restrict inlining and loading to what is reachable from these functions.
        debug: another Module of the same bitcode whose debug info is shared."""
        self.roots = roots; self._load_only = None; self.leaf = leaf
        self.ctx = L.LLVMContextCreate()
        buf = P(); err = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise AnalysisBroken("read %s" % path)
        m = P()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(m), C.byref(err)):
            raise AnalysisBroken("parse %s: %s" % (path, err.value))
        self.m = m
        self.inlined_names = []
        self._collect_names()
        if passes:
            self._normalise(keep_fn)
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.ptrsize = 8
        self._types = {}
        self._load()
        self._dbg = debug if debug is not None else self
        if debug is not None:
            for a in ("text", "md", "fields", "enums", "enumval", "_attr"): setattr(self, a, getattr(debug, a))
        else:
            self._debuginfo(path)

    def _vname(self, v):
        n = C.c_size_t()
        p = L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode() if p and n.value else ""

    def _collect_names(self):
        self.raw_fns = {}
        f = L.LLVMGetFirstFunction(self.m)
        while f:
            self.raw_fns[self._vname(f)] = f
            f = L.LLVMGetNextFunction(f)

    def _normalise(self, keep_fn):
        """Inline every function keep_fn(name, is_recursive, address_taken, linkage) rejects, promote memory to SSA."""
        def kind(s): return L.LLVMGetEnumAttributeKindForName(s.encode(), len(s))
        always, noinl, optn = kind("alwaysinline"), kind("noinline"), kind("optnone")
        cg, addr = self._raw_callgraph()
        rec = self._recursive(cg)
        FI = C.c_uint(0xffffffff).value
        scope = None
        leaf_keep = keep_fn if self.leaf else None
        if self.roots is not None:
            scope = set(self.roots); st = list(self.roots)
            while st:
                x = st.pop()
                for y in cg.get(x, ()):
                    if y not in scope:
                        scope.add(y)
                        # leaf: kept functions are not looked into
                        if not (leaf_keep and y in self.raw_fns and leaf_keep(y, y in rec, y in addr, 0)): st.append(y)
        for n, f in self.raw_fns.items():
            if L.LLVMIsDeclaration(f): continue
            if L.LLVMGetLinkage(f) == 1: continue      # available_externally
            link = L.LLVMGetLinkage(f)
            if link not in (0, 8):       # weak etc. -> external, so that it can be analysed as the definition
                L.LLVMSetLinkage(f, 0)
            L.LLVMRemoveEnumAttributeAtIndex(f, FI, optn)
            keep = keep_fn(n, n in rec, n in addr, link) if keep_fn else True
            if scope is not None and (n not in scope or n in self.roots): keep = True
            if keep:
                L.LLVMRemoveEnumAttributeAtIndex(f, FI, always)
                L.LLVMAddAttributeAtIndex(f, FI, L.LLVMCreateEnumAttribute(self.ctx, noinl, 0))
            else:
                L.LLVMRemoveEnumAttributeAtIndex(f, FI, noinl)
                L.LLVMAddAttributeAtIndex(f, FI, L.LLVMCreateEnumAttribute(self.ctx, always, 0))
                self.inlined_names.append(n)
        if scope is not None: self._load_only = scope - set(self.inlined_names)
        opts = L.LLVMCreatePassBuilderOptions()
        e = L.LLVMRunPasses(self.m, b"always-inline,function(sroa)", None, opts)
        if e:
            raise AnalysisBroken("opt passes: %s" % C.string_at(L.LLVMGetErrorMessage(e)).decode())

    def _raw_callgraph(self):
        cg = {}; addr = set()
        fnset = {f: n for n, f in self.raw_fns.items()}
        def scan_ops(v, depth=0):
            if v in fnset: addr.add(fnset[v]); return
            if depth > 4: return
            if L.LLVMIsConstant(v) and L.LLVMGetValueKind(v) not in (3,):
                for k in range(L.LLVMGetNumOperands(v)):
                    o = L.LLVMGetOperand(v, k)
                    if o: scan_ops(o, depth + 1)
        for n, f in self.raw_fns.items():
            cg[n] = set()
            b = L.LLVMGetFirstBasicBlock(f)
            while b:
                i = L.LLVMGetFirstInstruction(b)
                while i:
                    oc = L.LLVMGetInstructionOpcode(i)
                    if oc == 45:
                        cv = L.LLVMGetCalledValue(i)
                        if cv in fnset: cg[n].add(fnset[cv])
                        for k in range(L.LLVMGetNumArgOperands(i)):
                            o = L.LLVMGetOperand(i, k)
                            if L.LLVMIsConstant(o): scan_ops(o)
                    elif oc not in (2, 3):
                        for k in range(L.LLVMGetNumOperands(i)):
                            o = L.LLVMGetOperand(i, k)
                            if L.LLVMIsConstant(o): scan_ops(o)
                    i = L.LLVMGetNextInstruction(i)
                b = L.LLVMGetNextBasicBlock(b)
        g = L.LLVMGetFirstGlobal(self.m)
        while g:
            ini = L.LLVMGetInitializer(g)
            if ini: scan_ops(ini)
            g = L.LLVMGetNextGlobal(g)
        return cg, addr

    @staticmethod
    def _recursive(cg):
        rec = set()
        for comp in sccs(cg):
            if len(comp) > 1 or comp[0] in cg.get(comp[0], ()):
                rec |= set(comp)
        return rec

    def _dump(self, d):
        p = os.path.join(d, "norm.ll")
        err = C.c_char_p()
        if L.LLVMPrintModuleToFile(self.m, p.encode(), C.byref(err)):
            raise AnalysisBroken("print module")
        return p

    # ---- types
    def type(self, t):
        r = self._types.get(t)
        if r is None:
            k = L.LLVMGetTypeKind(t)
            if k == 8: r = ("int", L.LLVMGetIntTypeWidth(t))
            elif k == 12: r = ("ptr",)
            elif k == 10:
                n = L.LLVMGetStructName(t)
                n = strip_sfx(n.decode()) if n else None
                r = ("struct", n, tuple(self.type(L.LLVMStructGetTypeAtIndex(t, i))
                                        for i in range(L.LLVMCountStructElementTypes(t))),
                     tuple(L.LLVMOffsetOfElement(self.dl, t, i) for i in range(L.LLVMCountStructElementTypes(t))),
                     L.LLVMABISizeOfType(self.dl, t) if L.LLVMCountStructElementTypes(t) else 0)
            elif k == 11:
                r = ("array", L.LLVMGetArrayLength(t), self.type(L.LLVMGetElementType(t)), L.LLVMABISizeOfType(self.dl, t))
            elif k == 3: r = ("double",)
            elif k == 2: r = ("float",)
            elif k == 0: r = ("void",)
            elif k == 9: r = ("fn",)
            else: r = ("k%d" % k,)
            self._types[t] = r
        return r

    def sizeof(self, t):
        k = t[0]
        if k == "int": return (t[1] + 7) // 8
        if k == "ptr": return self.ptrsize
        if k == "struct": return t[4]
        if k == "array": return t[3]
        if k == "double": return 8
        if k == "float": return 4
        return 0

    # ---- load
    def _load(self):
        self.fns = {}; self.globals = {}; self._vals = {}
        f = L.LLVMGetFirstFunction(self.m)
        raw = []
        while f:
            fn = Fn(("ptr",)); fn.name = self._vname(f); fn.mod = self; fn.bbs = []; fn.args = []
            fn.defined = not L.LLVMIsDeclaration(f) and L.LLVMGetLinkage(f) != 1 and (self._load_only is None or fn.name in self._load_only)
            fn.linkage = L.LLVMGetLinkage(f)
            vt = L.LLVMGlobalGetValueType(f)
            fn.vararg = bool(L.LLVMIsFunctionVarArg(vt)); fn.retty = self.type(L.LLVMGetReturnType(vt))
            fn._dom = fn._pdom = fn._reach = None; fn.file = None; fn.line = 0; fn.addr_taken = []; fn._cache = {}
            self._vals[f] = fn; self.fns[fn.name] = fn; raw.append((f, fn))
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(self.m)
        while g:
            go = Global(("ptr",)); go.name = self._vname(g); go.const = bool(L.LLVMIsGlobalConstant(g)); go.mod = self
            go.defined = not L.LLVMIsDeclaration(g)
            go.init_ptr = L.LLVMGetInitializer(g) if go.defined else None; go.valty = self.type(L.LLVMGlobalGetValueType(g))
            go.linkage = L.LLVMGetLinkage(g); go._init = None
            self._vals[g] = go; self.globals[go.name] = go
            g = L.LLVMGetNextGlobal(g)
        for f, fn in raw:
            if not fn.defined:
                continue
            p = L.LLVMGetFirstParam(f); k = 0
            while p:
                a = Arg(self.type(L.LLVMTypeOf(p))); a.fn = fn; a.idx = k; a.name = self._vname(p) or "arg%d" % k
                self._vals[p] = a; fn.args.append(a); k += 1
                p = L.LLVMGetNextParam(p)
            bbmap = {}
            b = L.LLVMGetFirstBasicBlock(f)
            rawb = []
            while b:
                o = BB(); o.fn = fn; o.insts = []; o.succs = []; o.preds = []; o.idx = len(fn.bbs)
                o.name = self._vname(L.LLVMBasicBlockAsValue(b))
                bbmap[L.LLVMBasicBlockAsValue(b)] = o; bbmap[b] = o
                fn.bbs.append(o); rawb.append((b, o))
                b = L.LLVMGetNextBasicBlock(b)
            rawi = []
            idx = 0
            for b, o in rawb:
                i = L.LLVMGetFirstInstruction(b)
                while i:
                    oc = L.LLVMGetInstructionOpcode(i)
                    ins = Inst(self.type(L.LLVMTypeOf(i))); ins.op = OPC.get(oc, "op%d" % oc); ins.bb = o; ins.fn = fn
                    ins.idx = idx; idx += 1; ins.ops = []; ins.pred = ins.callee = ins.phi_bbs = ins.cases = None
                    ins.default = ins.gep_ty = ins.alloc_ty = ins.indices = None; ins._path = None
                    ins.name = self._vname(i); ins.line = 0; ins.file = None; ins.inl = False
                    ins.tbaa = self._tbaa(i) if ins.op in ("load", "store") else None
                    dl = L.LLVMInstructionGetDebugLoc(i)
                    if dl:
                        ins.line = L.LLVMDILocationGetLine(dl)
                        ins.file = self._scope_file(L.LLVMDILocationGetScope(dl))
                        ins.inl = bool(L.LLVMDILocationGetInlinedAt(dl))
                    self._vals[i] = ins
                    o.insts.append(ins); rawi.append((i, ins))
                    i = L.LLVMGetNextInstruction(i)
            for i, ins in rawi:
                op = ins.op
                if op == "phi":
                    n = L.LLVMCountIncoming(i)
                    ins.ops = [self.val(L.LLVMGetIncomingValue(i, k)) for k in range(n)]
                    ins.phi_bbs = [bbmap[L.LLVMGetIncomingBlock(i, k)] for k in range(n)]
                elif op == "br":
                    n = L.LLVMGetNumOperands(i)
                    if n == 3: ins.ops = [self.val(L.LLVMGetOperand(i, 0))]
                    # successor order: true, false
                    for k in range(L.LLVMGetNumSuccessors(i)):
                        ins.bb.succs.append(bbmap[L.LLVMGetSuccessor(i, k)])
                elif op == "switch":
                    ins.ops = [self.val(L.LLVMGetOperand(i, 0))]
                    ns = L.LLVMGetNumSuccessors(i)
                    ins.default = bbmap[L.LLVMGetSuccessor(i, 0)]
                    ins.cases = []
                    for k in range(1, ns):
                        cv = self.val(L.LLVMGetOperand(i, 2 * k))
                        ins.cases.append((cv.val, bbmap[L.LLVMGetSuccessor(i, k)]))
                    ins.bb.succs = [ins.default]
                    for _, t in ins.cases:
                        if t not in ins.bb.succs: ins.bb.succs.append(t)
                elif op == "call":
                    n = L.LLVMGetNumArgOperands(i)
                    ins.ops = [self.val(L.LLVMGetOperand(i, k)) for k in range(n)]
                    ins.callee = self.val(L.LLVMGetCalledValue(i))
                else:
                    n = L.LLVMGetNumOperands(i)
                    ins.ops = [self.val(L.LLVMGetOperand(i, k)) for k in range(n)]
                    if op == "icmp": ins.pred = ICMP[L.LLVMGetICmpPredicate(i)]
                    elif op == "fcmp": ins.pred = FCMP[L.LLVMGetFCmpPredicate(i)]
                    elif op == "gep": ins.gep_ty = self.type(L.LLVMGetGEPSourceElementType(i))
                    elif op == "alloca": ins.alloc_ty = self.type(L.LLVMGetAllocatedType(i))
                    elif op in ("extractvalue", "insertvalue"):
                        ni = L.LLVMGetNumIndices(i); pi = L.LLVMGetIndices(i)
                        ins.indices = [pi[k] for k in range(ni)]
                for o2 in ins.ops:
                    o2.uses.append(ins)
                if ins.callee is not None and ins.callee.kind != "fn":
                    ins.callee.uses.append(ins)
            # drop debug intrinsics
            for o in fn.bbs:
                o.insts = [x for x in o.insts if not (x.op == "call" and x.callee.kind == "fn" and
                                                      (x.callee.name.startswith("llvm.dbg.") or x.callee.name.startswith("llvm.lifetime")))]
                for s in set(o.succs):
                    s.preds.append(o)
            # drop unreachable blocks from consideration
            seen = {fn.bbs[0]}; st = [fn.bbs[0]]
            while st:
                x = st.pop()
                for s in x.succs:
                    if s not in seen: seen.add(s); st.append(s)
            dead = [b for b in fn.bbs if b not in seen]
            if dead:
                ds = set(dead)
                for b in fn.bbs:
                    b.preds = [p for p in b.preds if p not in ds]
                for b in fn.bbs:
                    for ph in b.phis():
                        keep = [(v, pb) for v, pb in zip(ph.ops, ph.phi_bbs) if pb not in ds]
                        ph.ops = [v for v, _ in keep]; ph.phi_bbs = [pb for _, pb in keep]
                fn.bbs = [b for b in fn.bbs if b not in ds]
            fn.file = next((i.file for i in fn.insts() if i.file and not i.inl), None) or \
                next((i.file for i in fn.insts() if i.file), None)
            fn.line = next((i.line for i in fn.insts() if i.line and not i.inl), 0)
        self.ptrsize = self._ptrsize()

    def _ptrsize(self):
        for t in self._types.values():
            if t[0] == "struct" and t[1] == "struct.mbuf": return t[3][1]
        return 8

    def _tbaa(self, i):
        """(struct name, byte offset) of a struct-path access tag, or None"""
        if not hasattr(self, "_tbk"):
            self._tbk = L.LLVMGetMDKindIDInContext(self.ctx, b"tbaa", 4); self._tbc = {}
        md = L.LLVMGetMetadata(i, self._tbk)
        if not md: return None
        r = self._tbc.get(md, 0)
        if r == 0:
            r = None
            n = L.LLVMGetMDNodeNumOperands(md)
            if n >= 3:
                ops = (P * n)(); L.LLVMGetMDNodeOperands(md, ops)
                if ops[0] != ops[1]:
                    bn = L.LLVMGetMDNodeNumOperands(ops[0]); bo = (P * bn)(); L.LLVMGetMDNodeOperands(ops[0], bo)
                    if bn and bo[0] and L.LLVMIsAMDString(bo[0]):
                        ln = C.c_uint(); q = L.LLVMGetMDString(bo[0], C.byref(ln))
                        nm = C.string_at(q, ln.value).decode() if q and ln.value else None
                        off = self.val(ops[2])
                        if nm and off.kind == "const": r = ("struct." + nm, off.val)
            self._tbc[md] = r
        return r

    _files = {}
    def _scope_file(self, scope):
        r = self._files.get(scope)
        if r is None:
            f = L.LLVMDIScopeGetFile(scope)
            r = "?"
            if f:
                n = C.c_uint()
                p = L.LLVMDIFileGetFilename(f, C.byref(n))
                r = C.string_at(p, n.value).decode() if p else "?"
                i = r.find("/src/")
                if i >= 0: r = "src/" + r[i + 5:]
            self._files[scope] = r
        return r

    def val(self, p):
        r = self._vals.get(p)
        if r is not None: return r
        k = L.LLVMGetValueKind(p)
        ty = self.type(L.LLVMTypeOf(p))
        if k == 18 and ty[0] == "int" : r = Const(ty, L.LLVMConstIntGetZExtValue(p)) if ty[1] <= 64 else Other(ty)
        elif k == 20: r = Null(ty)
        elif k in (14, 25): r = Undef(ty)
        elif k == 19:
            x = C.c_int(); r = FConst(ty, L.LLVMConstRealGetDouble(p, C.byref(x)))
        elif k == 10:
            r = CExpr(ty); r.ptr = p
            r.op = OPC.get(L.LLVMGetConstOpcode(p), "?")
            self._vals[p] = r
            r.gep_ty = self.type(L.LLVMGetGEPSourceElementType(p)) if r.op == "gep" else None
            r.ops = [self.val(L.LLVMGetOperand(p, i)) for i in range(L.LLVMGetNumOperands(p))]
        else:
            r = Other(ty); r.txt = "<k%d>" % k
        self._vals[p] = r
        return r

    def const_data(self, p):
        """Python value of a constant initializer (ints, strings, nested lists, V for pointers)."""
        k = L.LLVMGetValueKind(p)
        ty = self.type(L.LLVMTypeOf(p))
        if ty[0] == "int" and k == 18: return L.LLVMConstIntGetZExtValue(p)
        if ty[0] in ("struct", "array"):
            n = ty[1] if ty[0] == "array" else len(ty[2])
            if k == 15 and ty[0] == "array" and ty[2] == ("int", 8): return b"\0" * n
            if k == 16 and ty[0] == "array" and ty[2] == ("int", 8) and L.LLVMIsConstantString(p):
                sz = C.c_size_t(); q = L.LLVMGetAsString(p, C.byref(sz))
                return C.string_at(q, sz.value)
            out = []
            for i in range(n):
                e = L.LLVMGetAggregateElement(p, i)
                out.append(self.const_data(e) if e else None)
            return out
        v = self.val(p)
        return v

    def global_data(self, g):
        if g._init is None and g.init_ptr:
            g._init = self.const_data(g.init_ptr)
        return g._init

    # ---- debug info: struct field names
    def _debuginfo(self, llpath):
        if llpath.endswith(".bc"):
            out = llpath + ".ll"
            subprocess.run(["llvm-dis", "-o", out, llpath], check=True)
            llpath = out
        txt = open(llpath, errors="replace").read()
        self.text = txt
        md = {}
        for m in re.finditer(r"^!(\d+) = (?:distinct )?!(\w+)\((.*)\)$|^!(\d+) = (?:distinct )?!\{(.*)\}$", txt, re.M):
            if m.group(1): md[int(m.group(1))] = (m.group(2), m.group(3))
            else: md[int(m.group(4))] = ("list", m.group(5))
        self.md = md
        self.fields = {}   # "struct.mjs" -> {byteoff: [(bitoff, name, bitsize, basetype)]}
        def attr(s, a):
            m = re.search(r"(?:^|, )%s: (\"[^\"]*\"|!\d+|-?[\w.|]+)" % a, s)
            if not m: return None
            return m.group(1).strip('"')
        self._attr = attr
        tdname = {}
        for k, (kind, s) in md.items():
            if kind == "DIDerivedType" and attr(s, "tag") == "DW_TAG_typedef":
                bt = attr(s, "baseType")
                if bt and bt[0] == "!": tdname.setdefault(int(bt[1:]), attr(s, "name"))
        self.enums = {}
        for k, (kind, s) in md.items():
            if kind != "DICompositeType": continue
            tag = attr(s, "tag")
            el = attr(s, "elements")
            if not el or el[0] != "!": continue
            lst = md.get(int(el[1:]))
            if not lst or lst[0] != "list": continue
            ids = [int(x) for x in re.findall(r"!(\d+)", lst[1])]
            name = attr(s, "name") or tdname.get(k)
            if tag in ("DW_TAG_structure_type", "DW_TAG_union_type"):
                fl = {}
                for i in ids:
                    kk, ss = md[i]
                    if kk != "DIDerivedType": continue
                    off = int(attr(ss, "offset") or 0)
                    fl.setdefault(off // 8, []).append((off % 8, attr(ss, "name") or "", int(attr(ss, "size") or 0),
                                                        attr(ss, "baseType"), "BitField" in (attr(ss, "flags") or "")))
                pre = "struct." if tag == "DW_TAG_structure_type" else "union."
                if name: self.fields.setdefault(pre + name, fl)
                self.fields["!%d" % k] = fl
            elif tag == "DW_TAG_enumeration_type":
                e = {}
                for i in ids:
                    kk, ss = md[i]
                    if kk == "DIEnumerator": e[attr(ss, "name")] = int(attr(ss, "value"))
                self.enums[name or "!%d" % k] = e
        self.enumval = {}
        for e in self.enums.values(): self.enumval.update(e)

    def sig(self, name):
        """[return type, arg types...] type descriptions of a function, from its DISubprogram."""
        if not hasattr(self._dbg, "_sigs"):
            S = {}
            for k, (kind, s) in self.md.items():
                if kind != "DISubprogram": continue
                nm = self._attr(s, "name"); ty = self._attr(s, "type")
                if not ty or ty[0] != "!": continue
                kk, ts = self.md.get(int(ty[1:]), (None, ""))
                tl = self._attr(ts, "types")
                if not tl or tl[0] != "!": continue
                lst = self.md.get(int(tl[1:]))
                out = []
                for x in lst[1].split(","):
                    x = x.strip()
                    out.append("void" if x in ("null", "") else self.type_desc(x))
                S.setdefault(nm, out)
            self._dbg._sigs = S
        return self._dbg._sigs.get(name)

    def basetype_struct(self, ref):
        """Follow typedef/const chains to a struct key of self.fields, or None."""
        n = 0
        while ref and ref[0] == "!" and n < 20:
            k = int(ref[1:]); kind, s = self.md.get(k, (None, None))
            if kind == "DICompositeType":
                return "!%d" % k if ("!%d" % k) in self.fields else None
            if kind == "DIDerivedType" and self._attr(s, "tag") in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type"):
                ref = self._attr(s, "baseType"); n += 1; continue
            return None
        return None

    def type_desc(self, ref):
        n = 0; pre = ""
        while ref and ref[0] == "!" and n < 20:
            n += 1
            k = int(ref[1:]); kind, s = self.md.get(k, (None, None))
            if kind == "DIBasicType": return pre + (self._attr(s, "name") or "?")
            if kind == "DIDerivedType":
                t = self._attr(s, "tag")
                if t == "DW_TAG_pointer_type":
                    b = self._attr(s, "baseType")
                    return self.type_desc(b) + "*" if b else "void*"
                if t == "DW_TAG_typedef" and self._attr(s, "name") in ("mjs_val_t", "mjs_err_t"): return self._attr(s, "name")
                ref = self._attr(s, "baseType"); continue
            if kind == "DICompositeType":
                t = self._attr(s, "tag")
                nm = self._attr(s, "name")
                return {"DW_TAG_structure_type": "struct.", "DW_TAG_union_type": "union.",
                        "DW_TAG_enumeration_type": "enum.", "DW_TAG_array_type": "array."}.get(t, "") + (nm or "!%d" % k)
            if kind == "DISubroutineType": return "fn"
            return "?"
        return "?"

    def struct_fields(self, sname):
        """[(offset, name, type description)] of a named struct, ordered."""
        fl = self.fields.get(sname)
        if fl is None: return []
        out = []
        for off in sorted(fl):
            for bit, nm, sz, bt, isbf in fl[off]:
                out.append((off, nm, self.type_desc(bt), bit, sz, isbf))
        return out

    def first_fields(self, sname, off):
        """Names of the first members below the struct-typed field of `sname` at off (('buf',) for an mbuf field)."""
        out = []
        fl = self.fields.get(sname)
        if fl is None or off not in fl: return ()
        ref = fl[off][0][3]
        while True:
            k = self.basetype_struct(ref)
            if k is None or 0 not in self.fields[k]: break
            bit, nm, sz, bt, bf = self.fields[k][0][0]
            if bf: break
            out.append(nm); ref = bt
        return tuple(out)

    def field_name(self, sname, off):
        """Name path of the (non-bitfield) field of struct `sname` at byte offset off ('data.p')."""
        fl = self.fields.get(sname)
        if fl is None or off is None: return "+%s" % off
        if off in fl:
            bit, nm, sz, bt, isbf = fl[off][0]
            return nm if not isbf else "bits+%d" % off
        # nested
        for o in sorted(fl, reverse=True):
            if o < off:
                bit, nm, sz, bt, isbf = fl[o][0]
                if off < o + sz // 8:
                    sub = self.basetype_struct(bt)
                    if sub: return nm + "." + self.field_name(sub, off - o)
                break
        return "+%d" % off

def sccs(g):
    """Tarjan, iterative. g: node -> iterable of nodes."""
    index = {}; low = {}; on = set(); st = []; out = []; cnt = [0]
    for root in list(g):
        if root in index: continue
        work = [(root, iter(g.get(root, ())))]
        index[root] = low[root] = cnt[0]; cnt[0] += 1; st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); on.add(w)
                    work.append((w, iter(g.get(w, ())))); adv = True; break
                elif w in on: low[v] = min(low[v], index[w])
            if adv: continue
            work.pop()
            if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = st.pop(); on.discard(w); comp.append(w)
                    if w == v: break
                out.append(comp)
    return out
