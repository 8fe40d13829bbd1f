"""Reader for LLVM bitcode through the LLVM-C API (ctypes, no build step).

Turns a module into plain Python objects; everything the analyses look at is
the type-checked, overload-resolved program clang produced from /repo.
"""
import ctypes as C
import glob
import re

_CANDS = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1"] + \
    sorted(glob.glob("/usr/lib/llvm-18/lib/libLLVM*.so*")) + sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM-18*.so*"))
_L = None


def _lib():
    global _L
    if _L is not None:
        return _L
    err = None
    for c in _CANDS:
        try:
            L = C.CDLL(c)
            break
        except OSError as e:
            err = e
    else:
        raise RuntimeError("libLLVM-18 not found: %s" % err)
    vp, u, cp, i = C.c_void_p, C.c_uint, C.c_char_p, C.c_int
    ull, sz = C.c_ulonglong, C.c_size_t

    def d(name, res, *args):
        f = getattr(L, name)
        f.restype = res
        f.argtypes = list(args)
    d("LLVMContextCreate", vp)
    d("LLVMCreateMemoryBufferWithContentsOfFile", i, cp, C.POINTER(vp), C.POINTER(vp))
    d("LLVMParseBitcodeInContext2", i, vp, vp, C.POINTER(vp))
    d("LLVMGetModuleDataLayout", vp, vp)
    d("LLVMPointerSize", C.c_uint, vp)
    d("LLVMByteOrder", C.c_int, vp)
    for n in ("LLVMGetFirstFunction", "LLVMGetFirstGlobal", "LLVMGetNextFunction", "LLVMGetNextGlobal",
              "LLVMGetFirstParam", "LLVMGetNextParam", "LLVMGetFirstBasicBlock", "LLVMGetNextBasicBlock",
              "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMTypeOf", "LLVMGetElementType",
              "LLVMGlobalGetValueType", "LLVMGetInitializer", "LLVMGetAllocatedType", "LLVMGetCalledValue",
              "LLVMGetGEPSourceElementType", "LLVMGetCondition", "LLVMGetReturnType",
              "LLVMBasicBlockAsValue", "LLVMValueAsBasicBlock", "LLVMGetNormalDest", "LLVMGetUnwindDest"):
        d(n, vp, vp)
    for n in ("LLVMCountBasicBlocks", "LLVMGetNumOperands", "LLVMGetInstructionOpcode", "LLVMGetValueKind",
              "LLVMGetTypeKind", "LLVMGetIntTypeWidth", "LLVMCountStructElementTypes", "LLVMGetArrayLength",
              "LLVMGetVectorSize", "LLVMGetICmpPredicate", "LLVMGetFCmpPredicate", "LLVMIsConditional",
              "LLVMGetNumSuccessors", "LLVMCountIncoming", "LLVMGetNumArgOperands", "LLVMIsDeclaration",
              "LLVMGetLinkage", "LLVMIsGlobalConstant", "LLVMGetNSW", "LLVMGetNUW", "LLVMIsConstant",
              "LLVMGetNumIndices", "LLVMGetVolatile", "LLVMGetDebugLocLine", "LLVMGetConstOpcode",
              "LLVMIsThreadLocal", "LLVMGetAlignment", "LLVMCountParams", "LLVMIsFunctionVarArg",
              "LLVMGetNumMaskElements", "LLVMGetOrdering", "LLVMGetAtomicRMWBinOp", "LLVMIsConditional"):
        try:
            d(n, u, vp)
        except AttributeError:
            pass
    d("LLVMGetOperand", vp, vp, u)
    d("LLVMGetSuccessor", vp, vp, u)
    d("LLVMGetIncomingValue", vp, vp, u)
    d("LLVMGetIncomingBlock", vp, vp, u)
    d("LLVMStructGetTypeAtIndex", vp, vp, u)
    d("LLVMGetAggregateElement", vp, vp, u)
    d("LLVMGetElementAsConstant", vp, vp, u)
    d("LLVMGetIndices", C.POINTER(u), vp)
    d("LLVMGetMaskValue", i, vp, u)
    d("LLVMGetValueName2", cp, vp, C.POINTER(sz))
    d("LLVMConstIntGetZExtValue", ull, vp)
    d("LLVMConstRealGetDouble", C.c_double, vp, C.POINTER(i))
    d("LLVMABISizeOfType", ull, vp, vp)
    d("LLVMStoreSizeOfType", ull, vp, vp)
    d("LLVMOffsetOfElement", ull, vp, vp, u)
    d("LLVMPrintValueToString", vp, vp)
    d("LLVMPrintTypeToString", vp, vp)
    d("LLVMDisposeMessage", None, vp)
    d("LLVMGetDebugLocFilename", vp, vp, C.POINTER(u))
    d("LLVMGetEnumAttributeKindForName", u, cp, sz)
    d("LLVMGetEnumAttributeAtIndex", vp, vp, u, u)
    d("LLVMGetStringAttributeAtIndex", vp, vp, u, cp, u)
    d("LLVMGetStringAttributeValue", vp, vp, C.POINTER(u))
    d("LLVMGetSection", cp, vp)
    d("LLVMGetFastMathFlags", u, vp)
    d("LLVMCanValueUseFastMathFlags", i, vp)
    d("LLVMGetCallSiteEnumAttribute", vp, vp, u, u)
    d("LLVMGetEnumAttributeValue", ull, vp)
    d("LLVMGetTypeAttributeValue", vp, vp)
    d("LLVMGetMDKindIDInContext", u, vp, cp, u)
    d("LLVMGetMetadata", vp, vp, u)
    d("LLVMGetMDNodeNumOperands", u, vp)
    d("LLVMGetMDNodeOperands", None, vp, C.POINTER(vp))
    d("LLVMGetMDString", cp, vp, C.POINTER(u))
    d("LLVMIsNull", i, vp)
    d("LLVMGetNumClauses", u, vp)
    d("LLVMGetClause", vp, vp, u)
    d("LLVMAliasGetAliasee", vp, vp)
    d("LLVMGetFirstGlobalAlias", vp, vp)
    d("LLVMGetNextGlobalAlias", vp, vp)
    d("LLVMGetInlineAsmAsmString", vp, vp, C.POINTER(sz))
    d("LLVMGetInlineAsmConstraintString", vp, vp, C.POINTER(sz))
    d("LLVMIsAGlobalAlias", vp, vp)
    d("LLVMGetPointerAddressSpace", u, vp)
    _L = L
    return L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'getelementptr', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector',
       53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       58: 'resume', 59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
LINK = {0: 'external', 1: 'available_externally', 2: 'linkonce', 3: 'linkonce_odr', 5: 'weak', 6: 'weak_odr',
        7: 'appending', 8: 'internal', 9: 'private', 12: 'extern_weak', 14: 'common'}


class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'fields', 'size', 'store', 'offs', 's')

    def __init__(self):
        self.w = self.n = 0
        self.el = None
        self.fields = self.offs = None

    def __repr__(self):
        return self.s


class Const:            # int / fp / undef / poison / null / zero / agg / gref / fref / expr
    __slots__ = ('k', 'ty', 'v', 'ops')

    def __init__(self, k, ty, v=None, ops=None):
        self.k, self.ty, self.v, self.ops = k, ty, v, ops


class Arg:
    __slots__ = ('idx', 'ty', 'name', 'byval', 'sret', 'fn')

    def __repr__(self):
        return '%' + self.name


class Inst:
    __slots__ = ('op', 'ty', 'ops', 'x', 'line', 'file', 'nsw', 'id', 'callee', 'text', 'align', 'tbaa', 'unwind', 'fmf', 'round', 'order')

    def __repr__(self):
        return '%s#%d' % (self.op, self.id)


class Block:
    __slots__ = ('id', 'insts', 'succs', 'fn', 'preds')


class Fn:
    __slots__ = ('name', 'params', 'blocks', 'decl', 'linkage', 'rty', 'vararg', 'ipdom', 'line', 'file', 'noexit', 'promise', 'refuses', 'fast', 'clones', 'needs')


class Glob:
    __slots__ = ('name', 'ty', 'const', 'init', 'linkage', 'tls', 'align')


class Module:
    def __init__(self, path):
        L = self.L = _lib()
        ctx = L.LLVMContextCreate()
        mb, msg = C.c_void_p(), C.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(mb), C.byref(msg)):
            raise RuntimeError("cannot read " + path)
        m = C.c_void_p()
        if L.LLVMParseBitcodeInContext2(ctx, mb, C.byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.ptr = L.LLVMPointerSize(self.dl)
        self.little = L.LLVMByteOrder(self.dl) == 1
        self._ty, self._val, self._tag = {}, {}, {}
        self._tbaa = L.LLVMGetMDKindIDInContext(ctx, b'tbaa', 4)
        self.fns, self.globs = {}, {}
        self._attr = {n: L.LLVMGetEnumAttributeKindForName(n.encode(), len(n)) for n in
                      ('byval', 'sret', 'noreturn', 'dereferenceable', 'align', 'memory')}
        fs = []
        f = L.LLVMGetFirstFunction(m)
        while f:
            fs.append(f)
            f = L.LLVMGetNextFunction(f)
        gs = []
        g = L.LLVMGetFirstGlobal(m)
        while g:
            gs.append(g)
            g = L.LLVMGetNextGlobal(g)
        for g in gs:
            o = Glob()
            o.name = self._name(g)
            o.ty = self.ty(L.LLVMGlobalGetValueType(g))
            o.const = bool(L.LLVMIsGlobalConstant(g))
            o.linkage = LINK.get(L.LLVMGetLinkage(g), '?')
            o.tls = bool(L.LLVMIsThreadLocal(g))
            o.init = None
            o.align = L.LLVMGetAlignment(g)
            self._val[g] = Const('gref', None, o)
            self.globs[o.name] = o
        for f in fs:
            o = Fn()
            o.name = self._name(f)
            o.decl = bool(L.LLVMIsDeclaration(f))
            o.linkage = LINK.get(L.LLVMGetLinkage(f), '?')
            o.rty = self.ty(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(f)))
            o.vararg = bool(L.LLVMIsFunctionVarArg(L.LLVMGlobalGetValueType(f)))
            o.params, o.blocks, o.ipdom, o.noexit = [], [], None, ()
            o.line = o.file = None
            o.promise = self._promise(f)
            sec = L.LLVMGetSection(f) or b''
            o.fast = sec == b'nsafast'      # see build.gnu
            # versions for several processors (see build.CXXFLAGS), among them some that fuse multiplications and additions
            o.clones = sec.startswith(b'nsaclones') and bool(re.search(rb'fma|haswell|broadwell|lake|znver|bdver2|bdver3|bdver4|x86-64-v[34]|avx512|knl|knm|rapids', sec))
            o.needs = self._features(f)
            o.refuses = bool(L.LLVMGetStringAttributeAtIndex(f, 0xFFFFFFFF, b'dontcall-error', 14))
            self._val[f] = Const('fref', None, o)
            self.fns[o.name] = o
        for g in gs:
            i = L.LLVMGetInitializer(g)
            if i:
                self._val[g].v.init = self.val(i)
        for f in fs:
            self._fn(f, self._val[f].v)
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:                        # another name of a function
            t = self.val(L.LLVMAliasGetAliasee(a))
            if t.k == 'fref' and not t.v.decl:
                o = Fn()
                for k in Fn.__slots__:
                    setattr(o, k, getattr(t.v, k))
                o.name, o.linkage = self._name(a), LINK.get(L.LLVMGetLinkage(a), '?')
                self.fns[o.name] = o
            a = L.LLVMGetNextGlobalAlias(a)

    def _name(self, v):
        n = C.c_size_t()
        s = self.L.LLVMGetValueName2(v, C.byref(n))
        return s[:n.value].decode() if s else ''

    def _str(self, p):
        s = C.cast(p, C.c_char_p).value.decode()
        self.L.LLVMDisposeMessage(p)
        return s

    def ty(self, t):
        if t in self._ty:
            return self._ty[t]
        L = self.L
        o = Ty()
        self._ty[t] = o
        k = L.LLVMGetTypeKind(t)
        o.s = self._str(L.LLVMPrintTypeToString(t))
        o.size = o.store = 0
        names = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 5: 'fp128', 7: 'label', 8: 'int',
                 9: 'func', 10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 14: 'metadata', 16: 'token'}
        o.k = names.get(k, 'other%d' % k)
        if o.k in ('half', 'float', 'double', 'x86_fp80', 'fp128', 'int', 'struct', 'array', 'ptr', 'vector'):
            if not (o.k == 'struct' and 'opaque' in o.s):
                o.size = L.LLVMABISizeOfType(self.dl, t)
                o.store = L.LLVMStoreSizeOfType(self.dl, t)
        if o.k == 'int':
            o.w = L.LLVMGetIntTypeWidth(t)
        elif o.k == 'struct' and o.size:
            n = L.LLVMCountStructElementTypes(t)
            o.fields = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            o.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
        elif o.k == 'array':
            o.el = self.ty(L.LLVMGetElementType(t))
            o.n = L.LLVMGetArrayLength(t)
        elif o.k == 'vector':
            o.el = self.ty(L.LLVMGetElementType(t))
            o.n = L.LLVMGetVectorSize(t)
        elif o.k in ('float',):
            o.w = 32
        elif o.k == 'double':
            o.w = 64
        elif o.k == 'ptr':
            o.w = 8 * o.size
        return o

    def val(self, v):
        if v in self._val:
            return self._val[v]
        L = self.L
        kind = L.LLVMGetValueKind(v)
        ty = self.ty(L.LLVMTypeOf(v))
        r = None
        # value kinds: 8 undef? consult enum by behaviour
        names = {0: 'arg', 1: 'bb', 5: 'fn', 8: 'gvar', 9: 'blockaddr', 10: 'cexpr', 11: 'carray', 12: 'cstruct',
                 13: 'cvector', 14: 'undef', 15: 'zero', 16: 'cdarray', 17: 'cdvector', 18: 'int', 19: 'fp',
                 20: 'null', 21: 'tokennone', 22: 'metadata', 23: 'asm', 24: 'inst', 25: 'poison'}
        k = names.get(kind, '?%d' % kind)
        if k == 'int':
            if ty.w <= 64:
                r = Const('int', ty, L.LLVMConstIntGetZExtValue(v) & ((1 << ty.w) - 1))
            else:
                s = self._str(L.LLVMPrintValueToString(v)).split()[-1]
                r = Const('int', ty, int(s) % (1 << ty.w))
        elif k == 'fp':
            li = C.c_int()
            r = Const('fp', ty, L.LLVMConstRealGetDouble(v, C.byref(li)))
        elif k == 'asm':
            n = C.c_size_t()
            r = Const(k, ty, tuple((C.string_at(p, n.value) if p else b'').decode(errors='replace') for p in
                                   (g(v, C.byref(n)) for g in (L.LLVMGetInlineAsmAsmString, L.LLVMGetInlineAsmConstraintString))))
        elif k in ('undef', 'poison', 'null', 'zero', 'metadata', 'tokennone', 'blockaddr'):
            r = Const(k, ty)
        elif k in ('carray', 'cstruct', 'cvector'):
            n = L.LLVMGetNumOperands(v)
            r = Const('agg', ty, None, [self.val(L.LLVMGetOperand(v, i)) for i in range(n)])
        elif k in ('cdarray', 'cdvector'):
            r = Const('agg', ty, None, [self.val(L.LLVMGetAggregateElement(v, i)) for i in range(ty.n)])
        elif k == 'cexpr':
            op = OPC.get(L.LLVMGetConstOpcode(v), '?')
            n = L.LLVMGetNumOperands(v)
            x = self.ty(L.LLVMGetGEPSourceElementType(v)) if op == 'getelementptr' else None
            r = Const('expr', ty, (op, x), [self.val(L.LLVMGetOperand(v, i)) for i in range(n)])
        elif L.LLVMIsAGlobalAlias(v):
            r = self.val(L.LLVMAliasGetAliasee(v))
        else:
            r = Const('other:' + k, ty)
        self._val[v] = r
        return r

    def _landing(self, bb):
        """what an exception reaching this block meets: a handler, the end of the program, or destructors only"""
        L = self.L
        ins = L.LLVMGetFirstInstruction(bb)
        while ins and OPC.get(L.LLVMGetInstructionOpcode(ins)) != 'landingpad':
            ins = L.LLVMGetNextInstruction(ins)
        if not ins or not L.LLVMGetNumClauses(ins):
            return 'cleanup'
        while ins:
            if OPC.get(L.LLVMGetInstructionOpcode(ins)) == 'call' and self._name(L.LLVMGetCalledValue(ins)) == '__clang_call_terminate':
                return 'terminate'
            ins = L.LLVMGetNextInstruction(ins)
        return 'catch'

    def _plain(self, ins, io):
        """under "pragma STDC FENV_ACCESS" an operation is a call; give it its usual form, with its rounding mode"""
        L = self.L
        name = io.callee.v.name.split('.')[3:]
        md = []
        while io.ops and isinstance(io.ops[-1], Const) and io.ops[-1].k == 'metadata':
            p = L.LLVMGetMDString(L.LLVMGetOperand(ins, len(io.ops) - 1), C.byref(C.c_uint()))
            md.insert(0, p.decode() if p else '?')
            io.ops.pop()
        mode = next((m[6:] for m in md if m.startswith('round.')), None)
        if name[0] in ('fadd', 'fsub', 'fmul', 'fdiv', 'fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            io.op, io.round = name[0], mode
        elif name[0] in ('fcmp', 'fcmps'):
            io.op, io.x = 'fcmp', md[0]
        else:
            f = Fn()
            f.name = 'llvm.' + '.'.join(name) if mode in (None, 'dynamic', 'tonearest') else io.callee.v.name + '.' + mode
            f.decl, f.linkage, f.rty, f.vararg = True, 'external', io.ty, False
            f.params, f.blocks, f.ipdom, f.noexit, f.line, f.file = [], [], None, (), None, None
            f.promise = f.refuses = f.fast = f.clones = None
            f.needs = frozenset()
            io.callee = Const('fref', None, f)
            return False
        return True

    def _access(self, ins):
        """the C type an access is made through, as type-based alias analysis names it"""
        L = self.L
        md = L.LLVMGetMetadata(ins, self._tbaa)
        if not md:
            return None
        if md not in self._tag:
            r = None
            n = L.LLVMGetMDNodeNumOperands(md)
            if n >= 3:
                ops = (C.c_void_p * n)()
                L.LLVMGetMDNodeOperands(md, ops)
                k = L.LLVMGetMDNodeNumOperands(ops[1])
                t = (C.c_void_p * k)()
                L.LLVMGetMDNodeOperands(ops[1], t)
                ln = C.c_uint()
                p = L.LLVMGetMDString(t[0], C.byref(ln)) if k else None
                r = p[:ln.value].decode() if p else None
            self._tag[md] = r
        return self._tag[md]

    def _features(self, f):
        n = C.c_uint()
        a = self.L.LLVMGetStringAttributeAtIndex(f, 0xFFFFFFFF, b'target-features', 15)
        p = self.L.LLVMGetStringAttributeValue(a, C.byref(n)) if a else None
        return frozenset(x for x in C.string_at(p, n.value).decode().split(',') if x[:1] == '+') if p else frozenset()

    def _promise(self, f):
        """what an attribute of the declaration lets the compiler assume: 'const', 'pure' or None"""
        L = self.L
        a = L.LLVMGetEnumAttributeAtIndex(f, 0xFFFFFFFF, self._attr['memory'])
        if not a:
            return None
        m = L.LLVMGetEnumAttributeValue(a)
        if m & ~3 == 0:
            return 'const'      # accesses of argument memory are added for by-value objects
        return 'pure' if m >> 2 == 5 else None

    def _tattr(self, f, idx, name):
        a = self.L.LLVMGetEnumAttributeAtIndex(f, idx, self._attr[name])
        if not a:
            return None
        return self.ty(self.L.LLVMGetTypeAttributeValue(a))

    def _fn(self, f, o):
        L = self.L
        p = L.LLVMGetFirstParam(f)
        i = 0
        while p:
            a = Arg()
            a.idx, a.ty, a.name, a.fn = i, self.ty(L.LLVMTypeOf(p)), self._name(p) or 'arg%d' % i, o
            a.byval = self._tattr(f, i + 1, 'byval')
            a.sret = self._tattr(f, i + 1, 'sret')
            self._val[p] = a
            o.params.append(a)
            p = L.LLVMGetNextParam(p)
            i += 1
        if o.decl:
            return
        bbs = {}
        raw = []
        b = L.LLVMGetFirstBasicBlock(f)
        while b:
            bo = Block()
            bo.id, bo.insts, bo.succs, bo.fn, bo.preds = len(raw), [], [], o, []
            bbs[b] = bo
            raw.append(b)
            o.blocks.append(bo)
            b = L.LLVMGetNextBasicBlock(b)
        insts = []
        nid = 0
        for b in raw:
            ins = L.LLVMGetFirstInstruction(b)
            while ins:
                io = Inst()
                io.id = nid
                nid += 1
                self._val[ins] = io
                bbs[b].insts.append(io)
                insts.append((ins, io))
                ins = L.LLVMGetNextInstruction(ins)
        for ins, io in insts:
            io.op = OPC.get(L.LLVMGetInstructionOpcode(ins), '?')
            io.ty = self.ty(L.LLVMTypeOf(ins))
            io.line = L.LLVMGetDebugLocLine(ins)
            fl = C.c_uint()
            fp = L.LLVMGetDebugLocFilename(ins, C.byref(fl))
            io.file = C.string_at(fp, fl.value).decode() if fp else None
            if o.line is None and io.line:
                o.line, o.file = io.line, io.file
            io.x, io.callee, io.nsw, io.align, io.tbaa = None, None, False, 0, None
            io.round = None
            io.order = 0            # of an atomic access
            io.fmf = L.LLVMGetFastMathFlags(ins) if L.LLVMCanValueUseFastMathFlags(ins) else 0
            n = L.LLVMGetNumOperands(ins)
            op = io.op
            if op == 'phi':
                k = L.LLVMCountIncoming(ins)
                io.ops = []
                io.x = []
                for i in range(k):
                    io.ops.append(self.val(L.LLVMGetIncomingValue(ins, i)))
                    io.x.append(bbs[L.LLVMGetIncomingBlock(ins, i)])
                continue
            if op in ('br', 'switch'):
                if op == 'br':
                    io.ops = [self.val(L.LLVMGetCondition(ins))] if L.LLVMIsConditional(ins) else []
                    io.x = [bbs[L.LLVMGetSuccessor(ins, i)] for i in range(L.LLVMGetNumSuccessors(ins))]
                else:
                    io.ops = [self.val(L.LLVMGetOperand(ins, 0))]
                    ns = L.LLVMGetNumSuccessors(ins)
                    io.x = [bbs[L.LLVMGetSuccessor(ins, 0)]]
                    for i in range(1, ns):
                        io.x.append((self.val(L.LLVMGetOperand(ins, 2 * i)), bbs[L.LLVMGetSuccessor(ins, i)]))
                continue
            if op in ('call', 'invoke'):
                na = L.LLVMGetNumArgOperands(ins)
                io.callee = self.val(L.LLVMGetCalledValue(ins))
                io.ops = [self.val(L.LLVMGetOperand(ins, i)) for i in range(na)]
                if op == 'invoke':
                    io.x = bbs[L.LLVMGetNormalDest(ins)]
                    io.unwind = self._landing(L.LLVMGetUnwindDest(ins))
                if L.LLVMGetCallSiteEnumAttribute(ins, 0xFFFFFFFF, self._attr['noreturn']):
                    io.nsw = 'noreturn'
                if isinstance(io.callee, Const) and io.callee.k == 'fref' and io.callee.v.name.startswith('llvm.experimental.constrained.'):
                    if self._plain(ins, io):
                        continue
                io.tbaa = [self.val(L.LLVMGetOperand(ins, k)) for k in range(na, n - 1)] if op == 'call' and isinstance(io.callee, Const) and \
                    io.callee.k == 'fref' and io.callee.v.name == 'llvm.assume' else None
                io.text = []            # required alignment of each argument
                for i in range(na):
                    a = L.LLVMGetCallSiteEnumAttribute(ins, i + 1, self._attr['align'])
                    io.text.append(L.LLVMGetEnumAttributeValue(a) if a else 0)
                continue
            io.ops = [self.val(L.LLVMGetOperand(ins, i)) for i in range(n)]
            if op == 'icmp':
                io.x = ICMP[L.LLVMGetICmpPredicate(ins)]
            elif op == 'fcmp':
                io.x = FCMP[L.LLVMGetFCmpPredicate(ins)]
            elif op == 'alloca':
                io.x = self.ty(L.LLVMGetAllocatedType(ins))
                io.align = L.LLVMGetAlignment(ins)
            elif op == 'getelementptr':
                io.x = self.ty(L.LLVMGetGEPSourceElementType(ins))
            elif op in ('extractvalue', 'insertvalue'):
                k = L.LLVMGetNumIndices(ins)
                p = L.LLVMGetIndices(ins)
                io.x = [p[i] for i in range(k)]
            elif op == 'shufflevector':
                k = L.LLVMGetNumMaskElements(ins)
                io.x = [L.LLVMGetMaskValue(ins, i) for i in range(k)]
            elif op in ('add', 'sub', 'mul', 'shl'):
                io.nsw = bool(L.LLVMGetNSW(ins))
            elif op in ('load', 'store'):
                io.x = bool(L.LLVMGetVolatile(ins))
                io.align = L.LLVMGetAlignment(ins)
                io.tbaa = self._access(ins)
                io.order = L.LLVMGetOrdering(ins)
            elif op in ('atomicrmw', 'cmpxchg'):
                io.align = 0
                io.order = 7
                io.x = L.LLVMGetAtomicRMWBinOp(ins) if op == 'atomicrmw' else None
        for bo in o.blocks:
            t = bo.insts[-1]
            if t.op == 'br':
                bo.succs = list(t.x)
            elif t.op == 'switch':
                bo.succs = [t.x[0]] + [s for _, s in t.x[1:]]
            elif t.op == 'invoke':
                bo.succs = [t.x]       # exceptional edges are not followed (see DESIGN.md)
            else:
                bo.succs = []
            for s in bo.succs:
                s.preds.append(bo)
        o.ipdom = _ipdom(o)
        o.noexit = _noexit(o)


def _noexit(fn):
    """blocks from which no path leaves the function, ends the program or calls another function"""
    ok = set()
    st = [b for b in fn.blocks if b.insts[-1].op in ('ret', 'unreachable', 'resume') or
          any(i.op in ('call', 'invoke') and not (isinstance(i.callee, Const) and i.callee.k == 'fref' and i.callee.v.name.startswith('llvm.'))
              for i in b.insts)]
    pred = {}
    for b in fn.blocks:
        t = b.insts[-1]
        c = t.ops[0] if t.op == 'br' and t.ops else None
        for k, x in enumerate(b.succs):
            if not (isinstance(c, Const) and c.k == 'int' and k == (1 if c.v else 0)):      # the edge a constant condition never takes
                pred.setdefault(x.id, []).append(b)
    while st:
        b = st.pop()
        if b.id not in ok:
            ok.add(b.id)
            st.extend(pred.get(b.id, ()))
    return {b.id for b in fn.blocks} - ok


def _ipdom(fn):
    """immediate post-dominators; None = virtual exit.  Blocks ending in unreachable/noreturn do not
    constrain their siblings: they count as 'no exit'."""
    blocks = fn.blocks
    n = len(blocks)
    live = set()
    st = [blocks[0]]
    while st:
        b = st.pop()
        if b.id in live:
            continue
        live.add(b.id)
        st.extend(b.succs)
    EXIT = n
    succ = {}
    for b in blocks:
        if b.id not in live:
            continue
        t = b.insts[-1].op
        if t == 'ret':
            succ[b.id] = [EXIT]
        elif t in ('unreachable', 'resume'):
            succ[b.id] = []
        else:
            succ[b.id] = [s.id for s in b.succs]
    # which blocks can reach exit; others are dead ends and ignored as successors
    reach = {EXIT}
    ch = True
    while ch:
        ch = False
        for b, ss in succ.items():
            if b not in reach and any(s in reach for s in ss):
                reach.add(b)
                ch = True
    full = set(x for x in live if x in reach) | {EXIT}
    pd = {b: set(full) for b in full}
    pd[EXIT] = {EXIT}
    ch = True
    while ch:
        ch = False
        for b in sorted(full - {EXIT}, reverse=True):
            ss = [s for s in succ[b] if s in full]
            new = set.intersection(*[pd[s] for s in ss]) | {b} if ss else {b}
            if new != pd[b]:
                pd[b] = new
                ch = True
    res = {}
    for b in full - {EXIT}:
        c = pd[b] - {b}
        ip = None
        for x in c:
            if all(x in pd[y] or y == x for y in c) is False:
                pass
        # immediate: the strict post-dominator that is post-dominated by all the others
        for x in c:
            if pd[x] >= c:
                ip = x
                break
        res[b] = None if ip in (None, EXIT) else blocks[ip]
    return res
