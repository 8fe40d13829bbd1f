"""Models of the library functions and compiler intrinsics the code may call."""
import math
import re
from . import terms as T
from .terms import Node, const

NORETURN = {'abort', 'exit', '_exit', '_Exit', 'quick_exit', '__assert_fail', '__assert', 'llvm.trap', 'llvm.debugtrap',
            '_ZSt9terminatev', '__cxa_throw', '__cxa_rethrow', '__stack_chk_fail', '__clang_call_terminate', 'llvm.ubsantrap'}
OUTPUT = {'fprintf', 'printf', 'puts', 'fputs', 'putchar', 'fputc', 'fflush', 'perror', 'vfprintf', 'fwrite', 'putc', 'dprintf',
          'write', '__fprintf_chk', '__printf_chk', 'snprintf', 'sprintf', 'vsnprintf'}
IMPURE = {'feclearexcept', 'feraiseexcept', 'fetestexcept', 'fesetexceptflag', 'feenableexcept', 'llvm.set.rounding',
          '__errno_location', 'rand', 'random', 'rand_r', 'srand', 'srandom', 'drand48', 'lrand48', 'mrand48', 'time', 'clock', 'gettimeofday', 'clock_gettime',
          'getenv', 'secure_getenv', 'setenv', 'putenv', 'unsetenv', 'system', 'getpid', 'gettid', 'pthread_self', 'sched_getcpu', 'fopen', 'fclose',
          'fread', 'fgets', 'fgetc', 'getchar', 'scanf', 'fscanf', 'open', 'close', 'read', 'signal', 'setlocale', 'localeconv',
          'sleep', 'usleep', 'nanosleep', 'atexit', 'strtok', '_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv'}
PURE_FLOAT = {'fabs': T.fabs, 'floor': lambda a: T.fround_op('floor', a), 'ceil': lambda a: T.fround_op('ceil', a),
              'trunc': lambda a: T.fround_op('trunc', a), 'rint': lambda a: T.fround_op('even', a),
              'nearbyint': lambda a: T.fround_op('even', a), 'roundeven': lambda a: T.fround_op('even', a),
              'round': lambda a: T.fround_op('away', a), 'sqrt': T.fsqrt}


def _fminmax(a, b, mx, x86=False):
    """C fmin/fmax: a NaN operand is ignored"""
    lt = T.flt(b, a) if mx else T.flt(a, b)
    r = T.ite(lt, a, T.ite(T.flt(a, b) if mx else T.flt(b, a), b, T.ite(T.eq(a, b), a, T.opaque(a.w, 'zero-of-either-sign', (a, b)))))
    return T.ite(T.fnan(a), b, T.ite(T.fnan(b), a, r))


ROUND = {0: 'even', 0x400: 'floor', 0x800: 'ceil', 0xc00: 'trunc'}      # x86
ALLOC = {'_Znwm', '_Znam', 'malloc', 'calloc', 'aligned_alloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'}
# constructors and destructors of the standard exception classes
_EXC = re.compile(r'_ZNSt(9exception|11logic_error|12out_of_range|16invalid_argument|12domain_error|12length_error|13runtime_error|11range_error|14overflow_error|15underflow_error)[CD][0-9]E')
FREE = {'_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdaPvSt11align_val_t', '_ZdlPvmSt11align_val_t'}


def model(I, fn, i, name, args, st):
    """None: not modelled; 'dead'; or (value, state)"""
    if name[:5] in ('_Znwj', '_Znaj') or name[:7] in ('_ZdlPvj', '_ZdaPvj'):
        name = name.replace('j', 'm', 1)        # size_t of a 32-bit target
    if name in NORETURN or name.startswith('_ZSt') and '__throw_' in name:
        if name in ('exit', '_exit', '_Exit', 'quick_exit') and isinstance(args[0], Node):
            z = T.eq(T.ext(args[0], 0, 8), const(0, 8))          # the status seen by the parent
            if not (T.isc(z) and not z.x):
                I.ended.append((z if st.guard is None else T.and_(st.guard, z), i, fn, 'exit:0'))
            if T.isc(z) and z.x:
                return 'dead'
        I.ends(st, i, fn, name)
        return 'dead'
    if name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove'):
        d, s, n = args[:3]
        if not T.isc(n):
            from .interp import Undecided
            raise Undecided('copy of variable length', i)
        memcpy(I, fn, i, st, d, s, n.x)
        return (None if name.startswith('llvm') else d), st
    if name.startswith('llvm.memset') or name == 'memset':
        d, v, n = args[:3]
        if not T.isc(n):
            from .interp import Undecided
            raise Undecided('fill of variable length', i)
        v = T.trunc(v, 8)
        for k in range(n.x):
            I.store(st, I.shift(d, k), v, i, fn)
        return (None if name.startswith('llvm') else d), st
    if name in ('llvm.x86.sse.stmxcsr', 'llvm.x86.sse.ldmxcsr'):
        from .interp import MXCSR
        if name.endswith('stmxcsr'):
            m = st.mem[MXCSR.id][0] if MXCSR.id in st.mem else I.mxcsr0()
            I.store(st, args[0], T.or_(m, T.shl(I.rounding(st), const(3, 32))), i, fn)
        else:
            m = I.load(st, args[0], 4, i, fn)
            st.mem[MXCSR.id] = {0: T.and_(m, const(0xffff9fc0, 32))}
            st.own.add(MXCSR.id)
            I.setround(st, T.and_(T.lshr(m, const(3, 32)), const(0xc00, 32)))
        return None, st
    if name == 'fegetround':
        return I.rounding(st), st
    if name == 'fesetround':
        m = I.default(args[0])
        if not (T.isc(m) and m.x in ROUND):
            from .interp import Undecided
            raise Undecided('rounding mode', i)
        I.setround(st, args[0])
        return const(0, 32), st
    b = name.split('.')[1] if name.startswith('llvm.') else name[:-1] if name.endswith('f') else name
    if b in ('rint', 'nearbyint', 'lrint', 'llrint'):
        m = I.default(I.rounding(st))
        if not (T.isc(m) and m.x == 0):
            if not T.isc(m) or b[0] == 'l':
                from .interp import Undecided
                raise Undecided('rounding mode', i)
            return _vec(i, lambda a: T.fround_op(ROUND[m.x], a), args[0]), st
    elif b in ('fma', 'fmuladd', 'sqrt'):
        I.nearest(st, i, fn)
    if name in OUTPUT:
        I.effects.append(('output', st.guard, i, fn, 'call of %s' % name))
        return T.opaque(i.ty.w or 32, 'io result'), st
    if name.startswith('llvm.') and name not in IMPURE and not name.startswith(('llvm.frexp', 'llvm.ldexp')):
        return intrinsic(I, fn, i, name, args, st)
    base = name[:-1] if name.endswith('f') and name[:-1] in PURE_FLOAT else name
    if base in PURE_FLOAT and args and isinstance(args[0], Node) and args[0].w in (32, 64):
        return PURE_FLOAT[base](args[0]), st
    if name in ('fma', 'fmaf'):
        return T.fma(*args), st
    if name in ('fmin', 'fminf', 'fmax', 'fmaxf'):
        return _fminmax(args[0], args[1], 'max' in name), st
    if name in ('copysign', 'copysignf'):
        a, b = args
        return T.or_(T.fabs(a), T.and_(b, const(1 << (b.w - 1), b.w))), st
    if name in ('lrint', 'lrintf', 'llrint', 'llrintf', 'lround', 'lroundf', 'llround', 'llroundf'):
        from .interp import conv_ok
        a = T.fround_op('even' if 'rint' in name else 'away', args[0])
        I.ob('ub', conv_ok(a, i.ty.w, True), st, i, fn, 'conversion of a value out of the range of the integer type')
        return T.fptoi(a, i.ty.w, True), st
    if name in ('abs', 'labs', 'llabs'):
        a = args[0]
        n = T.slt(a, const(0, a.w))
        I.ob('ub', T.not_(T.eq(a, const(1 << (a.w - 1), a.w))), st, i, fn, 'absolute value of the most negative integer')
        return T.ite(n, T.neg(a), a), st
    m = name.split('.')[1] if name.startswith(('llvm.frexp', 'llvm.ldexp')) else name[:-1] if name.endswith('f') else name
    if m == 'frexp':
        from .interp import Agg
        x, e = _frexp(args[0])
        if i.ty.k == 'struct':
            return Agg([x, T.trunc(e, i.ty.fields[1].w) if i.ty.fields[1].w < 32 else e]), st
        I.store(st, args[1], e, i, fn)
        return x, st
    if m in ('ldexp', 'scalbn', 'scalbln') and isinstance(args[1], Node):
        r = _ldexp(args[0], args[1])
        if r is not None:
            return r, st
    if m == 'modf':
        x = args[0]
        t = T.fround_op('trunc', x)
        I.store(st, args[1], t, i, fn)
        sign = T.and_(x, const(1 << (x.w - 1), x.w))
        fr = T.ite(T.feq(T.fabs(x), const(T.f2b(math.inf, x.w), x.w)), const(0, x.w), T.fbin('fsub', x, t))
        return T.ite(T.fnan(x), x, T.or_(T.fabs(fr), sign)), st
    if m in ('nextafter', 'fdim') and isinstance(args[0], Node):
        x, y = args
        nan = T.or_(T.fnan(x), T.fnan(y))
        if m == 'fdim':
            r = T.ite(T.flt(y, x), T.fbin('fsub', x, y), const(0, x.w))
        else:
            zero = T.eq(T.fabs(x), const(0, x.w))
            up = T.eq(T.flt(x, y), T.not_(T.ext(x, x.w - 1, 1)))
            r = T.ite(T.feq(x, y), y, T.ite(zero, T.or_(T.and_(y, const(1 << (x.w - 1), x.w)), const(1, x.w)),
                                            T.ite(up, T.add(x, const(1, x.w)), T.sub(x, const(1, x.w)))))
        return T.ite(nan, const(T.QNAN[x.w], x.w), r), st
    if name == 'strlen':
        return T.opaque(i.ty.w, ('lib', name, i.id, I.steps)), st
    if name in ('div', 'ldiv', 'lldiv'):
        from .interp import Agg
        sret = i.ty.k == 'void'
        x, y = args[-2:]
        if isinstance(x, Node) and isinstance(y, Node):
            q, r = (I.arith(o, x, y, i, fn, st) for o in ('sdiv', 'srem'))
            if sret:
                I.store(st, args[0], T.cat([q, r]), i, fn)
                return None, st
            if i.ty.k == 'int' and i.ty.w == 2 * q.w:
                return T.cat([q, r]), st
            if i.ty.k == 'struct' and len(i.ty.fields) == 2 and i.ty.fields[0].k == 'int' and i.ty.fields[0].w == q.w:
                return Agg([q, r]), st
    if name in ('isnan', '__isnan', '__isnanf', 'isnanf'):
        return T.zext(T.fnan(args[0]), i.ty.w), st
    if name == '__cxa_allocate_exception' and T.isc(args[0]):
        from .interp import Ptr
        return Ptr.to(I.new_heap(st, args[0].x, False)), st
    if name == '__cxa_free_exception' or _EXC.match(name):
        return None, st
    if name in ALLOC and isinstance(args[-1 if name == 'aligned_alloc' else 0], Node):
        n = args[-1 if name == 'aligned_alloc' else 0]
        if name == 'calloc':
            n = T.mul(args[0], args[1])
        if T.isc(n):
            from .interp import Ptr
            return Ptr.to(I.new_heap(st, n.x, name == 'calloc', i)), st
    if name in FREE:
        I.free(st, args[0], i, fn)
        return None, st
    if name.startswith(('_ZNSt7__cxx1112basic_string', '_ZNKSt7__cxx1112basic_string', '_ZNSaIcE', '_ZNSt11char_traits',
                        '_ZStplIcSt11char_traits', '_ZNSt15__new_allocatorIc', '_ZNKSt15__new_allocatorIc')) or name in ALLOC:
        # library objects whose content never reaches a lane: opaque
        t = i.ty
        if t.k == 'void':
            return None, st
        if t.k == 'ptr':
            from .interp import Ptr
            return Ptr.to(I.scratch(st)), st
        return T.opaque(t.w or 8 * t.size, ('lib', name, i.id, I.steps)), st
    if name.startswith(('_ZStls', '_ZNSols', '_ZSt4endl', '_ZNSo5flush', '_ZNSo3put', '_ZNSo5write', '_ZSt5flush', '_ZSt16__ostream')):
        I.effects.append(('output', st.guard, i, fn, 'stream output'))
        return args[0], st
    if name in IMPURE:
        I.effects.append(('state', st.guard, i, fn, 'call of %s' % name))
        if i.ty.k == 'void':
            return None, st
        if i.ty.k == 'ptr':
            from .interp import Ptr
            return Ptr.to(I.scratch(st)), st
        return T.opaque(i.ty.w, ('state', name, i.id, I.steps)), st
    if name in LOCK:
        I.lock(st, args[0], LOCK[name], i, fn)
        return (None if i.ty.k == 'void' else const(0, i.ty.w)), st
    if name == '__cxa_guard_acquire':
        # the initialisation of a function-local static runs exactly once, before anyone sees the object
        I.initdepth += 1
        return const(1, 32), st
    if name in ('__cxa_guard_release', '__cxa_guard_abort'):
        if name == '__cxa_guard_release':
            I.store(st, args[0], const(1, 8), None, fn)
        I.initdepth -= 1
        return None, st
    if name in ('__cxa_atexit', '__cxa_thread_atexit'):
        return const(0, 32), st
    if name in ('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev'):
        return None, st
    if i.nsw == 'noreturn':
        I.ends(st, i, fn, name)
        return 'dead'
    return None


LOCK = {'pthread_mutex_lock': 1, 'pthread_mutex_unlock': -1, 'pthread_spin_lock': 1, 'pthread_spin_unlock': -1, 'mtx_lock': 1, 'mtx_unlock': -1,
        '__gthrw_pthread_mutex_lock': 1, '__gthrw_pthread_mutex_unlock': -1}


def memcpy(I, fn, i, st, d, s, n):
    from .interp import Undecided
    if n == 0:
        return
    if len(d.alts) == 1 and len(s.alts) == 1:
        _, dr, do = d.alts[0]
        _, sr, so = s.alts[0]
        if dr is not None and sr is not None and not isinstance(do, Node) and not isinstance(so, Node) and \
                'scratch' not in (dr.kind, sr.kind):
            ok1 = 0 <= so and so + n <= sr.size
            ok2 = 0 <= do and do + n <= dr.size
            I.ob('mem', const(int(ok1), 1), st, i, fn, 'read of %d bytes at offset %d of %s (%d bytes)' % (n, so, sr.name, sr.size))
            I.ob('mem', const(int(ok2), 1), st, i, fn, 'write of %d bytes at offset %d of %s (%d bytes)' % (n, do, dr.name, dr.size))
            if dr.ro:
                I.ob('mem', const(0, 1), st, i, fn, 'write to read-only %s' % dr.name)
            if sr.id not in st.mem or dr.id not in st.mem:
                raise Undecided('copy of a dead object', i)
            a = max(0, min(n, sr.size - so)) if so >= 0 else 0
            b = max(0, min(n, dr.size - do)) if do >= 0 else 0
            m = min(a, b)
            if sr.glob is not None and not sr.ro:
                I.gread(sr, st, i)
            if i.text and len(i.text) > 1:
                for rr, oo, al, wr in ((dr, do, i.text[0], True), (sr, so, i.text[1], False)):
                    if al > 1:
                        I.aligned(st, rr, oo, i, fn, wr, al)
            if m:
                if dr.kind == 'global':
                    I.gwrite(dr, st, i, fn)
                I.copy(st, dr, do, sr, so, m)
            return
    v = I.load(st, s, n, i, fn)
    I.store(st, d, v, i, fn)


def _vec(i, f, *a):
    if i.ty.k == 'vector':
        n = i.ty.n
        w = a[0].w // n
        return T.cat([f(*[T.ext(x, k * w, w) if isinstance(x, Node) and x.w == n * w else x for x in a]) for k in range(n)])
    return f(*a)


def _popcount(a):
    w = a.w
    k = w.bit_length()
    s = const(0, k)
    for b in range(w):
        s = T.add(s, T.zext(T.ext(a, b, 1), k))
    return T.zext(s, w) if w >= k else T.trunc(s, w)


def _frexp(x):
    w = x.w
    e, k = T.FMT[w]
    bias = T.mask(e - 1)
    ex, fr = T.ext(x, k, e), T.ext(x, 0, k)
    sign = T.and_(x, const(1 << (w - 1), w))
    half = const((bias - 1) << k, w)
    m, n = T.zext(fr, w), T.sub(T.zext(ex, 32), const(bias - 1, 32))
    sub = T.eq(ex, const(0, e))
    sm, sn = const(0, w), const(0, 32)
    for p in range(k):          # the leading bit of a subnormal
        b = T.ext(fr, p, 1)
        sm = T.ite(b, T.zext(T.ext(T.shl(fr, const(k - p, k)), 0, k), w) if p else const(0, w), sm)
        sn = T.ite(b, const(p + 2 - bias - k, 32), sn)
    r = T.or_(sign, T.or_(half, T.ite(sub, sm, m)))
    same = T.or_(T.eq(T.fabs(x), const(0, w)), T.eq(ex, const(T.mask(e), e)))
    return T.ite(same, x, r), T.ite(same, const(0, 32), T.ite(sub, sn, n))


def _ldexp(x, n):
    w = x.w
    if T.isc(n):
        k = T.sgn(n.x, n.w)
        if w == 64:
            return T.fbin('fmul', x, const(T.f2b(2.0 ** k, 64), 64)) if -1022 <= k <= 1023 else None
        n = const(max(-400, min(400, k)), 64)
    elif w == 64:
        return None
    else:
        # the product is exact in binary64: one rounding
        n = T.sext(n, 64) if n.w < 64 else n
        lo, hi = const(-400, 64), const(400, 64)
        n = T.ite(T.slt(n, lo), lo, T.ite(T.slt(hi, n), hi, n))
    return T.fptrunc(T.fbin('fmul', T.fpext(x, 64), T.shl(T.add(n, const(1023, 64)), const(52, 64))), 32)


def _clz(a, low):
    w = a.w
    r = const(w, w)
    rng = range(w) if low is False else range(w - 1, -1, -1)
    for b in rng:
        r = T.ite(T.ext(a, b, 1), const(w - 1 - b if not low else b, w), r)
    return r


def intrinsic(I, fn, i, name, args, st):
    p = name.split('.')
    op = p[1]
    a = args
    if op in ('fabs', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'roundeven', 'round', 'sqrt'):
        return _vec(i, PURE_FLOAT[op], a[0]), st
    if op == 'threadlocal':
        return a[0], st
    if op == 'fma':
        return _vec(i, T.fma, *a), st
    if op == 'fmuladd':
        I.loosen(st, i, fn, 'a multiplication and an addition may be fused')
        return _vec(i, lambda x, y, z: T.fbin('fadd', T.fbin('fmul', x, y), z), *a), st
    if op in ('minnum', 'maxnum'):
        return _vec(i, lambda x, y: _fminmax(x, y, op == 'maxnum'), *a), st
    if op == 'copysign':
        return _vec(i, lambda x, y: T.or_(T.fabs(x), T.and_(y, const(1 << (y.w - 1), y.w))), *a), st
    if op in ('smin', 'smax', 'umin', 'umax'):
        lt = T.slt if op[0] == 's' else T.ult
        f = (lambda x, y: T.ite(lt(y, x), y, x)) if op.endswith('min') else (lambda x, y: T.ite(lt(x, y), y, x))
        return _vec(i, f, *a), st
    if op == 'abs':
        return _vec(i, lambda x: T.ite(T.slt(x, const(0, x.w)), T.neg(x), x), a[0]), st
    if op in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') and len(p) > 2:
        f = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[op[1:]]
        E = T.sext if op[0] == 's' else T.zext

        def ovf(x, y):
            W = 2 * x.w if op.endswith('mul') else x.w + 2
            r = f(x, y)
            return r, T.not_(T.eq(E(r, W), f(E(x, W), E(y, W))))
        if p[2] == 'with':
            from .interp import Agg
            return Agg(list(ovf(*a))), st
        if p[2] == 'sat':
            def sat(x, y):
                w = x.w
                r, o = ovf(x, y)
                if op[0] == 'u':
                    lim = const(T.mask(w), w) if op == 'uadd' else const(0, w)
                else:
                    lim = T.ite(T.slt(x, const(0, w)), const(1 << (w - 1), w), const((1 << (w - 1)) - 1, w))
                return T.ite(o, lim, r)
            return _vec(i, sat, *a), st
    if op == 'ctpop':
        return _vec(i, _popcount, a[0]), st
    if op in ('ctlz', 'cttz'):
        return _vec(i, lambda x: _clz(x, op == 'cttz'), a[0]), st
    if op == 'bswap':
        w = a[0].w
        return T.cat([T.ext(a[0], w - 8 - 8 * k, 8) for k in range(w // 8)]), st
    if op == 'bitreverse':
        w = a[0].w
        return T.cat([T.ext(a[0], w - 1 - k, 1) for k in range(w)]), st
    if op in ('fshl', 'fshr') and T.isc(a[2]):
        w = a[0].w
        k = a[2].x % w
        if op == 'fshr':
            k = (w - k) % w if k else 0
            if k == 0:
                return a[1], st
        if k == 0:
            return a[0], st
        return T.or_(T.shl(a[0], const(k, w)), T.lshr(a[1], const(w - k, w))), st
    if op in ('fshl', 'fshr') and i.ty.k == 'int':
        w = a[0].w
        k = T.div('urem', a[2], const(w, w)) if w & w - 1 else T.and_(a[2], const(w - 1, w))
        both, z = T.cat([a[1], a[0]]), T.zext(k, 2 * w)
        if op == 'fshl':
            return T.ext(T.shl(both, z), w, w), st
        return T.ext(T.lshr(both, z), 0, w), st
    if op in ('fptosi', 'fptoui') and len(p) > 2 and p[2] == 'sat':
        return _vec(i, lambda x: satconv(x, i.ty.w or i.ty.el.w, op == 'fptosi'), a[0]), st
    if op == 'lrint' or op == 'llrint' or op == 'lround' or op == 'llround':
        x = T.fround_op('even' if 'rint' in op else 'away', a[0])
        from .interp import conv_ok
        I.ob('ub', conv_ok(x, i.ty.w, True), st, i, fn, 'conversion of a value out of the range of the integer type')
        return T.fptoi(x, i.ty.w, True), st
    if op == 'is' and p[2] == 'fpclass':
        return fpclass(a[0], a[1].x), st
    if op == 'expect':
        return a[0], st
    if op == 'objectsize':
        return const(-1, i.ty.w), st
    if op == 'is' and p[2] == 'constant':
        return const(0, 1), st
    return None


def satconv(x, w, signed):
    """FCVT: saturating, NaN -> 0 (x already rounded by the caller when not towards zero)"""
    from .interp import conv_ok
    hi = (1 << (w - 1)) - 1 if signed else T.mask(w)
    lo = 1 << (w - 1) if signed else 0
    return T.ite(T.fnan(x), const(0, w), T.ite(conv_ok(x, w, signed), T.fptoi(x, w, signed),
                                              T.ite(T.flt(x, const(0, x.w)), const(lo, w), const(hi, w))))


def fpclass(x, m):
    """llvm.is.fpclass for the masks that matter; bits: snan qnan -inf -norm -sub -0 +0 +sub +norm +inf"""
    w = x.w
    e, k = T.FMT[w]
    ex, fr, s = T.ext(x, k, e), T.ext(x, 0, k), T.ext(x, w - 1, 1)
    mx, ez, fz = T.eq(ex, const(T.mask(e), e)), T.eq(ex, const(0, e)), T.eq(fr, const(0, k))
    ns = T.not_(s)
    q = T.ext(x, k - 1, 1)
    if m & 3 == 3:
        r = T.fnan(x)
    else:
        r = const(0, 1)
        if m & 1:
            r = T.and_(T.fnan(x), T.not_(q))
        if m & 2:
            r = T.and_(T.fnan(x), q)
    inf = T.and_(mx, fz)
    nm = T.and_(T.not_(mx), T.not_(ez))
    sb = T.and_(ez, T.not_(fz))
    z = T.and_(ez, fz)
    for bit, c in ((4, T.and_(inf, s)), (8, T.and_(nm, s)), (16, T.and_(sb, s)), (32, T.and_(z, s)), (64, T.and_(z, ns)),
                   (128, T.and_(sb, ns)), (256, T.and_(nm, ns)), (512, T.and_(inf, ns))):
        if m & bit:
            r = T.or_(r, c)
    return r
