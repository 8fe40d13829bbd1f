"""Check of the checker: random value graphs built through the simplifying constructors against a naive
evaluation kept alongside, and `decide` against exhaustive enumeration on small widths.
    python3 -m nsa.selfcheck [seed] [rounds]"""
import itertools
import math
import random
import sys
from fractions import Fraction
from . import terms as T, prove as P, table


def naive(op, w, v, ws, x=None):
    m = T.mask(w)
    a = v[0]
    b = v[1] if len(v) > 1 else 0
    s = lambda k: v[k] - (1 << ws[k]) if v[k] >> (ws[k] - 1) else v[k]
    if op == 'add': return (a + b) & m
    if op == 'sub': return (a - b) & m
    if op == 'mul': return (a * b) & m
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'zext': return a
    if op == 'sext': return s(0) & m
    if op == 'ext': return (a >> x) & m
    if op == 'cat': return a | b << ws[0]
    if op == 'shl': return (a << b) & m if b < w else 0
    if op == 'lshr': return a >> b if b < w else 0
    if op == 'ashr': return (s(0) >> min(b, w - 1)) & m
    if op == 'udiv': return None if b == 0 else a // b
    if op == 'urem': return None if b == 0 else a % b
    if op in ('sdiv', 'srem'):
        p, q = s(0), s(1)
        if q == 0: return None
        d = abs(p) // abs(q)
        d = d if (p < 0) == (q < 0) else -d
        return (d if op == 'sdiv' else p - d * q) & m
    if op == 'eq': return int(a == b)
    if op == 'ult': return int(a < b)
    if op == 'slt': return int(s(0) < s(1))
    if op == 'ite': return v[1] if a else v[2]


CON = {'add': T.add, 'sub': T.sub, 'mul': T.mul, 'and': T.and_, 'or': T.or_, 'xor': T.xor, 'shl': T.shl, 'lshr': T.lshr, 'ashr': T.ashr,
       'eq': T.eq, 'ult': T.ult, 'slt': T.slt}


def grow(rng, vs, n, widths):
    """list of (node, value function)"""
    pool = [(v, (lambda e, i=v.id: e[i])) for v in vs]
    for _ in range(3):
        w = rng.choice(widths)
        c = rng.choice([0, 1, T.mask(w), 1 << (w - 1), (1 << (w - 1)) - 1, rng.getrandbits(w), 1 << rng.randrange(w), (1 << rng.randrange(w)) - 1])
        pool.append((T.const(c, w), (lambda e, c=c & T.mask(w): c)))
    for _ in range(n):
        op = rng.choice(list(CON) + ['zext', 'sext', 'ext', 'ext', 'cat', 'ite', 'ite', 'udiv', 'urem', 'sdiv', 'srem'])
        p, f = rng.choice(pool)
        try:
            if op in ('zext', 'sext'):
                w = rng.choice([k for k in widths if k >= p.w] or [p.w])
                r = T.zext(p, w) if op == 'zext' else T.sext(p, w)
                ar, x = [(p, f)], None
            elif op == 'ext':
                w = rng.randint(1, p.w)
                x = rng.randint(0, p.w - w)
                r, ar = T.ext(p, x, w), [(p, f)]
            elif op == 'cat':
                q = rng.choice(pool)
                if p.w + q[0].w > max(widths):
                    continue
                r, w, ar, x = T.cat([p, q[0]]), p.w + q[0].w, [(p, f), q], None
            elif op == 'ite':
                c = rng.choice([z for z in pool if z[0].w == 1] or [None])
                q = rng.choice([z for z in pool if z[0].w == p.w])
                if c is None:
                    continue
                r, w, ar, x = T.ite(c[0], p, q[0]), p.w, [c, (p, f), q], None
            else:
                q = rng.choice([z for z in pool if z[0].w == p.w])
                if rng.random() < .3:
                    k = rng.choice([0, 1, 2, p.w - 1, p.w, T.mask(p.w), rng.getrandbits(p.w)]) & T.mask(p.w)
                    q = (T.const(k, p.w), (lambda e, k=k: k))
                    if rng.random() < .3 and op not in ('shl', 'lshr', 'ashr'):
                        p, f, q = q[0], q[1], (p, f)
                x = None
                ar = [(p, f), q]
                if op in CON:
                    r = CON[op](p, q[0])
                else:
                    r = T.div(op, p, q[0])
                w = 1 if op in ('eq', 'ult', 'slt') else p.w
        except RecursionError:
            continue
        ws = [z[0].w for z in ar]

        def g(e, op=op, w=w, ar=ar, ws=ws, x=x):
            v = [h(e) for _, h in ar]
            return None if None in v else naive(op, w, v, ws, x)
        assert r.w == w, (op, r.w, w)
        pool.append((r, g))
    return pool


def b2v(x, w):
    import ctypes
    if w == 32:
        return ctypes.cast(ctypes.pointer(ctypes.c_uint32(x)), ctypes.POINTER(ctypes.c_float))[0]
    return ctypes.cast(ctypes.pointer(ctypes.c_uint64(x)), ctypes.POINTER(ctypes.c_double))[0]


def fl(v, w):
    """v as a value of the w-bit format"""
    import ctypes
    return ctypes.c_float(v).value if w == 32 else float(v)


SPECIAL = [0.0, -0.0, 1.0, -1.0, 2.0, .5, -.5, 1.5, 2.5, -2.5, 2147483648.0, -2147483648.0, 4294967296.0, 4294967040.0, 2147483520.0, 8388609.0, 1e-45, -1e-45,
           1.1754943508222875e-38, 3.4028234663852886e38, math.inf, -math.inf, math.nan, 16777216.0, 255.0, .49999997, 1e300, 5e-324]


def fgrow(rng, fv, iv, n):
    """random float graphs: list of (node, value function, 'f' or 'i')"""
    pool = [(v, (lambda e, v=v: b2v(e[v.id], v.w)), 'f') for v in fv] + [(v, (lambda e, v=v: e[v.id]), 'i') for v in iv]
    for w in (32, 64):
        for _ in range(4):
            c = fl(rng.choice(SPECIAL), w)
            pool.append((T.const(T.f2b(c, w), w), (lambda e, c=c: c), 'f'))

    def sg(x, w):
        return x - (1 << w) if x >> (w - 1) else x

    def binop(op, a, b, w):
        if op == 'fadd': return fl(a + b, w)
        if op == 'fsub': return fl(a - b, w)
        if op == 'fmul': return fl(a * b, w)
        if b == 0:
            return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
        return fl(a / b, w)

    def rnd(m, a):
        if a != a or math.isinf(a) or a == 0:
            return a
        if m == 'away':
            r = math.floor(abs(a))
            r = math.copysign(r + (abs(a) - r >= .5), a)
        else:
            r = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'even': round}[m](a)
        return math.copysign(float(r), a) if r == 0 else float(r)

    def toi(a, w, s):
        if a != a or math.isinf(a):
            return None
        r = math.trunc(a)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        return r & T.mask(w) if lo <= r <= hi else None
    for _ in range(n):
        op = rng.choice(['bin', 'bin', 'cmp', 'cmp', 'cmp', 'ite', 'ite', 'neg', 'abs', 'ext', 'trunc', 'rint', 'rint', 'toi', 'toi', 'itof', 'itof'])
        fs = [z for z in pool if z[2] == 'f']
        a, f, _k = rng.choice(fs)
        w = a.w
        same = [z for z in fs if z[0].w == w]
        b, g, _k = rng.choice(same)
        if op == 'bin':
            o = rng.choice(['fadd', 'fsub', 'fmul', 'fdiv', 'fma'])
            if o == 'fma':
                c, h, _k = rng.choice(same)
                pool.append((T.fma(a, b, c), (lambda e, f=f, g=g, h=h, w=w: b2v(T.fop('fma', w, *[T.f2b(z(e), w) for z in (f, g, h)]), w)), 'f'))
                continue
            pool.append((T.fbin(o, a, b), (lambda e, o=o, f=f, g=g, w=w: binop(o, f(e), g(e), w)), 'f'))
        elif op == 'cmp':
            p = rng.choice(['oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une', 'uno'])

            def h(e, p=p, f=f, g=g):
                x, y = f(e), g(e)
                un = x != x or y != y
                if p in ('ord', 'uno'):
                    return int(un == (p == 'uno'))
                r = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}[p[1:]]
                return int((un or r) if p[0] == 'u' else (r and not un))
            pool.append((T.fcmp(p, a, b), h, 'b'))
        elif op == 'ite':
            cs = [z for z in pool if z[2] == 'b']
            if cs:
                c, h, _k = rng.choice(cs)
                pool.append((T.ite(c, a, b), (lambda e, h=h, f=f, g=g: f(e) if h(e) else g(e)), 'f'))
        elif op == 'neg':
            pool.append((T.fneg(a), (lambda e, f=f: -f(e)), 'f'))
        elif op == 'abs':
            pool.append((T.fabs(a), (lambda e, f=f: abs(f(e))), 'f'))
        elif op == 'ext' and w == 32:
            pool.append((T.fpext(a, 64), f, 'f'))
        elif op == 'trunc' and w == 64:
            pool.append((T.fptrunc(a, 32), (lambda e, f=f: fl(f(e), 32)), 'f'))
        elif op == 'rint':
            m = rng.choice(['floor', 'ceil', 'trunc', 'even', 'away'])
            pool.append((T.fround_op(m, a), (lambda e, m=m, f=f: rnd(m, f(e))), 'f'))
        elif op == 'toi':
            v, s = rng.choice([8, 16, 32, 64]), rng.random() < .5
            pool.append((T.fptoi(a, v, s), (lambda e, v=v, s=s, f=f: toi(f(e), v, s)), 'i'))
        elif op == 'itof':
            c, h, _k = rng.choice([z for z in pool if z[2] == 'i'])
            v, s = rng.choice([32, 64]), rng.random() < .5
            if rng.random() < .5 and c.w < 64:
                h0, s0 = h, rng.random() < .5
                if s0:
                    h = lambda e, h=h0, n=c.w: None if h(e) is None else sg(h(e), n) & T.mask(64)
                c = T.sext(c, 64) if s0 else T.zext(c, 64)

            def k(e, h=h, v=v, s=s, n=c.w):
                x = h(e)
                return None if x is None else b2v(T.fround(Fraction(sg(x, n) if s else x), v), v)
            pool.append((T.itofp(c, v, s), (lambda e, k=k: math.nan if k(e) is None else k(e)), 'f' if False else 'x'))
            if c.op != 'x':
                # a conversion of an undefined conversion has no value: keep it out of the pool of operands
                pool[-1] = (pool[-1][0], k, 'x')
    return pool


def floats(rng, rounds, seed):
    checked = claims = 0
    for k in range(rounds):
        T.reset()
        P.reset()
        P._floors.clear()
        fv = [T.var('f%d' % i, w, 'f') for i, w in enumerate([32, 32, 64])]
        iv = [T.var('i%d' % i, w, 's') for i, w in enumerate([8, 32, 64])]
        pool = fgrow(rng, fv, iv, 40)
        envs = []
        for _ in range(16):
            e = {v.id: T.f2b(fl(rng.choice(SPECIAL), v.w), v.w) if rng.random() < .6 else rng.getrandbits(v.w) for v in fv}
            e.update({v.id: rng.choice([rng.getrandbits(v.w), 0, T.mask(v.w), 1 << (v.w - 1)]) for v in iv})
            envs.append(e)
        tab = []
        cmemo = {}

        def canon(n):
            if n.id not in cmemo:
                cmemo[n.id] = P.fcanon(n)
            return cmemo[n.id]
        for n, f, kind in pool:
            vals = []
            for e in envs:
                want = f(e)
                if want is None:
                    vals.append(None)
                    continue
                try:
                    got = T.evaluate(n, e)
                except T.NoEval:
                    vals.append(None)
                    continue
                checked += 1
                if kind in 'fx':
                    ok = T.isnan_b(got, n.w) if want != want else got == T.f2b(want, n.w)
                    vals.append('nan' if want != want else T.f2b(want, n.w))
                else:
                    ok = got == want
                    vals.append(want)
                if kind == 'f' and ok:
                    got = T.evaluate(canon(n), e)
                    ok = T.isnan_b(got, n.w) if want != want else got == T.f2b(want, n.w)
                if not ok:
                    raise SystemExit('float constructor: seed %d round %d: %r at %s is %#x, not %r' % (seed, k, n, e, got, want))
            if kind != 'x':
                tab.append((n, vals, kind))
        for _ in range(6):
            (a, va, ka), (b, vb, kb) = rng.choice(tab), rng.choice(tab)
            if ka != kb or a.w != b.w or a is b:
                continue
            v = P.decide(a, b, ka == 'f', limit=60, tries=60)
            claims += 1
            if v.kind == 'proved' and any(x != y for x, y in zip(va, vb) if None not in (x, y)):
                raise SystemExit('decide: seed %d round %d: claims %r == %r' % (seed, k, a, b))
    return checked, claims


def directed(rng, rounds):
    """an operation in a directed rounding mode yields the neighbour of the exact result on the right side"""
    k = 0
    for _ in range(rounds * 20):
        w = rng.choice([32, 64])
        e, m = T.FMT[w]
        z = lambda: (rng.getrandbits(1) << (w - 1)) | (rng.randrange((1 << e) - 1) if rng.random() < .3 else (1 << (e - 1)) - 1 + rng.randrange(-4, 5)) << m | rng.choice(
            [0, 1, rng.getrandbits(m), (1 << m) - 1])
        op = rng.choice(['fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt', 'fptrunc', 'sitofp', 'uitofp'])
        mode = rng.choice(['floor', 'ceil', 'trunc'])
        aw, v = w, [z(), z()]
        if op == 'fptrunc':
            aw, w, v = 64, 32, [rng.getrandbits(64) & ~(0x7ff << 52) | (1023 + rng.randrange(-160, 140)) << 52]
        elif op == 'fsqrt':
            v = [v[0] & T.mask(w - 1)]
        elif 'itofp' in op:
            aw, v = 64, [rng.getrandbits(rng.choice([20, 40, 64]))]
        if op == 'fdiv' and not v[1] & T.mask(w - 1):
            continue
        if 'itofp' in op:
            r = Fraction(T.sgn(v[0], 64) if op[0] == 's' else v[0])
        else:
            f = [Fraction(T.b2f(x, aw)) for x in v]
            r = {'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b, 'fmul': lambda a, b: a * b, 'fdiv': lambda a, b: a / b}.get(op, lambda *a: a[0])(*f)
        n = T.fdirected(op, mode, w, aw, *v)
        key = lambda b: b if not b >> (w - 1) else -(b & T.mask(w - 1))        # order of the bit patterns
        pat = lambda i: i if i >= 0 else -i | 1 << (w - 1)
        top = T.mask(T.FMT[w][0]) << T.FMT[w][1]

        def val(b):
            x = T.b2f(b, w)
            return x if math.isinf(x) else (Fraction(x) ** 2 if op == 'fsqrt' and x > 0 else Fraction(x))
        d = {'floor': -1, 'ceil': 1, 'trunc': -1 if r > 0 else 1}[mode]
        x = val(n)
        ok = x == r or (x < r if d < 0 else x > r) and abs(key(n)) <= top
        if ok and x != r and not math.isinf(x) or ok and math.isinf(x):
            y = val(pat(key(n) - d))
            ok = y > r if d < 0 else y < r
        if not ok:
            raise SystemExit('directed rounding: %s %s%d of %s is not %#x' % (mode, op, w, [hex(q) for q in v], n))
        k += 1
    return k


def tabled(n, e, other):
    """the value of n under e read from its table"""
    vs = table.support(n)
    if vs is None:
        return other
    t = table.tab(vs)
    m = o = 0
    for v, k in vs:
        for b in range(v.w):
            if k >> b & 1:
                m |= (e[v.id] >> b & 1) << o
                o += 1
    return sum((x >> m & 1) << i for i, x in enumerate(t.get(n)))


def main(seed=1, rounds=300):
    sys.setrecursionlimit(100000)
    rng = random.Random(seed)
    checked = claims = refuted = unknown = 0
    for k in range(rounds):
        T.reset()
        P.reset()
        P._floors.clear()
        small = k % 2
        widths = [1, 2, 3, 4, 8] if small else [1, 8, 16, 32, 33, 64]
        vs = [T.var('x%d' % i, w, rng.choice('us')) for i, w in enumerate([3, 3, 1] if small else [8, 16, 32, 64])]
        pool = grow(rng, vs, 40, widths)
        envs = [{v.id: rng.choice([rng.getrandbits(v.w), 0, T.mask(v.w), 1, 1 << (v.w - 1)]) for v in vs} for _ in range(6)]
        if small:
            envs = [{v.id: x for v, x in zip(vs, t)} for t in itertools.product(*[range(1 << v.w) for v in vs])]
        tab = []
        for n, f in pool:
            vals = []
            for e in envs:
                want = f(e)
                vals.append(want)
                if want is None:
                    continue
                try:
                    got = T.evaluate(n, e)
                except T.NoEval:
                    continue
                checked += 1
                if got == want:
                    got = tabled(n, e, got)
                if got != want:
                    raise SystemExit('constructor: seed %d round %d: %r at %s is %d, not %d' % (seed, k, n, e, got, want))
            tab.append((n, vals))
        if not small:
            continue
        for _ in range(12):
            (a, va), (b, vb) = rng.choice(tab), rng.choice(tab)
            if rng.random() < .5:
                same = [t for t in tab if t[0].w == a.w and t[1] == va and t[0] is not a]
                if same:
                    b, vb = rng.choice(same)
            if a.w != b.w or None in va or None in vb or a is b:
                continue
            v = P.decide(a, b, tries=200)
            claims += 1
            if v.kind == 'proved' and va != vb:
                raise SystemExit('decide: seed %d round %d: claims %r == %r' % (seed, k, a, b))
            if v.kind == 'refuted' and va == vb:
                raise SystemExit('decide: seed %d round %d: refutes %r == %r with %s' % (seed, k, a, b, v.env))
            refuted += v.kind == 'refuted'
            unknown += v.kind == 'unknown'
    fc, fd = floats(rng, rounds, seed)
    checked += fc + directed(rng, rounds)
    claims += fd
    print('self-check: %d evaluations, %d decisions (%d refuted, %d unknown), no disagreement' % (checked, claims, refuted, unknown))


if __name__ == '__main__':
    main(*[int(x) for x in sys.argv[1:]])
