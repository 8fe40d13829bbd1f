"""Value-graph nodes (hash-consed) and their local simplification.

A node denotes a w-bit vector.  Floats are bit vectors too; floating point operators are functions on
bit vectors, so bit casts are free.  Memory cells, SSA values and specification lanes all use the same
nodes, which makes "computes the same value" a question about two nodes.

  c n            constant                      v name         an input (lane or scalar argument)
  u id           undefined content             op ...         uninterpreted (opaque) value
  add sub mul and or xor shl lshr ashr udiv sdiv urem srem    as in LLVM IR (wrapping)
  zext sext      widening                      ext(a, lo)     w bits of a starting at bit lo
  cat(p0..pn)    concatenation, p0 lowest      ite(c, a, b)   gated join
  eq ult slt     1-bit comparisons
  flt feq fnan   1-bit float predicates (ordered <, ordered ==, is-NaN)
  fadd fsub fmul fdiv fma fsqrt frint* fptosi fptoui sitofp uitofp fpext fptrunc
"""
import ctypes
import math
import struct
from fractions import Fraction


class Node:
    __slots__ = ('op', 'w', 'a', 'x', 'id', 'nz', 'undef', 'hasf')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]
SB = {}       # var name -> True if signed base


def reset():
    _tab.clear()
    _n[0] = 0


def _mk(op, w, a=(), x=None):
    k = (op, w, tuple(i.id for i in a), x)
    r = _tab.get(k)
    if r is None:
        r = Node()
        r.op, r.w, r.a, r.x = op, w, tuple(a), x
        r.id = _n[0]
        _n[0] += 1
        r.undef = op == 'u' or any(i.undef for i in a)
        r.hasf = op[0] == 'f' or any(i.hasf for i in a)
        r.nz = None
        _tab[k] = r
    return r


def mask(w):
    return (1 << w) - 1


def sgn(n, w):
    n &= mask(w)
    return n - (1 << w) if n >> (w - 1) else n


def const(n, w):
    return _mk('c', w, (), n & mask(w))


def var(name, w, kind='u'):
    """kind: u unsigned base, s signed base, f float bits, p polynomial (unsigned)"""
    return _mk('v', w, (), (name, kind))


_undef = [0]


def undef(w, tag=None):
    if tag is None:
        _undef[0] += 1
        tag = (_undef[0], 0)
    return _mk('u', w, (), tag)


def opaque(w, name, args=()):
    return _mk('op', w, args, name)


TRUE = lambda: const(1, 1)
FALSE = lambda: const(0, 1)


def isc(n):
    return n.op == 'c'


def nz(n):
    """mask of the bits that may be one"""
    r = n.nz
    if r is None:
        op = n.op
        if op == 'c':
            r = n.x
        elif op == 'zext':
            r = nz(n.a[0])
        elif op == 'sext':
            r = nz(n.a[0])
            if r >> (n.a[0].w - 1):
                r |= mask(n.w) & ~mask(n.a[0].w)
        elif op == 'and':
            r = nz(n.a[0]) & nz(n.a[1])
        elif op in ('or', 'xor'):
            r = nz(n.a[0]) | nz(n.a[1])
        elif op == 'ite':
            r = nz(n.a[1]) | nz(n.a[2])
        elif op == 'cat':
            r = o = 0
            for p in n.a:
                r |= nz(p) << o
                o += p.w
        elif op == 'shl' and isc(n.a[1]):
            r = nz(n.a[0]) << n.a[1].x & mask(n.w)
        else:
            r = mask(n.w)
        n.nz = r
    return r


def add(a, b):
    assert a.w == b.w
    w = a.w
    if w > 1 and nz(a) & nz(b) == 0:      # no carries
        return _bw('or', a, b)
    if isc(a) and isc(b):
        return const(a.x + b.x, w)
    if isc(a):
        a, b = b, a
    if isc(b):
        if b.x == 0:
            return a
        if a.op == 'add' and isc(a.a[1]):
            return add(a.a[0], const(a.a[1].x + b.x, w))
    elif a.id > b.id:
        a, b = b, a
    return _mk('add', w, (a, b))


def sub(a, b):
    assert a.w == b.w
    w = a.w
    if isc(b):
        return add(a, const(-b.x, w))
    if a is b:
        return const(0, w)
    if isc(a) and isc(b):
        return const(a.x - b.x, w)
    (p, k), (q, l) = _plus(a), _plus(b)
    if p is q:
        return const(k - l, w)
    return _mk('sub', w, (a, b))


def _plus(a):
    return (a.a[0], a.a[1].x) if a.op == 'add' and isc(a.a[1]) else (a, 0)


def neg(a):
    return sub(const(0, a.w), a)


def mul(a, b):
    assert a.w == b.w
    w = a.w
    if isc(a) and isc(b):
        return const(a.x * b.x, w)
    if isc(a):
        a, b = b, a
    if isc(b):
        if b.x == 0:
            return b
        if b.x == 1:
            return a
        # a power of two is a shift: one normal form for both spellings
        if b.x & (b.x - 1) == 0:
            return shl(a, const(b.x.bit_length() - 1, w))
    elif a.id > b.id:
        a, b = b, a
    return _mk('mul', w, (a, b))


def _bw(op, a, b):
    assert a.w == b.w
    w = a.w
    if isc(a):
        a, b = b, a
    if isc(b):
        m = mask(w)
        if isc(a):
            return const({'and': a.x & b.x, 'or': a.x | b.x, 'xor': a.x ^ b.x}[op], w)
        if op == 'and':
            if b.x == 0:
                return b
            if b.x == m:
                return a
        elif op == 'or':
            if b.x == 0:
                return a
            if b.x == m:
                return b
        elif b.x == 0:
            return a
        if a.op == op and isc(a.a[1]):
            return _bw(op, a.a[0], _bw(op, a.a[1], b))
    if a is b:
        return a if op != 'xor' else const(0, w)
    # pull extensions outwards
    for p, q in ((a, b), (b, a)):
        if p.op == 'zext':
            n = p.a[0].w
            if q.op == 'zext' and q.a[0].w == n:
                return zext(_bw(op, p.a[0], q.a[0]), w)
            if isc(q) and (op == 'and' or q.x >> n == 0):
                return zext(_bw(op, p.a[0], const(q.x, n)), w)
        if p.op == 'sext':
            n = p.a[0].w
            if q.op == 'sext' and q.a[0].w == n:
                return sext(_bw(op, p.a[0], q.a[0]), w)
            if isc(q) and sgn(q.x, n) & mask(w) == q.x:
                return sext(_bw(op, p.a[0], const(q.x, n)), w)
            if isc(q) and op == 'and' and q.x >> n == 0:
                return zext(_bw('and', p.a[0], const(q.x, n)), w)
    if isc(b):
        if op == 'and' and b.x & (b.x + 1) == 0:          # low mask
            k = b.x.bit_length()
            return zext(ext(a, 0, k), w)
        if op == 'and' and b.x & -b.x and (b.x // (b.x & -b.x)) & (b.x // (b.x & -b.x) + 1) == 0 and \
                a.op in ('v', 'ext', 'cat', 'op', 'u'):   # one run of bits
            lo, hi = (b.x & -b.x).bit_length() - 1, b.x.bit_length()
            ps = ([const(0, lo)] if lo else []) + [ext(a, lo, hi - lo)] + ([const(0, w - hi)] if hi < w else [])
            return cat(ps)
        if a.op == 'cat' and w > 1:
            parts, lo = [], 0
            for p in a.a:
                parts.append(_bw(op, p, const(b.x >> lo, p.w)))
                lo += p.w
            return cat(parts)
    if a.op == 'cat' and b.op == 'cat' and [p.w for p in a.a] == [p.w for p in b.a]:
        return cat([_bw(op, p, q) for p, q in zip(a.a, b.a)])
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return _mk(op, w, (a, b))


def and_(a, b):
    return _bw('and', a, b)


def or_(a, b):
    return _bw('or', a, b)


def xor(a, b):
    return _bw('xor', a, b)


def not_(a):
    return xor(a, const(-1, a.w))


def zext(a, w):
    if a.w == w:
        return a
    assert a.w < w
    if isc(a):
        return const(a.x, w)
    if a.op == 'zext':
        return zext(a.a[0], w)
    return _mk('zext', w, (a,))


def sext(a, w):
    if a.w == w:
        return a
    assert a.w < w
    if isc(a):
        return const(sgn(a.x, a.w), w)
    if a.op == 'zext':
        return zext(a.a[0], w)
    if a.op == 'sext':
        return sext(a.a[0], w)
    return _mk('sext', w, (a,))


def ext(a, lo, w):
    if lo == 0 and w == a.w:
        return a
    assert 0 <= lo and w > 0 and lo + w <= a.w, (a.w, lo, w)
    op = a.op
    if op == 'c':
        return const(a.x >> lo, w)
    if op == 'u':
        return undef(w, (a.x[0], a.x[1] + lo))
    if op == 'ext':
        return ext(a.a[0], a.x + lo, w)
    if op in ('zext', 'sext'):
        n = a.a[0].w
        if lo + w <= n:
            return ext(a.a[0], lo, w)
        if op == 'zext':
            if lo >= n:
                return const(0, w)
            return zext(ext(a.a[0], lo, n - lo), w)
        if lo >= n:
            return sext(ext(a.a[0], n - 1, 1), w)
        return sext(ext(a.a[0], lo, n - lo), w)
    if op == 'cat':
        parts, off = [], 0
        for p in a.a:
            s, e = max(lo, off), min(lo + w, off + p.w)
            if s < e:
                parts.append(ext(p, s - off, e - s))
            off += p.w
        return cat(parts)
    if op in ('and', 'or', 'xor'):
        return _bw(op, ext(a.a[0], lo, w), ext(a.a[1], lo, w))
    if op == 'ite':
        return ite(a.a[0], ext(a.a[1], lo, w), ext(a.a[2], lo, w))
    if lo == 0:
        if op == 'add':
            return add(ext(a.a[0], 0, w), ext(a.a[1], 0, w))
        if op == 'sub':
            return sub(ext(a.a[0], 0, w), ext(a.a[1], 0, w))
        if op == 'mul':
            return mul(ext(a.a[0], 0, w), ext(a.a[1], 0, w))
    if op == 'shl' and isc(a.a[1]):
        k = a.a[1].x
        if k < a.w:
            if lo >= k:
                return ext(a.a[0], lo - k, w)
            if lo + w <= k:
                return const(0, w)
            if lo == 0:
                return shl(ext(a.a[0], 0, w), const(k, w))
            return cat([const(0, k - lo), ext(a.a[0], 0, w - (k - lo))])
    if op in ('lshr', 'ashr') and isc(a.a[1]) and a.a[1].x < a.w:
        k = a.a[1].x
        if lo + w + k <= a.w:
            return ext(a.a[0], lo + k, w)
        if lo + k < a.w:
            e = ext(a.a[0], lo + k, a.w - lo - k)
            return zext(e, w) if op == 'lshr' else sext(e, w)
    return _mk('ext', w, (a,), lo)


trunc = lambda a, w: ext(a, 0, w)


def cat(parts):
    """parts low to high"""
    out = []
    for p in parts:
        if p.op == 'cat':
            out2 = p.a
        else:
            out2 = (p,)
        for q in out2:
            if out:
                r = out[-1]
                if isc(r) and isc(q):
                    out[-1] = const(r.x | q.x << r.w, r.w + q.w)
                    continue
                if r.op == 'u' and q.op == 'u' and r.x[0] == q.x[0] and r.x[1] + r.w == q.x[1]:
                    out[-1] = undef(r.w + q.w, r.x)
                    continue
                rs, rl = (r.a[0], r.x) if r.op == 'ext' else (r, 0)
                if q.op == 'ext' and q.a[0] is rs and q.x == rl + r.w and (r.op == 'ext' or rs is r):
                    if r.op == 'ext':
                        out[-1] = ext(rs, rl, r.w + q.w)
                        continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    if len(out) == 2 and isc(out[1]) and out[1].x == 0:
        return zext(out[0], out[0].w + out[1].w)
    # byte-wise pieces of a gated value are re-joined under the gate
    if all(p.op == 'ite' and p.a[0] is out[0].a[0] for p in out):
        return ite(out[0].a[0], cat([p.a[1] for p in out]), cat([p.a[2] for p in out]))
    return _mk('cat', sum(p.w for p in out), out)


def shl(a, b):
    w = a.w
    if isc(b):
        k = b.x
        if k == 0:
            return a
        if k >= w:
            return const(0, w)
        if isc(a):
            return const(a.x << k, w)
        if a.op == 'shl' and isc(a.a[1]):
            return shl(a.a[0], const(min(k + a.a[1].x, w), w))
        return _mk('shl', w, (a, b))
    return _mk('shl', w, (a, b))


def lshr(a, b):
    w = a.w
    if isc(b):
        k = b.x
        if k == 0:
            return a
        if k >= w:
            return const(0, w)
        if isc(a):
            return const(a.x >> k, w)
        return zext(ext(a, k, w - k), w)
    return _mk('lshr', w, (a, b))


def ashr(a, b):
    w = a.w
    if isc(b):
        k = b.x
        if k == 0:
            return a
        k = min(k, w - 1)
        if isc(a):
            return const(sgn(a.x, w) >> k, w)
        return sext(ext(a, k, w - k), w)
    return _mk('ashr', w, (a, b))


def _div(op, a, b):
    w = a.w
    if isc(b) and b.x:
        if isc(a):
            x, y = a.x, b.x
            if op == 'udiv':
                return const(x // y, w)
            if op == 'urem':
                return const(x % y, w)
            x, y = sgn(x, w), sgn(y, w)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return const(q if op == 'sdiv' else x - q * y, w)
        if b.x == 1:
            return a if op in ('udiv', 'sdiv') else const(0, w)
        if b.x & (b.x - 1) == 0 and op in ('udiv', 'urem'):
            k = b.x.bit_length() - 1
            return lshr(a, const(k, w)) if op == 'udiv' else zext(ext(a, 0, k), w)
    return _mk(op, w, (a, b))


def div(op, a, b):
    return _div(op, a, b)


def eq(a, b):
    assert a.w == b.w
    if a is b:
        return const(1, 1)
    if isc(a) and isc(b):
        return const(a.x == b.x, 1)
    if isc(a):
        a, b = b, a
    if isc(b) and a.w == 1:
        return a if b.x else not_(a)
    if isc(b) and a.op == 'zext':
        n = a.a[0].w
        if b.x >> n:
            return const(0, 1)
        return eq(a.a[0], const(b.x, n))
    if isc(b) and a.op == 'sext':
        n = a.a[0].w
        if sgn(b.x, n) & mask(a.w) != b.x:
            return const(0, 1)
        return eq(a.a[0], const(b.x, n))
    if isc(b):
        z = nz(a)
        if b.x & ~z:
            return const(0, 1)
        if z & (z - 1) == 0 and z:        # a single bit decides
            k = z.bit_length() - 1
            return ext(a, k, 1) if b.x else not_(ext(a, k, 1))
        if a.op == 'cat' and any(isc(p) for p in a.a):
            o, r = 0, const(1, 1)
            for p in a.a:
                r = and_(r, eq(p, const(b.x >> o, p.w)))
                o += p.w
            return r
    if isc(b) and a.op == 'ite' and (isc(a.a[1]) or isc(a.a[2])):
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return _mk('eq', 1, (a, b))


def ult(a, b):
    if a is b:
        return const(0, 1)
    if isc(a) and isc(b):
        return const(a.x < b.x, 1)
    if isc(b) and b.x == 0 or isc(a) and a.x == mask(a.w):
        return const(0, 1)
    if isc(b) and a.op == 'zext' and b.x > mask(a.a[0].w):
        return const(1, 1)
    if isc(a) and b.op == 'zext' and a.x >= mask(b.a[0].w):
        return const(0, 1)
    return _mk('ult', 1, (a, b))


def slt(a, b):
    if a is b:
        return const(0, 1)
    if isc(a) and isc(b):
        return const(sgn(a.x, a.w) < sgn(b.x, b.w), 1)
    if isc(b) and b.x == 0:
        return ext(a, a.w - 1, 1) if a.op in ('and', 'or', 'xor', 'v', 'ite', 'cat', 'ext', 'zext') else _mk('slt', 1, (a, b))
    if isc(b) and a.op in ('sext', 'zext'):
        n = a.a[0].w
        c = sgn(b.x, b.w)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if a.op == 'sext' else (0, (1 << n) - 1)
        if c > hi:
            return const(1, 1)
        if c <= lo:
            return const(0, 1)
    if isc(a) and b.op in ('sext', 'zext'):
        n = b.a[0].w
        c = sgn(a.x, a.w)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if b.op == 'sext' else (0, (1 << n) - 1)
        if c >= hi:
            return const(0, 1)
        if c < lo:
            return const(1, 1)
    return _mk('slt', 1, (a, b))


def icmp(p, a, b):
    if p == 'eq':
        return eq(a, b)
    if p == 'ne':
        return not_(eq(a, b))
    if p == 'ult':
        return ult(a, b)
    if p == 'ugt':
        return ult(b, a)
    if p == 'ule':
        return not_(ult(b, a))
    if p == 'uge':
        return not_(ult(a, b))
    if p == 'slt':
        return slt(a, b)
    if p == 'sgt':
        return slt(b, a)
    if p == 'sle':
        return not_(slt(b, a))
    if p == 'sge':
        return not_(slt(a, b))
    raise ValueError(p)


def ite(c, a, b):
    assert a.w == b.w and c.w == 1
    if isc(c):
        return a if c.x else b
    if a is b:
        return a
    if c.op == 'xor' and isc(c.a[1]):
        return ite(c.a[0], b, a)
    if a.w == 1 and isc(a) and isc(b):
        return c if a.x else not_(c)
    if a.op == 'ite' and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.op == 'ite' and b.a[0] is c:
        return ite(c, a, b.a[2])
    return _mk('ite', a.w, (c, a, b))


# ---------------------------------------------------------------- floats
FMT = {16: (5, 10), 32: (8, 23), 64: (11, 52)}


def f2b(x, w):
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    if x != x:
        return 0x7fc00000
    return struct.unpack('<I', bytes(ctypes.c_float(x)))[0]


def b2f(n, w):
    return struct.unpack('<d', struct.pack('<Q', n))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', n))[0]


def isnan_b(n, w):
    e, m = FMT[w]
    return (n >> m) & mask(e) == mask(e) and n & mask(m) != 0


QNAN = {32: 0x7fc00000, 64: 0x7ff8000000000000}


def fround(x, w):
    """Fraction -> bits, round to nearest even (sign of zero: +)"""
    if x == 0:
        return 0
    s = x < 0
    x = abs(x)
    e, m = FMT[w]
    bias = (1 << (e - 1)) - 1
    k = x.numerator.bit_length() - x.denominator.bit_length()
    if Fraction(2) ** k > x:
        k -= 1
    k = max(k, 1 - bias)
    q = x / Fraction(2) ** (k - m)
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or r == Fraction(1, 2) and n & 1:
        n += 1
    if n >> (m + 1):
        n >>= 1
        k += 1
    if n >> m == 0:
        bits = n
    elif k > bias:
        bits = mask(e) << m
    else:
        bits = (k + bias) << m | n & mask(m)
    return bits | s << (w - 1)


def fop(op, w, *bits):
    """exact IEEE evaluation on bit patterns, round to nearest even"""
    if any(isnan_b(b, w) for b in bits):
        return QNAN[w]
    f = [b2f(b, w) for b in bits]
    sg = [b >> (w - 1) for b in bits]
    if op == 'fma':
        a, b, c = f
        if math.isinf(a) or math.isinf(b):
            if a == 0 or b == 0:
                return QNAN[w]
            ps = sg[0] ^ sg[1]
            if math.isinf(c) and sg[2] != ps:
                return QNAN[w]
            return f2b(-math.inf if ps else math.inf, w)
        if math.isinf(c):
            return bits[2]
        r = Fraction(a) * Fraction(b) + Fraction(c)
        if r == 0:
            if Fraction(a) * Fraction(b) == 0 and c == 0:
                return (1 << (w - 1)) if (sg[0] ^ sg[1]) and sg[2] else 0
            return 0
        return fround(r, w)
    if op == 'fsqrt':
        if f[0] < 0:
            return QNAN[w]
        return f2b(math.sqrt(f[0]), w)
    a, b = f
    inf = 1 << (w - 1)
    e, m = FMT[w]
    INF = mask(e) << m
    if op == 'fadd' or op == 'fsub':
        if op == 'fsub':
            b = -b
            sg[1] ^= 1
        if math.isinf(a) or math.isinf(b):
            if math.isinf(a) and math.isinf(b) and a != b:
                return QNAN[w]
            return f2b(a if math.isinf(a) else b, w)
        r = Fraction(a) + Fraction(b)
        if r == 0:
            return inf if sg[0] and sg[1] and a == 0 and b == 0 else 0
        return fround(r, w)
    s = (sg[0] ^ sg[1]) << (w - 1)
    if op == 'fmul':
        if math.isinf(a) or math.isinf(b):
            return QNAN[w] if a == 0 or b == 0 else INF | s
        r = Fraction(a) * Fraction(b)
        return s if r == 0 else (fround(abs(r), w) | s)
    if op == 'fdiv':
        if math.isinf(a):
            return QNAN[w] if math.isinf(b) else INF | s
        if math.isinf(b):
            return s
        if b == 0:
            return QNAN[w] if a == 0 else INF | s
        r = Fraction(a) / Fraction(b)
        return s if r == 0 else (fround(abs(r), w) | s)
    raise ValueError(op)


def fexact(op, w, *bits):
    """the exact value of an operation on finite operands (the square of it for a square root); w: width of the operands, 0 for integers"""
    f = [Fraction(b2f(b, w)) for b in bits]
    if op == 'fma':
        return f[0] * f[1] + f[2]
    return f[0] + f[1] if op == 'fadd' else f[0] - f[1] if op == 'fsub' else f[0] * f[1] if op == 'fmul' else f[0] / f[1] if op == 'fdiv' else f[0]


def fdirected(op, mode, w, aw, *bits):
    """exact IEEE evaluation under a directed rounding mode: floor (down), ceil (up) or trunc (toward zero)"""
    if op in ('sitofp', 'uitofp'):
        r = Fraction(sgn(bits[0], aw) if op == 'sitofp' else bits[0])
        n = fround(r, w)
    else:
        if any(isnan_b(b, aw) for b in bits):
            return QNAN[w]
        n = f2b(b2f(bits[0], aw), w) if op == 'fptrunc' else fop(op, w, *bits)
        v = [b2f(b, aw) for b in bits]
        if isnan_b(n, w) or any(math.isinf(x) for x in v) or op == 'fdiv' and v[1] == 0:
            return n
        r = fexact(op, aw, *bits)
    x = b2f(n, w)
    if r == 0:
        # the sign of an exact zero sum
        if op in ('fadd', 'fsub') and mode == 'floor' and (bits[0] or bits[1] != (op == 'fsub') << (w - 1)):
            return 1 << (w - 1)
        return n
    # is the rounded value too large (> 0) or too small?
    c = x if math.isinf(x) else Fraction(x) ** 2 - r if op == 'fsqrt' else Fraction(x) - r
    if mode == 'trunc':
        mode = 'floor' if r > 0 else 'ceil'
    neg = n >> (w - 1)
    if c > 0 and mode == 'floor':
        return n + 1 if neg else n - 1 if n else 1 | 1 << (w - 1)
    if c < 0 and mode == 'ceil':
        return n + 1 if not neg else n - 1 if n & mask(w - 1) else 1
    return n


def fdir(op, mode, args, w):
    aw = args[0].w
    if all(isc(a) for a in args):
        return const(fdirected(op, mode, w, aw, *[a.x for a in args]), w)
    return _mk('fdir', w, args, (op, mode))


def frint(mode, w, n):
    if isnan_b(n, w):
        return QNAN[w]
    f = b2f(n, w)
    if math.isinf(f) or f == 0:
        return n
    q = Fraction(f)
    fl = q.numerator // q.denominator
    r = q - fl
    if mode == 'floor':
        v = fl
    elif mode == 'ceil':
        v = fl + (r > 0)
    elif mode == 'trunc':
        v = fl if f > 0 else fl + (r > 0)
    elif mode == 'even':
        v = fl + (r > Fraction(1, 2) or (r == Fraction(1, 2) and fl & 1))
    else:   # away
        v = fl + (r > Fraction(1, 2) or (r == Fraction(1, 2) and f > 0))
    if v == 0:
        return (n >> (w - 1)) << (w - 1)
    return fround(Fraction(v), w)


def fbin(op, a, b):
    w = a.w
    if isc(a) and isc(b):
        return const(fop(op, w, a.x, b.x), w)
    for p in (a, b):
        if isc(p) and isnan_b(p.x, w):
            return const(QNAN[w], w)
    if op in ('fadd', 'fmul') and a.id > b.id:
        a, b = b, a
    if op == 'fsub' and isc(b):                       # x - c == x + (-c) exactly
        return fbin('fadd', a, const(b.x ^ 1 << (w - 1), w))
    return _mk(op, w, (a, b))


def fma(a, b, c):
    w = a.w
    if isc(a) and isc(b) and isc(c):
        return const(fop('fma', w, a.x, b.x, c.x), w)
    for p in (a, b, c):
        if isc(p) and isnan_b(p.x, w):
            return const(QNAN[w], w)
    # sign canonicalisation: (-a)*b == a*(-b)
    if a.id > b.id:
        a, b = b, a
    return _mk('fma', w, (a, b, c))


def fneg(a):
    return xor(a, const(1 << (a.w - 1), a.w))


def fabs(a):
    return and_(a, const(mask(a.w - 1), a.w))


def fnan(a):
    w = a.w
    if isc(a):
        return const(isnan_b(a.x, w), 1)
    if a.op in ('sitofp', 'uitofp'):
        return const(0, 1)
    if a.op in ('fpext', 'frint'):
        return fnan(a.a[0])
    if a.op == 'ite':
        return ite(a.a[0], fnan(a.a[1]), fnan(a.a[2]))
    if a.op == 'fdir':
        return const(0, 1) if 'itofp' in a.x[0] else fnan(_mk(a.x[0], w, a.a))
    k = _signop(a)
    if k:
        return fnan(k[1])
    # when an operation yields NaN is a matter of the classes of its operands
    if a.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fma', 'fsqrt', 'fptrunc'):
        e, m = FMT[a.a[0].w]
        inf = const(mask(e) << m, a.a[0].w)
        ninf = const(inf.x | 1 << (a.a[0].w - 1), a.a[0].w)
        zero = const(0, a.a[0].w)
        r = const(0, 1)
        for p in a.a:
            r = or_(r, fnan(p))
        pinf, minf = (lambda x: feq(x, inf)), (lambda x: feq(x, ninf))
        isinf = lambda x: or_(pinf(x), minf(x))
        iszero = lambda x: feq(x, zero)
        if a.op in ('fadd', 'fsub'):
            x, y = a.a
            p, q = (pinf(y), minf(y)) if a.op == 'fadd' else (minf(y), pinf(y))
            return or_(r, or_(and_(pinf(x), q), and_(minf(x), p)))
        if a.op == 'fmul' or a.op == 'fma':
            x, y = a.a[:2]
            r = or_(r, or_(and_(isinf(x), iszero(y)), and_(iszero(x), isinf(y))))
            if a.op == 'fma':
                z = a.a[2]
                s = xor(ext(x, w - 1, 1), ext(y, w - 1, 1))
                r = or_(r, and_(or_(isinf(x), isinf(y)), ite(s, pinf(z), minf(z))))
            return r
        if a.op == 'fdiv':
            x, y = a.a
            return or_(r, or_(and_(isinf(x), isinf(y)), and_(iszero(x), iszero(y))))
        if a.op == 'fsqrt':
            return or_(r, flt(a.a[0], zero))
        return r
    return _mk('fnan', 1, (a,))


def _thr(mode, w, p, first):
    """the first (last) float x in order with p(round(x)); p is monotone"""
    e, m = FMT[w]
    inf = ((1 << e) - 1) << m
    top = 1 << (w - 1)

    def at(k):          # k in [-inf, inf], ordered
        return k if k >= 0 else top | (-1 - k)
    lo, hi = -1 - inf, inf
    q = (lambda k: p(b2f(at(k) if mode is None else frint(mode, w, at(k)), w)))
    if first:
        while lo < hi:
            k = (lo + hi) // 2
            if q(k):
                hi = k
            else:
                lo = k + 1
    else:
        while lo < hi:
            k = (lo + hi + 1) // 2
            if q(k):
                lo = k
            else:
                hi = k - 1
    return at(lo)


def flt(a, b):
    w = a.w
    if a is b:
        return const(0, 1)
    for p in (a, b):
        if isc(p) and isnan_b(p.x, w):
            return const(0, 1)
    if isc(a) and isc(b):
        return const(b2f(a.x, w) < b2f(b.x, w), 1)
    if isc(a) and a.x == 1 << (w - 1):
        a = const(0, w)
    if isc(b) and b.x == 1 << (w - 1):
        b = const(0, w)
    if a.op == 'ite':
        return ite(a.a[0], flt(a.a[1], b), flt(a.a[2], b))
    if b.op == 'ite':
        return ite(b.a[0], flt(a, b.a[1]), flt(a, b.a[2]))
    # comparisons of exactly widened floats are comparisons of the originals
    if a.op == 'fpext' and b.op == 'fpext':
        return flt(a.a[0], b.a[0])
    if a.op == 'fpext' and isc(b):
        n = a.a[0].w
        v = b2f(b.x, w)
        lo = _round_to(v, n, 'up')
        return flt(a.a[0], const(lo, n))
    if b.op == 'fpext' and isc(a):
        n = b.a[0].w
        v = b2f(a.x, w)
        hi = _round_to(v, n, 'down')
        return flt(const(hi, n), b.a[0])
    # sign operations move to the constant
    ka, kb = _signop(a), _signop(b)
    if ka and kb and ka[0] == kb[0] == 'neg':
        return flt(kb[1], ka[1])
    if isc(b) or isc(a):
        x, c = (a, b.x) if isc(b) else (b, a.x)
        # a sum (difference) is below zero exactly when the operands are so ordered (gradual underflow)
        if not c and x.op in ('fadd', 'fsub'):
            y = x.a[1] if x.op == 'fsub' else fneg(x.a[1])
            return flt(x.a[0], y) if x is a else flt(y, x.a[0])
        k = _signop(x)
        sb = 1 << (w - 1)
        if k and k[0] == 'neg':
            return flt(const(c ^ sb, w), k[1]) if x is a else flt(k[1], const(c ^ sb, w))
        if k:
            x0 = k[1]
            v = b2f(c, w)
            if x is a:      # |x| < c
                return const(0, 1) if v <= 0 else and_(flt(x0, const(c, w)), flt(const(c ^ sb, w), x0))
            return not_(fnan(x0)) if v < 0 else or_(flt(const(c, w), x0), flt(x0, const(c ^ sb, w)))
    # rounding to an integer is monotone: a comparison of the rounded value is one of the value
    if a.op == 'frint' and isc(b):
        return flt(a.a[0], const(_thr(a.x, w, lambda r: not r < b2f(b.x, w), True), w))
    if b.op == 'frint' and isc(a):
        return flt(const(_thr(b.x, w, lambda r: not b2f(a.x, w) < r, False), w), b.a[0])
    e, m = FMT[w]
    inf = mask(e) << m
    if isc(b) and b.x == inf | 1 << (w - 1) or isc(a) and a.x == inf:
        return const(0, 1)
    return _mk('flt', 1, (a, b))


def _signop(x):
    """('neg' | 'abs', y) when x is a sign change or the absolute value of y, spelled on the bits"""
    w = x.w
    if x.op in ('and', 'xor') and isc(x.a[1]):
        if x.op == 'xor' and x.a[1].x == 1 << (w - 1):
            return 'neg', x.a[0]
        if x.op == 'and' and x.a[1].x == mask(w - 1):
            return 'abs', x.a[0]
    if x.op == 'zext' and x.a[0].w == w - 1:
        p = x.a[0]
        if p.op == 'ext' and p.x == 0 and p.a[0].w == w:
            return 'abs', p.a[0]
    if x.op == 'cat' and len(x.a) == 2 and x.a[1].w == 1:
        p, s = x.a
        if p.op == 'ext' and p.x == 0 and p.a[0].w == w:
            y = p.a[0]
            if isc(s) and not s.x:
                return 'abs', y
            if s is not_(ext(y, w - 1, 1)):
                return 'neg', y
    return None


def _round_to(v, n, d):
    """smallest n-bit float >= v ('up') / largest <= v ('down')"""
    b = f2b(v, n)
    f = b2f(b, n)
    if d == 'up' and f < v:
        return _step(b, n, 1)
    if d == 'down' and f > v:
        return _step(b, n, -1)
    return b


def _step(b, n, d):
    s = b >> (n - 1)
    if b & mask(n - 1) == 0:
        return 1 if d > 0 else 1 | 1 << (n - 1)
    return b + d if not s else b - d


def feq(a, b):
    w = a.w
    for p in (a, b):
        if isc(p) and isnan_b(p.x, w):
            return const(0, 1)
    if isc(a) and isc(b):
        return const(b2f(a.x, w) == b2f(b.x, w), 1)
    if a is b:
        return not_(fnan(a))
    if isc(a):
        a, b = b, a
    if isc(b) and b.x == 1 << (w - 1):
        b = const(0, w)
    if a.op == 'ite':
        return ite(a.a[0], feq(a.a[1], b), feq(a.a[2], b))
    if b.op == 'ite':
        return ite(b.a[0], feq(a, b.a[1]), feq(a, b.a[2]))
    if a.op == 'fpext' and b.op == 'fpext':
        return feq(a.a[0], b.a[0])
    if a.op == 'fpext' and isc(b):
        n = a.a[0].w
        v = b2f(b.x, w)
        c = f2b(v, n)
        if b2f(c, n) != v:
            return const(0, 1)
        return feq(a.a[0], const(c, n))
    k, kb = _signop(a), _signop(b)
    if k and kb and k[0] == kb[0] == 'neg':
        return feq(k[1], kb[1])
    if isc(b) and not b.x and a.op in ('fadd', 'fsub'):
        y = a.a[1] if a.op == 'fsub' else fneg(a.a[1])
        return and_(feq(a.a[0], y), not_(fnan(a)))
    if k and isc(b):
        sb = 1 << (w - 1)
        x0, v = k[1], b2f(b.x, w)
        if k[0] == 'neg':
            return feq(x0, const(b.x ^ sb, w))
        if v < 0:
            return const(0, 1)
        return or_(feq(x0, const(b.x, w)), feq(x0, const(b.x ^ sb, w))) if v else feq(x0, const(0, w))
    if a.op == 'frint' and isc(b):
        v = b2f(b.x, w)
        if not math.isinf(v) and v != math.floor(v):
            return const(0, 1)
        lo = const(_thr(a.x, w, lambda r: r >= v, True), w)
        hi = const(_thr(a.x, w, lambda r: r <= v, False), w)
        x = a.a[0]
        return and_(and_(not_(fnan(x)), not_(flt(x, lo))), not_(flt(hi, x)))
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return _mk('feq', 1, (a, b))


def fcmp(p, a, b):
    uno = or_(fnan(a), fnan(b))
    if p == 'true':
        return const(1, 1)
    if p == 'false':
        return const(0, 1)
    if p == 'ord':
        return not_(uno)
    if p == 'uno':
        return uno
    if p == 'oeq':
        return feq(a, b)
    if p == 'une':
        return not_(feq(a, b))
    if p == 'olt':
        return flt(a, b)
    if p == 'ogt':
        return flt(b, a)
    if p == 'ole':
        return or_(flt(a, b), feq(a, b))
    if p == 'oge':
        return or_(flt(b, a), feq(a, b))
    if p == 'one':
        return or_(flt(a, b), flt(b, a))
    if p == 'ueq':
        return not_(or_(flt(a, b), flt(b, a)))
    if p == 'ult':
        return not_(fcmp('oge', a, b))
    if p == 'ugt':
        return not_(fcmp('ole', a, b))
    if p == 'ule':
        return not_(flt(b, a))
    if p == 'uge':
        return not_(flt(a, b))
    raise ValueError(p)


def fround_op(mode, a):
    if isc(a):
        return const(frint(mode, a.w, a.x), a.w)
    if a.op == 'frint' or a.op in ('sitofp', 'uitofp'):
        return a
    if a.op == 'fpext':                               # an integral value of the narrow format
        return fpext(fround_op(mode, a.a[0]), a.w)
    return _mk('frint', a.w, (a,), mode)


def fsqrt(a):
    if isc(a):
        return const(fop('fsqrt', a.w, a.x), a.w)
    return _mk('fsqrt', a.w, (a,))


def fptosi_c(n, fw, w, signed):
    """C conversion on a bit pattern; None when out of range"""
    if isnan_b(n, fw):
        return None
    f = b2f(n, fw)
    if math.isinf(f):
        return None
    t = math.trunc(Fraction(f)) if f else 0
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, mask(w))
    if not lo <= t <= hi:
        return None
    return t


def fptoi(a, w, signed):
    if isc(a):
        t = fptosi_c(a.x, a.w, w, signed)
        if t is not None:
            return const(t, w)
    if a.op == 'fpext' or a.op == 'frint' and a.x == 'trunc':
        return fptoi(a.a[0], w, signed)
    if a.op == 'ite':
        return ite(a.a[0], fptoi(a.a[1], w, signed), fptoi(a.a[2], w, signed))
    return _mk('fptosi' if signed else 'fptoui', w, (a,))


def itofp(a, w, signed):
    if isc(a):
        v = sgn(a.x, a.w) if signed else a.x
        return const(fround(Fraction(v), w), w)
    # exact conversions of a narrower integer do not depend on the width it was widened to
    if a.op == 'zext':
        return itofp(a.a[0], w, False)
    if a.op == 'sext' and signed:
        return itofp(a.a[0], w, True)
    if a.op == 'ite':
        return ite(a.a[0], itofp(a.a[1], w, signed), itofp(a.a[2], w, signed))
    return _mk('sitofp' if signed else 'uitofp', w, (a,))


def fpext(a, w):
    if isc(a):
        return const(f2b(b2f(a.x, a.w), w) if not isnan_b(a.x, a.w) else QNAN[w], w)
    if a.op in ('sitofp', 'uitofp') and a.a[0].w <= FMT[a.w][1] + 1 - (a.op == 'sitofp') * 0:
        return itofp(a.a[0], w, a.op == 'sitofp')
    if a.op == 'ite':
        return ite(a.a[0], fpext(a.a[1], w), fpext(a.a[2], w))
    return _mk('fpext', w, (a,))


def fptrunc(a, w):
    if isc(a):
        return const(f2b(b2f(a.x, a.w), w), w)
    if a.op == 'fpext' and a.a[0].w == w:
        return a.a[0]
    # one rounding: an operation on widened operands rounded back is the narrow operation
    # (binary64 carries more than 2p+2 bits of binary32: innocuous double rounding)
    if a.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt') and a.w == 64 and w == 32:
        ar = []
        for p in a.a:
            if p.op == 'fpext' and p.a[0].w == 32:
                ar.append(p.a[0])
            elif isc(p) and not isnan_b(p.x, 64) and f2b(b2f(f2b(b2f(p.x, 64), 32), 32), 64) == p.x:
                ar.append(const(f2b(b2f(p.x, 64), 32), 32))
            else:
                break
        else:
            return fsqrt(ar[0]) if a.op == 'fsqrt' else fbin(a.op, *ar)
    if a.op in ('sitofp', 'uitofp') and a.a[0].w <= 53:      # exact in the wide format: one rounding
        return itofp(a.a[0], w, a.op == 'sitofp')
    if a.op == 'ite':
        return ite(a.a[0], fptrunc(a.a[1], w), fptrunc(a.a[2], w))
    return _mk('fptrunc', w, (a,))


# ---------------------------------------------------------------- generic rebuild / substitution
def rebuild(n, a):
    op, w = n.op, n.w
    if op == 'add':
        return add(*a)
    if op == 'sub':
        return sub(*a)
    if op == 'mul':
        return mul(*a)
    if op in ('and', 'or', 'xor'):
        return _bw(op, *a)
    if op == 'zext':
        return zext(a[0], w)
    if op == 'sext':
        return sext(a[0], w)
    if op == 'ext':
        return ext(a[0], n.x, w)
    if op == 'cat':
        return cat(a)
    if op == 'shl':
        return shl(*a)
    if op == 'lshr':
        return lshr(*a)
    if op == 'ashr':
        return ashr(*a)
    if op in ('udiv', 'sdiv', 'urem', 'srem'):
        return _div(op, *a)
    if op == 'eq':
        return eq(*a)
    if op == 'ult':
        return ult(*a)
    if op == 'slt':
        return slt(*a)
    if op == 'ite':
        return ite(*a)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        return fbin(op, *a)
    if op == 'fma':
        return fma(*a)
    if op == 'fsqrt':
        return fsqrt(a[0])
    if op == 'frint':
        return fround_op(n.x, a[0])
    if op == 'fdir':
        return fdir(n.x[0], n.x[1], a, w)
    if op == 'fnan':
        return fnan(a[0])
    if op == 'flt':
        return flt(*a)
    if op == 'feq':
        return feq(*a)
    if op == 'fptosi' or op == 'fptoui':
        return fptoi(a[0], w, op == 'fptosi')
    if op in ('sitofp', 'uitofp'):
        return itofp(a[0], w, op == 'sitofp')
    if op == 'fpext':
        return fpext(a[0], w)
    if op == 'fptrunc':
        return fptrunc(a[0], w)
    return _mk(op, w, a, n.x)


def subst(n, m, memo=None):
    """m: function node -> replacement or None"""
    if memo is None:
        memo = {}
    st = [n]
    while st:
        t = st[-1]
        if t.id in memo:
            st.pop()
            continue
        r = m(t)
        if r is not None:
            memo[t.id] = r
            st.pop()
            continue
        todo = [p for p in t.a if p.id not in memo]
        if todo:
            st.extend(todo)
            continue
        na = [memo[p.id] for p in t.a]
        if all(x is y for x, y in zip(na, t.a)):
            r = t
        else:
            r = rebuild(t, na)
            q = m(r)
            if q is not None:
                r = q
        memo[t.id] = r
        st.pop()
    return memo[n.id]


def walk(roots):
    seen, st, out = set(), list(roots), []
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        st.extend(t.a)
    return out


def variables(roots):
    return sorted((t for t in walk(roots) if t.op in 'vu' or t.op == 'op'), key=lambda t: t.id)


class NoEval(Exception):
    pass


def evaluate(n, env):
    """Instantiate a node: env maps leaf id -> int.  Raises NoEval where the value is not determined."""
    memo = {}
    st = [n]
    while st:
        t = st[-1]
        if t.id in memo:
            st.pop()
            continue
        if t.op == 'ite':
            c = t.a[0]
            if c.id not in memo:
                st.append(c)
                continue
            b = t.a[1] if memo[c.id] else t.a[2]
            if b.id not in memo:
                st.append(b)
                continue
            memo[t.id] = memo[b.id]
            st.pop()
            continue
        todo = [p for p in t.a if p.id not in memo]
        if todo:
            st.extend(todo)
            continue
        memo[t.id] = _ev(t, [memo[p.id] for p in t.a], env)
        st.pop()
    return memo[n.id]


def _ev(t, a, env):
    op, w = t.op, t.w
    m = mask(w)
    if op == 'c':
        return t.x
    if op in ('v', 'u', 'op'):
        if t.id in env:
            return env[t.id] & m
        raise NoEval(t)
    if op == 'add':
        return (a[0] + a[1]) & m
    if op == 'sub':
        return (a[0] - a[1]) & m
    if op == 'mul':
        return (a[0] * a[1]) & m
    if op == 'and':
        return a[0] & a[1]
    if op == 'or':
        return a[0] | a[1]
    if op == 'xor':
        return a[0] ^ a[1]
    if op == 'zext':
        return a[0]
    if op == 'sext':
        return sgn(a[0], t.a[0].w) & m
    if op == 'ext':
        return (a[0] >> t.x) & m
    if op == 'cat':
        r = o = 0
        for p, v in zip(t.a, a):
            r |= v << o
            o += p.w
        return r
    if op in ('shl', 'lshr', 'ashr'):
        if a[1] >= w:
            return {'shl': 0, 'lshr': 0, 'ashr': (sgn(a[0], w) >> (w - 1)) & m}[op]
        if op == 'shl':
            return (a[0] << a[1]) & m
        if op == 'lshr':
            return a[0] >> a[1]
        return (sgn(a[0], w) >> a[1]) & m
    if op in ('udiv', 'sdiv', 'urem', 'srem'):
        if a[1] == 0:
            raise NoEval(t)
        return _div(op, const(a[0], w), const(a[1], w)).x
    if op == 'eq':
        return int(a[0] == a[1])
    if op == 'ult':
        return int(a[0] < a[1])
    if op == 'slt':
        k = t.a[0].w
        return int(sgn(a[0], k) < sgn(a[1], k))
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fma', 'fsqrt'):
        return fop(op, w, *a)
    if op == 'frint':
        return frint(t.x, w, a[0])
    if op == 'fdir':
        return fdirected(t.x[0], t.x[1], w, t.a[0].w, *a)
    if op == 'fnan':
        return int(isnan_b(a[0], t.a[0].w))
    if op in ('flt', 'feq'):
        k = t.a[0].w
        x, y = b2f(a[0], k), b2f(a[1], k)
        return int(x < y if op == 'flt' else x == y)
    if op in ('fptosi', 'fptoui'):
        r = fptosi_c(a[0], t.a[0].w, w, op == 'fptosi')
        if r is None:
            raise NoEval(t)
        return r & m
    if op in ('sitofp', 'uitofp'):
        return fround(Fraction(sgn(a[0], t.a[0].w) if op == 'sitofp' else a[0]), w)
    if op == 'fpext':
        if isnan_b(a[0], t.a[0].w):
            return QNAN[w]
        return f2b(b2f(a[0], t.a[0].w), w)
    if op == 'fptrunc':
        if isnan_b(a[0], t.a[0].w):
            return QNAN[w]
        return f2b(b2f(a[0], t.a[0].w), w)
    raise NoEval(t)


def show(n, d=5):
    if n.op == 'c':
        return str(sgn(n.x, n.w)) if n.w > 1 else str(n.x)
    if n.op == 'v':
        return n.x[0]
    if n.op == 'u':
        return 'undef'
    if d == 0:
        return '..'
    a = ','.join(show(p, d - 1) for p in n.a)
    if n.op == 'ext':
        return '%s[%d+:%d]' % (show(n.a[0], d - 1), n.x, n.w)
    return '%s%d(%s)' % (n.op if n.op != 'op' else str(n.x), n.w, a)
