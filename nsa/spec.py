"""What each intrinsic computes, lane by lane (Arm C Language Extensions / Arm ARM), as value-graph terms.

spec(name) -> Spec or None.  The definitions are written per family and instantiated over the element type
that the ACLE signature of the name gives; they use unbounded-enough intermediate widths, so that they do not
share the wrap-around habits of the code they are compared with.
"""
import json
import os
import re
from . import terms as T
from .terms import const

ACLE = json.load(open(os.path.join(os.path.dirname(__file__), '..', 'data', 'acle.json')))

_vt = re.compile(r'^(u?int|float)(\d+)x(\d+)(?:x(\d))?_t$')
_st = re.compile(r'^(u?int|float)(\d+)_t$')


class Ty:
    """kind: vec / sca / ptr / imm / void; e: element ('s'|'u'|'f'), w: bits, n lanes, k: number of vectors"""

    def __init__(self, s):
        self.s = s
        self.k = 1
        self.n = 1
        t = s
        self.ro = False
        if s == 'void':
            self.kind = 'void'
            return
        if s == 'const int':
            self.kind, self.e, self.w = 'imm', 's', 32
            return
        if t.endswith('*'):
            self.kind = 'ptr'
            self.ro = t.startswith('const ')
            m = _st.match(t.replace('const ', '').rstrip(' *'))
        else:
            m = _vt.match(t)
            if m:
                self.kind = 'vec'
                self.n = int(m.group(3))
                self.k = int(m.group(4) or 1)
                self.array = m.group(4) is not None
            else:
                self.kind = 'sca'
                m = _st.match(t)
        self.e = {'int': 's', 'uint': 'u', 'float': 'f'}[m.group(1)]
        self.w = int(m.group(2))

    @property
    def size(self):
        return self.w // 8 * self.n * self.k


class V(list):
    """lanes of one vector, with element kind"""

    def __init__(self, lanes, e, w):
        list.__init__(self, lanes)
        self.e, self.w = e, w


class Spec:
    def __init__(self, name, prop, ret, imm=None, foot=None, store=None, fl=False):
        self.name, self.prop, self.ret, self.imm, self.foot, self.store, self.fl = name, prop, ret, imm, foot, store, fl
        sig = ACLE[name]
        self.rty, self.pty = Ty(sig[0]), [Ty(x) for x in sig[1:]]


# ---------------------------------------------------------------- helpers on lanes
def E(x, e, W):
    return T.sext(x, W) if e == 's' else T.zext(x, W)


def sat(x, w, e):
    """clamp the signed wide value x to element type (e, w)"""
    W = x.w
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if e == 's' else (0, (1 << w) - 1)
    L, H = const(lo, W), const(hi, W)
    return T.ite(T.slt(x, L), const(lo, w), T.ite(T.slt(H, x), const(hi, w), T.trunc(x, w)))


def ones(c, w):
    return T.ite(c, const(-1, w), const(0, w))


def fmaxmin(a, b, mx):
    w = a.w
    nan = const(T.QNAN[w], w)
    gt = T.flt(b, a) if mx else T.flt(a, b)
    lt = T.flt(a, b) if mx else T.flt(b, a)
    # equal operands: identical, or zeros of different sign (max: +0, min: -0)
    z = T.and_(a, b) if mx else T.or_(a, b)
    return T.ite(T.or_(T.fnan(a), T.fnan(b)), nan, T.ite(gt, a, T.ite(lt, b, z)))


def maxmin(a, b, e, mx):
    if e == 'f':
        return fmaxmin(a, b, mx)
    lt = T.slt if e == 's' else T.ult
    return T.ite(lt(a, b), b if mx else a, a if mx else b)


def satconv(x, w, signed):
    from .lib import satconv as s
    return s(x, w, signed)


def cmp_(op, a, b, e):
    if e == 'f':
        return T.fcmp({'eq': 'oeq', 'lt': 'olt', 'le': 'ole', 'gt': 'ogt', 'ge': 'oge'}[op], a, b)
    p = {'eq': 'eq', 'lt': 'lt', 'le': 'le', 'gt': 'gt', 'ge': 'ge'}[op]
    if p != 'eq':
        p = ('s' if e == 's' else 'u') + p
    return T.icmp(p, a, b)


def recpe(x):
    """FPRecipEstimate (binary32, round to nearest, no flush to zero)"""
    s, ex, fr = T.ext(x, 31, 1), T.ext(x, 23, 8), T.ext(x, 0, 23)

    def est(top8):                   # 8 fraction bits -> 8 result bits
        a = T.add(T.mul(T.zext(T.cat([top8, const(1, 1)]), 32), const(2, 32)), const(1, 32))
        b = T.div('udiv', const(1 << 19, 32), a)
        r = T.lshr(T.add(b, const(1, 32)), const(1, 32))
        return T.ext(r, 0, 8)
    sg = lambda e, f: T.cat([f, e, s])
    inf = sg(const(255, 8), const(0, 23))
    norm = sg(T.sub(const(253, 8), ex), T.cat([const(0, 15), est(T.ext(fr, 15, 8))]))
    # exponents 253, 254: result is subnormal (result_exp 0 / -1)
    e8 = est(T.ext(fr, 15, 8))
    d0 = sg(const(0, 8), T.cat([const(0, 14), e8, const(1, 1)]))
    d1 = sg(const(0, 8), T.cat([const(0, 13), e8, const(1, 2)]))
    # subnormal inputs >= 2^-128: bit 22 set: fraction<<1, exp 0 ; bit 22 clear, bit 21 set: fraction<<2, exp -1
    s0 = sg(const(253, 8), T.cat([const(0, 15), est(T.ext(fr, 14, 8))]))
    s1 = sg(const(254, 8), T.cat([const(0, 15), est(T.ext(fr, 13, 8))]))
    b22, b21 = T.ext(fr, 22, 1), T.ext(fr, 21, 1)
    sub = T.ite(b22, s0, T.ite(b21, s1, inf))
    zero = sg(const(0, 8), const(0, 23))
    is255 = T.eq(ex, const(255, 8))
    return T.ite(T.fnan(x), const(T.QNAN[32], 32), T.ite(is255, zero, T.ite(
        T.eq(ex, const(0, 8)), sub, T.ite(T.eq(ex, const(253, 8)), d0, T.ite(T.eq(ex, const(254, 8)), d1, norm)))))


def recps(a, b):
    w = a.w
    e, m = T.FMT[w]
    inf = const(T.mask(e) << m, w)
    zero = const(0, w)
    A, B = T.fabs(a), T.fabs(b)
    special = T.or_(T.and_(T.eq(A, inf), T.eq(B, zero)), T.and_(T.eq(A, zero), T.eq(B, inf)))
    two = const(T.f2b(2.0, w), w)
    return T.ite(special, two, T.fma(T.fneg(a), b, two))


# ---------------------------------------------------------------- the families
_SUF = r'_(?P<t>[suf])(?P<w>8|16|32|64)$'
FAM = []


def fam(rx, prop, **kw):
    def d(f):
        FAM.append((re.compile('^' + rx + '$'), prop, f, kw))
        return f
    return d


def lanes(rt, f):
    return V([f(i) for i in range(rt.n)], rt.e, rt.w)


# ---- memory
@fam(r'vld1q?_[suf]\d+', 'C01')
def _(s, a):
    return [lanes(s.rty, lambda i: a[0][i])]


@fam(r'vld1q?_dup_[suf]\d+', 'C01', foot=1)
def _(s, a):
    return [lanes(s.rty, lambda i: a[0][0])]


@fam(r'vld[234]q?_[suf]\d+', 'C01')
def _(s, a):
    k = s.rty.k
    return [lanes(s.rty, lambda i: a[0][i * k + j]) for j in range(k)]


@fam(r'vld[1234]q?_lane_[suf]\d+', 'C01', foot='k', imm='lane')
def _(s, a, n):
    return [V([a[0][j] if i == n else v[i] for i in range(len(v))], v.e, v.w) for j, v in enumerate(a[1])]


@fam(r'vst1q?_[suf]\d+', 'C01', store=True)
def _(s, a):
    return list(a[1][0])


@fam(r'vst[234]q?_[suf]\d+', 'C01', store=True)
def _(s, a):
    k, n = s.pty[1].k, s.pty[1].n
    return [a[1][i % k][i // k] for i in range(n * k)]


@fam(r'vst[1234]q?_lane_[suf]\d+', 'C01', store=True, foot='k', imm='lane')
def _(s, a, n):
    return [v[n] for v in a[1]]


# ---- permutations and moves
@fam(r'(vdupq?|vmovq?)_n_[suf]\d+', 'C04')
def _(s, a):
    return [lanes(s.rty, lambda i: a[0])]


@fam(r'vdupq?_lane_[suf]\d+', 'C04', imm='lane')
def _(s, a, n):
    return [lanes(s.rty, lambda i: a[0][0][n])]


@fam(r'vget_low_[suf]\d+', 'C04')
def _(s, a):
    return [lanes(s.rty, lambda i: a[0][0][i])]


@fam(r'vget_high_[suf]\d+', 'C04')
def _(s, a):
    return [lanes(s.rty, lambda i: a[0][0][i + s.rty.n])]


@fam(r'vgetq?_lane_[suf]\d+', 'C04', imm='lane')
def _(s, a, n):
    return a[0][0][n]


@fam(r'vsetq?_lane_[suf]\d+', 'C04', imm='lane')
def _(s, a, n):
    return [lanes(s.rty, lambda i: a[0] if i == n else a[1][0][i])]


@fam(r'vcombine_[suf]\d+', 'C04')
def _(s, a):
    return [lanes(s.rty, lambda i: (a[0][0] + a[1][0])[i])]


@fam(r'vextq?_[suf]\d+', 'C04', imm='lane')
def _(s, a, n):
    return [lanes(s.rty, lambda i: (a[0][0] + a[1][0])[i + n])]


@fam(r'vrev(16|32|64)q?_[suf]\d+', 'C04')
def _(s, a):
    g = int(re.match(r'vrev(\d+)', s.name).group(1)) // s.rty.w
    return [lanes(s.rty, lambda i: a[0][0][i // g * g + g - 1 - i % g])]


@fam(r'vtrnq?_[suf]\d+', 'C04')
def _(s, a):
    x, y = a[0][0], a[1][0]
    return [lanes(s.rty, lambda i: (x, y)[i & 1][(i & ~1) + j]) for j in (0, 1)]


@fam(r'vzipq?_[suf]\d+', 'C04')
def _(s, a):
    x, y, n = a[0][0], a[1][0], s.rty.n
    return [lanes(s.rty, lambda i: (x, y)[i & 1][(i + j * n) // 2]) for j in (0, 1)]


@fam(r'vuzpq?_[suf]\d+', 'C04')
def _(s, a):
    c = a[0][0] + a[1][0]
    return [lanes(s.rty, lambda i: c[2 * i + j]) for j in (0, 1)]


@fam(r'vreinterpretq?_[suf]\d+_[suf]\d+', 'C05')
def _(s, a):
    bits = T.cat(list(a[0][0]))
    w = s.rty.w
    return [lanes(s.rty, lambda i: T.ext(bits, i * w, w))]


# ---- wrapping arithmetic
def _ar(op, e, x, y):
    if e == 'f':
        return T.fbin('f' + op, x, y)
    return {'add': T.add, 'sub': T.sub, 'mul': T.mul}[op](x, y)


@fam(r'v(add|sub|mul)q?_[su]\d+', 'C06')
@fam(r'v(add|sub|mul)q?_f\d+', 'C14', fl=True)
@fam(r'vdivq?_f\d+', 'C14', fl=True)
def _(s, a):
    op = re.match(r'v(add|sub|mul|div)', s.name).group(1)
    return [lanes(s.rty, lambda i: _ar(op, s.rty.e, a[0][0][i], a[1][0][i]))]


@fam(r'vmulq?_n_[su]\d+', 'C06')
@fam(r'vmulq?_n_f\d+', 'C14', fl=True)
def _(s, a):
    return [lanes(s.rty, lambda i: _ar('mul', s.rty.e, a[0][0][i], a[1]))]


@fam(r'vml[as]q?(_n)?_[su]\d+', 'C06')
@fam(r'vml[as]q?(_n)?_f\d+', 'C14', fl=True)
def _(s, a):
    op = 'add' if s.name[3] == 'a' else 'sub'
    e = s.rty.e
    y = (lambda i: a[2]) if '_n_' in s.name else (lambda i: a[2][0][i])
    return [lanes(s.rty, lambda i: _ar(op, e, a[0][0][i], _ar('mul', e, a[1][0][i], y(i))))]


# ---- widening
@fam(r'v(add|sub)[lw](_high)?_[su]\d+', 'C07')
def _(s, a):
    r = s.rty
    op = s.name[1:4]
    h = r.n if '_high' in s.name else 0
    x = (lambda i: E(a[0][0][i + h], r.e, r.w)) if s.name[4] == 'l' else (lambda i: a[0][0][i])
    return [lanes(r, lambda i: _ar(op, r.e, x(i), E(a[1][0][i + h], r.e, r.w)))]


@fam(r'vmull(_high)?(_n)?_[su]\d+', 'C07')
def _(s, a):
    r = s.rty
    h = r.n if '_high' in s.name else 0
    y = (lambda i: a[1]) if '_n_' in s.name else (lambda i: a[1][0][i + h])
    return [lanes(r, lambda i: T.mul(E(a[0][0][i + h], r.e, r.w), E(y(i), r.e, r.w)))]


@fam(r'vml[as]l(_high)?_[su]\d+', 'C07')
def _(s, a):
    r = s.rty
    h = r.n if '_high' in s.name else 0
    f = T.add if s.name[3] == 'a' else T.sub
    return [lanes(r, lambda i: f(a[0][0][i], T.mul(E(a[1][0][i + h], r.e, r.w), E(a[2][0][i + h], r.e, r.w))))]


@fam(r'vmovl(_high)?_[su]\d+', 'C07')
def _(s, a):
    r = s.rty
    h = r.n if '_high' in s.name else 0
    return [lanes(r, lambda i: E(a[0][0][i + h], r.e, r.w))]


@fam(r'vpaddlq?_[su]\d+', 'C07')
def _(s, a):
    r = s.rty
    x = a[0][0]
    return [lanes(r, lambda i: T.add(E(x[2 * i], r.e, r.w), E(x[2 * i + 1], r.e, r.w)))]


@fam(r'vpadalq?_[su]\d+', 'C07')
def _(s, a):
    r = s.rty
    x = a[1][0]
    return [lanes(r, lambda i: T.add(a[0][0][i], T.add(E(x[2 * i], r.e, r.w), E(x[2 * i + 1], r.e, r.w))))]


# ---- narrowing
@fam(r'vr?(add|sub)hn(_high)?_[su]\d+', 'C08')
def _(s, a):
    r = s.rty
    rnd = s.name[1] == 'r'
    op = re.match(r'vr?(add|sub)', s.name).group(1)
    if '_high' in s.name:
        low, x, y = a[0][0], a[1][0], a[2][0]
    else:
        low, x, y = [], a[0][0], a[1][0]
    w2 = 2 * r.w

    def f(i):
        t = _ar(op, 'u', x[i], y[i])
        if rnd:
            t = T.add(t, const(1 << (r.w - 1), w2))
        return T.ext(t, r.w, r.w)
    return [V(list(low) + [f(i) for i in range(len(x))], r.e, r.w)]


@fam(r'vr?hsubq?_[su]\d+|vr?haddq?_[su]\d+', 'C08')
def _(s, a):
    r = s.rty
    W = r.w + 2
    op = 'add' if 'add' in s.name else 'sub'
    rnd = s.name.startswith('vrh')

    def f(i):
        t = _ar(op, 'u', E(a[0][0][i], r.e, W), E(a[1][0][i], r.e, W))
        if rnd:
            t = T.add(t, const(1, W))
        return T.ext(t, 1, r.w)
    return [lanes(r, f)]


@fam(r'vmovn_[su]\d+', 'C08')
def _(s, a):
    r = s.rty
    return [lanes(r, lambda i: T.trunc(a[0][0][i], r.w))]


# ---- saturating
@fam(r'vq(add|sub)q?_[su]\d+', 'C09')
def _(s, a):
    r = s.rty
    W = r.w + 2
    op = s.name[2:5]
    return [lanes(r, lambda i: sat(_ar(op, 'u', E(a[0][0][i], r.e, W), E(a[1][0][i], r.e, W)), r.w, r.e))]


@fam(r'vqmovu?n_[su]\d+', 'C09')
def _(s, a):
    r, x = s.rty, a[0][0]
    W = x.w + 1
    return [lanes(r, lambda i: sat(E(x[i], x.e, W), r.w, r.e))]


@fam(r'vqdmull_s\d+', 'C09')
def _(s, a):
    r = s.rty
    W = r.w + 2
    f = lambda i: sat(T.mul(const(2, W), T.mul(E(a[0][0][i], 's', W), E(a[1][0][i], 's', W))), r.w, 's')
    return [lanes(r, f)]


@fam(r'vqr?shru?n_n_[su]\d+', 'C09', imm='narrow')
def _(s, a, n):
    r, x = s.rty, a[0][0]
    W = x.w + 2
    rnd = s.name.startswith('vqr')

    def f(i):
        t = E(x[i], x.e, W)
        if rnd:
            t = T.add(t, const(1 << (n - 1), W))
        return sat(T.ashr(t, const(n, W)), r.w, r.e)
    return [lanes(r, f)]


# ---- immediate shifts
@fam(r'vr?shrn_n_[su]\d+', 'C10', imm='narrow')
def _(s, a, n):
    r, x = s.rty, a[0][0]
    W = x.w + 2
    rnd = s.name.startswith('vrs')

    def f(i):
        t = E(x[i], x.e, W)
        if rnd:
            t = T.add(t, const(1 << (n - 1), W))
        return T.trunc(T.ashr(t, const(n, W)), r.w)
    return [lanes(r, f)]


@fam(r'vr?shrq?_n_[su]\d+', 'C10', imm='right')
@fam(r'vr?sraq?_n_[su]\d+', 'C10', imm='right')
def _(s, a, n):
    r = s.rty
    acc = 'sra' in s.name
    x = a[1][0] if acc else a[0][0]
    W = x.w + 2
    rnd = s.name.startswith('vrs')

    def f(i):
        t = E(x[i], x.e, W)
        if rnd:
            t = T.add(t, const(1 << (n - 1), W))
        t = T.trunc(T.ashr(t, const(n, W)), r.w)
        return T.add(a[0][0][i], t) if acc else t
    return [lanes(r, f)]


@fam(r'vshlq?_n_[su]\d+', 'C10', imm='left')
def _(s, a, n):
    r = s.rty
    return [lanes(r, lambda i: T.shl(a[0][0][i], const(n, r.w)))]


@fam(r'vshll_n_[su]\d+', 'C10', imm='long')     # SSHLL/USHLL 0..w-1, SHLL w
def _(s, a, n):
    r = s.rty
    return [lanes(r, lambda i: T.shl(E(a[0][0][i], r.e, r.w), const(n, r.w)))]


# ---- bitwise
@fam(r'v(and|orr|eor|bic|orn)q?_[su]\d+', 'C11')
def _(s, a):
    op = re.match(r'v(and|orr|eor|bic|orn)', s.name).group(1)
    f = {'and': T.and_, 'orr': T.or_, 'eor': T.xor, 'bic': lambda x, y: T.and_(x, T.not_(y)),
         'orn': lambda x, y: T.or_(x, T.not_(y))}[op]
    return [lanes(s.rty, lambda i: f(a[0][0][i], a[1][0][i]))]


@fam(r'vmvnq?_[su]\d+', 'C11')
def _(s, a):
    return [lanes(s.rty, lambda i: T.not_(a[0][0][i]))]


@fam(r'vbslq?_[suf]\d+', 'C11')
def _(s, a):
    m, x, y = a[0][0], a[1][0], a[2][0]
    return [lanes(s.rty, lambda i: T.or_(T.and_(m[i], x[i]), T.and_(T.not_(m[i]), y[i])))]


# ---- compare, min, max
@fam(r'vc(eq|lt|le|gt|ge)q?_[suf]\d+', 'C12')
def _(s, a):
    op = s.name[2:4]
    return [lanes(s.rty, lambda i: ones(cmp_(op, a[0][0][i], a[1][0][i], a[0][0].e), s.rty.w))]


@fam(r'v(max|min)q?_[suf]\d+', 'C12', fl='f')
def _(s, a):
    mx = s.name[1:4] == 'max'
    return [lanes(s.rty, lambda i: maxmin(a[0][0][i], a[1][0][i], s.rty.e, mx))]


@fam(r'vp(max|min)q?_[suf]\d+', 'C12', fl='f')
def _(s, a):
    mx = s.name[2:5] == 'max'
    c = a[0][0] + a[1][0]
    return [lanes(s.rty, lambda i: maxmin(c[2 * i], c[2 * i + 1], s.rty.e, mx))]


# ---- table lookup
@fam(r'vtbl[1234]_[su]8|vqtbl1q?_[su]8', 'C13')
def _(s, a):
    t = []
    for v in a[0]:
        t += list(v)
    x = a[1][0]

    def f(i):
        r = const(0, 8)
        for k in range(len(t) - 1, -1, -1):
            r = T.ite(T.eq(x[i], const(k, 8)), t[k], r)
        return r
    return [lanes(s.rty, f)]


# ---- conversions
@fam(r'vcvt(n?)q?_[su]\d+_f\d+', 'C15')
def _(s, a):
    rn = s.name.startswith('vcvtn')
    r = s.rty
    f = lambda i: satconv(T.fround_op('even', a[0][0][i]) if rn else a[0][0][i], r.w, r.e == 's')
    return [lanes(r, f)]


@fam(r'vcvtq?_f\d+_[su]\d+', 'C15')
def _(s, a):
    r = s.rty
    return [lanes(r, lambda i: T.itofp(a[0][0][i], r.w, a[0][0].e == 's'))]


@fam(r'vrecpeq?_f32', 'C16', fl=True)
def _(s, a):
    return [lanes(s.rty, lambda i: recpe(a[0][0][i]))]


@fam(r'vrecpsq?_f(32|64)', 'C16', fl=True)
def _(s, a):
    return [lanes(s.rty, lambda i: recps(a[0][0][i], a[1][0][i]))]


_memo = {}


def spec(name):
    if name in _memo:
        return _memo[name]
    r = None
    if name in ACLE:
        for rx, prop, f, kw in FAM:
            if rx.match(name):
                s = Spec(name, prop, f)
                s.fl = kw.get('fl') is True or kw.get('fl') == 'f' and s.rty.e == 'f'
                s.store = kw.get('store', False)
                imm = kw.get('imm')
                vec = [p for p in s.pty if p.kind == 'vec']
                if imm == 'lane':
                    s.imm = (0, vec[0].n - 1)
                elif imm == 'right':
                    s.imm = (1, vec[-1].w)
                elif imm == 'narrow':
                    s.imm = (1, vec[-1].w // 2)
                elif imm == 'left':
                    s.imm = (0, vec[0].w - 1)
                elif imm == 'long':
                    s.imm = (0, vec[0].w)
                # memory footprint in elements
                s.foot = None
                if any(p.kind == 'ptr' for p in s.pty):
                    o = vec[0] if vec else s.rty
                    s.foot = {None: o.n * o.k, 1: 1, 'k': o.k}[kw.get('foot')]
                r = s
                break
    _memo[name] = r
    return r


if __name__ == '__main__':
    from collections import Counter
    c = Counter()
    for n in ACLE:
        s = spec(n)
        c[s.prop if s else 'none'] += 1
    print(c)
