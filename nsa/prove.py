"""Equality of value-graph nodes by normalisation.

A w-bit node is normalised to a polynomial with integer coefficients over atoms
(lanes, floor quotients, conjunction words, uninterpreted operators), read modulo 2^w.  Wrapping,
sign reinterpretation and clamps are resolved with the value ranges of the polynomial; where a range
straddles a threshold (a saturation limit, a sign change) both sides of the threshold are normalised
separately.  Floating point comparisons are resolved over the finite set of orderings of their operands
(less, equal, greater, unordered; the two zeros kept apart).  No path of the program is followed here and
no solver is called: the program was already reduced to one gated value per result lane.

Outcomes: 'proved'; 'refuted' (with an instance of the lanes at which the two normal forms differ);
'unknown'.
"""
import random
import time
from . import terms as T
from .terms import mask, sgn

INF = 1 << 600


class Split(Exception):
    def __init__(self, form, c):      # split on form >= c   (form: primitive poly without constant)
        self.form, self.c = form, c


class FSplit(Exception):
    def __init__(self, kind, x, y=None):
        self.kind, self.x, self.y = kind, x, y


class Give(Exception):
    pass


# ---------------------------------------------------------------- polynomials
# dict: sorted tuple of Atom -> int
class Atom:
    __slots__ = ('key', 'lo', 'hi', 'id', 'deps')

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return str(self.key)


_atoms = {}


def reset():
    from . import table
    table.reset()
    _atoms.clear()
    _floors.clear()
    _truncs.clear()


def atom(key, lo, hi):
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.key, a.lo, a.hi, a.id = key, lo, hi, len(_atoms)
        _atoms[key] = a
    return a


def pc(n):
    return {(): n} if n else {}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def pmul(p, q):
    r = {}
    if len(p) * len(q) > 4000:
        raise Give('polynomial too large')
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pmod(p, w):
    """coefficients reduced to the symmetric range modulo 2^w"""
    r = {}
    h = 1 << (w - 1)
    for m, c in p.items():
        c &= mask(w)
        if c >= h:
            c -= 1 << w
        if c:
            r[m] = c
    return r


def pkey(p):
    return tuple(sorted((tuple(a.id for a in m), c) for m, c in p.items()))


def _gcd(*xs):
    from math import gcd
    g = 0
    for x in xs:
        g = gcd(g, x)
    return g


def primitive(p):
    """p = g*F + c, F primitive without constant, leading coefficient positive -> (F, g, c)"""
    c = p.get((), 0)
    F = {m: v for m, v in p.items() if m}
    if not F:
        return None, 0, c
    g = _gcd(*F.values())
    lead = F[max(F, key=lambda m: tuple(a.id for a in m))]
    if lead < 0:
        g = -g
    return {m: v // g for m, v in F.items()}, g, c


class Ctx:
    """facts: ranges of forms, float facts, substitution"""
    __slots__ = ('forms', 'byk', 'nan', 'rel', 'fb', 'memoM', 'depth', 'bmemo', 'single')

    def __init__(self, o=None):
        if o is None:
            self.forms, self.nan, self.rel, self.fb, self.depth = {}, {}, {}, {}, 0
        else:
            self.forms, self.nan, self.rel, self.fb = dict(o.forms), dict(o.nan), dict(o.rel), dict(o.fb)
            self.depth = o.depth + 1
        self.memoM = {}
        self.bmemo = {}

    # ---- ranges
    def abounds(self, a):
        f = self.forms.get((((a.id,), 1),))
        if f is None:
            return a.lo, a.hi
        return max(a.lo, f[1]), min(a.hi, f[2])

    def mbounds(self, m):
        r = self.bmemo.get(m)
        if r is not None:
            return r
        lo = hi = 1
        if len(m) == 2 and m[0] is m[1]:
            l, h = self.abounds(m[0])
            c = [l * l, h * h]
            lo, hi = (0 if l <= 0 <= h else min(c)), max(c)
        else:
            for a in m:
                l, h = self.abounds(a)
                c = (lo * l, lo * h, hi * l, hi * h)
                lo, hi = min(c), max(c)
        f = self.forms.get(((tuple(a.id for a in m), 1),))
        if f is not None:
            lo, hi = max(lo, f[1]), min(hi, f[2])
        self.bmemo[m] = (lo, hi)
        return lo, hi

    def raw(self, p):
        lo = hi = 0
        for m, c in p.items():
            if not m:
                lo += c
                hi += c
                continue
            l, h = self.mbounds(m)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return lo, hi

    def bounds(self, p):
        lo, hi = self.raw(p)
        if len(p) > 1 and self.forms:
            for F, l, h in self.forms.values():
                if len(F) < 2:
                    continue
                # p = k*F + rest
                for m, c in F.items():
                    if m in p and p[m] % c == 0:
                        k = p[m] // c
                        rl, rh = self.raw(padd(p, F, -k))
                        if k > 0:
                            a, b = k * l + rl, k * h + rh
                        else:
                            a, b = k * h + rl, k * l + rh
                        lo, hi = max(lo, a), min(hi, b)
                        break
        return lo, hi

    def assume(self, F, lo=None, hi=None):
        """new context with lo <= F <= hi or None if that is visibly impossible"""
        n = Ctx(self)
        l, h = self.bounds(F)
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        if l > h:
            return None
        n.forms[pkey(F)] = (F, l, h)
        n.propagate()
        for G, gl, gh in n.forms.values():
            a, b = n.raw(G)
            if a > gh or b < gl:
                return None
        return n

    def propagate(self):
        """tighten single-atom ranges from linear forms"""
        for _ in range(3):
            ch = False
            for F, l, h in list(self.forms.values()):
                if len(F) < 2:
                    continue
                for m, c in F.items():
                    if len(m) != 1:
                        continue
                    rest = {k: v for k, v in F.items() if k != m}
                    rl, rh = self.raw(rest)
                    a, b = l - rh, h - rl       # c*m in [a,b]
                    if c > 0:
                        ml, mh = -((-a) // c), b // c
                    else:
                        ml, mh = -((b) // -c), (-a) // -c
                    cl, chh = self.abounds(m[0])
                    if ml > cl or mh < chh:
                        self.forms[(((m[0].id,), 1),)] = ({m: 1}, max(ml, cl), min(mh, chh))
                        self.bmemo = {}
                        ch = True
            if not ch:
                break
        # floor atoms against the ranges of what they divide
        self.bmemo = {}

    # ---- deciding sign of integer polynomials
    def ge0(self, p):
        """is p >= 0 ?  (True/False, or Split)"""
        lo, hi = self.bounds(p)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        F, g, c = primitive(p)
        # g*F + c >= 0
        if g > 0:
            raise Split(F, -((c) // g))          # F >= ceil(-c/g)
        # F <= floor(c/-g)  -> split on F >= that+1
        raise Split(F, c // -g + 1)


# ---------------------------------------------------------------- normalisation
class Norm:
    def __init__(self, ctx):
        self.c = ctx
        self.hermite = False

    def canon(self, P):
        """canonical rounding constants: every floor atom in terms of plain quotients"""
        for _ in range(64):
            hit = False
            for m in list(P):
                for a in m:
                    if a.id in _floors and m.count(a) == 1:
                        R, d = _floors[a.id]
                        if d % 2 == 0 and R.get((), 0) >= d // 2:
                            self.hermite = True
                            try:
                                r = self.floor(R, d)
                            finally:
                                self.hermite = False
                            c = P.pop(m)
                            rest = list(m)
                            rest.remove(a)
                            P = padd(P, pmul({tuple(rest): c}, r))
                            hit = True
                            break
                if hit:
                    break
            if not hit:
                return P
        return P

    def wrap(self, P, lo, w):
        """the integer in [lo, lo+2^w) congruent to P"""
        P = pmod_keep(P, w, self.c, lo)
        l, h = self.c.bounds(P)
        kl, kh = (l - lo) >> w, (h - lo) >> w
        if kl == kh:
            return padd(P, pc(kl << w), -1)
        if kh - kl <= 3:
            k = (kl + kh + 1) // 2
            self.c.ge0(padd(P, pc(-(lo + (k << w)))))
            # ge0 decided (tighter bounds there): retry on the decided side
            return self._wrap2(P, lo, w, kl, kh)
        Q = self.floor(padd(P, pc(-lo)), 1 << w)
        return padd(P, pscale(Q, 1 << w), -1)

    def _wrap2(self, P, lo, w, kl, kh):
        for k in range(kh, kl, -1):
            if self.c.ge0(padd(P, pc(-(lo + (k << w))))):
                return padd(P, pc(k << w), -1)
        return padd(P, pc(kl << w), -1)

    def U(self, n):
        k = (n.id, 'U')
        r = self.c.memoM.get(k)
        if r is None:
            r = self.c.memoM[k] = self.wrap(self.M(n), 0, n.w)
        return r

    def S(self, n):
        k = (n.id, 'S')
        r = self.c.memoM.get(k)
        if r is None:
            r = self.c.memoM[k] = self.wrap(self.M(n), -(1 << (n.w - 1)), n.w)
        return r

    def floor(self, P, m):
        """floor(P/m), m > 0, P an exact integer polynomial"""
        if m == 1:
            return P
        Q, R = {}, {}
        for k, c in P.items():
            q, r = divmod(c, m)
            if k:
                # keep small negative coefficients negative
                if r > m // 2:
                    q, r = q + 1, r - m
            if q:
                Q[k] = q
            if r:
                R[k] = r
        if not R:
            return Q
        l, h = self.c.bounds(R)
        if l // m == h // m or l > h:           # l > h: no value at all in this case
            return padd(Q, pc(l // m))
        nz = [c for k, c in R.items() if k]
        g = _gcd(*(nz + [m]))
        if g > 1:
            R2 = {k: (c // g) for k, c in R.items()}      # constant: floor division
            R2 = {k: c for k, c in R2.items() if c}
            return padd(Q, self.floor(R2, m // g))
        # a single floor atom plus constant: nested quotient
        if len(nz) == 1:
            mono = [k for k in R if k][0]
            if len(mono) == 1 and R[mono] == 1 and mono[0].key[0] == 'floor':
                X, a = _floors[mono[0].id]
                return padd(Q, self.floor(padd(X, pc(R.get((), 0) * a)), a * m))
        if h // m - l // m <= 3:
            ks = list(range(l // m, h // m + 1))
            for k in reversed(ks[1:]):
                if self.c.ge0(padd(R, pc(-k * m))):
                    return padd(Q, pc(k))
            return padd(Q, pc(ks[0]))
        if self.hermite:
            c = R.get((), 0)
            if m % 2 == 0 and c >= m // 2:
                # floor((X+m/2)/m) = floor(2X/m) - floor(X/m)
                X = padd(R, pc(-(m // 2)))
                return padd(padd(Q, self.floor(X, m // 2)), self.floor(X, m), -1)
        a = atom(('floor', pkey(R), m), l // m, h // m)
        if a.id not in _floors:
            _floors[a.id] = (R, m)
            l0, h0 = Ctx().raw(R)
            a.lo, a.hi = l0 // m, h0 // m
        return padd(Q, {(a,): 1})

    def M(self, n):
        r = self.c.memoM.get(n.id)
        if r is None:
            r = self.c.memoM[n.id] = self._M(n)
        return r

    def cond(self, n):
        p = self.M(n)
        p = pmod(p, 1)
        k = p.get((), 0)
        if len(p) > (1 if () in p else 0):
            # 1-bit variable
            q = self.U(n)
            if not any(q):
                return bool(q.get((), 0))
            return self.c.ge0(padd(q, pc(-1)))
        return bool(k & 1)

    def opq(self, n):
        """uninterpreted operator: operands by their own normal form"""
        key = [n.op, n.w, n.x]
        for p in n.a:
            q = self.resolve(p)
            if q.op == 'c':
                key.append(('c', q.x))
            elif q.w == 1 or q.hasf or q.op in 'vu':
                key.append(('n', q.id))
            else:
                key.append(('p', q.w, pkey(pmod(self.M(q), q.w))))
        if n.op in ('fadd', 'fmul'):
            key[3:] = sorted(key[3:], key=repr)
        if n.op == 'fma':
            key[3:5] = sorted(key[3:5], key=repr)
        return {(atom(tuple(key), 0, mask(n.w)),): 1}

    def resolve(self, n):
        """n with the gates decided by the context"""
        k = (n.id, 'R')
        r = self.c.memoM.get(k)
        if r is not None:
            return r
        if n.op == 'ite':
            r = self.resolve(n.a[1] if self.cond(n.a[0]) else n.a[2])
        elif n.op in ('fnan', 'flt', 'feq', 'eq', 'ult', 'slt'):
            r = T.const(int(self.cond(n)), 1)
        elif not n.a:
            r = n
        else:
            na = [self.resolve(p) for p in n.a]
            r = n if all(x is y for x, y in zip(na, n.a)) else T.rebuild(n, na)
            if r is not n and (r.op == 'ite' or any(p.op == 'ite' for p in r.a)):
                r = self.resolve(r)
        self.c.memoM[k] = r
        return r

    def _M(self, n):
        op, w = n.op, n.w
        if op == 'c':
            return pc(sgn(n.x, w) if w > 1 else n.x)
        if op == 'v':
            if n.x[1] == 's' and w > 1:
                return {(atom(('v', n.id), -(1 << (w - 1)), (1 << (w - 1)) - 1),): 1}
            return {(atom(('v', n.id), 0, mask(w)),): 1}
        if op == 'u':
            return {(atom(('u', n.id), 0, mask(w)),): 1}
        if op == 'add':
            return pmod(padd(self.M(n.a[0]), self.M(n.a[1])), w)
        if op == 'sub':
            return pmod(padd(self.M(n.a[0]), self.M(n.a[1]), -1), w)
        if op == 'mul':
            return pmod(pmul(self.M(n.a[0]), self.M(n.a[1])), w)
        if op == 'shl':
            b = self.U(n.a[1])
            if not any(b):
                k = b.get((), 0)
                if k < 0:
                    raise Give('empty case')
                return pmod(pscale(self.M(n.a[0]), 1 << k), w) if k < w else {}
            l, h = self.c.bounds(b)
            if h - l <= 64:
                self.pin(b, l, h)
            return self.opq(n)
        if op in ('lshr', 'ashr'):
            b = self.U(n.a[1])
            l, h = self.c.bounds(b)
            if any(b) and h - l <= 64:
                b = self.pin(b, l, h)
            if not any(b):
                k = b.get((), 0)
                if k < 0:
                    raise Give('empty case')
                x = self.U(n.a[0]) if op == 'lshr' else self.S(n.a[0])
                return pmod(self.floor(x, 1 << min(k, w)), w)
            return self.opq(n)
        if op == 'zext':
            return self.U(n.a[0])
        if op == 'sext':
            return self.S(n.a[0])
        if op == 'ext':
            a = n.a[0]
            if n.x == 0:
                return pmod(self.M(a), w)
            # top bits: signed or unsigned quotient agree modulo 2^w
            if n.x + w == a.w:
                P = self.M(a)
                return pmod(self.floor(P, 1 << n.x), w)
            return pmod(self.floor(self.M(a), 1 << n.x), w)
        if op == 'cat':
            r, o = {}, 0
            for i, p in enumerate(n.a):
                last = i == len(n.a) - 1
                r = padd(r, pscale(self.M(p) if last else self.U(p), 1 << o))
                o += p.w
            return pmod(r, w)
        if op == 'ite':
            c, a, b = n.a
            try:
                return self.M(a) if self.cond(c) else self.M(b)
            except Split:
                # the same normal form on both sides needs no split
                if a.op != 'ite' and b.op != 'ite' and not a.hasf and not b.hasf:
                    try:
                        x, y = pmod(self.M(a), w), pmod(self.M(b), w)
                        if x == y:
                            return x
                    except (Split, FSplit):
                        pass
                raise
        if op == 'eq':
            a, b = n.a
            D = padd(self.M(a), self.M(b), -1)
            D = pmod(D, a.w)
            if not D:
                return pc(1)
            l, h = self.c.bounds(D)
            if not (-(1 << a.w) < l and h < 1 << a.w):
                D = padd(self.U(a), self.U(b), -1)
                l, h = self.c.bounds(D)
            if not any(D):
                return pc(1 if D.get((), 0) == 0 else 0)
            if l > 0 or h < 0:
                return {}
            # gcd test
            F, g, c = primitive(D)
            if c % abs(g):
                return {}
            if not self.c.ge0(D):
                return {}
            if self.c.ge0(padd(D, pc(-1))):
                return {}
            return pc(1)
        if op == 'ult':
            D = padd(self.U(n.a[1]), self.U(n.a[0]), -1)
            return pc(1) if self.c.ge0(padd(D, pc(-1))) else {}
        if op == 'slt':
            D = padd(self.S(n.a[1]), self.S(n.a[0]), -1)
            return pc(1) if self.c.ge0(padd(D, pc(-1))) else {}
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            return self.divop(n)
        if op in ('and', 'or', 'xor'):
            return self.bitw(n)
        if op in ('fnan', 'flt', 'feq'):
            return pc(int(self.fpred(n)))
        if op[0] == 'f' or op in ('sitofp', 'uitofp'):
            return self.fval(n)
        return self.opq(n)

    def pin(self, b, l, h):
        if l == h:
            return pc(l)
        mid = (l + h + 1) // 2
        self.c.ge0(padd(b, pc(-mid)))
        raise Give('cannot pin a shift amount')

    def divop(self, n):
        op, w = n.op, n.w
        s = op[0] == 's'
        x = self.S(n.a[0]) if s else self.U(n.a[0])
        y = self.S(n.a[1]) if s else self.U(n.a[1])
        if any(y):
            l, h = self.c.bounds(y)
            if h - l <= 8:
                y = self.pin(y, l, h)
            else:
                return self.opq(n)
        d = y.get((), 0)
        if d == 0:
            return self.opq(n)
        if s:
            if self.c.ge0(x):
                q = self.floor(x, abs(d))
            else:
                q = pscale(self.floor(pscale(x, -1), abs(d)), -1)
            if d < 0:
                q = pscale(q, -1)
        else:
            q = self.floor(x, d)
        if op.endswith('div'):
            return pmod(q, w)
        return pmod(padd(x, pscale(q, d), -1), w)

    # ---- bitwise words
    def bitw(self, n):
        op, w = n.op, n.w
        a, b = n.a
        if w == 1:
            # conditions: lazy
            x = None
            try:
                x = self.cond(a)
            except (Split, FSplit) as e:
                try:
                    y = self.cond(b)
                except (Split, FSplit):
                    raise e
                if op == 'and' and not y:
                    return {}
                if op == 'or' and y:
                    return pc(1)
                raise e
            if op == 'and':
                return pc(int(self.cond(b))) if x else {}
            if op == 'or':
                return pc(1) if x else pc(int(self.cond(b)))
            return pc(int(x != self.cond(b)))
        na, nb = self.resolve(a), self.resolve(b)
        if na is not a or nb is not b:
            r = T._bw(op, na, nb)
            if r is not n:
                return self.M(r)
        if T.isc(b) and not _bitwise(a):
            c = b.x
            A = self.maskp(a, c)
            if op == 'and':
                return pmod(A, w)
            r = padd(self.M(a), pc(c))
            return pmod(padd(r, A, -1 if op == 'or' else -2), w)
        # word over leaves: multilinear in conjunctions
        leaves, consts = [], []

        def coll(t):
            if t.op in ('and', 'or', 'xor') and t.w == w:
                coll(t.a[0])
                coll(t.a[1])
            elif t.op == 'c':
                if t.x not in (0, mask(w)) and t.x not in consts:
                    consts.append(t.x)
            else:
                if t not in leaves:
                    leaves.append(t)
        coll(n)
        if consts:
            cuts = {0, w}
            for c in consts:
                for i in range(1, w):
                    if (c >> i ^ c >> (i - 1)) & 1:
                        cuts.add(i)
            cuts = sorted(cuts)
            if len(cuts) > 9:
                return self.opq(n)
            r = {}
            for s, e in zip(cuts, cuts[1:]):
                def seg(t):
                    if t.op in ('and', 'or', 'xor') and t.w == w:
                        return T._bw(t.op, seg(t.a[0]), seg(t.a[1]))
                    return T.ext(t, s, e - s)
                q = seg(n)
                r = padd(r, pscale(self.M(q) if e == w else self.U(q), 1 << s))
            return pmod(r, w)
        # merge leaves with equal / complementary normal forms
        forms, idx = [], {}
        for i, t in enumerate(leaves):
            p = pmod(self.M(t), w)
            if not any(p):                      # constant
                r = T.subst(n, lambda x, t=t, p=p: T.const(p.get((), 0), w) if x is t else None)
                return self.M(r)
            k = pkey(p)
            kc = pkey(pmod(padd(pc(-1), p, -1), w))
            for j, (k2, _) in enumerate(forms):
                if k2 == k:
                    idx[t.id] = (j, 0)
                    break
                if k2 == kc:
                    idx[t.id] = (j, 1)
                    break
            else:
                idx[t.id] = (len(forms), 0)
                forms.append((k, p))
        N = len(forms)
        if N > 5:
            return self.opq(n)

        def ev(t, bits):
            if t.op in ('and', 'or', 'xor') and t.w == w:
                x, y = ev(t.a[0], bits), ev(t.a[1], bits)
                return x & y if t.op == 'and' else x | y if t.op == 'or' else x ^ y
            if t.op == 'c':
                return 1 if t.x else 0
            j, neg = idx[t.id]
            return bits >> j & 1 ^ neg
        f = [ev(n, b) for b in range(1 << N)]
        # Moebius transform over the integers
        for i in range(N):
            for b in range(1 << N):
                if b >> i & 1:
                    f[b] -= f[b ^ (1 << i)]
        r = {}
        for b in range(1 << N):
            if not f[b]:
                continue
            if b == 0:
                t = pc(-1)                 # empty conjunction: all ones
            elif b & (b - 1) == 0:
                t = forms[b.bit_length() - 1][1]
            else:
                ks = tuple(sorted(forms[j][0] for j in range(N) if b >> j & 1))
                # bounds: a conjunction is below each non-negative member
                hi = mask(w)
                for j in range(N):
                    if b >> j & 1:
                        l, h = Ctx().raw(forms[j][1])
                        if l >= 0:
                            hi = min(hi, h)
                t = {(atom(('and', w, ks), 0, hi),): 1}
            r = padd(r, t, f[b])
        return pmod(r, w)

    def maskp(self, a, c):
        """a & c for constant c as a polynomial (mod 2^w)"""
        w = a.w
        r = {}
        i = 0
        runs = []
        while i < w:
            if c >> i & 1:
                j = i
                while j < w and c >> j & 1:
                    j += 1
                runs.append((i, j))
                i = j
            else:
                i += 1
        if len(runs) > 4:
            return self.opq(T._mk('and', w, (a, T.const(c, w))))
        P = self.M(a)
        for i, j in runs:
            q = self.floor(P, 1 << i)
            if j < w:
                q = padd(q, pscale(self.floor(P, 1 << j), 1 << (j - i)), -1)
            r = padd(r, pscale(q, 1 << i))
        return r

    # ---- floats
    def fval(self, n):
        r = self.resolve(n)
        if r is not n and r.op != n.op:
            return self.M(r)
        if r.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fma', 'fsqrt', 'frint', 'fpext', 'fptrunc'):
            for p in r.a:
                if self.isnan(p):
                    return pc(T.QNAN[n.w])
        if r.op == 'frint':
            b = self.frange(r)
            if b is not None and b[0] == b[1]:
                return pc(sgn(b[0], n.w))
        if r.op in ('fptosi', 'fptoui'):
            # the truncated value itself, whatever the width it is converted to
            x = r.a[0]
            l, h = -(1 << 1030), 1 << 1030
            b = self.frange(x)
            if b is not None:
                m = T.FMT[x.w]
                big = mask(m[0]) << m[1]
                if b[0] & mask(x.w - 1) != big:
                    l = T.fptosi_c(b[0], x.w, 2000, True)
                if b[1] & mask(x.w - 1) != big:
                    h = T.fptosi_c(b[1], x.w, 2000, True)
            if l == h:
                return pc(l)
            k = ('c', x.x) if x.op == 'c' else x.id
            t = atom(('trunc', k, l, h), l, h)
            _truncs[t.id] = x
            return pmod({(t,): 1}, n.w)
        return self.opq(r)

    def frange(self, x):
        """bit patterns of the least and greatest value of a float known not to be NaN (the zeros apart), or None"""
        w = x.w
        if x.op == 'frint':
            b = self.frange(x.a[0])
            return None if b is None else (T.frint(x.x, w, b[0]), T.frint(x.x, w, b[1]))
        f = self.c.fb.get(x.id)
        if f is None or self.c.nan.get(x.id) is not False:
            return None
        lo, ls, hi, hs = f
        l, h = T.f2b(lo, w), T.f2b(hi, w)
        if lo == 0:
            l = 1 if ls else 1 << (w - 1)
        elif ls:
            l = T._step(l, w, 1)
        if hi == 0:
            h = 1 | 1 << (w - 1) if hs else 0
        elif hs:
            h = T._step(h, w, -1)
        return l, h

    def isnan(self, x):
        """known NaN (no split)"""
        x = self.resolve(x)
        if T.isc(x):
            return x.w in T.FMT and T.isnan_b(x.x, x.w)
        return self.c.nan.get(x.id) is True

    def fpred(self, n):
        c = self.c
        a = [self.resolve(p) for p in n.a]
        m = T.rebuild(n, a)
        if m is not n:
            return self.cond(m)
        if n.op == 'fnan':
            x = a[0]
            v = c.nan.get(x.id)
            if v is None:
                raise FSplit('nan', x)
            return v
        x, y = a
        for p in (x, y):
            if not T.isc(p):
                v = c.nan.get(p.id)
                if v is None:
                    raise FSplit('nan', p)
                if v:
                    return False
        r = self.relation(x, y)
        if r is None:
            raise FSplit('rel', x, y)
        return r == ('lt' if n.op == 'flt' else 'eq')

    def relation(self, x, y):
        c = self.c
        if T.isc(y):
            v = T.b2f(y.x, y.w)
            lo, ls, hi, hs = c.fb.get(x.id, (-float('inf'), False, float('inf'), False))
            if hi < v or hi == v and hs:
                return 'lt'
            if lo > v or lo == v and ls:
                return 'gt'
            return None
        if T.isc(x):
            r = self.relation(y, x)
            return {'lt': 'gt', 'gt': 'lt', 'eq': 'eq', None: None}[r]
        r = c.rel.get((x.id, y.id))
        if r:
            return r
        a, b = c.fb.get(x.id), c.fb.get(y.id)
        if a and b:
            if a[2] < b[0] or a[2] == b[0] and (a[3] or b[1]):
                return 'lt'
            if a[0] > b[2] or a[0] == b[2] and (a[1] or b[3]):
                return 'gt'
        # |x| style terms against constants are handled through their own bounds
        return None


_floors = {}
_truncs = {}        # atom id -> the float whose integer part it is


def pmod_keep(P, w, ctx, lo):
    """reduce coefficients modulo 2^w only if the polynomial is not already in range"""
    l, h = ctx.bounds(P)
    if lo <= l and h < lo + (1 << w):
        return P
    Q = pmod(P, w)
    return Q


def _bitwise(t):
    return t.op in ('and', 'or', 'xor')


# ---------------------------------------------------------------- proof driver
class Stats:
    def __init__(self):
        self.leaves = 0
        self.max = 0


def _fcases(e, ctx, goals):
    """finite case distinction on a float predicate; yields (ctx, goals)"""
    x, y = e.x, e.y
    if e.kind == 'nan':
        for v in (True, False):
            n = Ctx(ctx)
            n.nan[x.id] = v
            if v:
                if n.fb.get(x.id):
                    continue
            yield n, goals
        return
    if T.isc(x):
        x, y = y, x
    for r2 in ('lt', 'gt', 'eq'):
        n = Ctx(ctx)
        if T.isc(y):
            v = T.b2f(y.x, y.w)
            lo, ls, hi, hs = n.fb.get(x.id, (-float('inf'), False, float('inf'), False))
            if r2 == 'lt':
                if v < hi or v == hi and not hs:
                    hi, hs = v, True
                if lo > hi or lo == hi and (ls or hs) or hi == -float('inf') and hs:
                    continue
                n.fb[x.id] = (lo, ls, hi, hs)
                if not _nofloat(x.w, lo, ls, hi, hs):
                    yield n, goals
            elif r2 == 'gt':
                if v > lo or v == lo and not ls:
                    lo, ls = v, True
                if lo > hi or lo == hi and (ls or hs) or lo == float('inf') and ls:
                    continue
                n.fb[x.id] = (lo, ls, hi, hs)
                if not _nofloat(x.w, lo, ls, hi, hs):
                    yield n, goals
            else:
                if v < lo or v > hi or v == lo and ls or v == hi and hs:
                    continue
                vals = [y.x] if v else [0, 1 << (y.w - 1)]
                for c in vals:
                    k = T.const(c, y.w)
                    m = Ctx(ctx)
                    yield m, _sub(goals, x, k)
        else:
            if r2 == 'eq':
                yield n, _sub(goals, y, x)
                w = x.w
                for p, q in ((0, 1 << (w - 1)), (1 << (w - 1), 0)):
                    m = Ctx(ctx)
                    yield m, _sub(_sub(goals, x, T.const(p, w)), y, T.const(q, w))
            else:
                n.rel[(x.id, y.id)] = r2
                n.rel[(y.id, x.id)] = {'lt': 'gt', 'gt': 'lt'}[r2]
                yield n, goals


def _nofloat(w, lo, ls, hi, hs):
    """no value of the format lies between the bounds"""
    inf = float('inf')
    if ls and lo != inf:
        lo = T.b2f(T._step(T.f2b(lo, w), w, 1), w)
    if hs and hi != -inf:
        hi = T.b2f(T._step(T.f2b(hi, w), w, -1), w)
    return lo > hi


def _trunc_split(e, ctx):
    """a threshold of the integer part of a float is a threshold of the float"""
    if len(e.form) != 1:
        return None
    (m, k), = e.form.items()
    if len(m) != 1 or k != 1 or m[0].id not in _truncs:
        return None
    x, c = _truncs[m[0].id], e.c
    if T.isc(x):
        return None
    y = x.a[0] if x.op == 'frint' else x
    v = ctx.nan.get(y.id)
    if v is None:
        return FSplit('nan', y)
    if v or y.op == 'frint':
        return None
    w = x.w
    p = (lambda r: r >= c) if c > 0 else (lambda r: r > c - 1)      # trunc(r) >= c
    t = T._thr(x.x if x is not y else None, w, p, True)
    if T.b2f(t, w) in (float('inf'), -float('inf')):
        return None
    return FSplit('rel', y, T.const(t, w))


def _sub(goals, x, k):
    memo = {}
    return [T.subst(g, lambda t: k if t is x else None, memo) for g in goals]


def equal_in(ctx, a, b, isfloat, st):
    n = Norm(ctx)
    w = a.w
    if a is b:
        return True
    if isfloat:
        ra, rb = n.resolve(a), n.resolve(b)
        if ra is rb:
            return True
        na, nb = _nanish(n, ra), _nanish(n, rb)
        if na and nb:
            return True
        if na != nb:
            return False
        a, b = ra, rb
    D = pmod(padd(n.M(a), n.M(b), -1), w)
    if not D:
        return True
    l, h = ctx.bounds(D)
    if l == h:
        return l & mask(w) == 0
    # exact integers of both sides
    D = pmod(n.canon(dict(D)), w)
    if not D:
        return True
    D = n.canon(padd(n.U(a), n.U(b), -1))
    return not D


def _nanish(n, x):
    if T.isc(x):
        return T.isnan_b(x.x, x.w)
    if n.isnan(x):
        return True
    if x.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fma', 'fsqrt', 'frint', 'fpext', 'fptrunc'):
        return any(_nanish(n, p) for p in x.a)
    return False


def prove(a, b, isfloat=False, limit=600, st=None, ctx=None, budget=4.0):
    """-> True, or (False, ctx, a, b) at the first case where the normal forms differ"""
    st = st or Stats()
    stack = [(ctx or Ctx(), [a, b])]
    end = time.time() + budget
    while stack:
        if time.time() > end:
            raise Give('case budget')
        c, g = stack.pop()
        if st.leaves + len(stack) > limit:
            raise Give('case limit')
        try:
            ok = equal_in(c, g[0], g[1], isfloat, st)
            st.leaves += 1
            if not ok:
                return (False, c, g[0], g[1])
        except Split as e:
            f = _trunc_split(e, c)
            if f is not None:
                for n, g2 in _fcases(f, c, g):
                    stack.append((n, g2))
                continue
            for lo, hi in ((e.c, None), (None, e.c - 1)):
                n = c.assume(e.form, lo, hi)
                if n is not None:
                    stack.append((n, g))
        except FSplit as e:
            for n, g2 in _fcases(e, c, g):
                stack.append((n, g2))
    return True


# ---------------------------------------------------------------- instances of a difference
def _interesting(w, kind, consts):
    if kind == 'f':
        e, m = T.FMT[w]
        inf = mask(e) << m
        s = 1 << (w - 1)
        xs = [0, s, inf, inf | s, inf | 1 << (m - 1), inf | 1, 1, 1 | s, 1 << m, inf - 1, (inf - 1) | s, mask(m)]
        for v in (1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 3.5, 0.75, -0.75, 2.0, 3.0, -3.0, 100.25, -100.75, 7.0, 1e10, -1e10,
                  0.1, 1.1, 3.14159, 1e-20, 1e20, 1e-30, 1e30, 2147483648.0, 2147483520.0, -2147483648.0, -2147483904.0,
                  4294967296.0, 4294967040.0, 3e9, 8388607.5, 8388608.5, 16777217.0, 0.49999997, 1.0000001,
                  9223372036854775808.0, 5.0, 10.0):
            xs.append(T.f2b(v, w))
        for c in consts:
            xs += [c & mask(w)]
        for k in (1, 2, 3, 127, 128, 129, 130, 150, 151, 252, 253, 254):
            if w == 32:
                xs += [k << m, k << m | 0x400000, k << m | 0x7fffff, k << m | s | 0x123456]
        return xs
    xs = {0, 1, 2, 3, 4, 5, 7, mask(w), mask(w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, mask(w) - 2}
    for i in range(w):
        xs |= {1 << i, (1 << i) - 1, ((1 << i) + 1), -(1 << i) & mask(w), (~(1 << i)) & mask(w)}
    for i in range(2, w):
        xs |= {3 << (i - 1) & mask(w), (3 << (i - 2)) - 1 & mask(w)}
    for c in consts:
        for d in (-1, 0, 1):
            xs.add(c + d & mask(w))
            xs.add(-c + d & mask(w))
    return sorted(xs)


def instance(a, b, isfloat, rng, tries=6000, guard=None, aimed=False):
    """look for lane values at which nodes a and b differ (and guard holds)"""
    roots = [a, b] + ([guard] if guard is not None else [])
    nodes = T.walk(roots)
    vs = [t for t in nodes if t.op == 'v']
    free = [t for t in nodes if t.op in ('u', 'op')]
    if any(t.op == 'op' for t in free):
        opq = True
    consts = sorted({t.x for t in nodes if t.op == 'c' and t.w > 1})[:40]
    vs.sort(key=lambda t: t.id)
    pools = {}
    for v in vs:
        pools[v.id] = _interesting(v.w, v.x[1], [c for c in consts])

    def check(env):
        try:
            if guard is not None and not T.evaluate(guard, env):
                return None
            x, y = T.evaluate(a, env), T.evaluate(b, env)
        except T.NoEval:
            return None
        if x == y:
            return None
        if isfloat and T.isnan_b(x, a.w) and T.isnan_b(y, a.w):
            return None
        return {v.x[0]: env[v.id] for v in vs}, x, y
    import itertools
    if not vs:
        return check({})
    sz = 1
    for v in vs:
        sz *= len(pools[v.id])
    small = sum(v.w for v in vs) <= 8
    if small:
        pools = {v.id: range(1 << v.w) for v in vs}
        sz = 1 << sum(v.w for v in vs)
    if sz <= tries:
        for t in itertools.product(*[pools[v.id] for v in vs]):
            r = check({v.id: x for v, x in zip(vs, t)})
            if r:
                return r
        n = tries // 3
    else:
        n = tries
    for i in range(n):
        env = {}
        for v in vs:
            r = rng.random()
            if r < .6:
                env[v.id] = rng.choice(pools[v.id])
            elif r < .75 and env:
                o = rng.choice(list(env.values()))
                env[v.id] = (o + rng.choice((0, 0, 1, -1, 2, -2))) & mask(v.w)
            elif r < .85:
                env[v.id] = rng.getrandbits(min(v.w, rng.randint(1, v.w)))
            else:
                env[v.id] = rng.getrandbits(v.w)
        r = check(env)
        if r:
            return r
    if aimed:
        from . import seek
        return seek.seek(a, b, check, vs, pools, rng, guard)
    return None


class Verdict:
    __slots__ = ('kind', 'why', 'env', 'got', 'want', 'cases')

    def __init__(self, kind, why='', env=None, got=None, want=None, cases=0):
        self.kind, self.why, self.env, self.got, self.want, self.cases = kind, why, env, got, want, cases


_proved = {}
_unknown = {}


def signature(*roots):
    """serial form of the graphs with the leaves renamed in order of appearance"""
    num, out, leaf = {}, [], {}
    for r in roots:
        st = [r]
        while st:
            t = st[-1]
            if t.id in num:
                st.pop()
                continue
            todo = [p for p in t.a if p.id not in num]
            if todo:
                st.extend(reversed(todo))
                continue
            st.pop()
            num[t.id] = len(num)
            if t.op in ('v', 'u', 'op') and not t.a:
                k = leaf.setdefault(t.id, len(leaf))
                out.append((t.op, t.w, t.x[1] if t.op == 'v' else None, k))
            else:
                out.append((t.op, t.w, t.x, tuple(num[p.id] for p in t.a)))
    out.append(tuple(num[r.id] for r in roots))
    return hash(tuple(out)), len(out)


def intfloat(n):
    """float predicates spelled out on the bits (sign-magnitude order)"""
    def m(t):
        return None
    memo = {}

    def key(x):             # monotone integer image of the ordered values (zeros identified)
        w = x.w
        mag = T.ext(x, 0, w - 1)
        mz = T.zext(mag, w + 1)
        return T.ite(T.ext(x, w - 1, 1), T.neg(mz), mz)

    def nan(x):
        e, k = T.FMT[x.w]
        return T.ult(T.const(mask(e) << k, x.w - 1), T.ext(x, 0, x.w - 1))
    st = [n]
    while st:
        t = st[-1]
        if t.id in memo:
            st.pop()
            continue
        todo = [p for p in t.a if p.id not in memo]
        if todo:
            st.extend(todo)
            continue
        a = [memo[p.id] for p in t.a]
        if t.op == 'fnan':
            r = nan(a[0])
        elif t.op == 'flt':
            r = T.and_(T.and_(T.not_(nan(a[0])), T.not_(nan(a[1]))), T.slt(key(a[0]), key(a[1])))
        elif t.op == 'feq':
            r = T.and_(T.and_(T.not_(nan(a[0])), T.not_(nan(a[1]))), T.eq(key(a[0]), key(a[1])))
        elif t.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fma', 'fsqrt', 'frint', 'fpext', 'fptrunc'):
            # the result is NaN when an operand is; otherwise the operation stays opaque
            k = T.const(0, 1)
            for p in a:
                k = T.or_(k, nan(p))
            r = T.ite(k, T.const(T.QNAN[t.w], t.w), T.opaque(t.w, (t.op, t.x), tuple(a)))
        elif all(x is y for x, y in zip(a, t.a)):
            r = t
        else:
            r = T.rebuild(t, a)
        memo[t.id] = r
        st.pop()
    return memo[n.id], nan


def nanprop(n):
    """below a test that some operand is NaN, an operation on it is NaN"""
    def atoms(c, neg=False):
        """disjunctions of nodes, one of which is NaN when c holds (each element of the list is implied)"""
        if c.op == 'fnan':
            return [frozenset([c.a[0]])]
        if c.op == 'and':
            return atoms(c.a[0]) + atoms(c.a[1])
        if c.op == 'or':
            x, y = atoms(c.a[0]), atoms(c.a[1])
            return [p | q for p in x for q in y]
        return []

    def strip(x):
        while True:
            if x.op in ('and', 'xor') and T.isc(x.a[1]) and x.a[1].x in (1 << (x.w - 1), mask(x.w - 1)):
                if x.op == 'and' and x.a[1].x != mask(x.w - 1):
                    return x
                x = x.a[0]
            elif x.op == 'fpext':
                x = x.a[0]
            else:
                return x
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'ite' and t.w in T.FMT:
            d = atoms(t.a[0])
            x = t.a[1]
            if d:
                def m(u):
                    if u.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fma', 'fsqrt'):
                        s = {strip(p) for p in u.a}
                        if any(k <= s for k in d):
                            return T.const(T.QNAN[u.w], u.w)
                    return None
                x = T.subst(x, m)
            r = T.ite(t.a[0], go(x), go(t.a[2]))
        else:
            r = t
        memo[t.id] = r
        return r
    return go(n)


def fcanon(n):
    """normal form of the signs and the trivial operands of float operations (exact up to the sign of a NaN)"""
    memo = {}

    def split(x):
        k = T._signop(x)
        return (1, k[1]) if k and k[0] == 'neg' else (0, x)

    def sg(s, x):
        return T.fneg(x) if s else x

    def op(t, a):
        w = t.w
        if t.op == 'fsub':
            return op2('fadd', a[0], T.fneg(a[1]))
        if t.op in ('fadd', 'fmul', 'fdiv'):
            return op2(t.op, *a)
        if t.op == 'fma':
            (s, x), (r, y) = split(a[0]), split(a[1])
            if T.isc(x) and not T.isc(y):
                x, y = y, x
            if T.isc(y):
                v = y.x
                if v >> (w - 1):
                    s, y = s ^ 1, T.const(v ^ 1 << (w - 1), w)
                if y.x == one(w):
                    return op2('fadd', sg(s ^ r, x), a[2])
            if x.id > y.id:
                x, y = y, x
            return T.fma(sg(s ^ r, x), y, a[2])
        if t.op == 'fptrunc':
            s, x = split(a[0])
            return sg(s, T.fptrunc(x, w))
        if t.op == 'fpext':
            s, x = split(a[0])
            return sg(s, T.fpext(x, w))
        if t.op == 'frint':
            s, x = split(a[0])
            m = {'floor': 'ceil', 'ceil': 'floor'}.get(t.x, t.x) if s else t.x
            return sg(s, T.fround_op(m, x))
        return T.rebuild(t, a)

    def one(w):
        return T.f2b(1.0, w)

    def op2(o, x, y):
        w = x.w
        if o == 'fadd':
            for p, q in ((x, y), (y, x)):
                if T.isc(p) and p.x == 1 << (w - 1):         # x + (-0)
                    return q
            return T.fbin('fadd', x, y)
        (s, x), (r, y) = split(x), split(y)
        s ^= r
        if o == 'fmul' and T.isc(x):
            x, y = y, x
        if T.isc(y) and not T.isnan_b(y.x, w):
            if y.x >> (w - 1):
                s, y = s ^ 1, T.const(y.x ^ 1 << (w - 1), w)
            e, m = T.FMT[w]
            bias = mask(e) >> 1
            k = y.x >> m
            if y.x & mask(m) == 0 and 1 < k < 2 * bias - 1 and o == 'fdiv':
                o, y = 'fmul', T.const((2 * bias - k) << m, w)
            if o in ('fmul', 'fdiv') and y.x == one(w):
                return sg(s, x)
            if o == 'fmul' and y.x == T.f2b(2.0, w):
                return sg(s, T.fbin('fadd', x, x))
        if T.isc(x) and x.x >> (w - 1) and not T.isnan_b(x.x, w):
            s, x = s ^ 1, T.const(x.x ^ 1 << (w - 1), w)
        return sg(s, T.fbin(o, x, y))
    st = [n]
    while st:
        t = st[-1]
        if t.id in memo:
            st.pop()
            continue
        todo = [p for p in t.a if p.id not in memo]
        if todo:
            st.extend(todo)
            continue
        a = [memo[p.id] for p in t.a]
        if t.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fma', 'fptrunc', 'fpext', 'frint'):
            r = op(t, a)
        elif all(x is y for x, y in zip(a, t.a)):
            r = t
        else:
            r = T.rebuild(t, a)
        memo[t.id] = r
        st.pop()
    return memo[n.id]


def decide(a, b, isfloat=False, limit=600, seed=1, tries=6000):
    """a: what the code computes, b: what it has to compute"""
    if a is b:
        return Verdict('proved', 'identical value', cases=1)
    sig = (signature(a, b), isfloat)
    if sig in _unknown:
        return Verdict('unknown', _unknown[sig], cases=1)
    if sig in _proved:
        return Verdict('proved', _proved[sig], cases=1)
    st = Stats()
    why = ''
    try:
        r = prove(a, b, isfloat, limit, st)
        if r is True:
            _proved[sig] = 'normal forms agree'
            return Verdict('proved', 'normal forms agree', cases=st.leaves)
        why = 'normal forms differ'
    except Give as e:
        why = str(e)
    except RecursionError:
        why = 'recursion limit'
    except (IndexError, KeyError, ValueError, AssertionError) as e:
        why = 'internal: %r' % e
    rng = random.Random(seed)
    w = instance(a, b, isfloat, rng, min(tries, 600))
    if w:
        return Verdict('refuted', why, w[0], w[1], w[2], st.leaves)
    if isfloat:
        x, y = fcanon(a), fcanon(b)
        if x is not a or y is not b:
            try:
                if x is y or prove(x, y, isfloat, limit, st) is True:
                    _proved[sig] = 'normal forms agree'
                    return Verdict('proved', 'normal forms agree', cases=st.leaves)
            except Give as e:
                why += '; ' + str(e)
            except RecursionError:
                pass
    # few input bits: all of them
    from . import table
    try:
        r = table.equal(a, b)
        if r is True:
            _proved[sig] = 'equal value tables'
            return Verdict('proved', 'equal value tables', cases=st.leaves + 1)
        if r is not None:
            p, q = T.evaluate(a, r), T.evaluate(b, r)
            if p != q:
                return Verdict('refuted', 'value tables differ', {v.x[0]: r[v.id] for v in T.walk([a, b]) if v.op == 'v'}, p, q, st.leaves + 1)
    except (T.NoEval, RecursionError):
        pass
    # decision trees over few input bits
    try:
        pairs = table.cases(a, b)
        if pairs is not None and len(pairs) <= 300 and all(prove(p, q, isfloat, limit, st) is True for p, q in pairs):
            _proved[sig] = 'the same cases'
            return Verdict('proved', 'the same cases', cases=st.leaves + 1)
    except (Give, RecursionError):
        pass
    # canonical decision diagrams for the bit-level remainder
    try:
        from . import bdd
        x, y, goal = fcanon(a) if isfloat else a, fcanon(b) if isfloat else b, None
        if x.hasf or y.hasf:
            if isfloat:
                x, y = nanprop(x), nanprop(y)
            x, nan = intfloat(x)
            y, _ = intfloat(y)
            if isfloat:
                goal = T.or_(T.eq(x, y), T.and_(nan(x), nan(y)))
        r = bdd.equal(goal, T.const(1, 1)) if goal is not None else bdd.equal(x, y)
        if r is True:
            _proved[sig] = 'canonical diagrams agree'
            return Verdict('proved', 'canonical diagrams agree', cases=st.leaves + 1)
        env = r
        vs = [t for t in T.walk([a, b]) if t.op == 'v']
        env = {v.id: env.get(v.id, 0) for v in vs}
        try:
            p, q = T.evaluate(a, env), T.evaluate(b, env)
            if p != q and not (isfloat and T.isnan_b(p, a.w) and T.isnan_b(q, a.w)):
                return Verdict('refuted', 'canonical diagrams differ', {v.x[0]: env[v.id] for v in vs}, p, q, st.leaves + 1)
        except T.NoEval:
            pass
    except Give as e:
        why += '; ' + str(e)
    except RecursionError:
        why += '; recursion limit'
    w = instance(a, b, isfloat, rng, tries, aimed=True)
    if w:
        return Verdict('refuted', why, w[0], w[1], w[2], st.leaves)
    _unknown[sig] = why
    return Verdict('unknown', why, cases=st.leaves)


def holds(cond, guard=None, seed=1, limit=300, tries=3000):
    """cond is 1 whenever guard is"""
    one = T.const(1, 1)
    g = cond if guard is None else T.ite(guard, cond, one)
    return decide(g, one, False, limit, seed, tries)
