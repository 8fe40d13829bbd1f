"""Goal-directed instantiation: argument values that make a rarely taken gate of a value graph true.

Works on terms only: a wanted value is pushed from a node down to the leaves through the inverse of each
operation.  Whatever comes out is a proposal; the caller evaluates both terms at it and believes nothing else.
"""
import math
import time
from fractions import Fraction
from . import terms as T
from .terms import mask, sgn


class Miss(Exception):
    pass


def factors(n):
    r, p = [], 2
    while p * p <= n and p < 3000:
        while n % p == 0:
            r.append(p)
            n //= p
        p += 1
    todo = [n] if n > 1 else []
    while todo:
        n = todo.pop()
        q = _rho(n) if n > 3000 * 3000 and pow(2, n - 1, n) != 1 else None
        if q:
            todo += [q, n // q]
        else:
            r.append(n)
    return r


def _rho(n):
    for c in (1, 3, 5):
        x = y = 2
        for _ in range(100000):
            x = (x * x + c) % n
            y = (y * y + c) % n
            y = (y * y + c) % n
            g = math.gcd(x - y, n)
            if g == n:
                break
            if g > 1:
                return g
    return None


class Seek:
    def __init__(self, vs, rng, until):
        self.vs, self.rng, self.until = vs, rng, until
        self.env = {}

    def val(self, n):
        try:
            return T.evaluate(n, self.env)
        except T.NoEval:
            raise Miss()

    def aim(self, t, v, d=0):
        """change env so that t becomes v"""
        if d > 60 or time.time() > self.until:
            raise Miss()
        op, w, a = t.op, t.w, t.a
        v &= mask(w)
        if op == 'v':
            self.env[t.id] = v
            return
        if self.val(t) == v:
            return
        f = getattr(self, 'do_' + op, None)
        if f is None:
            raise Miss()
        f(t, v, d + 1)

    def pick(self, a):
        """an operand that is not a constant, and the other one"""
        k = [i for i in (0, 1) if a[i].op != 'c']
        if not k:
            raise Miss()
        i = self.rng.choice(k)
        return i, a[i], self.val(a[1 - i])

    # ---- integers
    def do_add(self, t, v, d):
        i, x, o = self.pick(t.a)
        self.aim(x, v - o, d)

    def do_sub(self, t, v, d):
        i, x, o = self.pick(t.a)
        self.aim(x, v + o if i == 0 else o - v, d)

    def do_xor(self, t, v, d):
        i, x, o = self.pick(t.a)
        self.aim(x, v ^ o, d)

    def do_mul(self, t, v, d):
        w, r = t.w, self.rng
        x, y = t.a
        if x is y:
            for u in (v, v + (1 << w)):
                s = math.isqrt(u)
                if s * s == u:
                    return self.aim(x, r.choice((s, -s)), d)
            raise Miss()
        if x.op == 'c' or y.op == 'c' or r.random() < .4:
            i, x, o = self.pick(t.a)
            if o == 0:
                raise Miss()
            k = (o & -o).bit_length() - 1
            if v & mask(k):
                raise Miss()
            u = (v >> k) * pow(o >> k, -1, 1 << (w - k)) & mask(w - k) if w > k else 0
            if x.op in ('zext', 'sext') and k == 0:
                s = sgn(v, w) if x.op == 'sext' else v
                so = sgn(o, w) if x.op == 'sext' else o
                if s % so == 0:
                    u = s // so
            return self.aim(x, u | (r.getrandbits(k) << (w - k) if k and r.random() < .3 else 0), d)
        # both factors are free: a divisor that fits
        s = sgn(v, w) if 'sext' in (x.op, y.op) else v
        if s == 0:
            return self.aim(x, 0, d)
        lim = [a.a[0].w if a.op in ('zext', 'sext') else a.w for a in (x, y)]
        pr = factors(abs(s))
        for _ in range(30):
            f = 1
            for p in pr:
                if r.random() < .5:
                    f *= p
            g = abs(s) // f
            if f < 1 << lim[0] and g < 1 << lim[1]:
                if s < 0:
                    f = -f
                elif 'sext' in (x.op, y.op) and r.random() < .3:
                    f, g = -f, -g
                self.aim(x, f, d)
                self.aim(y, g, d)
                return
        raise Miss()

    def do_and(self, t, v, d):
        x, y = t.a
        if t.w == 1:
            return self.conj([(x, 1), (y, 1)], d) if v else self.aim(self.rng.choice((x, y)), 0, d)
        i, x, o = self.pick(t.a)
        if v & ~o:
            self.aim(t.a[1 - i], o | v, d)
            o = self.val(t.a[1 - i])
        self.aim(x, v | self.val(x) & ~o & mask(t.w), d)

    def do_or(self, t, v, d):
        x, y = t.a
        if t.w == 1:
            return self.conj([(x, 0), (y, 0)], d) if not v else self.aim(self.rng.choice((x, y)), 1, d)
        i, x, o = self.pick(t.a)
        if o & ~v:
            self.aim(t.a[1 - i], o & v, d)
            o = self.val(t.a[1 - i])
        self.aim(x, v & ~o | self.val(x) & o & v, d)

    def conj(self, goals, d):
        goals = list(goals)
        for _ in range(4):
            self.rng.shuffle(goals)
            open_ = [(x, k) for x, k in goals if self.val(x) != k]
            if not open_:
                return
            for x, k in open_:
                self.aim(x, k, d)
        raise Miss()

    def do_zext(self, t, v, d):
        x = t.a[0]
        if v >> x.w:
            raise Miss()
        self.aim(x, v, d)

    def do_sext(self, t, v, d):
        x = t.a[0]
        if sgn(v & mask(x.w), x.w) & mask(t.w) != v:
            raise Miss()
        self.aim(x, v, d)

    def do_ext(self, t, v, d):
        x = t.a[0]
        self.aim(x, self.val(x) & ~(mask(t.w) << t.x) | v << t.x, d)

    def do_cat(self, t, v, d):
        o = 0
        for p in t.a:
            self.aim(p, v >> o & mask(p.w), d)
            o += p.w

    def do_shl(self, t, v, d):
        x, k = t.a[0], self.val(t.a[1])
        if k >= t.w or v & mask(k):
            raise Miss()
        self.aim(x, v >> k | self.val(x) & ~mask(t.w - k), d)

    def do_lshr(self, t, v, d):
        x, k = t.a[0], self.val(t.a[1])
        if k >= t.w or v >> (t.w - k):
            raise Miss()
        self.aim(x, v << k | self.val(x) & mask(k), d)

    def do_ashr(self, t, v, d):
        x, k = t.a[0], self.val(t.a[1])
        if k >= t.w:
            raise Miss()
        self.aim(x, v << k | self.val(x) & mask(k), d)

    def do_udiv(self, t, v, d):
        x, k = t.a[0], self.val(t.a[1])
        if not k:
            raise Miss()
        self.aim(x, v * k + self.val(x) % k, d)

    def do_urem(self, t, v, d):
        x, k = t.a[0], self.val(t.a[1])
        if not k or v >= k:
            raise Miss()
        self.aim(x, self.val(x) // k * k + v, d)

    def do_sdiv(self, t, v, d):
        x, k = t.a[0], sgn(self.val(t.a[1]), t.w)
        if not k:
            raise Miss()
        q = sgn(v, t.w)
        r = abs(sgn(self.val(x), t.w)) % abs(k)
        self.aim(x, q * k + (r if q * k > 0 or q == 0 and self.rng.random() < .7 else -r), d)

    def do_srem(self, t, v, d):
        x, k = t.a[0], sgn(self.val(t.a[1]), t.w)
        r = sgn(v, t.w)
        if not k or abs(r) >= abs(k):
            raise Miss()
        q = abs(sgn(self.val(x), t.w)) // abs(k) * abs(k)
        self.aim(x, q + r if r > 0 or r == 0 and sgn(self.val(x), t.w) >= 0 else -q + r, d)

    def do_ite(self, t, v, d):
        c, x, y = t.a
        k = self.val(c)
        first = x if k else y
        if first.op != 'c' and self.rng.random() < .7:
            return self.aim(first, v, d)
        other = y if k else x
        if other.op == 'c' and other.x != v:
            return self.aim(first, v, d)
        self.aim(c, 1 - k, d)
        if self.val(t) != v:
            self.aim(other, v, d)

    def do_eq(self, t, v, d):
        i, x, o = self.pick(t.a)
        self.aim(x, o if v else o ^ (1 << self.rng.randrange(x.w)), d)

    def order(self, t, v, d, lo, hi):
        """x < y (v = 1) or x >= y, values between lo and hi"""
        i, x, o = self.pick(t.a)
        if hi > mask(x.w) >> 1 and lo < 0:
            pass
        o = sgn(o, x.w) if lo < 0 else o
        less = (i == 0) == bool(v)
        if i == 0:
            a, b = (lo, o - 1) if v else (o, hi)
        else:
            a, b = (o + 1, hi) if v else (lo, o)
        if a > b:
            raise Miss()
        r = self.rng.random()
        if r < .4:
            k = b if less else a
        elif r < .5:
            k = a if less else b
        elif r < .75:
            n = self.rng.randint(0, (b - a).bit_length())
            k = min(b, a + (1 << n) - 1) if not less else max(a, b - (1 << n) + 1)
        else:
            k = self.rng.randint(a, b)
        self.aim(x, k, d)

    def do_ult(self, t, v, d):
        self.order(t, v, d, 0, mask(t.a[0].w))

    def do_slt(self, t, v, d):
        m = mask(t.a[0].w) >> 1
        self.order(t, v, d, -m - 1, m)

    # ---- floats
    def fl(self, op, w, *a):
        try:
            return T.fop(op, w, *a)
        except (OverflowError, ZeroDivisionError, ValueError):
            raise Miss()

    def near(self, v, w):
        return v + self.rng.choice((0, 0, 0, 1, -1, 2, -2)) & mask(w)

    def do_fadd(self, t, v, d):
        i, x, o = self.pick(t.a)
        self.aim(x, self.near(self.fl('fsub', t.w, v, o), t.w), d)

    def do_fsub(self, t, v, d):
        i, x, o = self.pick(t.a)
        self.aim(x, self.near(self.fl('fadd', t.w, v, o) if i == 0 else self.fl('fsub', t.w, o, v), t.w), d)

    def do_fmul(self, t, v, d):
        if t.a[0] is t.a[1]:
            return self.aim(t.a[0], self.near(self.fl('fsqrt', t.w, v), t.w), d)
        i, x, o = self.pick(t.a)
        self.aim(x, self.near(self.fl('fdiv', t.w, v, o), t.w), d)

    def do_fdiv(self, t, v, d):
        i, x, o = self.pick(t.a)
        self.aim(x, self.near(self.fl('fmul', t.w, v, o) if i == 0 else self.fl('fdiv', t.w, o, v), t.w), d)

    def do_fsqrt(self, t, v, d):
        self.aim(t.a[0], self.near(self.fl('fmul', t.w, v, v), t.w), d)

    def do_fma(self, t, v, d):
        x, y, z = t.a
        if z.op != 'c' and self.rng.random() < .6:
            return self.aim(z, self.near(self.fl('fsub', t.w, v, self.fl('fmul', t.w, self.val(x), self.val(y))), t.w), d)
        i, x, o = self.pick(t.a[:2])
        self.aim(x, self.near(self.fl('fdiv', t.w, self.fl('fsub', t.w, v, self.val(z)), o), t.w), d)

    def do_frint(self, t, v, d):
        self.aim(t.a[0], v, d)

    def num(self, v, w):
        x = T.b2f(v, w)
        if x is None or isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
            raise Miss()
        return x

    def do_fpext(self, t, v, d):
        w = t.a[0].w
        self.aim(t.a[0], self.near(T.f2b(self.num(v, t.w), w), w), d)

    do_fptrunc = do_fpext

    def do_sitofp(self, t, v, d):
        x = Fraction(self.num(v, t.w))
        self.aim(t.a[0], int(x) + self.rng.choice((0, 0, 1, -1)), d)

    do_uitofp = do_sitofp

    def do_fptosi(self, t, v, d):
        w = t.a[0].w
        k = sgn(v, t.w) if t.op == 'fptosi' else v
        self.aim(t.a[0], T.fround(Fraction(k) + self.rng.choice((0, 0, Fraction(1, 2), Fraction(1, 4) if k >= 0 else Fraction(-1, 4))), w), d)

    do_fptoui = do_fptosi

    def do_fnan(self, t, v, d):
        w = t.a[0].w
        self.aim(t.a[0], T.QNAN[w] if v else T.f2b(float(self.rng.choice((0, 1, -1, 1.5, 3e5, 1e-5))), w), d)

    def do_feq(self, t, v, d):
        i, x, o = self.pick(t.a)
        if v and T.isnan_b(o, x.w):
            self.aim(t.a[1 - i], T.f2b(1.0, x.w), d)
            o = self.val(t.a[1 - i])
        self.aim(x, o if v else o ^ 1, d)

    def do_flt(self, t, v, d):
        i, x, o = self.pick(t.a)
        w = x.w
        if T.isnan_b(o, w):
            self.aim(t.a[1 - i], T.f2b(1.0, w), d)
            o = self.val(t.a[1 - i])
        step = self.rng.choice((1, 1, 2, 1 << T.FMT[w][1], 5 << T.FMT[w][1]))
        up = (i == 1) == bool(v)        # x has to be greater
        k = o & mask(w) >> 1
        k = -k if o >> (w - 1) else k
        if not v and self.rng.random() < .5:
            step = 0
        k += step if up else -step
        top = mask(T.FMT[w][0]) << T.FMT[w][1]
        k = max(-top, min(top, k))
        self.aim(x, k if k >= 0 else (-k) | 1 << (w - 1), d)


def seek(a, b, check, vs, pools, rng, guard=None, secs=1.5, tries=400):
    """check(env) -> result or None; propose assignments that turn the gates of a and b"""
    if not vs:
        return None
    until = time.time() + secs
    roots = [a, b] + ([guard] if guard is not None else [])
    gates = []
    seen = set()
    for t in T.walk(roots):
        if t.op == 'ite':
            cs = [t.a[0]]
        elif t.w == 1 and t.op in ('eq', 'ult', 'slt', 'flt', 'feq', 'fnan', 'and', 'or'):
            cs = [t]
        else:
            continue
        for c in cs:
            if c.id not in seen and c.op != 'c':
                seen.add(c.id)
                gates.append(c)
    if not gates:
        return None
    s = Seek(vs, rng, until)
    hit = {c.id: [0, 0] for c in gates}
    for n in range(tries):
        if time.time() > until:
            return None
        if n % 4 == 0 or not s.env:
            s.env = {v.id: rng.choice(pools[v.id]) if rng.random() < .4 else rng.getrandbits(v.w) >> (rng.randrange(v.w) if rng.random() < .3 else 0)
                     for v in vs}
            for c in gates[:200]:
                try:
                    hit[c.id][T.evaluate(c, s.env)] += 1
                except T.NoEval:
                    pass
        # the side of a gate seen least
        best = sorted(gates, key=lambda c: min(hit[c.id]) + rng.random() * (1 + n // 8))
        c = best[0] if rng.random() < .7 else rng.choice(gates)
        k = 0 if hit[c.id][0] < hit[c.id][1] else 1
        try:
            s.conj([(c, k)] + ([(guard, 1)] if guard is not None else []), 0)
            hit[c.id][k] += 1
        except Miss:
            if rng.random() < .3:
                hit[c.id][k] += 1
        except (ValueError, OverflowError, ZeroDivisionError, KeyError, TypeError):
            pass
        r = check(s.env)
        if r:
            return r
    return None
