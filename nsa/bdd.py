"""Reduced ordered decision diagrams: a canonical form for bit-level functions of the lanes.

Every bit of a node becomes a diagram over the bits of the leaves; variables of different leaves are
interleaved (adders, comparators and multiplexers stay linear in size).  Products of two lanes, general
division and floating point operators are leaves themselves.  Equal functions have the same diagram."""
from . import terms as T
from .terms import mask


class B:
    def __init__(self, limit=600000):
        self.lv, self.lo, self.hi = [1 << 60, 1 << 60], [0, 1], [0, 1]
        self.u, self.cache, self.limit = {}, {}, limit

    def mk(self, v, l, h):
        if l == h:
            return l
        k = (v, l, h)
        r = self.u.get(k)
        if r is None:
            r = len(self.lv)
            if r > self.limit:
                from .prove import Give
                raise Give('diagram too large')
            self.lv.append(v)
            self.lo.append(l)
            self.hi.append(h)
            self.u[k] = r
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        lv, lo, hi = self.lv, self.lo, self.hi
        v = min(lv[f], lv[g], lv[h])
        f0, f1 = (lo[f], hi[f]) if lv[f] == v else (f, f)
        g0, g1 = (lo[g], hi[g]) if lv[g] == v else (g, g)
        h0, h1 = (lo[h], hi[h]) if lv[h] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def not_(self, f):
        return self.ite(f, 0, 1)

    def and_(self, f, g):
        return self.ite(f, g, 0) if f <= g else self.ite(g, f, 0)

    def or_(self, f, g):
        return self.ite(f, 1, g) if f <= g else self.ite(g, 1, f)

    def xor(self, f, g):
        if f > g:
            f, g = g, f
        return self.ite(f, self.not_(g), g)


class Blast:
    def __init__(self):
        self.b = B()
        self.memo = {}
        self.rank = {}
        self.var = {}          # level -> (leaf node, bit)

    def leaf(self, n):
        r = self.rank.setdefault(n.id, len(self.rank))
        out = []
        for i in range(n.w):
            lv = i * 4096 + r
            self.var[lv] = (n, i)
            out.append(self.b.mk(lv, 0, 1))
        return out

    def add(self, x, y, c=0):
        b, out = self.b, []
        for p, q in zip(x, y):
            t = b.xor(p, q)
            out.append(b.xor(t, c))
            c = b.or_(b.and_(p, q), b.and_(t, c))
        return out, c

    def ltu(self, x, y):
        b = self.b
        r = 0
        for p, q in zip(x, y):
            r = b.ite(b.xor(p, q), q, r)
        return r

    def bits(self, n):
        st = [n]
        while st:
            t = st[-1]
            if t.id in self.memo:
                st.pop()
                continue
            ops = self.expand(t)
            todo = [p for p in ops if p.id not in self.memo]
            if todo:
                st.extend(todo)
                continue
            self.memo[t.id] = self.one(t)
            st.pop()
        return self.memo[n.id]

    def expand(self, t):
        if t.op in ('mul', 'udiv', 'sdiv', 'urem', 'srem'):
            return t.a
        if t.op[0] == 'f' or t.op in ('sitofp', 'uitofp', 'op', 'v', 'u', 'c'):
            return ()
        return t.a

    def one(self, t):
        b, m, op, w = self.b, self.memo, t.op, t.w
        A = lambda k: m[t.a[k].id]
        if op == 'c':
            return [t.x >> i & 1 for i in range(w)]
        if op == 'add':
            return self.add(A(0), A(1))[0]
        if op == 'sub':
            return self.add(A(0), [b.not_(x) for x in A(1)], 1)[0]
        if op == 'mul' and T.isc(t.a[1]) and bin(t.a[1].x).count('1') <= 8:
            acc = [0] * w
            for k in range(w):
                if t.a[1].x >> k & 1:
                    acc = self.add(acc, [0] * k + A(0)[:w - k])[0]
            return acc
        if op == 'and':
            return [b.and_(x, y) for x, y in zip(A(0), A(1))]
        if op == 'or':
            return [b.or_(x, y) for x, y in zip(A(0), A(1))]
        if op == 'xor':
            return [b.xor(x, y) for x, y in zip(A(0), A(1))]
        if op == 'zext':
            return A(0) + [0] * (w - len(A(0)))
        if op == 'sext':
            return A(0) + [A(0)[-1]] * (w - len(A(0)))
        if op == 'ext':
            return A(0)[t.x:t.x + w]
        if op == 'cat':
            r = []
            for p in t.a:
                r = r + m[p.id]
            return r
        if op == 'ite':
            c = A(0)[0]
            return [b.ite(c, x, y) for x, y in zip(A(1), A(2))]
        if op == 'eq':
            r = 1
            for x, y in zip(A(0), A(1)):
                r = b.and_(r, b.not_(b.xor(x, y)))
            return [r]
        if op == 'ult':
            return [self.ltu(A(0), A(1))]
        if op == 'slt':
            x, y = A(0), A(1)
            return [self.ltu(x[:-1] + [y[-1]], y[:-1] + [x[-1]])]
        if op in ('shl', 'lshr', 'ashr'):
            x, s = A(0), A(1)
            fill = x[-1] if op == 'ashr' else 0
            k = 0
            while 1 << k < w and k < len(s):
                d = 1 << k
                if op == 'shl':
                    y = ([0] * d + x)[:w]
                else:
                    y = (x + [fill] * d)[d:d + w]
                x = [b.ite(s[k], p, q) for p, q in zip(y, x)]
                k += 1
            big = 0
            for q in s[k:]:
                big = b.or_(big, q)
            return [b.ite(big, fill, p) for p in x]
        if op in ('mul', 'udiv', 'urem', 'sdiv', 'srem'):
            r = self.table(t, A(0), A(1))
            if r is not None:
                return r
        if op == 'mul' and w <= 32:
            x, y = A(0), A(1)
            if len({f for f in x if f > 1}) <= 8 and len({f for f in y if f > 1}) <= 8:
                acc = [0] * w
                for k in range(w):
                    if y[k]:
                        acc = self.add(acc, [0] * k + [b.and_(y[k], f) for f in x[:w - k]])[0]
                return acc
        return self.leaf(t)

    def table(self, t, x, y, most=12):
        """an operation whose operands depend on few bits, tabulated over those bits"""
        b = self.b
        sup, seen, st = set(), set(), list(x) + list(y)
        while st:
            f = st.pop()
            if f <= 1 or f in seen:
                continue
            seen.add(f)
            sup.add(b.lv[f])
            if len(sup) > most:
                return None
            st += [b.lo[f], b.hi[f]]
        n, memo, w = len(x), {}, t.w

        def go(fs):
            r = memo.get(fs)
            if r is None:
                v = min(b.lv[f] for f in fs)
                if v == 1 << 60:
                    p = sum(f << i for i, f in enumerate(fs[:n]))
                    q = sum(f << i for i, f in enumerate(fs[n:]))
                    c = T.mul(T.const(p, w), T.const(q, w)) if t.op == 'mul' else T.div(t.op, T.const(p, w), T.const(q, w))
                    r = [c.x >> i & 1 for i in range(w)] if T.isc(c) else [0] * w
                else:
                    l = go(tuple(b.lo[f] if b.lv[f] == v else f for f in fs))
                    h = go(tuple(b.hi[f] if b.lv[f] == v else f for f in fs))
                    r = [b.mk(v, p, q) for p, q in zip(l, h)]
                memo[fs] = r
            return r
        return go(tuple(x) + tuple(y))


def equal(a, b):
    """True, or an assignment {leaf id: value} at which the diagrams differ"""
    s = Blast()
    # leaves get their rank in order of appearance: operands of one lane stay adjacent
    for t in sorted((t for t in T.walk([a, b]) if t.op == 'v'), key=lambda t: t.id):
        s.memo[t.id] = s.leaf(t)
    x, y = s.bits(a), s.bits(b)
    d = 0
    for p, q in zip(x, y):
        if p != q:
            d = s.b.xor(p, q)
            break
    else:
        return True
    env = {}
    while d > 1:
        v = s.b.lv[d]
        n, i = s.var[v]
        if s.b.hi[d] != 0:
            env[n.id] = env.get(n.id, 0) | 1 << i
            d = s.b.hi[d]
        else:
            d = s.b.lo[d]
    return env
