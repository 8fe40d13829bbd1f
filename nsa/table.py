"""Value sets of nodes that depend on few input bits: one truth table per bit of the node.

A table is an integer with one bit per assignment of the input bits, so a node of width w is w integers and every
operation is a word-parallel circuit.  Exact for integer operations on up to BITS input bits (two 8-bit lanes,
one 16-bit lane, ...).  Division by zero counts as 0: two graphs with equal tables agree wherever both are defined.
"""
from . import terms as T

BITS = 16
_ctx = {}


class No(Exception):
    pass


def reset():
    _ctx.clear()


def support(*roots):
    """the input bits the roots depend on: ((leaf, mask), ...), None when too many"""
    seen, st, need = set(), list(roots), {}
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'ext' and t.a[0].op in LEAF:
            v = t.a[0]
            need[v] = need.get(v, 0) | T.mask(t.w) << t.x
        elif t.op in LEAF:
            need[t] = T.mask(t.w)
        else:
            st.extend(t.a)
    if sum(bin(m).count('1') for m in need.values()) > BITS:
        return None
    return tuple(sorted(need.items(), key=lambda x: x[0].id))


LEAF = ('v', 'u', 'op')


class Tab:
    def __init__(self, vs):
        self.vs = vs
        k = sum(bin(m).count('1') for v, m in vs)
        n = self.n = 1 << k
        self.one = (1 << n) - 1
        self.memo = {}
        self.bits = {}
        j = 0
        for v, m in vs:
            bits = []
            for b in range(v.w):
                if not m >> b & 1:
                    bits.append(0)
                    continue
                p = ((1 << (1 << j)) - 1) << (1 << j)     # 2^j zeros, 2^j ones, repeated
                s = 2 << j
                while s < n:
                    p |= p << s
                    s *= 2
                bits.append(p)
                j += 1
            self.bits[v.id] = bits
            if m == T.mask(v.w):
                self.memo[v.id] = bits

    def get(self, n):
        memo = self.memo
        st = [n]
        while st:
            t = st[-1]
            if t.id in memo:
                st.pop()
                continue
            if t.op == 'ext' and t.a[0].id in self.bits:
                memo[t.id] = self.bits[t.a[0].id][t.x:t.x + t.w]
                continue
            todo = [p for p in t.a if p.id not in memo] if t.op != 'op' else ()
            if todo:
                st.extend(todo)
                continue
            memo[t.id] = self.ev(t, [memo[p.id] for p in t.a])
            st.pop()
        return memo[n.id]

    def add(self, a, b, c=0):
        out = []
        for x, y in zip(a, b):
            z = x ^ y
            out.append(z ^ c)
            c = x & y | c & z
        return out

    def inv(self, a):
        o = self.one
        return [x ^ o for x in a]

    def sub(self, a, b):
        return self.add(a, self.inv(b), self.one)

    def ult(self, a, b):
        r = 0
        for x, y in zip(a, b):
            r = y & ~x | r & ~(x ^ y)
        return r & self.one

    def mux(self, c, a, b):
        if not c:
            return b
        if c == self.one:
            return a
        d = c ^ self.one
        return [x if x == y else x & c | y & d for x, y in zip(a, b)]

    def shift(self, op, a, b):
        w = len(a)
        fill = a[-1] if op == 'ashr' else 0
        k = 0
        over = 0
        for j, s in enumerate(b):
            if not s:
                continue
            d = 1 << j
            if d >= w:
                over |= s
                continue
            if op == 'shl':
                sh = [0] * d + a[:w - d]
            else:
                sh = a[d:] + [fill] * d
            a = self.mux(s, sh, a)
        if over:
            a = self.mux(over, [fill] * w, a)
        return a

    def udivrem(self, a, b):
        w = len(a)
        q, r = [0] * w, [0] * w
        b1 = b + [0]
        for k in range(w - 1, -1, -1):
            r1 = [a[k]] + r
            lt = self.ult(r1, b1)
            q[k] = lt ^ self.one
            r = self.mux(lt, r1, self.sub(r1, b1))[:w]
        z = 0
        for x in b:
            z |= x
        z ^= self.one
        return [x & ~z for x in q], [x & ~z for x in r]

    def neg_if(self, c, a):
        return self.mux(c, self.sub([0] * len(a), a), a)

    def ev(self, t, a):
        op, w, one = t.op, t.w, self.one
        if op == 'c':
            return [one if t.x >> i & 1 else 0 for i in range(w)]
        if op == 'and':
            return [x & y for x, y in zip(*a)]
        if op == 'or':
            return [x | y for x, y in zip(*a)]
        if op == 'xor':
            return [x ^ y for x, y in zip(*a)]
        if op == 'add':
            return self.add(*a)
        if op == 'sub':
            return self.sub(*a)
        if op == 'mul':
            x, y = a
            if sum(1 for v in x if v) < sum(1 for v in y if v):
                x, y = y, x
            if y[-1] and y[-1] != one and all(v == y[-1] for v in y[w // 2:]):      # a sign: multiply magnitudes
                s = y[-1]
                x, y = self.neg_if(s, x), self.neg_if(s, y)
            r = [0] * w
            for i, v in enumerate(y):
                if v:
                    r[i:] = self.add(r[i:], [v & u for u in x[:w - i]])
            return r
        if op == 'zext':
            return a[0] + [0] * (w - len(a[0]))
        if op == 'sext':
            return a[0] + [a[0][-1]] * (w - len(a[0]))
        if op == 'ext':
            return a[0][t.x:t.x + w]
        if op == 'cat':
            return [x for p in a for x in p]
        if op in ('shl', 'lshr', 'ashr'):
            return self.shift(op, a[0], a[1])
        if op in ('udiv', 'urem'):
            q, r = self.udivrem(*a)
            return q if op == 'udiv' else r
        if op in ('sdiv', 'srem'):
            x, y = a
            sx, sy = x[-1], y[-1]
            q, r = self.udivrem(self.neg_if(sx, x), self.neg_if(sy, y))
            return self.neg_if(sx ^ sy, q) if op == 'sdiv' else self.neg_if(sx, r)
        if op == 'eq':
            d = 0
            for x, y in zip(*a):
                d |= x ^ y
            return [d ^ one]
        if op == 'ult':
            return [self.ult(*a)]
        if op == 'slt':
            x, y = a
            return [self.ult(x[:-1] + [x[-1] ^ one], y[:-1] + [y[-1] ^ one])]
        if op == 'ite':
            return self.mux(a[0][0], a[1], a[2])
        raise No(op)

    def env(self, m):
        """the assignment numbered m, as {leaf id: value}"""
        out = {}
        for v, k in self.vs:
            x = 0
            for b in range(v.w):
                if k >> b & 1:
                    x |= (m & 1) << b
                    m >>= 1
            out[v.id] = x
        return out


def tab(vs):
    k = tuple((v.id, m) for v, m in vs)
    t = _ctx.get(k)
    if t is None:
        if len(_ctx) > 40:
            _ctx.clear()
        t = _ctx[k] = Tab(vs)
    return t


def lowest(x):
    return (x & -x).bit_length() - 1


def sat(c):
    """the assignments under which c holds: None when not decided here, else 0 or the table"""
    vs = support(c)
    if vs is None or c.hasf:
        return None
    t = tab(vs)
    try:
        return t.get(c)[0], t
    except No:
        return None


def equal(a, b):
    """True, an assignment under which they differ, or None"""
    if a.hasf or b.hasf:
        return None
    vs = support(a, b)
    if vs is None:
        return None
    t = tab(vs)
    try:
        x, y = t.get(a), t.get(b)
    except No:
        return None
    d = 0
    for p, q in zip(x, y):
        d |= p ^ q
    return True if not d else t.env(lowest(d))


def cases(a, b):
    """both as decision trees over few input bits: [(leaf of a, leaf of b)] that are selected together and are not the same; None when not decided here"""
    seen, st, conds = set(), [a, b], []
    while st:
        t = st.pop()
        if t.id in seen or t.op != 'ite':
            continue
        seen.add(t.id)
        conds.append(t.a[0])
        st.extend(t.a[1:])
    if not conds or any(c.hasf for c in conds):
        return None
    vs = support(*conds)
    if vs is None:
        return None
    t = tab(vs)

    def leaves(r):
        order, done, st = [], set(), [(r, False)]
        while st:
            n, out = st.pop()
            if out:
                order.append(n)
            elif n.id not in done:
                done.add(n.id)
                st.append((n, True))
                if n.op == 'ite':
                    st += [(x, False) for x in n.a[1:]]
        when, out = {r.id: t.one}, {}
        for n in reversed(order):
            w = when.get(n.id, 0)
            if n.op != 'ite':
                if w:
                    out[n] = w
                continue
            c = t.get(n.a[0])[0]
            for x, k in ((n.a[1], w & c), (n.a[2], w & (c ^ t.one))):
                when[x.id] = when.get(x.id, 0) | k
        return out
    try:
        x, y = leaves(a), leaves(b)
    except No:
        return None
    return [(p, q) for p, u in x.items() for q, v in y.items() if p is not q and u & v]
