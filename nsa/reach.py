"""Is a state of the static storage in which a call goes wrong one that earlier calls leave?  Both answers come from the transfer terms of
one call (new content in terms of old content and arguments): they are instantiated call after call, and constant steps are accelerated."""
import itertools
import random
import time
from . import terms as T, prove as P
from .terms import const

CALLS = 100000
SECS = 20.0


def transfer(I, st, todo):
    """cell -> (its content after a call, its initial content), for the cells the terms depend on; None if not known"""
    need = {}
    while todo:
        new = [v for v in T.walk(todo) if v.op == 'v' and v in I.earlier and v not in need]
        todo = []
        for v in new:
            r, off, i0 = I.earlier[v]
            if i0 is None or r.id not in st.mem:
                return None
            f = I._get(st.mem[r.id], off, v.w // 8, r, st)
            if not isinstance(f, T.Node):
                return None
            need[v] = (f, i0)
            todo.append(f)
    return need


def leaves(f, out, limit=16):
    while f.op == 'ite':
        if not leaves(f.a[1], out, limit):
            return False
        f = f.a[2]
    out.add(f.x if f.op == 'c' else None)
    return len(out) <= limit and None not in out


def finite(I, st, got, want, isfloat):
    """the states any history leaves are finitely many, and the call is right in each"""
    need = transfer(I, st, [got, want])
    if not need:
        return False
    vs = list(need)
    todo, seen = [tuple(need[v][1] for v in vs)], set()
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        if len(seen) > 24:
            return False
        m = dict(zip(vs, s))
        sub = lambda f: T.subst(f, lambda t: const(m[t], t.w) if t in m else None)
        if P.decide(sub(got), sub(want), isfloat).kind != 'proved':
            return False
        opts = []
        for v in vs:
            o = set()
            if not leaves(sub(need[v][0]), o):
                return False
            opts.append(sorted(o))
        todo += itertools.islice(itertools.product(*opts), 40)
        if len(list(itertools.islice(itertools.product(*opts), 41))) > 40:
            return False
    return True


def reach(I, st, got, want, env, isfloat=False):
    """-> (how many and which calls, full environment) or None"""
    need = transfer(I, st, [got, want])
    if not need:
        return None
    nodes = T.walk([got, want] + [f for f, _ in need.values()])
    args = [v for v in nodes if v.op in 'vu' and v not in need or v.op == 'op']
    if any(v.op != 'v' for v in args):
        return None
    last = {v: env.get(v.x[0], 0) for v in args}
    rng = random.Random(1)

    def bad(s):
        e = {v.id: x for v, x in last.items()}
        e.update({v.id: x for v, x in s.items()})
        try:
            a, b = T.evaluate(got, e), T.evaluate(want, e)
        except T.NoEval:
            return False
        return a != b and not (isfloat and T.isnan_b(a, got.w) and T.isnan_b(b, got.w))

    def step(s, a):
        e = {v.id: x for v, x in a.items()}
        e.update({v.id: x for v, x in s.items()})
        return {v: T.evaluate(f, e) for v, (f, _) in need.items()}

    def out(s, calls):
        e = {v.x[0]: x for v, x in last.items()}
        e.update({v.x[0]: x for v, x in s.items()})
        return calls, e

    init = {v: i0 for v, (_, i0) in need.items()}
    tries = [last, {v: 0 for v in args}, {v: rng.getrandbits(v.w) for v in args}]
    for v, (f, i0) in need.items():
        # arguments that make a call change the state at all
        g = T.subst(f, lambda t: const(init[t], t.w) if t in init else None)
        w = P.decide(g, const(i0, v.w))
        if w.kind == 'refuted':
            tries.append({a: w.env.get(a.x[0], 0) for a in args})
    t0 = time.time()
    try:
        for k, a in enumerate(tries):
            s, seen = init, set()
            for n in range(CALLS):
                if bad(s):
                    return out(s, '%d earlier call%s with %s' % (n, 's'[:n != 1], _args(a)))
                key = tuple(s.values())
                if key in seen or time.time() - t0 > SECS * (k + 1) / len(tries):
                    break
                seen.add(key)
                s = step(s, a)
        # one call that leaves what the next one must not find
        cs = sorted({t.x for t in nodes if t.op == 'c'})
        for v, (f, i0) in need.items():
            g = T.subst(f, lambda t: const(init[t], t.w) if t in init else None)
            for goal in [env.get(v.x[0], 0)] + [c for c in cs if c <= T.mask(v.w)]:
                if not bad({**init, v: goal}) or time.time() - t0 > 2 * SECS:
                    continue
                w = P.holds(T.not_(T.eq(g, const(goal, v.w))))
                if w.kind == 'refuted':
                    a = {u: w.env.get(u.x[0], 0) for u in args}
                    s = step(init, a)
                    if bad(s):
                        return out(s, 'one earlier call with %s' % _args(a))
        for v, (f, i0) in need.items():
            if any(u in need and u is not v for u in T.walk([got, want, f])):
                continue
            cs = {t.x & T.mask(v.w) for t in nodes if t.op == 'c' and t.w >= min(v.w, 32)}
            for a, goal in [(a, g) for g in [env.get(v.x[0], 0)] + sorted({c + d & T.mask(v.w) for c in cs for d in (-1, 0, 1)}) for a in tries]:
                g = T.subst(f, lambda t: const(a[t], t.w) if t in a else None)
                k = (step(init, a)[v] - i0) & T.mask(v.w)
                if not k or not bad({v: goal}):
                    continue
                if P.decide(g, T.add(v, const(k, v.w))).kind == 'proved':
                    d = k & -k
                    m = (goal - i0) & T.mask(v.w)
                    if m % d == 0:
                        n = (m // d) * pow(k // d, -1, 1 << v.w) % ((1 << v.w) // d)
                        return out({v: goal}, '%d earlier calls with %s' % (n, _args(a)))
                elif k == 1 and goal > i0 and P.holds(T.eq(g, T.add(v, const(1, v.w))), T.and_(T.not_(T.ult(v, const(i0, v.w))), T.ult(v, const(goal, v.w)))).kind == 'proved':
                    return out({v: goal}, '%d earlier calls with %s' % (goal - i0, _args(a)))
    except T.NoEval:
        return None
    return None


def _args(a):
    d = {v.x[0]: x for v, x in a.items() if x}
    return 'arguments ' + ', '.join('%s = 0x%x' % p for p in sorted(d.items())[:8]) + (', the others zero' if len(d) < len(a) else '') if d else 'any arguments' if not a else 'arguments of zero'
