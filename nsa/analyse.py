"""Analysis of one intrinsic: interpret its IR abstractly, compare every result lane with the specification,
and collect the proof obligations met on the way."""
import random
import sys
from . import terms as T, prove as P, reach as H
from .terms import const
from .interp import Interp, Undecided, NonTerm, Ptr, Region, Agg, FENV, LOCKS, MXCSR, _and
from .spec import spec, Ty, V

sys.setrecursionlimit(200000)


class Finding:
    """rule, subject and verdict of one obligation"""
    __slots__ = ('name', 'prop', 'rule', 'kind', 'file', 'line', 'fn', 'text', 'witness')

    def __init__(self, name, prop, rule, kind, text, file=None, line=0, fn=None, witness=None):
        self.name, self.prop, self.rule, self.kind, self.text = name, prop, rule, kind, text
        self.file, self.line, self.fn, self.witness = file, line, fn, witness

    def key(self):
        return '%s|%s|%s' % (self.name, self.rule, self.text)


class Report:
    def __init__(self, name):
        self.name = name
        self.f = []             # violations and undecided
        self.proved = {}        # prop -> count
        self.cases = 0
        self.steps = 0
        self.instances = 0
        self.visited = set()
        self.greads, self.gwrites, self.history = {}, {}, False
        self.soft, self.guards, self.anyhistory = {}, {}, set()

    def ok(self, prop, n=1):
        self.proved[prop] = self.proved.get(prop, 0) + n

    def add(self, *a, **k):
        self.f.append(Finding(self.name, *a, **k))


def lane_vars(ty, base):
    vs = []
    for j in range(ty.k):
        v = V([], ty.e, ty.w)
        for i in range(ty.n):
            nm = '%s.val[%d].val[%d]' % (base, j, i) if ty.array else '%s.val[%d]' % (base, i)
            v.append(T.var(nm, ty.w, ty.e))
        vs.append(v)
    return vs


def setup(I, st, s, imm, tick=''):
    """regions and arguments for one call; imm: Node for immediate parameters"""
    from .interp import State
    args, vals, pm = [], [], None
    ret = None
    if s.rty.kind != 'void':
        ret = I.alloc(st, s.rty.size, 'result', 'the result')
        ret.align = s.rty.w // 8
        args.append(Ptr.to(ret))
    nm = 'abcdefg'
    for k, t in enumerate(s.pty):
        if t.kind == 'vec':
            vs = lane_vars(t, nm[k] + tick)
            r = I.alloc(st, t.size, 'arg', 'argument %d' % (k + 1), ro=True, init=False)
            r.align = t.w // 8
            c = st.cells(r)
            o = 0
            for v in vs:
                for x in v:
                    c[o] = x
                    o += t.w // 8
            args.append(Ptr.to(r))
            vals.append(vs)
        elif t.kind == 'ptr':
            n = s.foot
            r = I.alloc(st, n * t.w // 8, 'memory', 'the memory at the pointer argument', ro=t.ro, init=False)
            r.align = t.w // 8
            c = st.cells(r)
            mem = V([T.var('ptr%s[%d]' % (tick, i), t.w, t.e) for i in range(n)], t.e, t.w)
            for i, x in enumerate(mem):
                c[i * t.w // 8] = x
            args.append(Ptr.to(r))
            vals.append(mem)
            pm = (r, t)
        elif t.kind == 'sca':
            x = T.var(nm[k] + tick, t.w, t.e)
            args.append(x)
            vals.append(x)
        else:
            args.append(imm)
    return args, vals, ret, pm


def where(I, name):
    f = I.fns.get(name)
    if f:
        return f.file, f.line, name
    return None, 0, name


def undecided(rep, s, want, why, loc):
    for p in sorted(want & {s.prop, 'C02', 'C03', 'C17', 'C18', 'C19', 'C20'}):
        if p == 'C17' and s.imm is None:
            continue
        rep.add(p, 'coverage', 'unknown', '%s: %s' % (s.name, why), loc[0], loc[1], s.name)


def run_one(I, rep, s, n, want):
    """interpret s for immediate n (None: none); compare"""
    from .interp import State
    T.reset()
    P.reset()
    P._floors.clear()
    I.reset()
    I.anymode = 'C19' in want
    st = State()
    imm = const(n, 32) if n is not None else None
    args, vals, ret, pm = setup(I, st, s, imm)
    w = I.fns['nsa_w_' + s.name]
    tag = '' if n is None else ' with n = %d' % n
    file, line, _ = where(I, s.name)
    try:
        _, st2 = I.call_fn(w, args, st)
    except Undecided as e:
        i = e.inst
        loc = (i.file, i.line) if i is not None and i.line else (file, line)
        undecided(rep, s, want, 'not decided%s: %s' % (tag, e), loc)
        obligations(I, rep, s, want, tag)
        return
    except NonTerm as e:
        i = e.inst
        loc = (i.file, i.line) if i is not None and i.line else (file, line)
        if 'C20' in want:
            rep.add('C20', 'terminates', 'violation', '%s%s never ends: %s' % (s.name, tag, e.how), loc[0], loc[1], e.fn.name, fmt(e.env, s))
        undecided(rep, s, want - {'C20'}, 'no end of the call%s: %s' % (tag, e.how), loc)
        obligations(I, rep, s, want, tag)
        return True
    rep.steps += I.steps
    rep.instances += 1
    rep.visited |= I.visited
    obligations(I, rep, s, want, tag)
    if 'C19' in want:
        if st2 is not None and st2.mem.get(FENV.id):
            m = T.eq(I.rounding(st2), I.mode0())
            if not (T.isc(m) and m.x):
                I.effects.append(('state', _and(st2.guard, T.not_(m)), None, I.fns[s.name], 'the rounding mode is left changed'))
        if st2 is not None and st2.mem.get(MXCSR.id):
            m = T.eq(st2.mem[MXCSR.id][0], I.mxcsr0())
            if not (T.isc(m) and m.x):
                I.effects.append(('state', _and(st2.guard, T.not_(m)), None, I.fns[s.name], 'the SSE control register is left changed'))
        for k, c in st2.mem.get(LOCKS.id, {}).items() if st2 is not None else ():
            m = T.eq(c, const(0, 8))
            if not (T.isc(m) and m.x):
                I.effects.append(('state', _and(st2.guard, T.not_(m)), None, I.fns[s.name], 'the lock %s is left held' % I.locks[k].name))
        leaks(I, s, st2)
        effects(I, rep, s, tag)
    if I.lies and want & {'C18', s.prop}:
        promises(I, rep, s, want, tag)
    for g, inst, fn, what in I.loose if s.prop in want else ():
        v = P.holds(T.not_(g)) if g is not None else None
        if v is None or v.kind != 'proved':
            rep.add(s.prop, 'exact', 'violation' if v is None or v.kind == 'refuted' else 'unknown', '%s%s: %s in %s' % (s.name, tag, what, fn.name), inst.file or fn.file,
                    inst.line or fn.line or 0, fn.name)
            break
    for fn, (g, extra) in I.needed.items() if 'C18' in want else ():
        if g is None or P.holds(T.not_(g)).kind == 'refuted':
            rep.add('C18', 'extension', 'violation', '%s runs %s, which is compiled for the instruction-set extensions %s whatever the processor' % (
                s.name, fn.name, ' '.join(extra)), fn.file, fn.line or 0, fn.name)
            break
    # abnormal ends for a valid call
    if s.imm is not None and 'C17' in want or s.prop in want:
        if st2 is None:
            rep.add('C17' if s.imm is not None else s.prop, 'accepts', 'violation', 'a valid call%s never returns (%s)' % (
                tag, ', '.join(sorted({e[3] for e in I.ended})) or 'no path to a return'), file, line, s.name, {'n': n})
        else:
            bad = False
            for g, inst, fn, how in I.ended:
                if g is None:
                    continue
                v = P.holds(T.not_(g))
                if v.kind == 'proved':
                    continue
                bad = True
                rep.add('C17' if s.imm is not None else s.prop, 'accepts', 'violation' if v.kind == 'refuted' else 'unknown',
                        'a valid call%s ends in %s' % (tag, how), inst.file, inst.line, fn.name, v.env)
            if not bad and s.imm is not None:
                rep.ok('C17')
    if st2 is None:
        return
    if 'C20' in want:
        rep.ok('C20')
    # results
    pairs = results(I, s, st2, vals, n, ret, pm)
    for lane, got, x in pairs:
        if not isinstance(got, T.Node):
            rep.add(s.prop, 'value', 'unknown', 'not a number: %s%s' % (lane, tag), file, line, s.name)
            continue
        if got.undef and want & {'C03'}:
            d = undef_free(got)
            if d.kind == 'proved':
                rep.ok('C03')
            else:
                rep.add('C03', 'defined', 'violation' if d.kind == 'refuted' else 'unknown',
                        '%s of %s%s depends on storage that was never written' % (lane, s.name, tag), file, line, s.name, d.env)
        elif 'C03' in want:
            rep.ok('C03')
        if (I.regions or I.globreg) and want & {'C19', s.prop}:
            env = placed(I, got, x, s)
            if env:
                for p in want & {'C19', s.prop}:
                    rep.add(p, 'address', 'violation', '%s of %s%s depends on %s' % (lane, s.name, tag, 'the environment' if any(k.startswith('the content') for k in env) else 'where its objects lie'), file, line, s.name, fmt(env, s))
                break
        if s.prop in want:
            if got.undef:
                v = undef_free(got)
                if v.kind != 'proved':
                    rep.add(s.prop, 'value', 'violation' if v.kind == 'refuted' else 'unknown',
                            '%s of %s%s is not computed (undefined content)' % (lane, s.name, tag), file, line, s.name, v.env)
                    continue
                got = drop_undef(got)
            v = P.decide(got, x, s.fl)
            rep.cases += v.cases
            if v.kind == 'proved':
                rep.ok(s.prop)
            elif v.kind == 'refuted':
                rep.add(s.prop, 'value', 'violation', '%s of %s%s is not the specified value' % (lane, s.name, tag), file, line, s.name,
                        {'inputs': fmt(v.env, s), 'computed': val(v.got, got.w, s, lane), 'specified': val(v.want, got.w, s, lane)})
            else:
                rep.add(s.prop, 'value', 'unknown', '%s of %s%s: %s' % (lane, s.name, tag, v.why), file, line, s.name)


def placed(I, got, x, s):
    """arguments and addresses of separate objects for which the result is not the specified one, if it depends on addresses"""
    at = {}
    foreign = {g.name for g in I.globreg if g.init is None}

    def place(t):
        if t.op == 'op' and isinstance(t.x, tuple) and t.x[0] == 'addr':
            r = I.regions[t.x[1]]
            a = r.align if r.align and r.align & (r.align - 1) == 0 else 1
            k = a.bit_length() - 1
            b = 32 if t.w == 64 else 24
            v = T.var('the address of %s%s in its block' % (r.name, ' / %d' % a if a > 1 else ''), b - k)
            n = at.setdefault(v, len(at))
            return T.cat(([const(0, k)] if k else []) + [v, const((0x7f00 if t.w == 64 else 0x10) + n, t.w - b)])
        if t.op == 'op' and isinstance(t.x, str) and t.x.startswith('global ') and t.x[7:] in foreign:
            at[t] = 0
            return T.var('the content of %s' % t.x[7:], t.w)
    y = T.subst(got, place)
    if not at or y.undef:
        return None
    v = P.decide(y, T.subst(x, place), s.fl)
    if v.kind != 'refuted':
        return None
    return v.env


def results(I, s, st2, vals, n, ret, pm):
    """(lane, computed value, specified value)"""
    spec_r = s.ret(s, vals, n) if s.imm is not None else s.ret(s, vals)
    pairs = []
    if s.rty.kind == 'vec':
        o = 0
        wb = s.rty.w // 8
        for j, v in enumerate(spec_r):
            for i, x in enumerate(v):
                got = I._get(st2.mem[ret.id], o, wb, ret, st2)
                pairs.append(('val[%d].val[%d]' % (j, i) if s.rty.array else 'val[%d]' % i, got, x))
                o += wb
    elif s.rty.kind == 'sca':
        pairs.append(('the result', I._get(st2.mem[ret.id], 0, s.rty.w // 8, ret, st2), spec_r))
    if pm is not None and s.store:
        r, t = pm
        for i, x in enumerate(spec_r):
            pairs.append(('ptr[%d]' % i, I._get(st2.mem[r.id], i * t.w // 8, t.w // 8, r, st2), x))
    return pairs


def val(x, w, s, lane):
    return '0x%0*x' % ((w + 3) // 4, x)


def fmt(env, s):
    return {k: '0x%x' % v for k, v in sorted(env.items())}


def drop_undef(n):
    return T.subst(n, lambda t: const(0, t.w) if t.op == 'u' else None)


def undef_free(n):
    a = T.subst(n, lambda t: T.var('undef%d' % t.id, t.w, 'u') if t.op == 'u' else None)
    b = T.subst(n, lambda t: T.var('undef%d\'' % t.id, t.w, 'u') if t.op == 'u' else None)
    return P.decide(a, b)


def obligations(I, rep, s, want, tag):
    for kind, prop in (('mem', 'C02'), ('ub', 'C18'), ('undef', 'C03')):
        if prop not in want:
            continue
        n = I.counts.get(kind, 0)
        pend = [o for o in I.obs if o.kind == kind]
        rep.ok(prop, n - len(pend))
        seen = set()
        for o in pend:
            k = (o.file, o.line, o.what.split(' at offset')[0])
            if k in seen:
                continue
            v = P.holds(o.cond, o.guard)
            rep.cases += v.cases
            if v.kind == 'proved':
                rep.ok(prop)
                continue
            seen.add(k)
            rep.add(prop, kind, 'violation' if v.kind == 'refuted' else 'unknown', '%s: %s%s' % (s.name, o.what, tag),
                    o.file, o.line, o.fn.name, fmt(v.env, s) if v.env else None)


def promises(I, rep, s, want, tag):
    """a function declared const reads nothing but its arguments, and one declared pure writes nothing: optimised callers rely on it"""
    seen = set()
    for kind, g, inst, fn, callee, which, r in I.lies:
        if kind == 'end' or (kind, callee, which) in seen:
            continue
        v = P.holds(T.not_(g)) if g is not None else None
        if v is not None and v.kind == 'proved':
            continue
        seen.add((kind, callee, which))
        for p in {'C18'} | ({'C01'} if s.prop == 'C01' and r.glob is None else set()):
            if p in want:
                rep.add(p, 'promise', 'violation' if v is None or v.kind == 'refuted' else 'unknown', '%s is declared %s but %s %s%s: an optimised caller may omit or reuse the call' % (
                    callee, which, 'writes to' if kind == 'write' else 'reads', r.name, tag), inst.file or fn.file, inst.line or fn.line, fn.name)


def leaks(I, s, st):
    """blocks a call allocates and neither frees nor keeps in static storage"""
    if st is None or not I.heap:
        return
    kept, todo = set(), [r.id for r in I.globreg.values()]
    while todo:
        for v in st.mem.get(todo.pop(), {}).values():
            for _, r, _ in v.alts if isinstance(v, Ptr) else ():
                if r is not None and r.id not in kept:
                    kept.add(r.id)
                    todo.append(r.id)
    for r, inst, g in I.heap:
        c = st.mem.get(r.id)
        if c is None or r.id in kept:
            continue
        f = T.eq(c.get(-1, const(0, 8)), const(1, 8))
        if not (T.isc(f) and f.x):
            I.effects.append(('leak', _and(_and(st.guard, g), T.not_(f)), inst, I.fns[s.name], 'the block allocated here is never freed'))


def effects(I, rep, s, tag):
    """a valid call prints nothing, asks the environment nothing and leaves no trace in shared objects"""
    bad = False
    for kind, g, inst, fn, what in I.effects:
        w = None
        k = 'violation'
        if g is not None:
            v = P.holds(T.not_(g))
            if v.kind == 'proved':
                continue
            k, w = ('violation' if v.kind == 'refuted' else 'unknown'), v.env
        if kind == 'write':
            rep.gwrites.setdefault(what.split()[-1], (inst.file if inst else None, inst.line if inst else 0))
        bad = True
        rep.add('C19', kind, k, 'a valid call of %s%s: %s' % (s.name, tag, what), inst.file if inst else fn.file, inst.line if inst else fn.line,
                fn.name, fmt(w, s) if w else None)
    for g, inst in I.greads.items():
        rep.greads.setdefault(g, (inst.file if inst else None, inst.line if inst else 0))
    for k, inst in I.soft.items():
        rep.soft.setdefault(k, (inst.file if inst else None, inst.line if inst else 0))
    for g, h in I.guards.items():
        rep.guards[g] = rep.guards[g] & h if g in rep.guards else h
    if I.touched:
        rep.history = True
    if not bad:
        rep.ok('C19')


def fresh(I):
    T.reset()
    P.reset()
    P._floors.clear()
    I.reset()


def call(I, s, st, n, tick):
    """one call in a history: (state or None, results, arguments)"""
    args, vals, ret, pm = setup(I, st, s, const(n, 32) if n is not None else None, tick)
    st.n = 0
    _, st2 = I.call_fn(I.fns['nsa_w_' + s.name], args, st)
    return st2, results(I, s, st2, vals, n, ret, pm) if st2 is not None else []


def histories(I, rep, s):
    """calls that leave something behind: does a later call still compute its own result?"""
    from .interp import State
    if s.imm is None:
        seqs = [(None, None, None)]
    else:
        lo, hi = s.imm
        seqs = [(lo, hi, lo), (hi, lo, hi)]
    file, line, _ = where(I, s.name)
    for seq in seqs:
        fresh(I)
        st = State()
        for k, n in enumerate(seq):
            try:
                st, res = call(I, s, st, n, "'" * k)
            except (Undecided, NonTerm) as e:
                rep.add('C19', 'history', 'unknown', '%s: call %d of a history: %s' % (s.name, k + 1, e), file, line, s.name)
                return
            if st is None:
                return
            if k == 0:
                continue
            for lane, got, x in res:
                v = P.decide(got, x, s.fl)
                rep.cases += v.cases
                if v.kind == 'proved':
                    rep.ok('C19')
                else:
                    rep.add('C19', 'history', 'violation' if v.kind == 'refuted' else 'unknown',
                            '%s of call %d of %s%s depends on an earlier call' % (lane, k + 1, s.name, '' if n is None else ' (n = %s)' % ', '.join(map(str, seq))),
                            file, line, s.name, {'inputs': fmt(v.env, s), 'computed': val(v.got, got.w, s, lane), 'specified': val(v.want, got.w, s, lane)}
                            if v.kind == 'refuted' else None)
                    return
    names = set(I.touched) | {g for g, w in I.soft}
    for n in {None} if s.imm is None else {s.imm[0], s.imm[1]}:
        for races in (False, True):
            if not anyhistory(I, rep, s, n, names, races, file, line):
                return
            if all(g.tls for g in I.globreg if I.globreg[g].name in names):
                break
    rep.anyhistory = names


def anyhistory(I, rep, s, n, names, races, file, line):
    """a call in any state earlier calls (and, when races, other threads meanwhile) leave in the objects called names"""
    from .interp import State
    fresh(I)
    I.anystate, I.races = names, races
    st = State()
    tag = '' if n is None else ' with n = %d' % n
    try:
        st, res = call(I, s, st, n, '')
    except Undecided as e:
        rep.add('C19', 'history', 'unknown', '%s%s: a call after any others: %s' % (s.name, tag, e), file, line, s.name)
        return False
    except NonTerm as e:
        rep.add('C19', 'history', 'unknown', '%s%s: a call after any others: not shown to end' % (s.name, tag), file, line, s.name)
        return False
    if st is None:
        rep.add('C19', 'history', 'unknown', '%s%s: a call after any others does not return' % (s.name, tag), file, line, s.name)
        return False
    todo = [('whether a call of %s%s ends in %s' % (s.name, tag, how), T.not_(g), const(1, 1)) for g, inst, fn, how in I.ended if g is not None]
    for what, got, x in todo + [('%s of %s%s' % (l, s.name, tag), g, x) for l, g, x in res]:
        if not isinstance(got, T.Node):
            continue
        v = P.decide(got, x, s.fl)
        rep.cases += v.cases
        if v.kind == 'proved':
            rep.ok('C19')
            continue
        if not races and H.finite(I, st, got, x, s.fl):
            rep.ok('C19')
            continue
        h = H.reach(I, st, got, x, v.env, s.fl) if v.kind == 'refuted' and not races else None
        if h is not None:
            steps, env = h
            rep.add('C19', 'history', 'violation', '%s depends on earlier calls: not as specified after %s' % (what, steps), file, line, s.name,
                    fmt(env, s))
        else:
            rep.add('C19', 'history', 'unknown', '%s in every state earlier calls%s leave' % (what, ' and other threads' if races else ''), file, line, s.name)
        return False
    return True


def after(I, name, others, names):
    """does a call of name give its result whatever calls of the others leave in the objects called names?  -> (text, witness)"""
    from .interp import State
    s = spec(name)
    n = s.imm[0] if s.imm else None
    fresh(I)
    I.anystate = names
    try:
        st, res = call(I, s, State(), n, '')
        if st is None:
            return 'a call after any others does not return', None
        for lane, got, x in res:
            if not isinstance(got, T.Node):
                continue
            v = P.decide(got, x, s.fl)
            if v.kind == 'proved':
                continue
            for o in others if v.kind == 'refuted' else ():
                so = spec(o)
                if so is None:
                    continue
                so_n = so.imm[0] if so.imm else None
                st2, _ = call(I, so, State(), so_n, '"')
                h = st2 is not None and H.reach(I, st2, got, x, v.env, s.fl)
                if h:
                    return '%s is not as specified after %s of %s' % (lane, h[0], o), fmt(h[1], s)
            return '%s is not shown to be as specified after calls of %s' % (lane, ', '.join(others)), None
    except (Undecided, NonTerm) as e:
        return 'a call after calls of %s: %s' % (', '.join(others), e), None
    return None, None


def out_of_range(I, rep, s):
    """every immediate outside the documented range must end the program before anything else happens"""
    from .interp import State
    lo, hi = s.imm
    file, line, _ = where(I, s.name)
    # a few suspicious values refute quickly; the analysis with a symbolic immediate below proves
    for k in (lo - 1, hi + 1, hi + 2, 2 * hi + 1, -1, -hi, 255, 256 + lo, 65536 + lo, (1 << 31) - 1, 1 << 31, (1 << 31) + lo, (1 << 31) + hi):
        k = T.sgn(k & 0xffffffff, 32)
        if not lo <= k <= hi and probe(I, s, k)[1] == 'returns':
            rep.instances += 1
            rep.visited |= I.visited
            rep.add('C17', 'rejects', 'violation', '%s returns for an immediate outside [%d, %d]' % (s.name, lo, hi), file, line, s.name, {'n': k})
            return
    T.reset()
    P.reset()
    P._floors.clear()
    I.reset()
    st = State()
    I.prune = True
    n = T.var('n', 32, 's')
    bad = T.or_(T.slt(n, const(lo, 32)), T.slt(const(hi, 32), n))
    st.assume(bad)
    args, vals, ret, pm = setup(I, st, s, n)
    w = I.fns['nsa_w_' + s.name]
    try:
        _, st2 = I.call_fn(w, args, st)
    except (Undecided, NonTerm) as e:
        st2 = 'undecided'
        why = str(e)
    rep.instances += 1
    rep.visited |= I.visited
    if st2 != 'undecided':
        told = const(0, 1)
        for e in I.effects:
            if e[0] == 'output':
                told = T.or_(told, e[1] if e[1] is not None else const(1, 1))
        for g, inst, fn, how in I.ended:
            if how == 'exit:0':
                v = P.holds(const(0, 1), g)
                what = '%s: an illegal immediate ends the program with status 0'
            elif how == 'exception':
                v = P.holds(const(0, 1), g)
                what = '%s: an illegal immediate is answered with an exception: a caller that handles it goes on'
            elif how in ('abort', 'llvm.trap', '_exit', '_Exit', 'quick_exit', 'exit', '_ZSt9terminatev'):
                v = P.holds(told, g)
                what = '%s ends (' + how + ') without a diagnostic'
            else:
                continue
            if v.kind != 'proved':
                rep.add('C17', 'rejects' if how in ('exit:0', 'exception') else 'diagnostic', 'violation' if v.kind == 'refuted' else 'unknown', what % s.name,
                        inst.file, inst.line, fn.name, {'n': T.sgn(v.env['n'], 32)} if v.env and 'n' in v.env else None)
                break
    for kind, g, inst, fn, callee, which, _ in I.lies:
        if kind == 'end':
            v = P.holds(const(0, 1), g)
            if v.kind != 'proved':
                rep.add('C17', 'rejects', 'violation' if v.kind == 'refuted' else 'unknown', '%s: %s, which ends the program for an illegal immediate, is declared %s: an optimised '
                        'caller that does not use its result omits the call' % (s.name, callee, which), inst.file, inst.line, fn.name,
                        {'n': T.sgn(v.env['n'], 32)} if v.env and 'n' in v.env else None)
            break
    if st2 is None:
        rep.ok('C17')
    elif st2 == 'undecided':
        # an immediate on the path that was followed last
        b = []
        if I.last is not None:
            w = P.instance(I.last, const(0, 1), False, random.Random(1), 4000, aimed=True)
            if w is not None and 'n' in w[0]:
                k = T.sgn(w[0]['n'], 32)
                if probe(I, s, k)[1] == 'returns':
                    b = [k]
        if b:
            rep.add('C17', 'rejects', 'violation', '%s accepts n = %d, outside [%d, %d]' % (s.name, b[0], lo, hi), file, line, s.name, {'n': b[0]})
        else:
            rep.add('C17', 'rejects', 'unknown', '%s: not decided for all n: %s' % (s.name, why), file, line, s.name)
        return
    else:
        v = P.holds(const(0, 1), st2.guard)
        if v.kind == 'proved':
            rep.ok('C17')
        else:
            rep.add('C17', 'rejects', 'violation' if v.kind == 'refuted' else 'unknown',
                    '%s returns for an immediate outside [%d, %d]' % (s.name, lo, hi), file, line, s.name,
                    {'n': T.sgn(v.env['n'], 32)} if v.env and 'n' in v.env else v.env)
    # the diagnosis comes before any access
    for o in I.obs:
        if o.kind == 'mem':
            v = P.holds(o.cond, o.guard)
            if v.kind == 'refuted':
                rep.add('C17', 'rejects', 'violation', '%s: %s before n is rejected' % (s.name, o.what), o.file, o.line, o.fn.name,
                        fmt(v.env, s) if v.env else None)
                break


def probe(I, s, k):
    from .interp import State
    T.reset()
    P.reset()
    P._floors.clear()
    I.reset()
    st = State()
    args, vals, ret, pm = setup(I, st, s, const(k, 32))
    try:
        _, st2 = I.call_fn(I.fns['nsa_w_' + s.name], args, st)
    except (Undecided, NonTerm):
        return k, 'undecided'
    if st2 is None:
        return k, 'ends'
    if st2.guard is None:
        return k, 'returns'
    v = P.holds(const(0, 1), st2.guard)
    return k, 'returns' if v.kind == 'refuted' else 'ends'


def analyse(I, name, want):
    s = spec(name)
    rep = Report(name)
    if s.imm is None:
        run_one(I, rep, s, None, want)
    else:
        if want & {s.prop, 'C02', 'C03', 'C17', 'C18', 'C19', 'C20'}:
            for n in range(s.imm[0], s.imm[1] + 1):
                if run_one(I, rep, s, n, want):
                    break
        if 'C17' in want:
            out_of_range(I, rep, s)
    if 'C19' in want and rep.history:
        histories(I, rep, s)
    return rep
