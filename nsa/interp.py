"""Abstract interpretation of LLVM IR (as the clang front end emits it) over value-graph nodes.

One pass per function instance.  Branches whose condition is not a constant are not enumerated as paths:
both arms are evaluated up to the branch's immediate post-dominator and the two states are joined cell by
cell with a gate (gated SSA).  Loops are followed while their control is constant; a loop whose control
depends on the data is joined iteration by iteration under a bound, beyond which the result is "not
decided".  Memory is byte addressed and split in regions with known extent.

Along the way proof obligations are recorded: accesses inside the region, no signed overflow, shift amounts,
conversions in range, no use of undefined content, no abnormal end.
"""
import math
import re
import time
from fractions import Fraction
from . import terms as T
from .terms import Node, const
from .ir import Const, Arg, Inst


class Undecided(Exception):
    def __init__(self, why, inst=None):
        Exception.__init__(self, why)
        self.inst = inst


class NonTerm(Exception):
    """a loop or recursion returns to a state it was in before"""
    def __init__(self, inst, fn, env, how):
        Exception.__init__(self, how)
        self.inst, self.fn, self.env, self.how = inst, fn, env, how


class Region:
    __slots__ = ('id', 'size', 'kind', 'name', 'ro', 'align', 'glob')
    n = 0

    def __init__(self, size, kind, name, ro=False):
        Region.n += 1
        self.align, self.glob = 16, None
        self.id, self.size, self.kind, self.name, self.ro = Region.n, size, kind, name, ro

    def __repr__(self):
        return '%s:%s' % (self.kind, self.name)


FENV = Region(4, 'fenv', 'the rounding mode')      # 0 (to nearest) when a state says nothing
MXCSR = Region(4, 'fenv', 'the control register of SSE')       # without the rounding mode, which FENV holds, and the exception flags
LOCKS = Region(4, 'locks', 'the locks held')       # cell per lock: how often it is held


# scalar types that type-based alias analysis tells apart (character types and unions alias everything)
ALIAS = {'short': 'short', 'int': 'int', 'long': 'long', 'long long': 'long', 'float': 'float', 'double': 'double'}


class Ptr:
    """alternatives: [(cond | None, region | None(null), offset int | Node64)], mutually exclusive"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    @staticmethod
    def to(r, off=0):
        return Ptr([(None, r, off)])

    def __repr__(self):
        return 'Ptr(%s)' % self.alts


class FnPtr:
    def __init__(self, fn):
        self.fn = fn


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class State:
    __slots__ = ('mem', 'own', 'guard', 'n')

    def __init__(self):
        self.mem, self.own, self.guard = {}, set(), None
        self.n = 0              # steps along this path

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        self.own = set()
        s.guard, s.n = self.guard, self.n
        return s

    def cells(self, r):
        if r.id not in self.own:
            self.mem[r.id] = dict(self.mem[r.id])
            self.own.add(r.id)
        return self.mem[r.id]

    def assume(self, c):
        self.guard = c if self.guard is None else T.and_(self.guard, c)


class Ob:
    """proof obligation: cond must be 1 whenever guard is"""
    __slots__ = ('kind', 'cond', 'guard', 'file', 'line', 'fn', 'what')

    def __init__(self, kind, cond, guard, inst, fn, what):
        self.kind, self.cond, self.guard, self.fn, self.what = kind, cond, guard, fn, what
        self.file, self.line = (inst.file, inst.line) if inst is not None else (None, 0)


def nbytes(v):
    if isinstance(v, Node):
        return (v.w + 7) // 8
    return PB


PB = 8                          # bytes of a pointer on the target analysed


class Interp:
    MAXSTEP = 800000
    MAXWILD = 200
    MAXPATH = 200000            # an intrinsic takes a few thousand steps
    MAXSYM = 400

    def __init__(self, mods, effects=None):
        global PB
        PB = mods[0].ptr if mods else 8
        self.mods = mods
        self.fns = {}           # external definitions (and, behind them, internal ones) by name
        self.gdef = {}
        for inner in (False, True):
            for m in mods:
                for f in m.fns.values():
                    if not f.decl and (f.linkage in ('internal', 'private')) == inner:
                        self.fns.setdefault(f.name, f)
        for m in mods:
            for g in m.globs.values():
                if g.init is not None and g.linkage not in ('internal', 'private', 'available_externally'):
                    self.gdef.setdefault(g.name, g)
        self.dyn = {}
        self.constant = set()
        self.base = next((f.needs for f in mods[-1].fns.values() if not f.decl), frozenset()) if mods else frozenset()
        self.reset()
        self.start()

    def start(self):
        """content of the namespace-scope objects once their dynamic initialisers have run"""
        st = State()
        for m in self.mods:
            g = m.globs.get('llvm.global_ctors')
            if g is None or g.init is None or g.init.k != 'agg':
                continue
            for e in g.init.ops:
                f = next((o.v for o in e.ops if isinstance(o, Const) and o.k == 'fref'), None) if e.k == 'agg' else None
                if f is None:
                    continue
                self.initdepth = 1
                try:
                    _, s2 = self.call_fn(f, [], st)
                except Exception:
                    s2 = None
                if s2 is None:
                    self.dyn = None
                    self.reset()
                    return
                st = s2
        for g, r in self.globreg.items():
            if r.name in self.touched:
                out = []
                for off, v in st.mem[r.id].items():
                    if isinstance(v, Node):
                        out.append((off, ('c', v.w, v.x) if T.isc(v) else ('o', v.w)))
                    elif isinstance(v, Ptr) and len(v.alts) == 1 and v.alts[0][1] is None:
                        out.append((off, ('p', None, 0)))
                    elif isinstance(v, Ptr) and len(v.alts) == 1 and v.alts[0][1].glob is not None and not isinstance(v.alts[0][2], Node):
                        out.append((off, ('p', v.alts[0][1].glob, v.alts[0][2])))
                    elif isinstance(v, FnPtr):
                        out.append((off, ('f', v.fn)))
                    else:
                        out.append((off, ('o', 8 * PB)))
                self.dyn[g] = out
        self.reset()

    def reset(self):
        self.obs = []
        self.wild = {}
        self.turns = {}
        self.prune = False
        self.last = None
        self.counts = {}
        self.ended = []         # abnormal ends: (guard, inst, fn, how)
        self.steps = 0
        self.depth = 0
        self.visited = set()
        self.elems = {}
        self.touched = set()
        self.accesses = {}      # region -> accesses through scalar types
        self.effects = []       # (kind, guard, inst, fn, what): output, writes of shared state, ...
        self.greads = {}        # shared mutable objects read: name -> inst
        self.soft = {}          # accesses of mutable static storage no race is possible on: (name, write) -> inst
        self.heap = []          # blocks allocated: (region, inst, guard)
        self.guards = {}        # objects accessed with locks held: name -> locks
        self.locks = {}
        self.anystate = None    # names of the objects whose content is whatever earlier calls left
        self.earlier = {}       # their content: variable -> initial value (None: not a number)
        self.races = False      # ... or whatever other threads write meanwhile
        self.snaps = {}
        self.watch = None
        self.following = False
        self.anymode = False
        self.initdepth = 0      # inside the guarded initialisation of a function-local static
        self.stack = []
        self.promises = []      # calls of functions declared const or pure: (which, fn, newest region, result region, called by the user or for nothing)
        self.loose = []         # floating-point operations the source allows to be computed otherwise: (guard, inst, fn, what)
        self.needed = {}        # instruction-set extensions functions are compiled for
        self.lies = []          # what such a function does nevertheless: (kind, guard, inst, fn, callee, which)
        self.handlers = []      # what an exception thrown here meets, innermost last
        self.globreg = {}
        self.globid = {}
        self.regions = {}
        self.loops = {}
        self.since = {}         # branch -> when it became slow
        self.localids = set()

    # ------------------------------------------------------------ obligations
    def ob(self, kind, cond, st, inst, fn, what):
        self.counts[kind] = self.counts.get(kind, 0) + 1
        if T.isc(cond) and cond.x:
            return
        self.obs.append(Ob(kind, cond, st.guard, inst, fn, what))
        if kind == 'mem' and T.isc(cond):
            # a path that has left its objects that often is in a loop nothing bounds
            k = (inst.id if inst is not None else None, fn.name if fn is not None else None)
            self.wild[k] = self.wild.get(k, 0) + 1
            if self.wild[k] > self.MAXWILD:
                try:
                    w = self.witness(st.guard)
                except Undecided:
                    self.wild[k] = -10000       # perhaps a path no call takes
                    return
                raise NonTerm(inst, fn, w, 'the loop runs on past the end of its objects (%s)' % what)

    # ------------------------------------------------------------ regions
    def alloc(self, st, size, kind, name, ro=False, init=True):
        r = Region(size, kind, name, ro)
        st.mem[r.id] = {}
        st.own.add(r.id)
        if kind in ('local', 'copy'):
            self.localids.add(r.id)
        if init and size:
            st.mem[r.id][0] = T.undef(8 * size)
        return r

    def fill(self, st, r, off, v):
        c = st.cells(r)
        self._put(c, off, v)

    def _put(self, c, off, v):
        n = nbytes(v)
        # fast path
        o = c.get(off)
        if o is not None and nbytes(o) == n:
            c[off] = v
            return
        for k in [k for k in c if k < off + n and k + nbytes(c[k]) > off]:
            o = c.pop(k)
            m = nbytes(o)
            if not isinstance(o, Node):
                o = T.opaque(8 * PB, 'ptrbytes%d' % id(o))
            if k < off:
                c[k] = T.ext(_pad(o), 0, 8 * (off - k))
            if k + m > off + n:
                c[off + n] = T.ext(_pad(o), 8 * (off + n - k), 8 * (k + m - off - n))
        c[off] = v

    def _get(self, c, off, n, r, st, inst=None):
        o = c.get(off)
        if o is not None and nbytes(o) == n:
            return o
        parts = []
        p = off
        while p < off + n:
            hit = None
            for k, v in c.items():
                if k <= p < k + nbytes(v):
                    hit = k, v
                    break
            if hit is None:
                if r.kind == 'scratch':
                    v = T.opaque(8, ('scratch', r.id, p, len(c)))
                    parts.append(v)
                    p += 1
                    continue
                parts.append(T.undef(8))
                p += 1
                continue
            k, v = hit
            m = nbytes(v)
            if not isinstance(v, Node):
                raise Undecided('bytes of a pointer are read', inst)
            e = min(k + m, off + n)
            parts.append(T.ext(_pad(v), 8 * (p - k), 8 * (e - p)))
            p = e
        return T.cat(parts)

    # ------------------------------------------------------------ memory access through pointers
    def offs(self, off, n, r):
        """candidate constant offsets of a symbolic offset"""
        from . import prove as P
        size = r.size
        g = 1
        try:
            nm = P.Norm(P.Ctx())
            p = nm.M(off)
            cs = [c for m, c in p.items() if m]
            g = P._gcd(*(cs + [1 << 64]))
            c0 = p.get((), 0)
            lo, hi = P.Ctx().bounds(p)
            lo, hi = max(0, lo), min(hi, size - n)
        except (P.Split, P.FSplit, P.Give):
            c0, lo, hi = 0, 0, size - n
        first = lo + (c0 - lo) % g
        return list(range(first, hi + 1, g))

    def aligned(self, st, r, off, inst, fn, write, al):
        if r.align % al:
            ok = const(0, 1)
        elif isinstance(off, Node):
            ok = T.eq(T.and_(off, const(al - 1, 64)), const(0, 64))
        else:
            ok = const(int(off % al == 0), 1)
        self.ob('ub', ok, st, inst, fn, 'misaligned %s of %s' % ('write' if write else 'read', r.name))

    def aliased(self, st, r, off, n, inst, fn, write):
        """type-based alias analysis may exchange a write with an access of the same bytes through another type"""
        tag = ALIAS[inst.tbaa]
        lo, hi = off, off + n
        log = self.accesses.setdefault(r.id, {})
        k = (lo, hi, tag, write)
        if k in log:
            return
        log[k] = inst
        for (l, h, t, w), o in log.items():
            if t != tag and (write or w) and l < hi and lo < h:
                self.ob('ub', const(0, 1), st, inst, fn, '%s of %s through the type %s and %s through the type %s (line %d)' % (
                    'write' if write else 'read', r.name, inst.tbaa, 'write' if w else 'read', o.tbaa, o.line))
                return
        self.ob('ub', const(1, 1), st, inst, fn, '')

    def access(self, st, p, n, inst, fn, write, f):
        """f(region, offset int) for loads returns value; combines alternatives"""
        res = None
        if not isinstance(p, Ptr):
            raise Undecided('access through an unknown pointer', inst)
        for cond, r, off in reversed(p.alts):
            v = self._acc(st, cond, r, off, n, inst, fn, write, f)
            if not write:
                if res is None:
                    res = v
                elif v is not None:
                    res = self.gate(cond, v, res)
        return res

    def _acc(self, st, cond, r, off, n, inst, fn, write, f):
        g = st.guard
        if cond is not None:
            st.assume(cond)
        try:
            if self.promises and r is not None and r.kind != 'scratch':
                self.promised(st, r, inst, fn, write)
            if r is None:
                self.ob('mem', const(0, 1), st, inst, fn, 'null pointer dereferenced')
                return None if write else T.undef(8 * n)
            if r.kind == 'scratch':
                return f(r, 0 if isinstance(off, Node) else off, cond)
            if inst is not None and inst.align > 1:
                self.aligned(st, r, off, inst, fn, write, inst.align)
            if r.glob is not None and not r.ro and not write:
                self.gread(r, st, inst)
            if write and r.ro:
                self.ob('mem', const(0, 1), st, inst, fn, 'write to read-only %s' % r.name)
            if isinstance(off, Node):
                if T.isc(off):
                    off = T.sgn(off.x, 64)
                elif off.op == 'ite':
                    c, a, b = off.a
                    if write:
                        self._acc(st, _and(cond, c), r, a, n, inst, fn, write, f)
                        self._acc(st, _and(cond, T.not_(c)), r, b, n, inst, fn, write, f)
                        return None
                    return self.gate(c, self._acc(st, _and(cond, c), r, a, n, inst, fn, write, f),
                                     self._acc(st, _and(cond, T.not_(c)), r, b, n, inst, fn, write, f))
            if inst is not None and inst.tbaa in ALIAS and r.kind != 'heap' and not isinstance(off, Node):
                self.aliased(st, r, off, n, inst, fn, write)
            if not isinstance(off, Node):
                ok = 0 <= off and off + n <= r.size
                self.ob('mem', const(int(ok), 1), st, inst, fn,
                        '%s of %d byte%s at offset %d of %s (%d bytes)' % ('write' if write else 'read', n, 's'[:n > 1], off, r.name, r.size))
                if not ok:
                    return None if write else T.undef(8 * n)
                return f(r, off, cond)
            lim = r.size - n
            if lim < 0:
                inb = const(0, 1)
            else:
                inb = T.not_(T.ult(const(lim, 64), off))
            self.ob('mem', inb, st, inst, fn, '%s of %d byte%s at a computed offset of %s (%d bytes)' % (
                'write' if write else 'read', n, 's'[:n > 1], r.name, r.size))
            cand = self.offs(off, n, r) if lim >= 0 else []
            if len(cand) > 300:
                raise Undecided('too many candidate offsets', inst)
            if write:
                for o in cand:
                    f(r, o, _and(cond, T.eq(off, const(o, 64))))
                return None
            res = None
            for o in reversed(cand):
                v = f(r, o, None)
                res = v if res is None else self.gate(T.eq(off, const(o, 64)), v, res)
            return T.undef(8 * n) if res is None else self.gate(inb, res, T.undef(8 * n))
        finally:
            st.guard = g

    def load(self, st, p, n, inst, fn):
        def f(r, off, cond):
            if r.id not in st.mem:
                self.ob('mem', const(0, 1), st, inst, fn, 'read of %s after its lifetime' % r.name)
                return T.undef(8 * n)
            if r.kind == 'heap':
                self.alive(st, r, inst, fn)
            if inst is not None and inst.order and self.races and r.name in self.anystate:
                x = T.var('%s as another thread left it (%d)' % (r.name, len(self.earlier)), 8 * n)
                self.earlier[x] = (r, off, None)
                return x
            return self._get(st.mem[r.id], off, n, r, st, inst)
        return self.access(st, p, n, inst, fn, False, f)

    def store(self, st, p, v, inst, fn):
        n = nbytes(v)

        def f(r, off, cond):
            if r.id not in st.mem:
                self.ob('mem', const(0, 1), st, inst, fn, 'write to %s after its lifetime' % r.name)
                return
            if r.kind == 'heap':
                self.alive(st, r, inst, fn)
            c = st.cells(r)
            if r.kind == 'global':
                self.gwrite(r, st, inst, fn)
            if r.kind == 'scratch':
                return
            if cond is None:
                self._put(c, off, v)
            else:
                self._put(c, off, self.gate(cond, v, self._get(c, off, n, r, st, inst)))
        self.access(st, p, n, inst, fn, True, f)

    def alive(self, st, r, inst, fn):
        # the cell at -1 holds whether the block has been freed
        self.ob('mem', T.eq(st.mem[r.id].get(-1, const(0, 8)), const(0, 8)), st, inst, fn, 'access of a freed block')

    def new_heap(self, st, size, zero=False, inst=None):
        r = self.alloc(st, size, 'heap', 'allocated block')
        self.heap.append((r, inst, st.guard))
        st.mem[r.id] = {-1: const(0, 8)}
        if size:
            st.mem[r.id][0] = const(0, 8 * size) if zero else T.undef(8 * size)
        return r

    def free(self, st, p, inst, fn):
        if not isinstance(p, Ptr):
            raise Undecided('free of an unknown pointer', inst)
        for cond, r, off in p.alts:
            if r is None or r.kind == 'scratch':
                continue
            g = st.guard
            if cond is not None:
                st.assume(cond)
            ok = r.kind == 'heap' and not isinstance(off, Node) and off == 0 and r.id in st.mem
            if not ok:
                self.ob('mem', const(0, 1), st, inst, fn, 'free of something that was not allocated')
            else:
                c = st.cells(r)
                self.ob('mem', T.eq(c.get(-1, const(0, 8)), const(0, 8)), st, inst, fn, 'block freed twice')
                c[-1] = const(1, 8) if cond is None else T.ite(cond, const(1, 8), c.get(-1, const(0, 8)))
            st.guard = g

    def mode0(self):
        """the rounding mode of the caller: to nearest where values are decided, any where effects are"""
        return T.and_(T.var('the rounding mode on entry', 32), const(0xc00, 32)) if self.anymode else const(0, 32)

    def mxcsr0(self):
        return T.and_(T.var('the SSE control register on entry', 32), const(0xffff9fc0, 32)) if self.anymode else const(0x1f80, 32)

    def default(self, m):
        """a rounding mode when the caller's is the default one"""
        if self.anymode and isinstance(m, Node):
            m = T.subst(m, lambda t: const(0, 32) if t.op == 'v' and t.x[0] == 'the rounding mode on entry' else const(0x1f80, 32) if t.op == 'v' and t.x[0] == 'the SSE control register on entry' else None)
        return m

    def rounding(self, st):
        c = st.mem.get(FENV.id)
        return c[0] if c else self.mode0()

    def setround(self, st, m):
        st.mem[FENV.id] = {0: m}
        st.own.add(FENV.id)

    def nearest(self, st, i, fn, directed=False):
        """the rounding mode of an operation: None to nearest"""
        if MXCSR.id in st.mem:
            m = self.default(st.mem[MXCSR.id][0])
            if not T.isc(m):
                raise Undecided('arithmetic under an unknown control register', i)
            if m.x & 0x8040 and i.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fptrunc'):
                self.loosen(st, i, fn, 'subnormal numbers are taken for zero')
        if FENV.id in st.mem:
            m = self.default(self.rounding(st))
            if directed and T.isc(m) and m.x in (0x400, 0x800, 0xc00):
                return {0x400: 'floor', 0x800: 'ceil', 0xc00: 'trunc'}[m.x]
            if not (T.isc(m) and m.x == 0):
                raise Undecided('arithmetic in another rounding mode', i)
        return None

    def gwrite(self, r, st, inst, fn):
        self.touched.add(r.name)
        if self.initdepth or r.glob is None:
            return
        h = self.held(st)
        if r.glob.tls or inst is not None and inst.order or h:
            self.soft.setdefault((r.name, True), inst)
            self.guarded(r, h, inst)
        else:
            self.effects.append(('write', st.guard, inst, fn, 'write to the shared object %s' % r.name))

    def gread(self, r, st, inst):
        h = self.held(st)
        if r.glob.tls or inst is not None and inst.order or h:
            self.soft.setdefault((r.name, False), inst)
            self.guarded(r, h, inst)
        else:
            self.greads.setdefault(r.name, inst)

    def held(self, st):
        return {k for k, v in st.mem.get(LOCKS.id, {}).items() if T.isc(v) and v.x}

    def guarded(self, r, h, inst):
        if not r.glob.tls and not (inst is not None and inst.order):
            h = {self.locks[k].name for k in h}
            self.guards[r.name] = self.guards[r.name] & h if r.name in self.guards else h

    def lock(self, st, p, by, inst, fn):
        if not isinstance(p, Ptr) or len(p.alts) != 1 or p.alts[0][1] is None or p.alts[0][1].kind not in ('global', 'local', 'heap'):
            raise Undecided('an unknown lock', inst)
        r = p.alts[0][1]
        self.locks[r.id] = r
        c = st.cells(LOCKS) if LOCKS.id in st.mem else st.mem.setdefault(LOCKS.id, {})
        st.own.add(LOCKS.id)
        n = c.get(r.id, const(0, 8))
        if not T.isc(n):
            raise Undecided('a lock that is held or not', inst)
        if by > 0 and n.x:
            raise NonTerm(inst, fn, self.witness(st.guard), 'waits for a lock it holds')
        if by < 0 and not n.x:
            self.ob('ub', const(0, 1), st, inst, fn, 'unlock of a lock that is not held')
            return
        c[r.id] = const(n.x + by, 8)
        if by > 0 and self.races:
            # whatever other threads did while it was free
            for g, q in self.globreg.items():
                if q.name in self.anystate and not g.tls and q.id in st.mem:
                    self.forget(q, st.cells(q))

    def forget(self, r, c):
        """the content of r is whatever earlier calls left"""
        for off, v in sorted(c.items()):
            if not isinstance(v, Node):
                raise Undecided('a pointer kept in static storage', None)
            n = nbytes(v)
            del c[off]
            for o in range(0, n, 8):
                w = min(8, n - o)
                s = ' (%d)' % len(self.earlier) if self.races else ''
                x = T.var('%s%s as earlier calls left it%s' % (r.name, '' if off + o == 0 else '+%d' % (off + o), s), 8 * w)
                i0 = T.ext(_pad(v), 8 * o, 8 * w)
                c[off + o] = x
                self.earlier[x] = (r, off + o, i0.x if T.isc(i0) else None)

    def gate(self, c, a, b):
        if a is b:
            return a
        if T.isc(c):
            return a if c.x else b
        if isinstance(a, Node) and isinstance(b, Node):
            if a.w != b.w:
                raise Undecided('join of different widths')
            return T.ite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] is b.alts[0][1]:
                x, y = a.alts[0][2], b.alts[0][2]
                if x is y or x == y:
                    return a
                x = x if isinstance(x, Node) else const(x, 64)
                y = y if isinstance(y, Node) else const(y, 64)
                return Ptr([(None, a.alts[0][1], T.ite(c, x, y))])
            nc = T.not_(c)
            al = [(_and(c, k), r, o) for k, r, o in a.alts] + [(_and(nc, k), r, o) for k, r, o in b.alts]
            if len(al) > 64:
                raise Undecided('too many pointer alternatives')
            return Ptr(al)
        if isinstance(a, Agg) and isinstance(b, Agg):
            return Agg([self.gate(c, x, y) for x, y in zip(a.v, b.v)])
        if a is None or b is None:
            return a if b is None else b
        raise Undecided('join of unlike values')

    def join(self, c, s, t, base):
        """state that is s when c holds and t otherwise"""
        if s is None:
            return t
        if t is None:
            return s
        n = State()
        n.guard = base
        n.n = max(s.n, t.n)
        for rid in s.mem.keys() | t.mem.keys():
            x, y = s.mem.get(rid), t.mem.get(rid)
            if rid == FENV.id:
                x, y = x or {0: self.mode0()}, y or {0: self.mode0()}
            elif (x is None or y is None) and rid in self.globid:
                # the other side still has the initial content
                self.gregion(self.globid[rid], s if x is None else t)
                x, y = s.mem[rid], t.mem[rid]
            elif rid == MXCSR.id:
                x, y = x or {0: self.mxcsr0()}, y or {0: self.mxcsr0()}
            elif rid == LOCKS.id:
                x, y = ({k: (d or {}).get(k, const(0, 8)) for k in (x or {}).keys() | (y or {}).keys()} for d in (x, y))
            if x is y or y is None:
                n.mem[rid] = x
                continue
            if x is None:
                n.mem[rid] = y
                continue
            m = {}
            if x.keys() == y.keys() and all(nbytes(x[k]) == nbytes(y[k]) for k in x):
                for k in x:
                    m[k] = self.gate(c, x[k], y[k])
            else:
                cuts = set()
                for d in (x, y):
                    for k, v in d.items():
                        cuts.add(k)
                        cuts.add(k + nbytes(v))
                cuts = sorted(cuts)
                for a, b in zip(cuts, cuts[1:]):
                    cov = any(k <= a < k + nbytes(v) for k, v in x.items()) or any(k <= a < k + nbytes(v) for k, v in y.items())
                    if not cov:
                        continue
                    u, w = x.get(a), y.get(a)
                    if u is not None and w is not None and nbytes(u) == b - a == nbytes(w):
                        m[a] = self.gate(c, u, w)
                        continue
                    ptr = [v for d in (x, y) for k, v in d.items() if k <= a < k + nbytes(v) and not isinstance(v, Node)]
                    if ptr:
                        # one side holds a pointer, the other plain (undefined) bytes
                        m[a] = ptr[0] if b - a == PB else T.undef(8 * (b - a))
                        continue
                    dummy = Region(0, 'j', 'j')
                    m[a] = self.gate(c, self._get(x, a, b - a, dummy, s), self._get(y, a, b - a, dummy, t))
            n.mem[rid] = m
        return n

    # ------------------------------------------------------------ values
    def cval(self, c, st):
        k, ty = c.k, c.ty
        if k == 'int':
            return const(c.v, ty.w)
        if k == 'fp':
            return const(T.f2b(c.v, ty.w), ty.w)
        if k in ('undef', 'poison'):
            return self._zero(ty, True)
        if k == 'zero' or k == 'null':
            return self._zero(ty, False)
        if k == 'agg':
            v = [self.cval(x, st) for x in c.ops]
            if ty.k == 'vector':
                return T.cat(v)
            return Agg(v)
        if k == 'gref':
            return Ptr.to(self.gregion(c.v, st))
        if k == 'fref':
            return FnPtr(c.v)
        if k == 'expr':
            op, x = c.v
            if op == 'getelementptr':
                ops = [self.cval(o, st) for o in c.ops]
                return self.gep(x, ops)
            if op in ('bitcast', 'addrspacecast'):
                return self.cval(c.ops[0], st)
        raise Undecided('constant %s' % k)

    def _zero(self, ty, und):
        if ty.k in ('int', 'float', 'double'):
            return T.undef(ty.w) if und else const(0, ty.w)
        if ty.k == 'vector':
            return T.undef(8 * ty.size) if und else const(0, 8 * ty.size)
        if ty.k == 'ptr':
            return Ptr([(None, None, 0)])
        if ty.k == 'struct':
            return Agg([self._zero(f, und) for f in ty.fields or []])
        if ty.k == 'array':
            return Agg([self._zero(ty.el, und) for _ in range(ty.n)])
        raise Undecided('constant of type %s' % ty.s)

    def gregion(self, g, st):
        if g.linkage not in ('internal', 'private'):
            g = self.gdef.get(g.name, g)
        r = self.globreg.get(g)
        if r is None:
            r = Region(g.ty.size, 'global', g.name, ro=g.const or g in self.constant)
            r.align, r.glob = g.align or 1, g
            self.globreg[g] = r
            self.globid[r.id] = g
        if r.id not in st.mem:
            c = {}
            st.mem[r.id] = c
            st.own.add(r.id)
            if self.dyn is None and not g.const:
                c[0] = T.opaque(8 * max(1, g.ty.size), 'global ' + g.name)
            elif self.dyn and g in self.dyn:
                for off, d in self.dyn[g]:
                    c[off] = const(d[2], d[1]) if d[0] == 'c' else T.opaque(d[1], 'global %s+%d' % (g.name, off)) if d[0] == 'o' else \
                        FnPtr(d[1]) if d[0] == 'f' else Ptr([(None, None if d[1] is None else self.gregion(d[1], st), d[2])])
            elif g.init is not None and g.linkage not in ('available_externally',):
                self.lay(c, 0, g.ty, g.init, st)
            else:
                c[0] = T.opaque(8 * max(1, g.ty.size), 'global ' + g.name)
            if self.anystate is not None and r.name in self.anystate:
                self.forget(r, c)
        return r

    def lay(self, c, off, ty, init, st):
        if init.k == 'agg' and ty.k in ('array', 'struct'):
            for i, o in enumerate(init.ops):
                if ty.k == 'array':
                    self.lay(c, off + i * ty.el.size, ty.el, o, st)
                else:
                    self.lay(c, off + ty.offs[i], ty.fields[i], o, st)
            return
        if init.k in ('zero',):
            c[off] = const(0, 8 * ty.size)
            return
        if init.k in ('undef', 'poison'):
            c[off] = T.undef(8 * ty.size)
            return
        v = self.cval(init, st)
        c[off] = _pad(v) if isinstance(v, Node) else v

    def val(self, o, env, st):
        if isinstance(o, Const):
            return self.cval(o, st)
        if isinstance(o, Inst):
            v = env.get(o.id)
        else:
            v = env.get(('a', o.idx))
        if v is None:
            raise Undecided('value of %r not available' % (o,), o if isinstance(o, Inst) else None)
        return v

    def subobject(self, i, ops, st, fn):
        """an index into an array member selects one of its elements (or, for a mere address, one past them)"""
        t = i.x
        for k, x in enumerate(ops[1:]):
            if k == 0:
                continue
            if t.k == 'struct':
                t = t.fields[x.x]
                continue
            if t.k != 'array':
                return
            n, t = t.n, t.el
            if n and isinstance(x, Node):
                if fn not in self.elems:
                    self.elems[fn] = element_addresses(fn)
                if k + 2 < len(ops) or i in self.elems[fn]:
                    n -= 1
                if T.isc(x):
                    ok = const(int(0 <= T.sgn(x.x, x.w) <= n), 1)
                else:
                    ok = T.not_(T.ult(const(n, x.w), x))
                self.ob('mem', ok, st, i, fn, 'index outside an array of %d elements' % (n + 1))

    def gep(self, ty, ops):
        p = ops[0]
        if not isinstance(p, Ptr):
            raise Undecided('address arithmetic on a non-pointer')
        off = 0
        sym = None
        t = ty
        for i, x in enumerate(ops[1:]):
            if i == 0:
                sz = ty.size
            elif t.k == 'struct':
                j = x.x
                off += t.offs[j]
                t = t.fields[j]
                continue
            else:
                t = t.el
                sz = t.size
            if not isinstance(x, Node):
                raise Undecided('index is not a number')
            x = T.trunc(x, 8 * PB) if x.w > 8 * PB else x
            x = T.sext(x, 64) if x.w < 64 else x
            if T.isc(x):
                off += T.sgn(x.x, 64) * sz
            else:
                y = T.mul(x, const(sz, 64))
                sym = y if sym is None else T.add(sym, y)
        al = []
        for c, r, o in p.alts:
            if sym is None and not isinstance(o, Node):
                al.append((c, r, o + off))
            else:
                b = o if isinstance(o, Node) else const(o, 64)
                n = T.add(b, const(off, 64))
                if sym is not None:
                    n = T.add(n, sym)
                if T.isc(n):
                    n = T.sgn(n.x, 64)
                al.append((c, r, n))
        return Ptr(al)

    # ------------------------------------------------------------ execution
    def call_fn(self, fn, args, st, inst=None):
        """-> (value, state) or (None, None) when no path returns"""
        if self.depth > 40:
            raise Undecided('call depth', inst)
        self.visited.add(fn.name)
        if fn.needs and not fn.needs <= self.base:
            self.needed.setdefault(fn, (st.guard, sorted(fn.needs - self.base)))
        key = (fn.name, self.frozen(args, st), st.guard.id if st.guard is not None else None)
        if key in self.stack:
            raise NonTerm(inst or fn.blocks[0].insts[0], fn, self.witness(st.guard), 'the call recurs with the same arguments')
        self.stack.append(key)
        self.depth += 1
        for k in [k for k in self.loops if k[0] == self.depth and k[2] == fn.name]:
            del self.loops[k]
        env = {}
        for p, a in zip(fn.params, args):
            if p.byval is not None:
                n = p.byval.size
                r = self.alloc(st, n, 'copy', 'argument ' + p.name)
                # keep the cell structure of the source when possible
                src = a.alts[0] if isinstance(a, Ptr) and len(a.alts) == 1 else None
                if src and src[1] is not None and src[1].kind in ('local', 'copy') and src[1].id in st.mem and \
                        not isinstance(src[2], Node) and 0 <= src[2] <= src[1].size - n:
                    self.copy(st, r, 0, src[1], src[2], n)
                else:
                    self.fill(st, r, 0, self.load(st, a, n, inst, fn))
                a = Ptr.to(r)
            env[('a', p.idx)] = a
        live = set(st.mem)
        out = self.run(fn, fn.blocks[0], None, None, env, st)
        self.depth -= 1
        self.stack.pop()
        if out is None:
            return None, None
        kind, v, s = out
        # the callee's own objects die with it
        for rid in [r for r in s.mem if r not in live and r in self.localids]:
            del s.mem[rid]
            s.own.discard(rid)
        return v, s

    def copy(self, st, dr, do, sr, so, n):
        src = st.mem[sr.id]
        items = []
        for k, v in src.items():
            m = nbytes(v)
            if k >= so and k + m <= so + n:
                items.append((k - so + do, v))
            elif k < so + n and k + m > so:
                if not isinstance(v, Node):
                    raise Undecided('partial copy of a pointer')
                a, b = max(k, so), min(k + m, so + n)
                items.append((a - so + do, T.ext(_pad(v), 8 * (a - k), 8 * (b - a))))
        c = st.cells(dr)
        for k, v in items:
            self._put(c, k, v)

    def edge(self, frm, to, env, st):
        """evaluate the phis of `to` for the edge frm -> to"""
        new = []
        for i in to.insts:
            if i.op != 'phi':
                break
            for v, b in zip(i.ops, i.x):
                if b is frm:
                    new.append((i.id, self.val(v, env, st)))
                    break
        for k, v in new:
            env[k] = v

    def run(self, fn, block, frm, stop, env, st, at=None):
        """-> ('stop', env, state) | ('ret', value, state) | None"""
        if frm is not None:
            self.edge(frm, block, env, st)
        while True:
            if block is stop:
                return ('stop', env, st)
            if block.id in fn.noexit:
                k = (fn.name, block.id)
                t = self.turns.setdefault(k, [0, st.guard])
                t[0] += 1
                if t[0] > 100:
                    # reaching it once is enough
                    raise NonTerm(block.insts[-1], fn, self.witness(t[1]), 'no path leads out of this loop')
            for i in block.insts:
                if i.op == 'phi':
                    continue
                self.steps += 1
                st.n += 1
                op = i.op
                if at is not None:
                    if i is not at:
                        continue
                    at = None
                if st.n > self.MAXPATH // 4 or self.steps > self.MAXSTEP:
                    self.revisit(fn, i, env, st)
                if op == 'br' or op == 'switch':
                    break
                if op == 'ret':
                    return ('ret', self.val(i.ops[0], env, st) if i.ops else None, st)
                if op == 'unreachable':
                    self.ob('ub', const(0, 1), st, i, fn, 'control reaches the end of a value-returning function')
                    return None
                if op in ('call', 'invoke'):
                    if op == 'invoke':
                        self.handlers.append(i.unwind)
                    r = self.call(fn, i, env, st)
                    if op == 'invoke':
                        self.handlers.pop()
                    if r is None:
                        return None
                    v, st = r
                    if v is not None:
                        env[i.id] = v
                    if op == 'invoke':
                        break
                    continue
                v = self.step(fn, i, env, st)
                if v is not None:
                    env[i.id] = v
            if op == 'invoke':
                nxt = i.x
            elif op == 'br' and not i.ops:
                nxt = i.x[0]
            else:
                cv = self.val(i.ops[0], env, st)
                if not isinstance(cv, Node):
                    raise Undecided('branch on a pointer', i)
                arms = self.arms(i, cv)
                if len(arms) == 1:
                    nxt = arms[0][1]
                else:
                    if cv.undef:
                        self.ob('undef', const(0, 1), st, i, fn, 'branch on undefined content')
                    arms = self.feasible(fn, block, i, arms, st, env)
                    if not arms:
                        return None
                    if len(arms) == 1:
                        st.assume(arms[0][0])
                        nxt = arms[0][1]
                    else:
                        out = self.fork(fn, block, arms, env, st)
                        if out is None:
                            return None
                        if out[0] == 'ret':
                            return out
                        _, env, st, block = out
                        continue
            self.edge(block, nxt, env, st)
            block = nxt

    # ------------------------------------------------------------ loops that never end
    def snap(self, env, st):
        st.own = set()
        return dict(env), dict(st.mem)

    def revisit(self, fn, i, env, st):
        """far beyond the length of any loop over lanes or bits: does the state repeat, does the path end at all?"""
        if st.n > self.MAXPATH:
            raise NonTerm(i, fn, self.witness(st.guard), 'still running after %d steps' % self.MAXPATH)
        if self.steps > self.MAXSTEP:
            raise Undecided('step bound', i)
        if i.op not in ('br', 'switch'):
            return
        k = (self.depth, i.id, fn.name)
        if self.watch is None or self.watch[0] == k and len(self.watch[1]) > 600:
            self.watch = (k, [], {})
        if k == self.watch[0]:
            sn = self.snap(env, st)
            f = self.ident(sn, st.guard)
            if f in self.watch[2]:
                raise NonTerm(i, fn, self.witness(st.guard), 'the loop returns to an earlier state')
            self.watch[2][f] = 1
            self.watch[1].append(sn)
            if len(self.watch[1]) > 600:
                self.recur(fn, i, self.watch[1], st.guard)

    def concrete(self, fn, block, i, env, st):
        """a data-dependent loop goes on for very long: follow it for one choice of the arguments"""
        if self.following:
            raise Undecided('data-dependent loop', i)
        from . import prove as P
        import random
        for seed in (1, 2, 3, 4):
            w = ({},) if st.guard is None else P.instance(st.guard, const(0, 1), False, random.Random(seed), 3000, aimed=True)
            if w is None:
                return
            vals = w[0]

            def conv(v):
                if isinstance(v, Node):
                    return T.subst(v, lambda t: const(vals.get(t.x[0], 0), t.w) if t.op == 'v' else None)
                if isinstance(v, Ptr):
                    al = []
                    for c, r, o in v.alts:
                        c = None if c is None else conv(c)
                        if c is None or not T.isc(c) or c.x:
                            o = conv(o) if isinstance(o, Node) else o
                            al.append((None if c is not None and T.isc(c) else c, r, o.x if isinstance(o, Node) and T.isc(o) else o))
                    return Ptr(al)
                if isinstance(v, Agg):
                    return Agg([conv(x) for x in v.v])
                return v
            s = State()
            s.n = st.n
            s.mem = {r: {o: conv(v) for o, v in c.items()} for r, c in st.mem.items()}
            e = {k: conv(v) for k, v in env.items()}
            save = (list(self.obs), dict(self.counts), list(self.ended), list(self.effects), self.steps, self.depth, list(self.stack), list(self.handlers), dict(self.loops), self.watch)
            self.following, self.watch, self.steps = True, None, 0
            try:
                self.run(fn, block, None, None, e, s, at=i)
            except NonTerm as x:
                raise NonTerm(x.inst, x.fn, vals, x.how)
            except (Undecided, T.NoEval):
                pass
            finally:
                self.following = False
                self.obs, self.counts, self.ended, self.effects, self.steps, self.depth, self.stack, self.handlers, self.loops, self.watch = save

    def ident(self, sn, guard):
        env, mem = sn
        return (tuple(sorted((r, tuple(sorted((o, _idof(v)) for o, v in c.items()))) for r, c in mem.items())),
                tuple(sorted(((str(k), _idof(v)) for k, v in env.items()))), guard.id if guard is not None else None)

    def frozen(self, args, st):
        out = []
        for a in args:
            if isinstance(a, Ptr):
                for c, r, o in a.alts:
                    out.append((_idof(c), _idof(o)))
                    if r is not None:
                        out.append((r.kind, r.size, tuple(sorted((k, _idof(v)) for k, v in st.mem.get(r.id, {}).items()))))
            else:
                out.append(_idof(a))
        return tuple(out)

    def witness(self, guard):
        from . import prove as P
        import random
        if guard is None:
            return {}
        w = P.instance(guard, const(0, 1), False, random.Random(1), 4000, aimed=True)
        if w is None:
            raise Undecided('possible non-termination without an instance')
        return w[0]

    def recur(self, fn, i, snaps, guard):
        """some lane values that stay in the loop and reach the same state twice"""
        from . import prove as P
        import random
        for seed in (1, 2, 3):
            if guard is None:
                w = ({},)
            else:
                w = P.instance(guard, const(0, 1), False, random.Random(seed), 3000, aimed=True)
                if w is None:
                    return
            try:
                seen = set()
                vals = dict(w[0])
                for env, mem in snaps:
                    f = (tuple(sorted((r, tuple(sorted((o, _conc(v, vals)) for o, v in c.items()))) for r, c in mem.items())),
                         tuple(sorted((str(k), _conc(v, vals)) for k, v in env.items())))
                    if f in seen:
                        raise NonTerm(i, fn, w[0], 'the loop returns to an earlier state')
                    seen.add(f)
            except T.NoEval:
                pass

    def feasible(self, fn, block, i, arms, st, env):
        """inside a data-dependent loop, drop arms the guard excludes"""
        k = (self.depth, i.id, fn.name)
        self.loops[k] = self.loops.get(k, 0) + 1
        self.last = st.guard
        if self.prune and self.loops[k] > 40:
            raise Undecided('data-dependent loop', i)
        if not self.prune and self.loops[k] <= 20:
            return arms
        if not self.following and self.loops[k] <= self.MAXSYM:
            # slow: does it end at all for some choice of the arguments?
            t = self.since.setdefault(k, time.time())
            if t and time.time() - t > 10:
                self.since[k] = 0
                self.concrete(fn, block, i, env, st)
        if self.loops[k] > self.MAXSYM - 80:
            sn = self.snaps.setdefault(k, [])
            sn.append(self.snap(env, st))
            if self.loops[k] > self.MAXSYM:
                self.recur(fn, i, sn, st.guard)
                self.concrete(fn, block, i, env, st)
                raise Undecided('data-dependent loop', i)
        from . import prove as P, table
        keep = []
        for c, t in arms:
            x = table.sat(c if st.guard is None else T.and_(st.guard, c))
            if x is None and self.loops[k] <= 64:
                x = self.part(c, st.guard)
            if x is not None:
                if x[0]:
                    keep.append((c, t))
                continue
            try:
                r = P.prove(c if st.guard is None else T.ite(st.guard, c, const(0, 1)), const(0, 1), False, 60)
            except (P.Give, RecursionError):
                r = False
            if r is not True:
                keep.append((c, t))
        return keep

    def part(self, c, guard):
        """c together with the conjuncts of the guard about the same few input bits"""
        from . import table
        vs = table.support(c)
        if vs is None:
            return None
        d, st, seen = dict(vs), [guard], set()
        while st:
            g = st.pop()
            if g.id in seen:
                continue
            seen.add(g.id)
            u = table.support(g)
            if u is not None and all(m & ~d.get(v, 0) == 0 for v, m in u):
                c = T.and_(c, g)
            elif g.op == 'and':
                st.extend(g.a)
        return table.sat(c)

    def arms(self, i, cv):
        if i.op == 'br':
            if T.isc(cv):
                return [(None, i.x[0] if cv.x else i.x[1])]
            if i.x[0] is i.x[1]:
                return [(None, i.x[0])]
            return [(cv, i.x[0]), (T.not_(cv), i.x[1])]
        if T.isc(cv):
            for c, b in i.x[1:]:
                if c.v == cv.x:
                    return [(None, b)]
            return [(None, i.x[0])]
        by, order, none = {}, [], const(1, 1)
        for c, b in i.x[1:]:
            e = T.eq(cv, const(c.v, cv.w))
            none = T.and_(none, T.not_(e))
            if b.id in by:
                by[b.id] = (T.or_(by[b.id][0], e), b)
            else:
                by[b.id] = (e, b)
                order.append(b.id)
        d = i.x[0]
        if d.id in by:
            by[d.id] = (T.or_(by[d.id][0], none), d)
        else:
            by[d.id] = (none, d)
            order.append(d.id)
        return [by[k] for k in order if not (T.isc(by[k][0]) and not by[k][0].x)]

    def fork(self, fn, block, arms, env, st):
        join = fn.ipdom.get(block.id) if fn.ipdom is not None else _ip(fn).get(block.id)
        base = st.guard
        outs = []
        for c, b in arms:
            s = st.copy()
            s.assume(c)
            o = self.run(fn, b, block, join, dict(env), s)
            if o is not None:
                outs.append((c, o))
        if not outs:
            return None
        if len(outs) < len(arms):
            if len(outs) == 1:
                base = outs[0][1][2].guard
            else:
                k = None
                for c, _ in outs:
                    k = c if k is None else T.or_(k, c)
                base = k if base is None else T.and_(base, k)
        c0, (kind, e0, s0) = outs[-1]
        for c, (k, e, s) in reversed(outs[:-1]):
            if k != kind:
                raise Undecided('unstructured join')
            if kind == 'ret':
                e0 = self.gate(c, e, e0) if e is not None else None
            else:
                m = {}
                for key in e.keys() & e0.keys():
                    x, y = e[key], e0[key]
                    if x is y:
                        m[key] = x
                    else:
                        try:
                            m[key] = self.gate(c, x, y)
                        except Undecided:
                            pass
                e0 = m
            s0 = self.join(c, s, s0, base)
        # guards narrowed inside an arm (an abnormal end further down) stay with the joined state
        if all(o[2].guard is not None for _, o in outs) and len(outs) > 1:
            narrowed = False
            g = None
            for c, o in outs:
                exp = c if st.guard is None else T.and_(st.guard, c)
                if o[2].guard is not exp:
                    narrowed = True
                g = o[2].guard if g is None else T.or_(g, o[2].guard)
            if narrowed:
                s0.guard = g
        if len(outs) == 1:
            s0.guard = base
        if kind == 'ret':
            return ('ret', e0, s0)
        return ('stop', e0, s0, join)

    # ------------------------------------------------------------ instructions
    def step(self, fn, i, env, st):
        op = i.op
        V = lambda k: self.val(i.ops[k], env, st)
        if op == 'alloca':
            n = 1
            if i.ops:
                c = V(0)
                if not T.isc(c):
                    raise Undecided('variable-length object', i)
                n = c.x
            r = self.alloc(st, i.x.size * n, 'local', 'local of %s' % fn.name)
            r.align = i.align or 16
            return Ptr.to(r)
        if op == 'load':
            p = V(0)
            ty = i.ty
            if ty.k == 'ptr':
                v = self.load(st, p, PB, i, fn)
                return self.topointer(v, i, st) if isinstance(v, Node) else v
            return self.typed(self.load_ty(st, p, ty, i, fn), ty)
        if op == 'store':
            v, p = V(0), V(1)
            self.store_ty(st, p, v, i.ops[0].ty if isinstance(i.ops[0], (Const, Inst, Arg)) else None, i, fn)
            return None
        if op == 'fence':
            return None
        if op == 'atomicrmw':
            p, x = V(0), V(1)
            if not isinstance(x, Node) or i.ty.k != 'int':
                raise Undecided('atomic operation on a pointer', i)
            old = self.typed(self.load_ty(st, p, i.ty, i, fn), i.ty)
            k = i.x
            if k > 10:
                raise Undecided('atomic operation', i)
            new = (x, T.add(old, x), T.sub(old, x), T.and_(old, x), T.xor(T.and_(old, x), const(-1, x.w)), T.or_(old, x), T.xor(old, x))[k] if k < 7 else \
                T.ite(T.icmp(('sgt', 'slt', 'ugt', 'ult')[k - 7], old, x), old, x)
            self.store_ty(st, p, new, i.ty, i, fn)
            return old
        if op == 'cmpxchg':
            p, e, x = V(0), V(1), V(2)
            t = i.ops[1].ty
            if not isinstance(x, Node) or not isinstance(e, Node) or t.k != 'int':
                raise Undecided('atomic operation on a pointer', i)
            old = self.typed(self.load_ty(st, p, t, i, fn), t)
            hit = T.eq(old, e)
            self.store_ty(st, p, T.ite(hit, x, old), t, i, fn)
            return Agg([old, hit])
        if op == 'getelementptr':
            ops = [self.val(o, env, st) for o in i.ops]
            self.subobject(i, ops, st, fn)
            return self.gep(i.x, ops)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = V(0), V(1)
            if not (isinstance(a, Node) and isinstance(b, Node)):
                raise Undecided('arithmetic on pointers', i)
            if i.ty.k == 'vector':
                n, w = i.ty.n, i.ty.el.w
                return T.cat([self.arith(op, T.ext(a, k * w, w), T.ext(b, k * w, w), i, fn, st) for k in range(n)])
            return self.arith(op, a, b, i, fn, st)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fptrunc', 'sitofp', 'uitofp'):
            mode = self.nearest(st, i, fn, True)
            if i.round and i.round != 'dynamic':
                mode = {'tonearest': None, 'downward': 'floor', 'upward': 'ceil', 'towardzero': 'trunc'}.get(i.round, '?')
                if mode == '?':
                    raise Undecided('rounding mode', i)
            if mode:
                self.relaxed(i, fn, st)
                a = V(0)
                if i.ty.k == 'vector' or i.ty.w not in T.FMT or not isinstance(a, Node) or op in ('fptrunc',) and a.w not in T.FMT:
                    raise Undecided('arithmetic in another rounding mode', i)
                return T.fdir(op, mode, [a] + ([V(1)] if len(i.ops) > 1 else []), i.ty.w)
        if i.fmf or fn.fast or fn.clones:
            self.relaxed(i, fn, st)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = V(0), V(1)
            if (i.fmf & 32 or fn.clones) and op in ('fadd', 'fsub'):
                def one(x, y):
                    # a product that is rounded, or not when the compiler fuses it
                    if any(p.op == 'fmul' and not all(q.op == 'fpext' for q in p.a) for p in (x, y)):
                        self.loosen(st, i, fn, 'a multiplication and an addition may be fused')
                    return T.fbin(op, x, y)
                return self.lanes(i.ty, one, a, b)
            return self.lanes(i.ty, lambda x, y: T.fbin(op, x, y), a, b)
        if op == 'fneg':
            return self.lanes(i.ty, T.fneg, V(0))
        if op == 'icmp':
            a, b = V(0), V(1)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return self.pcmp(i, a, b)
            if i.ty.k == 'vector':
                n, w = i.ty.n, a.w // i.ty.n
                return T.cat([T.icmp(i.x, T.ext(a, k * w, w), T.ext(b, k * w, w)) for k in range(n)])
            return T.icmp(i.x, a, b)
        if op == 'fcmp':
            a, b = V(0), V(1)
            if i.ty.k == 'vector':
                n, w = i.ty.n, a.w // i.ty.n
                if w not in T.FMT:
                    raise Undecided('float format', i)
                return T.cat([T.fcmp(i.x, T.ext(a, k * w, w), T.ext(b, k * w, w)) for k in range(n)])
            if a.w not in T.FMT:
                raise Undecided('float format', i)
            return T.fcmp(i.x, a, b)
        if op == 'select':
            c, a, b = V(0), V(1), V(2)
            if i.ty.k == 'vector' and c.w == i.ty.n and c.w > 1:
                n, w = i.ty.n, a.w // i.ty.n
                return T.cat([T.ite(T.ext(c, k, 1), T.ext(a, k * w, w), T.ext(b, k * w, w)) for k in range(n)])
            if c.w != 1:
                raise Undecided('vector select', i)
            return self.gate(c, a, b)
        if op in ('trunc', 'zext', 'sext'):
            a = V(0)
            if i.ty.k == 'vector':
                n, w = i.ty.n, i.ty.el.w
                u = a.w // n
                f = {'trunc': lambda x: T.trunc(x, w), 'zext': lambda x: T.zext(x, w), 'sext': lambda x: T.sext(x, w)}[op]
                return T.cat([f(T.ext(a, k * u, u)) for k in range(n)])
            return {'trunc': T.trunc, 'zext': T.zext, 'sext': T.sext}[op](a, i.ty.w)
        if op == 'bitcast':
            return V(0)
        if op in ('fptosi', 'fptoui'):
            a = V(0)
            if i.ty.k == 'vector':
                n, w = i.ty.n, a.w // i.ty.n
                if w not in T.FMT:
                    raise Undecided('conversion', i)
                ps = [T.ext(a, k * w, w) for k in range(n)]
                for x in ps:
                    self.ob('ub', conv_ok(x, i.ty.el.w, op == 'fptosi'), st, i, fn,
                            'conversion of a value out of the range of the integer type')
                return T.cat([T.fptoi(x, i.ty.el.w, op == 'fptosi') for x in ps])
            if i.ty.k != 'int' or a.w not in T.FMT:
                raise Undecided('conversion', i)
            self.ob('ub', conv_ok(a, i.ty.w, op == 'fptosi'), st, i, fn, 'conversion of a value out of the range of the integer type')
            return T.fptoi(a, i.ty.w, op == 'fptosi')
        if op in ('sitofp', 'uitofp'):
            if i.ty.k == 'vector' and i.ty.el.w in T.FMT:
                a = V(0)
                n, w = i.ty.n, a.w // i.ty.n
                return T.cat([T.itofp(T.ext(a, k * w, w), i.ty.el.w, op == 'sitofp') for k in range(n)])
            if i.ty.k == 'vector' or i.ty.w not in T.FMT:
                raise Undecided('conversion', i)
            return T.itofp(V(0), i.ty.w, op == 'sitofp')
        if op in ('fpext', 'fptrunc') and i.ty.k == 'vector':
            a = V(0)
            n, w = i.ty.n, a.w // i.ty.n
            if w not in T.FMT or i.ty.el.w not in T.FMT:
                raise Undecided('extended precision', i)
            f = T.fpext if op == 'fpext' else T.fptrunc
            return T.cat([f(T.ext(a, k * w, w), i.ty.el.w) for k in range(n)])
        if op == 'fpext':
            if i.ty.w not in T.FMT:
                raise Undecided('extended precision', i)
            return T.fpext(V(0), i.ty.w)
        if op == 'fptrunc':
            a = V(0)
            if a.w not in T.FMT:
                raise Undecided('extended precision', i)
            return T.fptrunc(a, i.ty.w)
        if op == 'extractvalue':
            a = V(0)
            for k in i.x:
                a = a.v[k]
            return a
        if op == 'insertvalue':
            return self.insv(V(0), V(1), i.x)
        if op == 'extractelement':
            a, k = V(0), V(1)
            if not T.isc(k):
                n, w = a.w // i.ty.w, i.ty.w
                self.ob('mem', T.ult(k, const(n, k.w)), st, i, fn, 'element %d or above of a vector' % n)
                r = T.ext(a, 0, w)
                for j in range(1, n):
                    r = T.ite(T.eq(k, const(j, k.w)), T.ext(a, j * w, w), r)
                return r
            if (k.x + 1) * i.ty.w > a.w:
                self.ob('mem', const(0, 1), st, i, fn, 'element %d of a vector' % k.x)
                return T.undef(i.ty.w)
            return T.ext(a, k.x * i.ty.w, i.ty.w)
        if op == 'insertelement':
            a, x, k = V(0), V(1), V(2)
            w = x.w
            ps = [T.ext(a, j * w, w) for j in range(a.w // w)]
            ok = T.ult(k, const(len(ps), k.w)) if len(ps) <= T.mask(k.w) else const(1, 1)
            self.ob('mem', ok, st, i, fn, 'element %d or above of a vector' % len(ps))
            ps = [T.ite(T.eq(k, const(j, k.w)), x, p) for j, p in enumerate(ps)]
            return T.cat(ps)
        if op == 'shufflevector':
            a, b = V(0), V(1)
            w = i.ty.el.w
            n = a.w // w
            ps = [T.ext(a, j * w, w) for j in range(n)] + [T.ext(b, j * w, w) for j in range(n)]
            return T.cat([ps[m] if m >= 0 else T.undef(w) for m in i.x])
        if op == 'freeze':
            return V(0)
        if op == 'ptrtoint':
            p = V(0)
            if isinstance(p, Ptr):
                v = self.addr(p)
                return T.trunc(v, i.ty.w) if v.w >= i.ty.w else T.zext(v, i.ty.w)
            raise Undecided('pointer to integer', i)
        if op == 'inttoptr':
            v = V(0)
            return self.topointer(T.trunc(v, 8 * PB) if v.w >= 8 * PB else T.zext(v, 8 * PB), i, st)
        raise Undecided('instruction %s' % op, i)

    def lanes(self, ty, f, *a):
        if ty.k == 'vector':
            n, w = ty.n, ty.el.w
            return T.cat([f(*[T.ext(x, k * w, w) for x in a]) for k in range(n)])
        if a[0].w not in T.FMT:
            raise Undecided('float format')
        return f(*a)

    def insv(self, a, v, idx):
        l = list(a.v)
        l[idx[0]] = v if len(idx) == 1 else self.insv(l[idx[0]], v, idx[1:])
        return Agg(l)

    def scratch(self, st):
        r = Region(1 << 40, 'scratch', 'library object')
        st.mem[r.id] = {}
        st.own.add(r.id)
        return r

    def typed(self, v, ty):
        if isinstance(v, Node) and ty.k in ('int', 'float', 'double', 'vector'):
            w = ty.w or 8 * ty.size
            if v.w > w:
                v = T.trunc(v, w)
        return v

    def load_ty(self, st, p, ty, i, fn):
        if ty.k in ('struct', 'array'):
            n = len(ty.fields) if ty.k == 'struct' else ty.n
            r = []
            for k in range(n):
                f = ty.fields[k] if ty.k == 'struct' else ty.el
                o = ty.offs[k] if ty.k == 'struct' else k * ty.el.size
                r.append(self.typed(self.load_ty(st, self.shift(p, o), f, i, fn), f))
            return Agg(r)
        if ty.k == 'ptr':
            return self.load(st, p, PB, i, fn)
        if ty.k not in ('int', 'float', 'double', 'vector'):
            raise Undecided('load of %s' % ty.s, i)
        v = self.load(st, p, ty.store, i, fn)
        if isinstance(v, Ptr) and ty.store == PB:
            return self.addr(v)
        if not isinstance(v, Node):
            raise Undecided('pointer read as data', i)
        return v

    def addr(self, p):
        """the address as an integer: an unknown number for each region, plus the offset"""
        res = None
        for c, r, o in reversed(p.alts):
            if r is None:
                v = const(0, 8 * PB)
            else:
                self.regions[r.id] = r
                v = T.opaque(8 * PB, ('addr', r.id))
            v = T.add(v, T.trunc(o if isinstance(o, Node) else const(o, 64), 8 * PB))
            res = v if res is None else T.ite(c, v, res)
        return res

    def topointer(self, v, i, st):
        if T.isc(v):
            if v.x == 0:
                return Ptr([(None, None, 0)])
        elif v.op == 'op' and not (isinstance(v.x, tuple) and v.x[0] == 'addr'):
            return Ptr.to(self.scratch(st))
        elif v.op == 'ite':
            return self.gate(v.a[0], self.topointer(v.a[1], i, st), self.topointer(v.a[2], i, st))
        else:
            base = [n for n in T.walk([v]) if n.op == 'op' and isinstance(n.x, tuple) and n.x[0] == 'addr']
            if len(base) == 1:
                d = T.sub(v, base[0])
                if base[0] not in T.walk([d]):
                    return Ptr.to(self.regions[base[0].x[1]], T.sgn(d.x, d.w) if T.isc(d) else T.sext(d, 64))
        raise Undecided('pointer made of data', i)

    def shift(self, p, o):
        return Ptr([(c, r, (x + o) if not isinstance(x, Node) else T.add(x, const(o, 64))) for c, r, x in p.alts])

    def store_ty(self, st, p, v, ty, i, fn):
        if isinstance(v, Agg):
            if ty is None or ty.k not in ('struct', 'array'):
                raise Undecided('aggregate store', i)
            for k, x in enumerate(v.v):
                f = ty.fields[k] if ty.k == 'struct' else ty.el
                o = ty.offs[k] if ty.k == 'struct' else k * ty.el.size
                self.store_ty(st, self.shift(p, o), x, f, i, fn)
            return
        if isinstance(v, Node):
            v = _pad(v)
        self.store(st, p, v, i, fn)

    def arith(self, op, a, b, i, fn, st):
        w = a.w
        if op in ('add', 'sub', 'mul'):
            f = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[op]
            r = f(a, b)
            if i.nsw is True:
                W = 2 * w if op == 'mul' else w + 1
                ok = T.eq(T.sext(r, W), f(T.sext(a, W), T.sext(b, W)))
                self.ob('ub', ok, st, i, fn, 'signed overflow in %d-bit %s' % (w, op))
            return r
        if op in ('and', 'or', 'xor'):
            return T._bw(op, a, b)
        if op in ('shl', 'lshr', 'ashr'):
            self.ob('ub', T.ult(b, const(w, b.w)) if b.w > 3 else const(1, 1), st, i, fn, 'shift amount not below %d' % w)
            return {'shl': T.shl, 'lshr': T.lshr, 'ashr': T.ashr}[op](a, b)
        self.ob('ub', T.not_(T.eq(b, const(0, w))), st, i, fn, 'division by zero')
        if op in ('sdiv', 'srem') and not (T.isc(b) and b.x != T.mask(w)):
            bad = T.and_(T.eq(b, const(-1, w)), T.eq(a, const(1 << (w - 1), w)))
            self.ob('ub', T.not_(bad), st, i, fn, 'overflow in signed division')
        return T.div(op, a, b)

    def pcmp(self, i, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            # a function is not null, and two functions are the same or not
            if i.x in ('eq', 'ne') and all(isinstance(x, FnPtr) or isinstance(x, Ptr) and len(x.alts) == 1 and x.alts[0][1] is None for x in (a, b)):
                same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.fn.name == b.fn.name
                return const(int(same == (i.x == 'eq')), 1)
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            raise Undecided('pointer compare', i)
        if len(a.alts) == 1 and len(b.alts) == 1:
            _, r, o = a.alts[0]
            _, s, q = b.alts[0]
            if r is s:
                o = o if isinstance(o, Node) else const(o, 64)
                q = q if isinstance(q, Node) else const(q, 64)
                return T.icmp(i.x, o, q)
            if i.x in ('eq', 'ne'):
                return const(int(i.x == 'ne'), 1)
        if i.x in ('eq', 'ne') and len(a.alts) * len(b.alts) <= 64:
            res = const(0, 1)
            for c, r, o in a.alts:
                for d, s, q in b.alts:
                    if r is s:
                        e = T.eq(o if isinstance(o, Node) else const(o, 64), q if isinstance(q, Node) else const(q, 64))
                        for k in (c, d):
                            if k is not None:
                                e = T.and_(k, e)
                        res = T.or_(res, e)
            return res if i.x == 'eq' else T.not_(res)
        raise Undecided('pointer compare', i)

    # ------------------------------------------------------------ calls
    def call(self, fn, i, env, st):
        """-> (value, state) or None when it does not return"""
        c = i.callee
        if isinstance(c, Const) and c.k == 'fref':
            f = c.v
        else:
            v = self.val(c, env, st) if not isinstance(c, Const) else None
            if isinstance(c, Const) and c.k == 'asm':
                return self.barrier(c.v, i, env, st), st
            if not isinstance(v, FnPtr):
                raise Undecided('indirect call', i)
            f = v.fn
        name = f.name
        if name.startswith('llvm.lifetime'):
            p = self.val(i.ops[1], env, st)
            if isinstance(p, Ptr) and len(p.alts) == 1 and p.alts[0][1] is not None and p.alts[0][1].kind == 'local':
                # outside its lifetime, and at its beginning, an object has no value
                r = p.alts[0][1]
                c = st.cells(r)
                c.clear()
                if r.size:
                    c[0] = T.undef(8 * r.size)
            return None, st
        if name == 'llvm.assume':
            c = self.val(i.ops[0], env, st)
            self.ob('ub', c, st, i, fn, 'the compiler is told to assume what need not hold')
            if i.tbaa and len(i.tbaa) == 2:
                p, n = (self.val(o, env, st) for o in i.tbaa)
                if isinstance(p, Ptr) and isinstance(n, Node) and T.isc(n) and n.x > 1:
                    for _, r, off in p.alts:
                        if r is not None and r.kind != 'scratch':
                            self.aligned(st, r, off, i, fn, False, n.x)
            return None, st
        if name.startswith('llvm.stacksave'):
            return Ptr([(None, None, 0)]), st
        if name.startswith(('llvm.dbg', 'llvm.experimental.noalias', 'llvm.stackrestore')) or name == 'llvm.donothing':
            return None, st
        args = [self.val(o, env, st) if not (isinstance(o, Const) and o.k == 'metadata') else None for o in i.ops]
        if name.startswith('llvm.invariant.start'):
            # the object keeps its value from here on (a const object whose initialiser has run)
            p = args[-1]
            if self.initdepth and isinstance(p, Ptr) and len(p.alts) == 1 and p.alts[0][1] is not None and p.alts[0][1].glob is not None \
                    and T.isc(args[0]) and args[0].x == p.alts[0][1].size:
                self.constant.add(p.alts[0][1].glob)
            return Ptr([(None, None, 0)]), st
        if name.startswith('llvm.invariant.end'):
            return None, st
        from . import lib
        r = lib.model(self, fn, i, name, args, st)
        if r is not None:
            return None if r == 'dead' else r
        g = f if not f.decl and f.linkage in ('internal', 'private') else self.fns.get(name)
        if f.decl and g is not None and g.linkage in ('internal', 'private'):
            g = None
        if g is None or g.decl:
            raise Undecided('call of external %s' % name, i)
        which = f.promise if f.promise == 'const' or g.promise is None else g.promise
        if which is None:
            v, s = self.call_fn(g, args, st, i)
        else:
            res = next((a.alts[0][1] for a, p in zip(args, g.params) if p.sret is not None and isinstance(a, Ptr) and len(a.alts) == 1), None)
            self.promises.append((which, g, Region.n, res, fn.name.startswith('nsa_w_') or fruitless(fn, i)))
            try:
                v, s = self.call_fn(g, args, st, i)
            finally:
                self.promises.pop()
        if s is None:
            return None
        return v, s

    def barrier(self, asm, i, env, st):
        """an empty assembler statement: what it is said to change keeps its value"""
        text, cons = asm
        if re.sub(r'#.*|\s', '', text):
            raise Undecided('assembler code', i)
        outs, tied, k = [], {}, 0
        for c in cons.split(','):
            if c.startswith('~') or not c:
                continue
            if c.startswith('='):
                if '*' in c:
                    k += 1
                else:
                    outs.append(c)
                continue
            if c.isdigit():
                tied[int(c)] = k
            k += 1
        if not outs:
            return None
        if len(outs) > 1 or 0 not in tied or cons.split(',')[0] != outs[0]:
            raise Undecided('assembler code', i)
        return self.val(i.ops[tied[0]], env, st)

    def relaxed(self, i, fn, st):
        relevant = {'fadd': 15, 'fsub': 15, 'fmul': 15, 'fdiv': 30, 'fcmp': 6, 'call': 127 - 32}.get(i.op, 0)
        if i.fmf & relevant:
            self.loosen(st, i, fn, 'its floating-point operations need not follow IEEE 754')
        elif fn.fast and i.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'fneg', 'fptrunc', 'fptosi', 'fptoui'):
            self.loosen(st, i, fn, 'gcc is told to relax its floating-point operations')

    def loosen(self, st, i, fn, what):
        if len(self.loose) < 50:
            self.loose.append((st.guard, i, fn, what))

    def promised(self, st, r, inst, fn, write):
        for which, g, n, res, _ in self.promises:
            if r is res or not write and which == 'pure':
                continue
            if r.glob is None and r.id > n or r.glob is not None and not write and (r.ro or r.glob in self.constant):
                continue
            if len(self.lies) < 200:
                self.lies.append(('write' if write else 'read', st.guard, inst, fn, g.name, which, r))
            break

    def ends(self, st, inst, fn, how):
        if how in ('__cxa_throw', '__cxa_rethrow') or '__throw_' in how:
            for h in reversed(self.handlers):
                if h == 'catch':
                    raise Undecided('an exception is caught', inst)
                if h == 'terminate':
                    how = '_ZSt9terminatev'
                    break
            else:
                how = 'exception'
        self.ended.append((st.guard, inst, fn, how))
        for which, g, n, res, top in self.promises:
            if top:
                self.lies.append(('end', st.guard, inst, fn, g.name, which, None))
                break


def fruitless(fn, call):
    """is the result of a call never looked at?"""
    homes = set()
    for b in fn.blocks:
        for i in b.insts:
            if any(o is call for o in i.ops):
                if i.op == 'store' and i.ops[0] is call and isinstance(i.ops[1], Inst) and i.ops[1].op == 'alloca':
                    homes.add(i.ops[1])
                else:
                    return False
    for b in fn.blocks:
        for i in b.insts:
            if any(o in homes for o in i.ops if isinstance(o, Inst)) and not (i.op == 'store' and i.ops[1] in homes and i.ops[0] not in homes or
                                                                              i.op == 'call' and isinstance(i.callee, Const) and i.callee.k == 'fref' and i.callee.v.name.startswith('llvm.')):
                return False
    return True


def element_addresses(fn):
    """the address computations of a function whose result is dereferenced"""
    r = set()
    for b in fn.blocks:
        for i in b.insts:
            if i.op in ('load', 'store'):
                r.add(i.ops[0 if i.op == 'load' else 1])
            elif i.op == 'getelementptr' and len(i.ops) > 2:
                r.add(i.ops[0])
    return {x for x in r if isinstance(x, Inst)}


def conv_ok(a, w, signed):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    fw = a.w

    def rep(v):
        b = T.fround(Fraction(v), fw)
        return b if Fraction(T.b2f(b, fw)) == v else None
    c = rep(hi + 1)
    up = T.flt(a, const(c, fw))
    c = rep(lo - 1)
    if c is not None:
        dn = T.flt(const(c, fw), a)
    else:
        dn = T.not_(T.flt(a, const(rep(lo), fw)))
    return T.and_(T.and_(up, dn), T.not_(T.fnan(a)))


def _and(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return T.and_(a, b)


def _pad(v):
    if isinstance(v, Node) and v.w % 8:
        return T.zext(v, (v.w + 7) // 8 * 8)
    return v


def _ip(fn):
    from .ir import _ipdom
    if fn.ipdom is None:
        fn.ipdom = _ipdom(fn)
    return fn.ipdom


def _idof(v):
    if isinstance(v, Node):
        return v.id
    if isinstance(v, Ptr):
        return tuple((_idof(c), r.id if r is not None else 0, _idof(o)) for c, r, o in v.alts)
    if isinstance(v, Agg):
        return tuple(_idof(x) for x in v.v)
    return v if isinstance(v, int) or v is None else id(v)


def _conc(v, vals):
    """value under an instance of the lane variables (content that was never written compares by identity)"""
    if isinstance(v, Node):
        if T.isc(v):
            return v.x
        if v.op == 'u':
            return 'u%d' % v.id
        env = {}
        for t in T.walk([v]):
            if t.op == 'v':
                env[t.id] = vals.get(t.x[0], 0)
            elif t.op == 'u':
                return 'n%d' % v.id
        return T.evaluate(v, env)
    if isinstance(v, Ptr):
        return tuple((_conc(c, vals) if c is not None else 1, r.id if r is not None else 0, _conc(o, vals) if isinstance(o, Node) else o)
                     for c, r, o in v.alts)
    if isinstance(v, Agg):
        return tuple(_conc(x, vals) for x in v.v)
    return id(v)
