"""C21-C24: properties of the public header and of the library's symbols, decided by the compilers' type checkers
(static assertions, witnesses that must not compile) and on the linked IR."""
import itertools
import json
import os
import re
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build as B, driver as D
from .ir import Module, Const
from .spec import ACLE

DATA = os.path.join(D.HERE, 'data')
CC, CXX = 'clang', 'clang++'


def Result():
    from .main import Result
    return Result()


def V(res, prop, rule, text, file='neon_sim.h', line=0, function=None, key=None, config='default', witness=None):
    res.viol.append(dict(property=prop, file=file, line=line, function=function, rule=rule, text=text, config=config, witness=witness,
                         key=key or '%s|%s' % (rule, text)))


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='nsa_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def compiler(n):
    if n.startswith('clang'):
        return B.tool(n)
    return shutil.which(n)


def errors(txt, base):
    """{line: message} of the errors located in file base"""
    out = {}
    for m in re.finditer(r'^(.*?):(\d+):\d+: (?:fatal )?error: (.*)$', txt, re.M):
        if os.path.basename(m.group(1)) == base:
            out.setdefault(int(m.group(2)), m.group(3))
    return out


def first_error(txt):
    m = re.search(r'^(.*?):(\d+):\d+: (?:fatal )?error: (.*)$', txt, re.M)
    return (m.group(1), int(m.group(2)), m.group(3)) if m else (None, 0, txt.strip()[:200])


def check(cc, std, path, extra=()):
    c = compiler(cc)
    lim = ['-ferror-limit=0'] if cc.startswith('clang') else ['-fmax-errors=0']
    return B.sh([c, '-std=' + std, '-fsyntax-only', '-w', '-I', B.REPO] + lim + list(extra) + [path])


# ---------------------------------------------------------------- C21
def calls(m):
    """names of the functions each definition of module m refers to"""
    out = {}
    for f in m.fns.values():
        if f.decl:
            continue
        s = set()
        for b in f.blocks:
            for i in b.insts:
                ops = list(i.ops) + ([i.callee] if getattr(i, 'callee', None) is not None else [])
                for o in ops:
                    if isinstance(o, Const) and o.k == 'fref':
                        s.add(o.v.name)
        out[f.name] = s
    return out


def shape(f):
    return (f.rty.s, tuple((p.ty.s, getattr(p.byval, 's', None), getattr(p, 'sret', None) is not None and getattr(p.sret, 's', None)) for p in f.params), f.vararg)


def linkable(prop, res, b, cname):
    names = json.load(open(os.path.join(DATA, 'api.json')))
    wrap = b.mods[-1]
    inner = ('internal', 'private', 'available_externally')
    ref = {}
    for m in b.lib:
        for k, s in calls(m).items():
            for t in s:
                ref.setdefault(t, set()).add(k)
    ext, by = {}, {}
    for src, m in zip(b.sources, b.lib):
        for f in m.fns.values():
            if not f.decl and f.linkage not in inner:
                ext.setdefault(f.name, []).append((src, f))
    wr = calls(wrap)
    n = 0
    for name in names:
        if b.only is not None and name not in b.only:
            continue
        n += 1
        if name in b.unusable:
            V(res, prop, 'declared', '%s cannot be called as the specification declares it: %s' % (name, b.unusable[name]), key='%s|declared' % name,
              function=name, config=cname)
            continue
        need = wr.get('nsa_w_' + name, set())
        # what a caller's object file refers to: declarations reachable from the wrapper
        todo, seen = list(need), set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            todo += list(wr.get(t, ()))
        undef = [t for t in seen if t in wrap.fns and wrap.fns[t].decl and not t.startswith('llvm.')]
        for t in sorted(undef):
            if wrap.fns[t].linkage == 'extern_weak' and (t in ACLE or t in ext):
                V(res, prop, 'linkable', '%s is declared weak: a reference does not make the linker take its definition from the library, and the call goes to address 0' % t,
                  function=t, key='%s|weak' % t, config=cname)
            if wrap.fns[t].refuses and (t in ACLE or t in ext):
                V(res, prop, 'linkable', '%s is declared with the error attribute: no program that calls it compiles' % t, function=t, key='%s|refused' % t, config=cname)
            mm = re.match(r'_Z(\d+)(v\w+)$', t)
            if t not in ACLE and t != name and not (mm and mm.group(2)[:int(mm.group(1))] in ACLE):
                continue
            d = ext.get(t)
            if not d and any(t == '_Z%d%s' % (len(x), x) or t.startswith('_Z%d%s' % (len(x), x)) for x in (name,)):
                V(res, prop, 'linkable', 'a C++ caller of %s refers to %s, which nothing the library exports defines' % (name, t), function=name,
                  key='%s|linkable' % name, config=cname)
                continue
            if not d:
                over = sorted(k for k in ext if k.startswith('_Z%d%s' % (len(t), t)))
                V(res, prop, 'linkable', '%s is declared but nothing the library exports defines it%s' % (
                    t, ' (defined only as the C++ function %s)' % over[0] if over else ''),
                  file=ext[over[0]][0][1].file if over else 'neon_sim.h', line=ext[over[0]][0][1].line or 0 if over else 0, function=t,
                  key='%s|linkable' % t, config=cname)
                continue
            strong = [x for x in d if x[1].linkage == 'external']
            if len(strong) > 1:
                V(res, prop, 'once', '%s is defined in %s' % (t, ' and '.join(x[0] for x in strong)), file=strong[1][1].file, line=strong[1][1].line or 0,
                  function=t, key='%s|once' % t, config=cname)
            if shape(d[0][1]) != shape(wrap.fns[t]):
                V(res, prop, 'type', '%s is defined as %s but a caller passes %s' % (t, shape(d[0][1]), shape(wrap.fns[t])), file=d[0][1].file,
                  line=d[0][1].line or 0, function=t, key='%s|type' % t, config=cname)
    # definitions no declaration reaches
    for name, d in sorted(ext.items()):
        f = d[0][1]
        if f.linkage != 'external':
            continue
        m = re.match(r'_Z(\d+)(\w+)$', name)
        if m and len(m.group(2)) > int(m.group(1)):
            base = m.group(2)[:int(m.group(1))]
            if base in ACLE:
                V(res, prop, 'overload', '%s is defined with parameters no declaration matches: a C++ overload (%s) no C caller can reach' % (base, name),
                  file=f.file, line=f.line or 0, function=base, key='%s|overload' % base, config=cname)
            elif re.match(r'v[a-z]\w*_[sufp](8|16|32|64)$', base) and not (ref.get(name, set()) - {name}):
                V(res, prop, 'orphan', '%s is not declared by the header and nothing uses it' % base, file=f.file, line=f.line or 0, function=base,
                  key='%s|orphan' % base, config=cname)
    # intrinsics the library itself needs
    for name, users in sorted(ref.items()):
        if name in ACLE and name not in ext and not any(name in m.fns and not m.fns[name].decl for m in b.lib):
            V(res, prop, 'needed', '%s is called by %s but not defined' % (name, ', '.join(sorted(users)[:3])), function=name, key='%s|needed' % name,
              file='neon_sim.cpp', config=cname)
    return n, len(ext)


def C21(tier):
    res = Result()
    confs, nt = B.configs(tier == 'thorough')
    n = tot = 0
    for cname, flags in confs:
        if cname == '-O1 IR':
            continue
        try:
            b = B.build(flags=flags)
        except B.Broken as e:
            if cname == 'default':
                raise
            res.notes.append('configuration %s: %s' % (cname, str(e)[:200]))
            continue
        k, e = linkable('C21', res, b, cname)
        n += k
        tot += e
    # under the header's declarations: a definition of another type is an error or an overload
    for s in B.sources():
        r = B.sh([x for x in B.driver(s, []) if x != '-g'] + ['-fsyntax-only', '-ferror-limit=0', '-include', os.path.join(B.REPO, 'neon_sim.h'), os.path.join(B.REPO, s)])
        if r.returncode:
            for m in re.finditer(r'^(.*?):(\d+):\d+: error: (.*)$', r.stderr, re.M):
                if re.search(r'conflicting|differ only in their return|different language linkage', m.group(3)):
                    V(res, 'C21', 'type', m.group(3), file=m.group(1), line=int(m.group(2)), key='type|' + m.group(3))
    # positive example: the rules must fire on it
    d = os.path.join(DATA, 'selftest')
    r2 = Result()
    b2 = B.build([os.path.join(d, 'orphan.cpp')])
    linkable('C21', r2, b2, 'self-test')
    got = {(v['function'], v['rule']) for v in r2.viol}
    for want in (('vadd_s8', 'overload'), ('vadd_s8', 'linkable'), ('vaddd_s8', 'orphan'), ('vsub_s8', 'linkable')):
        if want not in got:
            raise B.Broken('self-test: %s not reported' % (want,))
    if n < 500:
        raise B.Broken('only %d names' % n)
    res.coverage = {'names_checked': n, 'external_definitions': tot, 'configurations': [c[0] for c in confs], 'positive_examples_matched': 4,
                    'samples': ['vadd_s8', 'vqtbl1_u8'],
                    'explanation': 'for every intrinsic implemented today: the symbol a C caller of the header refers to is exported by the library exactly once under '
                                   'that name with the same lowered type, no exported C++ overload carries the name of a declared intrinsic, no exported vector '
                                   'function is undeclared and unused'}
    return res


# ---------------------------------------------------------------- C22
_t = re.compile(r'^(u?int|float)(\d+)x(\d+)(?:x(\d))?_t$')


def types():
    out = []
    for t in json.load(open(os.path.join(DATA, 'types.json'))):
        m = _t.match(t)
        e, w, n, k = m.group(1), int(m.group(2)), int(m.group(3)), m.group(4)
        out.append((t, '%s%d_t' % (e, w), w, n, int(k) if k else None))
    return out


def c22_cpp(ts, const):
    L = ['#include "neon_sim.h"', '#include <type_traits>', '#include <cstddef>', '#include <utility>', '#include <limits>',
         '#define SA(t, what, c) static_assert(c, #t ": " what)', 'template <class T> T nsa_val();']
    n = 0
    el = sorted({(e, w) for _, e, w, _, _ in ts})
    for e, w in el:
        L.append('SA(%s, "element width", sizeof(%s) == %d);' % (e, e, w // 8))
        if e[0] == 'f':
            L.append('SA(%s, "IEEE binary%d", std::numeric_limits<%s>::is_iec559 && std::numeric_limits<%s>::digits == %d);' % (e, w, e, e, {32: 24, 64: 53}[w]))
        else:
            L.append('SA(%s, "element signedness", std::is_%ssigned<%s>::value && std::is_integral<%s>::value);' % (e, 'un' if e[0] == 'u' else '', e, e))
        n += 2
    for t, e, w, c, k in ts:
        el_ = e if k is None else t.replace('x%d_t' % k, '_t')
        cnt = c if k is None else k
        L.append('SA(%s, "size", sizeof(%s) == %d);' % (t, t, w // 8 * c * (k or 1)))
        L.append('SA(%s, "member val at offset 0", offsetof(%s, val) == 0);' % (t, t))
        L.append('SA(%s, "member val fills the type", sizeof(((%s*)0)->val) == sizeof(%s));' % (t, t, t))
        L.append('SA(%s, "element type", (std::is_same<std::remove_cv<std::remove_reference<decltype(nsa_val<%s&>().val[0])>::type>::type, %s>::value));' % (t, t, el_))
        L.append('SA(%s, "element count", sizeof(((%s*)0)->val) / sizeof(((%s*)0)->val[0]) == %d);' % (t, t, t, cnt))
        L.append('SA(%s, "writable elements", (std::is_assignable<decltype((nsa_val<%s&>().val[0])), %s>::value));' % (t, t, el_))
        L.append('SA(%s, "standard layout", std::is_standard_layout<%s>::value);' % (t, t))
        L.append('SA(%s, "trivially copyable", std::is_trivially_copyable<%s>::value);' % (t, t))
        L.append('SA(%s, "destructible and default constructible", std::is_trivially_destructible<%s>::value && std::is_default_constructible<%s>::value);' % (t, t, t))
        n += 9
        if const:
            tot = c * (k or 1)
            vals = list(range(1, tot + 1))
            ini = ', '.join(map(str, vals)) if k is None else ', '.join('{{%s}}' % ', '.join(map(str, vals[j * c:(j + 1) * c])) for j in range(k))
            ini = '{%s}' % ini if k is None else '{{%s}}' % ini
            if k is None:
                L.append('SA(%s, "initialiser i is lane i", (%s));' % (t, ' && '.join('%s%s.val[%d] == %d' % (t, ini, i, vals[i]) for i in range(c))))
            else:
                L.append('SA(%s, "initialiser (i, j) is lane j of vector i", (%s));' % (
                    t, ' && '.join('%s%s.val[%d].val[%d] == %d' % (t, ini, j, i, vals[j * c + i]) for j in range(k) for i in sorted({0, c - 1}))))
            n += 1
    names = [t[0] for t in ts]
    for a in names:
        for x in names:
            if a < x:
                L.append('SA(%s, "distinct from %s", (!std::is_same<%s, %s>::value));' % (a, x, a, x))
                n += 1
            if a != x:
                L.append('SA(%s, "no conversion from %s", (!std::is_convertible<%s, %s>::value));' % (a, x, x, a))
                n += 1
    return L, n


def c22_c(ts):
    L = ['#include "neon_sim.h"', '#include <stddef.h>', '#define SA(t, what, c) _Static_assert(c, #t ": " what)']
    n = 0
    for e, w in sorted({(e, w) for _, e, w, _, _ in ts}):
        L.append('SA(%s, "element width", sizeof(%s) == %d);' % (e, e, w // 8))
        L.append('SA(%s, "element signedness", (%s)-1 %s 0);' % (e, e, '>' if e[0] == 'u' else '<'))
        L.append('SA(%s, "element kind", ((%s)1 / 2 %s 0));' % (e, e, '!=' if e[0] == 'f' else '=='))
        n += 3
    for t, e, w, c, k in ts:
        el_ = e if k is None else t.replace('x%d_t' % k, '_t')
        L.append('SA(%s, "size", sizeof(%s) == %d);' % (t, t, w // 8 * c * (k or 1)))
        L.append('SA(%s, "member val at offset 0", offsetof(%s, val) == 0);' % (t, t))
        L.append('SA(%s, "member val fills the type", sizeof(((%s*)0)->val) == sizeof(%s));' % (t, t, t))
        L.append('SA(%s, "element type", __builtin_types_compatible_p(__typeof__(((%s*)0)->val[0]), %s));' % (t, t, el_))
        n += 4
    names = [t[0] for t in ts]
    for a, x in itertools.combinations(names, 2):
        L.append('SA(%s, "distinct from %s", !__builtin_types_compatible_p(%s, %s));' % (a, x, a, x))
        n += 1
    return L, n


def c22_neg(ts):
    """programs that must not compile: one per ordered pair"""
    L = ['#include "neon_sim.h"']
    names = [t[0] for t in ts]
    pairs = {}
    for a in names:
        L.append('void nsa_take_%s(%s x); %s nsa_give_%s(void);' % (a, a, a, a))
    for a in names:
        for x in names:
            if a != x:
                L.append('void nsa_%d(void) { nsa_take_%s(nsa_give_%s()); }' % (len(L), a, x))
                pairs[len(L)] = (x, a)
    ok = {}
    for a in names:     # and the same line with equal types must compile
        L.append('void nsa_%d(void) { nsa_take_%s(nsa_give_%s()); }' % (len(L), a, a))
        ok[len(L)] = a
    return L, pairs, ok


INIT = [  # the initialiser-list forms of the README and of C
    ('int8x8_t a = { 1, -2, 3, 4, 5, 6, 7, 8 };', 1), ('uint8x16_t a = { 0 };', 1), ('float32x4_t a = { 1.5f, 2, 3, 4 };', 1),
    ('float64x2_t a = { 1.5, 2 };', 1), ('int64x1_t a = { 1 };', 1), ('uint16x4x2_t a = { { { { 1, 2, 3, 4 } }, { { 5, 6, 7, 8 } } } };', 1),
    ('int8x8_t a = { 1, 2, 3, 4, 5, 6, 7, 8, 9 };', -2), ('int32x4_t a; int32x4_t b; b = a; a.val[3] = b.val[0];', 1),
    ('uint8_t b[4] = { 5, 6, 7, 8 }; uint16x4_t v = vld1_u16(b);', -2)]


# other data models: 32-bit long and pointers, unsigned plain char
CROSS = [('armv7-linux-gnueabihf', []), ('i386-linux-gnu', ['-msse2', '-mfpmath=sse']), ('aarch64-linux-gnu', []), ('riscv64-linux-gnu', [])]


def options(x):
    return ' '.join(o for i, o in enumerate(x) if o not in ('-nostdinc', '-nostdinc++', '-isystem') and (not i or x[i - 1] != '-isystem'))


def C22(tier):
    res = Result()
    ts = types()
    thorough = tier == 'thorough'
    jobs = []
    with Dir() as d:
        def put(n, L):
            p = os.path.join(d, n)
            with open(p, 'w') as f:
                f.write('\n'.join(L) + '\n')
            return p
        pos, npos = c22_cpp(ts, True)
        posc, nposc = c22_c(ts)
        neg, pairs, ok = c22_neg(ts)
        p1, p2, p3, p4 = put('pos.cpp', pos), put('pos.c', posc), put('neg.c', neg), put('neg.cpp', ['extern "C++" {'] and neg)
        cxxs = ['c++11', 'c++17', 'c++20', 'c++23'] + (['c++14', 'gnu++11', 'gnu++23'] if thorough else [])
        cs = ['c11', 'gnu99', 'gnu2x'] + (['c17', 'gnu11'] if thorough else [])
        for cc in ('clang++', 'g++'):
            for std in cxxs:
                if compiler(cc):
                    jobs.append(('pos', cc, std, p1, ()))
        for cc in ('clang', 'gcc'):
            for std in cs:
                if compiler(cc):
                    jobs.append(('pos', cc, std, p2, ()))
        jobs.append(('neg', 'clang', 'c11', p3, ()))
        jobs.append(('neg', 'clang++', 'c++11', p4, ()))
        for t in CROSS[:2] if not thorough else CROSS:
            x = tuple(B.cross(t[0]) + t[1])
            jobs += [('pos', 'clang++', 'c++11', p1, x), ('pos', 'clang', 'c11', p2, x)]
        if thorough:
            jobs += [('pos', 'clang++', 'c++11', p1, o) for o in (('-O2',), ('-fshort-enums',), ('-funsigned-char',), ('-DNDEBUG',), ('-ffast-math', '-O3'))]
            jobs += [('neg', 'gcc', 'c11', p3, ()), ('neg', 'clang', 'gnu2x', p3, ('-flax-vector-conversions',))]
        inits = []
        for i, (t, want) in enumerate(INIT):
            for cc, std, x in (('clang', 'c11', 'c'), ('clang++', 'c++11', 'cpp')):
                inits.append((t, want, cc, std, put('init%d.%s' % (i, x), ['#include "neon_sim.h"', 'void f(void) { %s }' % t])))
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda j: check(j[1], j[2], j[3], j[4]), jobs))
            iouts = list(ex.map(lambda j: check(j[2], j[3], j[4], ('-Werror=incompatible-pointer-types',)), inits))
        nass = nneg = 0
        for j, r in zip(jobs, outs):
            base = os.path.basename(j[3])
            er = errors(r.stderr, base)
            cfg = '%s -std=%s %s' % (j[1], j[2], options(j[4]))
            if j[0] == 'pos':
                nass += npos if j[3] == p1 else nposc
                if r.returncode and not er:
                    f, l, m = first_error(r.stderr)
                    if '--target' in cfg:       # does not compile at all there: a matter of C25
                        res.notes.append('%s: %s' % (cfg, m))
                        continue
                    raise B.Broken('%s: %s:%s: %s' % (cfg, f, l, m))
                src = pos if j[3] == p1 else posc
                for l, m in sorted(er.items()):
                    mm = re.match(r'SA\((\w+), "(.*?)",', src[l - 1])
                    V(res, 'C22', 'layout', '%s: %s' % (mm.group(1), mm.group(2)) if mm else m, function=mm.group(1) if mm else None, config=cfg,
                      key='%s|%s' % mm.groups() if mm else m, witness=m)
            else:
                nneg += len(pairs)
                bad = [l for l in ok if l in er]
                if bad or (r.returncode == 0 and pairs and not er):
                    if bad:
                        V(res, 'C22', 'usable', '%s cannot be passed by value: %s' % (ok[bad[0]], er[bad[0]]), function=ok[bad[0]], config=cfg)
                for l, (x, a) in sorted(pairs.items()):
                    if l not in er:
                        V(res, 'C22', 'distinct', 'a %s is accepted where a %s is required' % (x, a), function=a, config=cfg, key='distinct|%s|%s' % (x, a))
        for (t, want, cc, std, p), r in zip(inits, iouts):
            acc = r.returncode == 0
            if want != -2 or cc == 'clang++':      # constraint violations that C compilers merely warn about
                if acc != (want > 0):
                    V(res, 'C22', 'initialiser', '`%s` %s' % (t, 'compiles' if acc else 'does not compile: ' + first_error(r.stderr)[2]), config=cc + ' ' + std,
                      key='init|' + t)
        # dedupe over configurations
        seen, out = set(), []
        for v in res.viol:
            if v['key'] not in seen:
                seen.add(v['key'])
                out.append(v)
        res.viol = out
        # positive example: the assertions must fail on a header that breaks them
        h = os.path.join(d, 'neon_sim.h')
        t = open(os.path.join(DATA, 'selftest', 'types.h')).read()
        with open(h, 'w') as f:
            f.write(t)
        bad = [('int8x8_t', 'int8_t', 8, 8, None), ('uint8x8_t', 'uint8_t', 8, 8, None)]
        q, _ = c22_cpp(bad, True)
        qn, prs, _ = c22_neg(bad)
        r1 = B.sh([compiler('clang++'), '-std=c++11', '-fsyntax-only', '-ferror-limit=0', '-I', d, put('self.cpp', q)])
        r2 = B.sh([compiler('clang'), '-std=c11', '-fsyntax-only', '-ferror-limit=0', '-I', d, put('self.c', qn)])
        if len(errors(r1.stderr, 'self.cpp')) < 3 or any(l in errors(r2.stderr, 'self.c') for l in prs):
            raise B.Broken('self-test of the layout assertions: ' + r1.stderr[:500] + r2.stderr[:500])
        res.coverage = {'types': len(ts), 'assertions': nass, 'programs_that_must_not_compile': nneg, 'initialiser_forms': len(inits), 'compilations': len(jobs) + len(inits),
                        'positive_examples_matched': 2, 'configurations': ['%s %s %s' % (j[1], j[2], ' '.join(j[4])) for j in jobs],
                        'samples': [pos[40], posc[40], neg[200]],
                        'explanation': 'every size, layout, element-type, distinctness and conversion fact is a static assertion or a one-line program that must be rejected, '
                                       'decided by the type checkers of clang and gcc in C and C++'}
    return res


# ---------------------------------------------------------------- C23
def c23(cpp):
    L = ['#include "neon_sim.h"']
    if cpp:
        L += ['#include <type_traits>', 'template <class T> T nsa_v();', '#ifdef __cpp_noexcept_function_type', '#define NSA_OR(...) || __VA_ARGS__', '#else', '#define NSA_OR(...)', '#endif']
    where = {}
    for n in sorted(ACLE):
        r, ps = ACLE[n][0], ACLE[n][1:]
        pl = ', '.join(p.replace('const int', 'int') if p == 'const int' else p for p in ps) or 'void'
        L.append('#ifdef %s' % n)
        if cpp:
            L.append('static_assert(std::is_same<decltype(%s(%s)), %s>::value, "%s");' % (n, ', '.join('1' if p == 'const int' else 'nsa_v<%s>()' % p for p in ps), r, n))
        else:
            L.append('void nsa_m_%s(%s);' % (n, pl))
        where[len(L)] = n
        L.append('#else')
        if cpp:
            # since C++17 noexcept is part of the type; a pointer to such a function converts
            L.append('static_assert(std::is_same<decltype(&%s), %s (*)(%s)>::value NSA_OR(std::is_same<decltype(&%s), %s (*)(%s) noexcept>::value), "%s");' % (n, r, pl, n, r, pl, n))
        else:
            # gcc: the const attribute is a qualifier of the function's type
            L.append('typedef %s (*nsa_t_%s)(%s); typedef %s (*nsa_c_%s)(%s) __attribute__((const)); _Static_assert(__builtin_types_compatible_p(__typeof__(&%s), nsa_t_%s) || '
                     '__builtin_types_compatible_p(__typeof__(&%s), nsa_c_%s), "%s");' % (r, n, pl, r, n, pl, n, n, n, n, n))
        where[len(L)] = n
        L.append('#endif')
    return L, where


def C23(tier):
    res = Result()
    impl = set(json.load(open(os.path.join(DATA, 'api.json'))))
    thorough = tier == 'thorough'
    n, missing = 0, set()
    confs = [('clang++', 'c++11', 1), ('clang', 'c11', 0), ('g++', 'c++17', 1), ('gcc', 'c17', 0), ('clang++', 'c++20', 1), ('clang', 'gnu99', 0), ('g++', 'c++23', 1),
             ('gcc', 'gnu2x', 0)] + [(c, s, i, tuple(B.cross(t) + x)) for t, x in CROSS[:2 if not thorough else None] for c, s, i in (('clang++', 'c++11', 1), ('clang', 'c11', 0))] + ([('g++', 'c++11', 1), ('clang++', 'c++14', 1), ('clang++', 'gnu++23', 1), ('gcc', 'gnu99', 0)] if thorough else [])
    with Dir() as d:
        srcs = {}
        for cpp in (0, 1):
            L, where = c23(cpp)
            p = os.path.join(d, 'sig.c' + 'pp' * cpp)
            with open(p, 'w') as f:
                f.write('\n'.join(L) + '\n')
            srcs[cpp] = p, where
        confs = [(c + ((),))[:4] for c in confs if compiler(c[0])]
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda c: check(c[0], c[1], srcs[c[2]][0], c[3]), confs))
        for (cc, std, cpp, xtra), r in zip(confs, outs):
            p, where = srcs[cpp]
            er = errors(r.stderr, os.path.basename(p))
            if r.returncode and not er:
                if xtra:
                    res.notes.append('%s -std=%s %s: %s' % (cc, std, options(xtra), first_error(r.stderr)[2]))
                    continue
                raise B.Broken('%s -std=%s: %s:%s: %s' % ((cc, std) + first_error(r.stderr)))
            n += len(ACLE)
            for l, m in sorted(er.items()):
                f = where.get(l)
                if f is None:
                    continue
                if re.search(r'undeclared|not declared', m):
                    missing.add(f)
                    if f not in impl:
                        continue        # a declaration without implementation was withdrawn: nothing a caller could link
                V(res, 'C23', 'signature', '%s does not have the type %s(%s): %s' % (f, ACLE[f][0], ', '.join(ACLE[f][1:]), m), function=f, config='%s -std=%s %s' % (cc, std, options(xtra)),
                  key='%s|signature' % f)
        seen, out = set(), []
        for v in res.viol:
            if v['key'] not in seen:
                seen.add(v['key'])
                out.append(v)
        res.viol = out
        if len(missing - impl) > 0.1 * len(ACLE):
            raise B.Broken('%d declarations are gone' % len(missing))
        # positive example
        h = os.path.join(d, 'neon_sim.h')
        with open(h, 'w') as f:
            f.write('#include "%s"\n#define vadd_s8 nsa_other\nextern "C" int16x4_t nsa_other(int8x8_t, int8x8_t);\n' % os.path.join(B.REPO, 'neon_sim.h'))
            f.write('#undef vadd_s8\nnamespace nsa { extern "C" { int8x8_t vsub_s8(uint8x8_t, int8x8_t); } }\n')
        q = os.path.join(d, 'self.cpp')
        with open(q, 'w') as f:
            f.write('#include "%s"\n#include <type_traits>\nint8x8_t nsa_x(int8x8_t, uint8x8_t);\n'
                    'static_assert(std::is_same<decltype(&nsa_x), int8x8_t (*)(int8x8_t, int8x8_t)>::value, "x");\n' % os.path.join(B.REPO, 'neon_sim.h'))
        if 4 not in errors(check('clang++', 'c++11', q).stderr, 'self.cpp'):
            raise B.Broken('self-test of the signature assertions')
    # names the header declares beyond the table
    res.notes.append('declarations withdrawn: %s' % sorted(missing - impl)[:20])
    res.coverage = {'signatures_checked': n, 'declarations': len(ACLE), 'compilations': len(confs), 'positive_examples_matched': 1,
                    'configurations': [('%s -std=%s %s' % (c[0], c[1], options(c[3]))).strip() for c in confs], 'samples': [{k: ACLE[k]} for k in ('vaddq_s32', 'vld4q_lane_u16', 'vshrn_n_s32')],
                    'explanation': 'for every declared intrinsic the type of the declared function is compared with the ACLE signature table (data/acle.json, itself compared with '
                                   'clang\'s arm_neon.h for aarch64) by a static assertion in C and C++'}
    return res


# ---------------------------------------------------------------- C24
CSTD = 'assert ctype errno fenv float inttypes iso646 limits locale math setjmp signal stdarg stdbool stddef stdint stdio stdlib string time wchar wctype complex'.split()
XSTD = ('cassert cctype cerrno cfloat climits clocale cmath csetjmp csignal cstdarg cstddef cstdio cstdlib cstring ctime cwchar cwctype algorithm bitset complex deque '
        'exception functional iomanip ios iosfwd iostream istream iterator limits list locale map memory new numeric ostream queue set sstream stack stdexcept streambuf string '
        'typeinfo utility valarray vector').split()


def standard(x):
    return ''.join('#include <%s.h>\n' % h for h in CSTD if x == 'c' or h not in ('iso646', 'complex')) + (''.join('#include <%s>\n' % h for h in XSTD) if x == 'cpp' else '')


def macros(cc, std, path, inc):
    r = B.sh([compiler(cc), '-std=' + std, '-w', '-dM', '-E', '-I', inc, path])
    if r.returncode:
        return None
    out = {}
    for l in r.stdout.split('\n'):
        m = re.match(r'#define (\w+)(.*)$', l)
        if m:
            out[m.group(1)] = m.group(2).strip()
    return out


PROBE = r"""
#line 1 "nsa_probe"
struct nsa_p { char c; long double l; double d; char e; short s; int i; unsigned b : 3; };
int nsa_pub = 1;
int nsa_ext(int);
int nsa_f1(struct nsa_p *x) { return x->i + (int)x->b; }
double nsa_f2(double a, double b, double c) { return a * b + c; }
float nsa_f3(float a, float b) { return a / b - (a - b); }
int nsa_f4(int a, long b) { return a + 1 < a ? (int)(b >> 1) : a; }
int nsa_f5(int a) { return nsa_ext(a) + (int)strlen("abc") + INT_MAX + (int)UINT8_MAX; }
double nsa_f6(double x) { return sqrt(x) + fabs(x) + floor(x) + HUGE_VAL; }
int nsa_f7(int x) { assert(x > 0); errno = EINVAL; return x; }
int nsa_f8(char c, signed char s, unsigned char u) { return (c >> 1) + s + u; }
size_t nsa_f9(void) { return sizeof(long) + sizeof(wchar_t) + offsetof(struct nsa_p, d) + sizeof(int64_t); }
void *nsa_f10(void *p) { return p == NULL ? malloc(3) : memcpy(p, "ab", 3); }
int nsa_f11(int n) { int i, r = 0; for (i = 0; i < n; i++) { switch (i) { case 1: r++; break; default: r += 2; } if (r > 5) continue; else do r--; while (r > 9); } return r; }
static int nsa_s1(int a) { return a * 3; }
int nsa_f12(int a) { return nsa_s1(a) + abs(a); }
int nsa_f13(float *p, int *q) { *q = 1; *p = 2; return *q; }
"""
PROBEX = r"""
template <class T> T nsa_t1(T a) { return a + 1; }
struct nsa_b { virtual ~nsa_b() {} virtual int f(int) = 0; bool ok; protected: int v; };
struct nsa_d : nsa_b { int f(int a) { if (a < 0) throw std::runtime_error("x"); return a; } };
int nsa_g1(int a) { try { nsa_d d; return d.f(a); } catch (const std::exception &) { return -1; } }
double nsa_g2(double a) { return std::max(std::abs(a), std::sqrt(a)) + nsa_t1(a); }
int nsa_g3(int *p) { return std::numeric_limits<int>::max() - p[0] + (int)true; }
namespace nsa { int f(int a) { return a; } int f(double) { return 2; } }
int nsa_g4() { return nsa::f(1) + nsa::f(1.5); }
"""


def meaning(cc, std, x, d, i, inc=None):
    """what follows the header keeps its meaning -> [(key, text)], number of comparisons"""
    inc = inc or B.REPO
    out = []
    names = {}
    head = standard(x)
    for k, t in (('base', head), ('after', head + '#include "neon_sim.h"\n'), ('before', '#include "neon_sim.h"\n' + head)):
        p = os.path.join(d, 'm%d%s.%s' % (i, k, x))
        with open(p, 'w') as f:
            f.write(t)
        names[k] = macros(cc, std, p, inc)
    if names['base'] is None:
        return [], 0
    n = 0
    base = names['base']
    own = {}
    for k in ('after', 'before'):
        ms = names[k]
        if ms is None:
            continue       # reported by the inclusion forms
        for m in sorted(base):
            n += 1
            if m.startswith('_') and not m.startswith('__STDC') and m != '__cplusplus':
                continue
            if k == 'before' and m not in ms:
                continue       # which extensions a C library shows may depend on the order of its headers
            if ms.get(m) != base[m]:
                out.append(('macro|' + m, 'the macro %s of the standard headers is %s once neon_sim.h is included' % (m, 'gone' if m not in ms else 'redefined as %r' % ms[m][:40])))
    if names['after'] is not None:
        own = {m for m in names['after'] if m not in base and not m.startswith('_')}
        if own:
            r = B.sh([compiler(cc), '-std=' + std, '-w', '-E', '-P', os.path.join(d, 'm%dbase.%s' % (i, x))])
            ids = set(re.findall(r'\b[a-zA-Z]\w*', re.sub(r'"(?:\\.|[^"\\])*"', '', r.stdout)))
            for m in sorted(own & ids):
                out.append(('hides|' + m, 'neon_sim.h defines a macro %s, which hides the standard name' % m))
        n += len(own)
    txt = {}
    for k, one in (('base', ''), ('after', '#include "neon_sim.h"\n')):
        p, o = os.path.join(d, 'p%d%s.%s' % (i, k, x)), os.path.join(d, 'p%d%s.s' % (i, k))
        with open(p, 'w') as f:
            f.write(head + one + PROBE + (PROBEX if x == 'cpp' else ''))
        cl = cc.startswith('clang')
        r = B.sh([compiler(cc), '-std=' + std, '-w', '-O1', '-I', inc, '-S', p, '-o', o] +
                 (['-emit-llvm', '-Xclang', '-disable-llvm-passes'] if cl else ['-fno-asynchronous-unwind-tables', '-fno-ident', '-fno-exceptions' if x == 'c' else '-w']))
        if r.returncode:
            txt[k] = None
            if k == 'after' and txt['base'] is not None and names['after'] is not None:
                f, l, m = first_error(r.stderr)
                out.append(('probe|' + m, 'a program that compiles without neon_sim.h does not compile after it: %s' % m))
            continue
        t = open(o).read()
        seen = {}
        if cl:
            t = re.sub(r'^(; ModuleID|source_filename).*$', '', t, flags=re.M)
        else:
            t = re.sub(r'^\s*\.file.*$', '', t, flags=re.M)
            t = re.sub(r'\.L[A-Z]*\d+', lambda m: seen.setdefault(m.group(), '.L%d' % len(seen)), t)
        txt[k] = t
    n += 1
    if txt['base'] is not None and txt['after'] is not None and txt['base'] != txt['after']:
        w = ''
        fn = '?'
        for p, q in zip(txt['base'].split('\n'), txt['after'].split('\n')):
            if p != q:
                w = '%s / %s' % (p.strip()[:70], q.strip()[:70])
                break
        out.append(('probe', 'the same program means something else after neon_sim.h: %s' % w))
    return out, n


def C24(tier):
    res = Result()
    thorough = tier == 'thorough'
    cfgs = []
    cs = ['c99', 'c11', 'gnu17', 'c2x'] + (['gnu99', 'gnu11', 'c17', 'gnu90'] if thorough else [])
    xs = ['c++98', 'c++11', 'c++14', 'c++17', 'c++20', 'c++23'] + (['gnu++98', 'gnu++11', 'gnu++17', 'gnu++20'] if thorough else [])
    for cc in ('clang', 'gcc'):
        cfgs += [(cc, s, 'c') for s in cs]
    for cc in ('clang++', 'g++'):
        cfgs += [(cc, s, 'cpp') for s in xs]
    cfgs = [c for c in cfgs if compiler(c[0])]
    forms = {
        'alone': '#include "neon_sim.h"\nint nsa_x;\n',
        'twice': '#include "neon_sim.h"\n#include "neon_sim.h"\nint8x8_t nsa_f(int8x8_t a) { return a; }\n',
        'before the standard headers': '#include "neon_sim.h"\n#include <stdint.h>\n#include <string.h>\n#include <math.h>\n#include <stdlib.h>\n#include <stdio.h>\n',
        'after the standard headers': '#include <stdint.h>\n#include <string.h>\n#include <math.h>\n#include <stdlib.h>\n#include <stdio.h>\n#include "neon_sim.h"\n',
        'feature macros': '#include "neon_sim.h"\n#if !__ARM_NEON\n#error __ARM_NEON is not set\n#endif\n#ifndef __ARM_NEON\n#error\n#endif\n',
        'element types': '#include "neon_sim.h"\nfloat32_t nsa_a = 1; float64_t nsa_b = 1; int8_t nsa_c; uint64_t nsa_d;\n',
    }
    # what follows the header keeps its meaning
    words = ('alignas alignof auto bool break case char class const continue default delete do double else enum explicit export extern float for friend goto if inline int long '
             'namespace new operator private protected public register return short signed sizeof static struct switch template this throw try typedef union '
             'unsigned using virtual void volatile while abs min max swap round floor ceil fabs sqrt memcpy memset malloc free printf exit abort NDEBUG DEBUG').split()
    forms['keywords and standard names stay'] = '#include "neon_sim.h"\n' + ''.join(
        '#ifdef %s\n#error %s is a macro\n#endif\n' % (x, x) for x in words if x not in ('bool', 'alignas', 'alignof', 'inline'))
    forms['packing stays'] = ('struct nsa_p { char c; double d; char e; int i; short s; }; struct nsa_r { char c; long double l; char d; int w __attribute__((aligned(32))); };\n'
                              '#include "neon_sim.h"\nstruct nsa_q { char c; double d; char e; int i; short s; }; struct nsa_s { char c; long double l; char d; int w __attribute__((aligned(32))); };\n'
                              'typedef char nsa_a[sizeof(struct nsa_p) == sizeof(struct nsa_q) ? 1 : -1];\n'
                              'typedef char nsa_b[sizeof(struct nsa_r) == sizeof(struct nsa_s) ? 1 : -1];\n')
    cpponly = {
        'visibility and conversions stay': '#include "neon_sim.h"\nint nsa_f(long double); int nsa_f(const char *);\nint nsa_g(int a) { return a; }\n'
                                           'extern "C++" { template <class T> T nsa_h(T a) { return a; } int nsa_h2(int); int nsa_h2(long); }\n'
                                           'template <class T> struct nsa_t { T v; };\nnamespace nsa { int f(int); int f(double); }\n',
        'names of the program stay': '#include <algorithm>\n#include <vector>\n#include <string>\n#include <functional>\n#include <iterator>\n#include <list>\n#include "neon_sim.h"\n'
                                     'static int count = 1; struct vector { int x; vector *next; }; struct string { vector v; }; static int distance(vector *a, vector *b) { return count + a->x + b->x; }\n'
                                     'enum list { array, left, fixed }; static int plus(int a) { return a + left; } int nsa_f(vector *a, string *b) { return distance(a, &b->v) + plus(count); }\n',
        'before the C++ headers': '#include "neon_sim.h"\n#include <cmath>\n#include <vector>\n#include <string>\n#include <algorithm>\n#include <iostream>\n',
        'after the C++ headers': '#include <cmath>\n#include <vector>\n#include <string>\n#include <algorithm>\n#include <iostream>\n#include "neon_sim.h"\n',
    }
    jobs = []
    with Dir() as d:
        for x in ('c', 'cpp'):
            for i, (k, t) in enumerate(list(forms.items()) + (list(cpponly.items()) if x == 'cpp' else [])):
                p = os.path.join(d, 'f%d.%s' % (i, x))
                with open(p, 'w') as f:
                    f.write(t)
                jobs += [(k, c, p) for c in cfgs if c[2] == x]
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda j: B.sh([compiler(j[1][0]), '-std=' + j[1][1], '-fsyntax-only', '-w', '-I', B.REPO, j[2]]), jobs))
        seen = set()
        bad = 0
        for (k, c, p), r in zip(jobs, outs):
            if r.returncode:
                f, l, m = first_error(r.stderr)
                bad += 1
                if (k, m) not in seen:
                    seen.add((k, m))
                    V(res, 'C24', 'self-contained', 'the header does not compile (%s; %s -std=%s): %s' % (k, c[0], c[1], m), file=f, line=l, key='self|%s|%s' % (k, m))
        # the same words mean the same before and after
        mc = [(i, c) for i, c in enumerate(cfgs) if thorough or c[1] in ('c11', 'c++11', 'c++20')]
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda t: meaning(t[1][0], t[1][1], t[1][2], d, t[0]), mc))
        nmean = 0
        for (i, c), (vs, n) in zip(mc, outs):
            nmean += n
            for k, m in vs:
                if k not in seen:
                    seen.add(k)
                    V(res, 'C24', 'meaning', '%s (%s -std=%s)' % (m, c[0], c[1]), key='meaning|' + k)
        if nmean < 400 * len(mc):
            raise B.Broken('only %d names compared' % nmean)
        # what an object file that only includes the header defines
        nsym = 0
        only = [(c[2], c[0], c[1]) for c in cfgs if c[0].startswith('clang')]
        for i, (x, cc, std) in enumerate(only):
            p, o = os.path.join(d, 'only%d.%s' % (i, x)), os.path.join(d, 'only%d.bc' % i)
            with open(p, 'w') as f:
                f.write('#include "neon_sim.h"\n')
            r = B.sh([compiler(cc), '-std=' + std, '-w', '-O0', '-g', '-I', B.REPO, '-c', '-emit-llvm', p, '-o', o])
            if r.returncode:
                continue
            m = Module(o)
            for f in m.fns.values():
                nsym += 1
                if not f.decl and (f.linkage in ('external', 'common') or f.name.startswith(('_GLOBAL__', '__cxx_global'))):
                    V(res, 'C24', 'definition-free', 'a file that only includes the header defines %s: two such files do not link' % f.name, file=f.file, line=f.line or 0,
                      function=f.name, key='def|' + f.name)
            for g in m.globs.values():
                nsym += 1
                if g.init is not None and g.linkage in ('external', 'common') and not g.name.startswith('llvm.'):
                    V(res, 'C24', 'definition-free', 'a file that only includes the header defines the object %s' % g.name, key='def|' + g.name)
        # declarations have C linkage for a C++ caller
        p, o = os.path.join(d, 'link.cpp'), os.path.join(d, 'link.bc')
        names = sorted(ACLE)
        for turn in (1, 2):
            L = ['#include "neon_sim.h"', 'void *nsa_t[] = {']
            where = {}
            for n in names:
                L += ['#ifndef %s' % n, '(void*)&%s,' % n, '#endif']
                where[len(L) - 1] = n
            with open(p, 'w') as f:
                f.write('\n'.join(L) + '\n};\n')
            r = B.sh([compiler('clang++'), '-std=gnu++11', '-w', '-O0', '-ferror-limit=0', '-I', B.REPO, '-c', '-emit-llvm', p, '-o', o])
            if r.returncode == 0:
                break
            gone = {where[l] for l in errors(r.stderr, 'link.cpp') if l in where}
            names = [n for n in names if n not in gone]
        if r.returncode == 0:
            m = Module(o)
            for f in m.fns.values():
                mm = re.match(r'_Z(\d+)(v\w+)$', f.name)
                if f.decl and mm and mm.group(2)[:int(mm.group(1))] in ACLE:
                    V(res, 'C24', 'C linkage', '%s is declared with C++ linkage' % mm.group(2)[:int(mm.group(1))], key='linkage|' + f.name)
            nsym += len(m.fns)
        # positive example
        q, o = os.path.join(d, 'self.cpp'), os.path.join(d, 'self.bc')
        with open(q, 'w') as f:
            f.write('int nsa_counter; int nsa_f() { return 1; }\n')
        B.sh([compiler('clang++'), '-O0', '-c', '-emit-llvm', q, '-o', o])
        m = Module(o)
        if not any(not f.decl and f.linkage == 'external' for f in m.fns.values()) or not any(g.init is not None and g.linkage == 'external' for g in m.globs.values()):
            raise B.Broken('self-test of the symbol rule')
        e = os.path.join(d, 'meaning')
        os.mkdir(e)
        with open(os.path.join(e, 'neon_sim.h'), 'w') as f:
            f.write('#undef INT_MAX\n#define INT_MAX 1\n#define swap(a) a\n#pragma GCC visibility push(hidden)\n')
        ks = {k for k, m in meaning('clang++', 'c++11', 'cpp', e, 0, e)[0]}
        if not {'macro|INT_MAX', 'hides|swap', 'probe'} <= ks:
            raise B.Broken('self-test of the comparison of meanings')
        if len(jobs) < 40:
            raise B.Broken('only %d compilations' % len(jobs))
    res.coverage = {'compilations': len(jobs), 'symbols_inspected': nsym, 'inclusion_forms': len(forms) + len(cpponly), 'names_and_probes_compared': nmean, 'positive_examples_matched': 5,
                    'configurations': ['%s -std=%s' % c[:2] for c in cfgs], 'samples': sorted(forms)[:3],
                    'explanation': 'the header alone is type-checked in every inclusion form, language level and compiler, and the symbols of an object that only includes it are listed'}
    return res
