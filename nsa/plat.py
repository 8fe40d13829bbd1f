"""C25: the same results on every platform, compiler, language level and build mode. The whole analysis (C01 - C20) is repeated
on the IR of the default configuration, of every other build configuration whose text differs, and of other targets."""
import os
import time
from concurrent.futures import ThreadPoolExecutor
from . import build as B, driver as D
from .main import Result, EXPECT, TRUST, ASSUME, cross as shared
from .api import compiler, first_error

ALL = {'C%02d' % i for i in range(1, 21)}
# data models: width of long and of a pointer, signedness of plain char, calling conventions
TARGETS = [
    ('32-bit Arm: 32-bit long, unsigned char', 'armv7-linux-gnueabihf', []),
    ('AArch64: unsigned char', 'aarch64-linux-gnu', []),
    ('32-bit x86: 32-bit long, signed char, 4-byte aligned 64-bit types', 'i386-linux-gnu', ['-msse2', '-mfpmath=sse']),
]
MORE = [
    ('RISC-V 64', 'riscv64-linux-gnu', []),
    ('MIPS 32 little-endian', 'mipsel-linux-gnu', []),
    ('PowerPC 64 little-endian', 'powerpc64le-linux-gnu', []),
]
LEVELS = [(c, s) for c in ('clang++', 'g++') for s in ('c++11', 'gnu++11', 'c++14', 'c++17', 'gnu++17', 'c++20', 'c++23')]


def survey(flags, t0, total, limit, cname, srcs=None):
    """-> (violations {key: dict}, undecided {key: dict}, instances, obligations, steps)"""
    from .interp import Interp
    b = B.build(srcs, flags=flags)
    I = Interp(b.mods)
    names = sorted(n for n in b.wrapped if n in b.defined)
    viol, unk = {}, {}
    inst = obl = steps = 0
    gw, gr = {}, {}
    for r in D.run(I, names, ALL, limit, t0 + total):
        inst += r.instances
        steps += r.steps
        obl += sum(r.proved.values())
        for f in r.f:
            d = dict(property='C25', file=f.file, line=f.line, function=f.fn, intrinsic=f.name, rule=f.rule, text='%s: %s' % (f.prop, f.text), witness=f.witness,
                     config=cname, key='%s|%s|%s' % (f.name, f.rule, f.text))
            # one report per intrinsic and property
            (viol if f.kind == 'violation' else unk).setdefault((f.name, f.prop), d)
        for g, w in r.gwrites.items():
            gw.setdefault(g, (r.name, w))
        for g, w in r.greads.items():
            gr.setdefault(g, {})[r.name] = w
    res = Result()
    shared(res, b, gr, gw, cname)
    for v in res.viol:
        v = dict(v, property='C25', text='C19: ' + v['text'])
        viol.setdefault((v['intrinsic'], 'C19'), v)
    return viol, unk, inst, obl, steps, set(names) if b.only is None else None


def selftest():
    src = [os.path.join(D.HERE, 'data', 'selftest', 'platform.cpp')]
    t0 = time.time()
    base = survey((), t0, 100, 50, 'default', src)[0]
    n = 0
    for name, triple, extra in TARGETS[:1]:
        v = survey(tuple(extra + B.cross(triple)), t0, 100, 50, name, src)[0]
        for k in (('vaddl_high_u32', 'C07'), ('vmovl_s8', 'C07'), ('vshrn_n_u64', 'C18')):
            if k in base or k not in v:
                raise B.Broken('self-test of the platforms: %s in %s' % (k, sorted(v)))
            n += 1
    return n


def levels():
    """(compiler, level, source, error) for each compilation of the library that fails"""
    jobs = [(c, s, f) for c, s in LEVELS if compiler(c) for f in B.sources() if not f.endswith('.c')]

    def one(j):
        c, s, f = j
        opt = [x for x in B.target()[1] if not x.startswith('-std')]
        return B.sh([compiler(c), '-std=' + s] + opt + ['-fsyntax-only', '-w', '-O2', '-I', B.REPO, os.path.join(B.REPO, f)])
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, jobs))
    return [(c, s, f, r.stderr) for (c, s, f), r in zip(jobs, outs) if r.returncode], len(jobs)


def C25(tier):
    res = Result()
    t0 = time.time()
    thorough = tier == 'thorough'
    limit, total = (600, 3 * 3600) if thorough else (60, 700)
    pos = selftest()
    bad, ncomp = levels()
    seen = set()
    for c, s, f, err in bad:
        file, line, msg = first_error(err)
        if msg not in seen:
            seen.add(msg)
            res.viol.append(dict(property='C25', file=file, line=line, function=None, rule='compiles', text='%s does not compile with %s -std=%s: %s' % (f, c, s, msg),
                                 witness=None, config='default', key='compiles|%s|%s' % (f, msg)))
    confs, ntexts = B.configs(thorough)
    confs = [c for c in confs if c[0] != '-O1 IR']
    todo = confs[1:] + [(n, list(x) + B.cross(t)) for n, t, x in TARGETS + (MORE if thorough else [])]
    try:
        bv, bu, n0, obl, steps, names = survey(confs[0][1], t0, total, limit, 'default')
    except B.Broken:
        raise
    inst = n0
    done = []
    res.viol += [d for k, d in sorted(bv.items())]
    res.unknown += [d for k, d in sorted(bu.items())]
    for name, flags in todo:
        iscross = any(f.startswith('--target') for f in flags)
        try:
            v, u, n, o, s, ns = survey(tuple(flags), t0, total, limit, name)
        except B.Broken as e:
            file, line, msg = first_error(str(e))
            own = file is not None and os.path.realpath(file).startswith(os.path.realpath(B.REPO) + os.sep)
            if '__int128' in msg:       # an extension of the 64-bit targets: the property says nothing about the others then
                res.unknown.append(dict(property='C25', file=file, line=line, rule='compiles', text='not analysed for %s: %s' % (name, msg), intrinsic=None, config=name))
            elif not (flags and flags[0] == '@gcc' or name[:3] in ('-D ', '-U ')) and own or 'only meant to be used on' in str(e):
                if msg not in seen:
                    seen.add(msg)
                    res.viol.append(dict(property='C25', file=file, line=line, function=None, rule='compiles', text='the library does not compile for %s: %s' % (name, msg),
                                         witness=None, config=name, key='compiles|%s' % msg))
            else:
                res.unknown.append(dict(property='C25', file=file, line=line, rule='compiles', text='not compiled for %s: %s' % (name, msg), intrinsic=None, config=name))
            continue
        done.append(name)
        inst += n
        obl += o
        steps += s
        for k, d in sorted(v.items()):
            if k not in bv and k not in bu:
                res.viol.append(d)
        for k, d in sorted(u.items()):
            if k not in bu and k not in bv and k not in v:
                res.unknown.append(d)
        for x in sorted(names - ns if ns is not None else ()):
            res.viol.append(dict(property='C25', file='neon_sim.cpp', line=0, function=x, rule='present', text='%s is not defined in this configuration' % x, witness=None,
                                 config=name, key='present|%s' % x))
    if n0 < 0.9 * EXPECT['C02'] and not res.viol and not bv and not bu:
        raise B.Broken('only %d instances analysed, %d confirmed' % (n0, EXPECT['C02']))
    if not done and not res.viol:
        raise B.Broken('no other platform could be analysed')
    res.coverage = {'intrinsics': len(names), 'instances': inst, 'ir_steps': steps, 'obligations_and_comparisons': obl, 'configurations': ['default'] + done,
                    'configurations_compared': ntexts, 'compilations': ncomp, 'positive_examples_matched': pos, 'undecided': len(res.unknown),
                    'programs': inst, 'disagreements_checked': obl,
                    'samples': [{'configuration': n, 'intrinsics': len(names)} for n in done[:3]]}
    res.assumptions = ASSUME
    return res
