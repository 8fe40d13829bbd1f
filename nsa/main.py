"""Verdict, evidence and exit status of one check."""
import json
import os
import sys
import time
import traceback
from . import build as B, driver as D

HERE = D.HERE
LEVEL = {'C02': 'proof', 'C03': 'proof', 'C17': 'proof', 'C18': 'proof', 'C20': 'proof',
         'C19': 'other', 'C21': 'other', 'C22': 'other', 'C23': 'other', 'C24': 'other'}
# analysed instances (function x immediate) confirmed on the tree the properties were read from: fewer than 90% of
# them means that the analysis has lost its subject
EXPECT = json.load(open(os.path.join(HERE, 'data', 'expect.json')))

TRUST = ['clang 18 front end (C++ to LLVM IR, no pass run)', 'LLVM IR semantics as written in nsa/interp.py', 'normal forms of nsa/terms.py, nsa/prove.py, nsa/bdd.py (checked by nsa/selfcheck.py)',
         'specification tables of nsa/spec.py (Arm ACLE)', 'models of libc/libm/libstdc++ functions in nsa/lib.py']
ASSUME = ['default floating-point environment (round to nearest, no flush to zero), no contraction, binary32/binary64 arithmetic without excess precision',
          'little-endian target, 8-bit bytes, two\'s complement; a left shift of a negative value is its two\'s complement shift',
          'pointer arguments address exactly the elements the intrinsic accesses, aligned for the element type',
          'NaN results are compared up to payload and sign']


class Result:
    def __init__(self):
        self.viol = []          # dicts: prop, file, line, function, rule, text, witness, config
        self.unknown = []
        self.coverage = {}
        self.assumptions = []
        self.notes = []


def known():
    """{(property, key)} of the findings recorded and not repaired"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p):
        l = l.strip()
        if l.startswith('finding:'):
            d = l[8:].strip()
            prop = d.split()[0].split('=')[1]
            key = d.split(' key=', 1)[1].split(' -- ')[0].strip()
            out[(prop, key)] = d.split(' -- ', 1)[1] if ' -- ' in d else key
    return out


def graph(prop, tier):
    """properties decided on the value graphs"""
    res = Result()
    t0 = time.time()
    thorough = tier == 'thorough'
    pos = D.selftest(prop)
    confs, ntexts = B.configs(thorough)
    limit = 900 if thorough else 100
    total = 3 * 3600 if thorough else 700
    inst = cases = steps = 0
    fns, visited, samples, obl = set(), set(), [], 0
    skipped = []
    for cname, flags in confs:
        gw, gr, soft = {}, {}, {}
        if cname == '-O1 IR' and prop in ('C02', 'C03', 'C18'):
            continue            # optimised code speculates: its intermediate operations are not those of the source
        try:
            b = B.build(flags=flags)
        except B.Broken as e:
            if cname == 'default':
                raise
            res.notes.append('configuration %s: %s' % (cname, str(e)[:200]))
            continue
        from .interp import Interp
        I = Interp(b.mods)
        names = D.relevant(prop, b)
        skipped = sorted(n for n in b.defined if n in D.ACLE and D.spec(n) is None)
        reps = D.run(I, names, {prop}, limit, t0 + total)
        for r in sorted(reps, key=lambda r: r.name):
            inst += r.instances
            cases += r.cases
            steps += r.steps
            obl += r.proved.get(prop, 0)
            if r.instances:
                fns.add(r.name)
            visited |= r.visited
            seen = set()
            for f in r.f:
                if f.prop != prop:
                    continue
                k = (f.rule, f.kind, f.text)
                if k in seen:
                    continue
                seen.add(k)
                obl += 1
                (res.viol if f.kind == 'violation' else res.unknown).append(
                    dict(property=prop, file=f.file, line=f.line, function=f.fn, intrinsic=f.name, rule=f.rule, text=f.text, witness=f.witness,
                         config=cname, key='%s|%s|%s' % (f.name, f.rule, f.text)))
            for g, w in r.gwrites.items():
                gw.setdefault(g, (r.name, w))
            for g, w in r.greads.items():
                gr.setdefault(g, {})[r.name] = w
            for (g, wr), w in r.soft.items():
                soft.setdefault(g, ({}, {}))[wr][r.name] = w
                if wr:
                    gw.setdefault(g, (r.name, w))
        if prop == 'C19':
            cross(res, b, gr, gw, cname)
            later(res, I, soft, {r.name: r.anyhistory for r in reps}, reps, cname)
        if cname == 'default':
            n0 = inst
            for r in sorted(reps, key=lambda r: (-r.proved.get(prop, 0), r.name))[:4]:
                samples.append({'intrinsic': r.name, 'file': getattr(b.defined[r.name], 'file', None), 'line': getattr(b.defined[r.name], 'line', None),
                                'instances': r.instances, 'discharged': r.proved.get(prop, 0), 'cases': r.cases})
    need = EXPECT.get(prop, 1)
    und = 0
    for n in {u['intrinsic'] for u in res.unknown}:
        im = D.spec(n).imm if n in D.ACLE else None
        und += 1 if im is None else im[1] - im[0] + 1
    if not res.viol and n0 + und < max(1, min(0.9 * need, need - 2)):
        raise B.Broken('only %d instances analysed, %d confirmed' % (n0, need))
    cov = {'functions_analysed': len(fns), 'functions_visited': len(visited), 'instances': inst, 'ir_steps': steps, 'normal_form_cases': cases,
           'configurations': [c[0] for c in confs], 'configurations_compared': ntexts, 'positive_examples_matched': pos,
           'undecided': len(res.unknown), 'not_specified': skipped, 'samples': samples}
    level = LEVEL.get(prop, 'translation_validation')
    if level == 'proof':
        cov.update(obligations=obl, discharged=obl - len(res.viol) - len(res.unknown), checker_cmd='python3 check.py %s' % prop, trusted_base=TRUST)
    elif level == 'translation_validation':
        cov.update(programs=inst, disagreements_checked=obl)
    else:
        cov.update(effects_checked=obl, explanation='effect and history analysis: every instance of every implemented intrinsic is interpreted abstractly; output calls, environment '
                   'queries, reads and writes of shared objects are collected with their gate; a call that touches a mutable object is analysed in 2- and 3-call histories')
    res.coverage = cov
    res.assumptions = ASSUME
    return res


def later(res, I, soft, free, reps, cname):
    """storage some intrinsics leave something in and others read, with no race: does what they read change their results?"""
    from . import analyse as A
    n = 0
    for g, (rd, wr) in sorted(soft.items()):
        held = None
        for r in reps:
            if g in r.guards:
                held = r.guards[g] if held is None else held & r.guards[g]
        if held is not None and not held and wr:
            a, w = min(wr.items())
            res.viol.append(dict(property='C19', file=w[0], line=w[1], function=a, intrinsic=a, rule='shared', config=cname, witness=None,
                                 text='no lock protects every access to %s' % g, key='%s|shared|%s' % (a, g)))
            continue
        for a, loc in sorted(rd.items()):
            others = sorted(x for x in wr if x != a)
            if not others or g in free.get(a, ()) or n >= 40:
                continue
            n += 1
            text, env = A.after(I, a, others[:4], {h for h in soft if soft[h][1]})
            if text:
                (res.viol if env is not None else res.unknown).append(
                    dict(property='C19', file=loc[0], line=loc[1], function=a, intrinsic=a, rule='shared', config=cname, witness=env,
                         text='%s: %s (through %s)' % (a, text, g), key='%s|shared|%s' % (a, g)))


def cross(res, b, gr, gw, cname):
    """a mutable object of the library that one intrinsic reads must not be written by anything a caller can reach"""
    lib = {}
    for m in b.lib:
        for g in m.globs.values():
            if g.init is not None and not g.const and not g.tls and not g.name.startswith(('_ZGV', 'llvm.')):
                lib[g.name] = g
    writers = dict((g, w) for g, w in gw.items())
    # functions outside the intrinsics that a program can call
    from .ir import Const
    api = set(b.wrapped) & set(b.defined)
    for m in b.lib:
        for f in m.fns.values():
            if f.decl or f.name in api or f.linkage in ('internal', 'private') or f.name.startswith(('_GLOBAL__', '__cxx_global')):
                continue
            for bl in f.blocks:
                for i in bl.insts:
                    p = i.ops[1] if i.op == 'store' else i.ops[0] if i.op in ('atomicrmw', 'cmpxchg') else None
                    if isinstance(p, Const) and p.k == 'gref':
                        writers.setdefault(p.v.name, (f.name, (i.file, i.line)))
    for g, rd in gr.items():
        if g not in lib:
            continue
        if lib[g].linkage not in ('internal', 'private'):
            pass
        if g in writers:
            w = writers[g]
            for n, loc in sorted(rd.items()):
                res.viol.append(dict(property='C19', file=loc[0], line=loc[1], function=n, intrinsic=n, rule='shared', config=cname, witness=None,
                                     text='%s reads %s, which %s writes (line %s)' % (n, g, w[0], w[1][1]), key='%s|shared|%s' % (n, g)))


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        if prop in ('C21', 'C22', 'C23', 'C24'):
            from . import api
            res = getattr(api, prop)(tier)
        elif prop == 'C25':
            from . import plat
            res = plat.C25(tier)
        else:
            res = graph(prop, tier)
    except B.Broken as e:
        print('%s: the analysis cannot run: %s' % (prop, e))
        return 2
    kn = known()
    viol, listed = [], {}
    for v in res.viol:
        k = (prop, v['key'])
        if k in kn:
            listed[k] = kn[k]
        else:
            viol.append(v)
    for (p, k), d in sorted(listed.items()):
        print('KNOWN-FINDING: property=%s %s' % (p, d))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL.get(prop, 'translation_validation'), 'coverage': res.coverage,
          'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if res.unknown:
        ev['coverage']['undecided_list'] = [{k: u.get(k) for k in ('file', 'line', 'rule', 'text', 'config')} for u in res.unknown[:50]]
    if res.notes:
        ev['coverage']['notes'] = res.notes
    ed = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ed, 'replay'), exist_ok=True)
    with open(os.path.join(ed, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    for u in res.unknown[:20]:
        print('undecided: %s:%s: [%s/%s] %s' % (u['file'], u['line'], prop, u['rule'], u['text']))
    c = res.coverage
    print('%s: %s' % (prop, ', '.join('%s %s' % (k, c[k]) for k in c if isinstance(c[k], int))))
    if viol:
        rp = os.path.join(ed, 'replay', prop + '.json')
        with open(rp, 'w') as f:
            json.dump(viol, f, indent=1, default=str)
            f.write('\n')
        for v in viol[:25]:
            print('%s:%s: [%s/%s] in %s: %s%s%s' % (v['file'], v['line'], prop, v['rule'], v['function'], v['text'],
                                                   '' if v.get('config') in (None, 'default') else ' (configuration %s)' % v['config'],
                                                   '' if not v.get('witness') else ' -- e.g. %s' % json.dumps(v['witness'], default=str)))
        if len(viol) > 25:
            print('... and %d more' % (len(viol) - 25))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0
