"""Run the value-graph analysis of one property over the whole library, in every build configuration whose
source text differs, on all cores; write the evidence and the verdict."""
import hashlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
from . import build as B, analyse as A
from .interp import Interp
from .spec import spec, ACLE

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GENERIC = {'C02', 'C03', 'C17', 'C18', 'C19', 'C20'}


class Late(BaseException):
    pass


def _alarm(*_):
    raise Late()


_ctx = None


def _work(job):
    name, want, limit = job
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    rep = None
    try:
        rep = A.analyse(_ctx, name, want)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except Late:
        rep = None
        why = 'no answer in %d s' % limit
    except MemoryError:
        why = 'out of memory'
    except RecursionError:
        why = 'nesting too deep'
    except Exception as e:
        if os.environ.get('NSA_DEBUG'):
            traceback.print_exc()
        why = 'internal: %r at %s' % (e, traceback.format_exc().strip().split('\n')[-3].strip())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if rep is None:
        rep = A.Report(name)
        A.undecided(rep, spec(name), want, why, A.where(_ctx, name))
    return rep


def run(I, names, want, limit, deadline):
    """reports of all names; functions not reached before the deadline are reported as undecided"""
    global _ctx
    _ctx = I
    out = []
    jobs = [(n, want, limit) for n in names]
    # expensive ones (many immediates) first
    jobs.sort(key=lambda j: -(1 if spec(j[0]).imm is None else spec(j[0]).imm[1] - spec(j[0]).imm[0] + 1))
    if not jobs:
        return out
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1), initializer=_limit) as pool:
        it = pool.imap_unordered(_work, jobs, chunksize=1)
        try:
            for _ in jobs:
                out.append(it.next(timeout=max(0.01, deadline - time.time())))
        except mp.TimeoutError:
            pool.terminate()
    got = {r.name for r in out}
    for n in names:
        if n not in got:
            r = A.Report(n)
            A.undecided(r, spec(n), want, 'time of the run exhausted', A.where(I, n))
            out.append(r)
    return out


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def relevant(prop, b):
    out = []
    for n in sorted(b.wrapped):
        f = b.defined.get(n)
        if f is None:
            continue
        s = spec(n)
        if prop in GENERIC:
            if prop == 'C17' and s.imm is None:
                continue
            out.append(n)
        elif s.prop == prop:
            out.append(n)
    return out


def selftest(prop):
    """positive examples: every rule of the property must fire on its planted instance"""
    d = os.path.join(HERE, 'data', 'selftest')
    exp = json.load(open(os.path.join(d, 'expect.json')))
    mine = [e for e in exp if e['property'] == prop]
    if not mine:
        return 0
    b = B.build([os.path.join(d, 'broken.cpp')])
    I = Interp(b.mods)
    for e in mine:
        r = A.analyse(I, e['fn'], {prop})
        if not any(f.prop == prop and f.kind == 'violation' and f.rule == e['rule'] and e.get('text', '') in f.text for f in r.f):
            raise B.Broken('self-test: rule %s of %s is silent on %s (%s)' % (e['rule'], prop, e['fn'], [(f.prop, f.rule, f.kind, f.text) for f in r.f]))
    return len(mine)
