"""Sentences with their meaning, generated by TLC from the derivation machine."""
import concurrent.futures as cf
import json
import os

from . import tlc

INV = ['RegionsNest', 'Measured', 'SpansOrdered']


def key(x):
    return json.dumps([x['toks'], x['g']])


def derive(mode, fuel=0, part=0, parts=1, simulate=None, seed=None, workers=None, inv=INV, timeout=800):
    r = tlc.run('MzDerive', dict(Mode=mode, Fuel=fuel, Part=part, Parts=parts), invariants=inv, emit=True,
                simulate=simulate, depth=20000 if simulate else None, seed=seed, workers=workers, timeout=timeout)
    r.records.sort(key=key)
    return r


def get(check, modes=('prod', 'pair', 'full'), walks=0, fuel=50, inv=INV, background=()):
    """records of the given modes, plus random derivations; all TLC runs side by side."""
    jobs = []
    n = os.cpu_count() or 4
    with cf.ThreadPoolExecutor(16) as ex:
        for m in modes:
            if m in ('triple', 'unit'):
                for p in range(3):
                    jobs.append((m, ex.submit(derive, m, 0, p, 3, None, None, max(2, n // 2), inv)))
            else:
                jobs.append((m, ex.submit(derive, m, {'pump': 4, 'long': 700 if check.thorough else 257}.get(m, 0), 0, 1, None, None, max(2, n // 2), inv)))
        if walks:
            k = 4
            for i in range(k):
                jobs.append(('walk', ex.submit(derive, 'walk', [fuel // 2, fuel, fuel, fuel * 2][i], 0, 1, (walks + k - 1) // k,
                                               check.seed * 1000 + i, 1, inv)))
        bg = [ex.submit(f) for f in background]
        recs = []
        for m, j in jobs:
            r = check.add(j.result())
            check.note('derive:' + m, states=r.states, transitions=r.transitions, sentences=len(r.records))
            for x in r.records:
                x['mode'] = m
            recs += r.records
        bgs = [b.result() for b in bg]
    seen, out = set(), []
    for x in recs:
        k = (tuple(x['toks']))
        if k in seen:
            continue
        seen.add(k)
        out.append(x)
    check.extra['distinct_sentences'] = len(out)
    return (out, *bgs) if background else out
