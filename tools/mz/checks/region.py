"""P19: the algebra of source ranges."""
import concurrent.futures as cf
import random

from .. import build, serve

NPOS = 2**64 - 1


def embed(rnd, n):
    """a strictly increasing choice of positions for the points 0..n."""
    k = rnd.randrange(6)
    if k == 0:
        xs = range(n + 1)
    elif k == 1:
        xs = range(NPOS - 1 - n, NPOS)
    elif k == 2:
        xs = rnd.sample(range(40), n + 1)
    elif k == 3:
        xs = set()
        while len(xs) < n + 1:
            xs.add(rnd.choice([0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, NPOS - 1, NPOS - 2]))
    else:
        xs = set()
        while len(xs) < n + 1:
            xs.add(rnd.getrandbits(rnd.choice([8, 16, 33, 63, 64])) % NPOS)
    return sorted(xs)


def p19(c):
    n, depth = (3, 2)
    with cf.ThreadPoolExecutor(4) as ex:
        job = ex.submit(build.build, 'mzr', (), False)
        inv = ['Smallest', 'Laws', 'PartInside', 'Emit']
        r = c.tlc('MzRegion', consts=dict(N=n, Depth=depth), invariants=inv, emit=True)
        recs = r.records
        r = c.tlc('MzRegion', consts=dict(N=5 if c.thorough else 4, Depth=2 if c.thorough else 1), invariants=inv, emit=True)
        recs = sorted(recs + r.records, key=str)
        exe = job.result()
    rnd = random.Random(c.seed)
    for rep in range(4 if c.thorough else 1):
        qs, es = [], []
        for x in recs:
            e = embed(rnd, 5)
            p = lambda v: NPOS if v < 0 else e[v]
            show = lambda r: '%d,%d' % (p(r[0]), p(r[1]))
            put = lambda r: '%d %d' % (p(r[0]), p(r[1]))
            if x['op'] == 'join':
                qs.append('join ' + ' '.join(h[1] + ' ' + put(h[0]) + (' ' + put(h[2]) if h[1] == 'pair' else '') for h in x['h']))
                es.append(show(x['x']) if -1 not in x['x'] else None)
            elif x['op'] == 'compare':
                qs.append('compare %s %s' % (put(x['a']), put(x['b'])))
                s = int(x['x'])
                es.append('%d%d%d%d1' % (s, 1 - s, s, 1 - s))
            elif x['op'] == 'look':
                a = x['a']
                qs.append('look ' + put(a))
                b, f = p(a[0]), p(a[1])
                es.append('%d %d %d %d %s %s %s 1 1 %d,%d 0' % (x['x'], b, f, (f - b) % 2**64, 'region(begin=%d, end=%d)' % (b, f) if x['x'] else 'region()', show(a), show(a), NPOS, NPOS))
            elif x['op'] == 'part':
                a, (s, t) = x['a'], x['b']
                qs.append('part %s %d %d' % (put(a), e[s] - e[a[0]], NPOS if t < 0 else e[t] - e[s]))
                es.append('%s %s %s' % (show(x['x']), show(a), show(x['x'])))
            else:
                qs.append('carry %s %s %d %d' % (put(x['a']), put(x['b']), x['v'], x['w']))
                s = int(x['x'])
                a, b = show(x['a']), show(x['b'])
                es.append('|'.join(['%d%d%d%d%d%d%d1 %s %s 1%s 1%s 1%s 1%s 1' % (s, 1 - s, s, s, 1 - s, s, 1 - s, a, b, a, a, b, a)] * 3))
        for q, exp, a, x in zip(qs, es, serve.ask(exe, qs, jobs=4), recs):
            # among empty ranges the model leaves the choice open
            good = a == exp if exp is not None else NPOS in [int(v) for v in a.split(',')]
            if good:
                c.ok(1, x['op'])
            else:
                c.fail('%s: %s' % (x['op'], q), expected=exp, observed=a, request=q, model=x)
    for x in rnd.sample(recs, 5):
        c.sample(x)


CHECKS = {
    'P19': (p19,),
}
