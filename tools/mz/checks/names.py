"""P20: printed names, lookup by name and classifications of every constant."""
import concurrent.futures as cf
import random

from .. import build, serve


def request(x):
    if x['op'] == 'find':
        return 'find ' + x['x'].encode().hex()
    if x['op'] == 'each':
        return 'each'
    return '%s %s %s' % (x['op'], x['e'], x['x'])


def p20(c):
    with cf.ThreadPoolExecutor(1) as ex:
        job = ex.submit(build.build, 'mzk', (), False)
        r = c.tlc('MzNames', invariants=['Injective', 'Partition', 'FindInverse', 'Emit'], emit=True)
        exe = job.result()
    recs = sorted(r.records, key=lambda x: (x['op'], x['e'], x['x']))
    want = {request(x): x for x in recs}
    rnd = random.Random(c.seed)
    orders = [(list(want), None)]
    for i in range(20 if c.thorough else 4):
        o = list(want) * 2
        rnd.shuffle(o)
        orders.append((o, [None, '4', '8'][i % 3]))
    bad = set()
    for o, threads in orders:
        ans = serve.ask([exe] + ([threads] if threads else []), o)
        for q, a in zip(o, ans):
            exp = ' ' + ' '.join(want[q]['a'])
            if want[q]['op'] in ('set', 'tags') and a != exp:  # a set: the order is no promise
                a = ' ' + ' '.join(sorted(a.split()))
                exp = ' ' + ' '.join(sorted(exp.split()))
            if a == exp:
                c.ok(1, want[q]['op'])
            elif q not in bad:
                bad.add(q)
                c.fail('%s: %s %r' % (want[q]['op'], want[q]['e'], want[q]['x']), key='%(op)s %(e)s %(x)s' % want[q], expected=exp, observed=a, request=q)
    for x in rnd.sample(recs, 6):
        c.sample('%s -> %s' % (request(x), x['a']))


CHECKS = {
    'P20': (p20,),
}
