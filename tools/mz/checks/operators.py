"""P06: expressions grouped by an explicit precedence table (MzOperators), whatever parentheses are written."""
import concurrent.futures as cf
import os
import random
import re

from .. import build, concrete, serve, tlc

with open(os.path.join(build.ROOT, 'spec', 'MzOperators.tla')) as f:
    SRC = f.read()
PART = {'scalar': SRC[SRC.index('Scalar(x) =='):SRC.index('Query(x) ==')], 'query': SRC[SRC.index('Query(x) =='):SRC.index('Table ==')]}
OPS = {k: [x for x in re.findall(r'\("([^"]+)" :>', v) if x != 'x'] for k, v in PART.items()}
# one operator for each strength and form
SPREAD = ['or', 'and', 'not', 'is not null', '<', 'not between', '-', '||', '/', 'sign -', 'at local', '[]']
NARROW = ['or', 'and', 'not', 'is true', '=', 'between', '-', '*', 'sign +', 'at local', '[]']


def runs(c):
    """(family, operators, size, number of random expressions or none)"""
    yield 'scalar', OPS['scalar'], 2, None
    yield 'query', OPS['query'], 3, None
    yield 'scalar', SPREAD, 3, None
    if c.thorough:
        yield 'scalar', NARROW, 4, None
        yield 'query', ['union', 'except all', 'outer union', 'intersect', 'intersect all'], 5, None
    rng = random.Random('operators/%s' % c.seed)
    for i in range(24 if c.thorough else 6):
        yield 'scalar', rng.sample(OPS['scalar'], 12), 5 + i % 6 * 2, 400 if c.thorough else 40
    yield 'query', OPS['query'], 10, 400 if c.thorough else 40


def explore(c):
    jobs = []
    n = os.cpu_count() or 4
    with cf.ThreadPoolExecutor(n) as ex:
        for fam, ops, size, walk in runs(c):
            if walk:
                parts = [ops]
            else:
                k = n if size * len(ops) > 30 else 1
                parts = [ops[i::k] for i in range(k)]
            for i, first in enumerate(parts):
                jobs.append(((fam, size, walk), ex.submit(
                    tlc.run, 'MzOperators', dict(Family=fam, Ops=set(ops), First=set(first), Size=size, Walk=bool(walk)),
                    invariants=[] if walk else ['Emit', 'Least'] + (['Distinct'] if i == 0 else []), emit=True, workers=1,
                    simulate=walk, depth=size + 3 if walk else None, seed=c.seed * 77 + size if walk else None, heap='3g')))
        bg = ex.submit(build.build, 'mzh')
        recs = {}
        for (fam, size, walk), j in jobs:
            r = c.add(j.result())
            c.note('MzOperators:%s:%s%d' % (fam, 'random:' if walk else '', size), states=r.states, transitions=r.transitions, expressions=len(r.records))
            for x in r.records:
                recs.setdefault(str(x['t']), x)
        return list(recs.values()), bg.result()


def p06(c):
    recs, exe = explore(c)
    items = []
    for x in recs:
        for k, around in enumerate(x['x']):
            for h, w in enumerate(around):
                items.append((x, k, h, concrete.Text(w['s'] + [concrete.EOF], c.seed, 'plain' if h == 0 else 'full'), w['v']))
    ans = serve.ask(exe, [serve.P(i[3].bytes, 'zn') for i in items], jobs=6)
    for (x, k, h, t, v), a in zip(items, ans):
        want = 'V\t1\t0\t0\t%s\t[%s]' % (t.comment_list(), t.render(v, regions=False))
        if a != want:
            c.fail('grouping (%s parentheses): %r' % (['least', 'most', 'double'][h], t.bytes.decode('utf-8', 'replace')), expected=want, observed=a, expression=x['t'], text=t.bytes, request=serve.P(t.bytes, 'zn'))
        else:
            c.ok(1, 'replay')
    for i in items[::max(1, len(items) // 6)]:
        c.sample(i[3].bytes.decode('utf-8', 'replace'))


CHECKS = {'P06': (p06,)}
