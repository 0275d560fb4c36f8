"""P21: option objects and element maps."""
import concurrent.futures as cf
import random

from .. import build, serve, tlc

KINDS = ['statement', 'schema_element_definition', 'table_element_definition', 'column_constraint_definition', 'column_reference',
         'storage_parameter', 'set_clause', 'with_element', 'select_element', 'table_reference', 'grouping_element', 'ordering_element',
         'field_definition', 'row_expression', 'scalar_expression', 'when_clause', 'string_literal_concatenation', 'privilege_action',
         'privilege_object', 'privilege_user']
INTERESTING = [2**64 - 1, 2**63, 2**32, 2**31 - 1, 1, 2, 3, 4, 6, 7, 20, 21, 255, 256, 65535, 65536, 2**32 - 1, 2**48 + 1, 2**63 - 1, 2**64 - 2]


class Embed:
    """an injective choice of machine numbers for the symbolic values of the model (0, 1 and 5 stand for themselves)."""

    def __init__(self, rnd, debug):
        self.rnd = rnd
        self.debug = debug      # values that must fit an int
        self.m = {0: 0, 5: 5, 1: 1}
        self.used = {0, 1, 5}

    def __call__(self, v):
        if v not in self.m:
            while True:
                if v in self.debug:
                    x = self.rnd.choice([2**31 - 1, self.rnd.randrange(2, 2**31), self.rnd.randrange(2, 64)])
                else:
                    x = self.rnd.choice([self.rnd.choice(INTERESTING), self.rnd.randrange(2, 64), self.rnd.getrandbits(64)])
                if x not in self.used:
                    break
            self.used.add(x)
            self.m[v] = x
        return self.m[v]


def op_text(op, e):
    n, i, x, v, w = op
    if n in ('limit', 'map'):
        return '%s %d %d %d %s' % (n, i, x, e(v), w)
    if n == 'set':
        return '%s %d %s %d' % (n, i, x, v if x == 'enable_description_comments' else e(v))
    if n == 'two':
        return '%s %d %d %d %s %d' % (n, i, x, e(v), w, e(v + 1000))
    return '%s %d %s %d %s' % (n, i, x, v, w)


def expected(x, e, printed):
    rows = []
    pr = []
    limits = lambda r: '{' + ', '.join('%s:%d' % (k, e(v)) for k, v in zip(KINDS, r)) + '}'
    for o in x['o']:
        rows.append(','.join(str(v if p == 3 else e(v)) for p, v in enumerate(o)) if o else '-')
        pr.append(limits(o[5:]) if o else '-')
    for m in x['m']:
        rows.append(','.join(str(e(v)) for v in m))
        pr.append(limits(m))
    s = '/'.join(rows) + '/'
    return s + '\t' + '/'.join(pr) + '/' if printed else s


def p21(c):
    def walk(i):
        return tlc.run('MzOptions', consts=dict(Slots=3, Depth=60 if i % 2 else 25, Kinds=set(range(20)), Walk=True), emit=True,
                       simulate=4000 if c.thorough else 50, depth=100, workers=1, seed=c.seed * 100 + i)

    def full(slots, depth, kinds):
        return tlc.run('MzOptions', consts=dict(Slots=slots, Depth=depth, Kinds=set(kinds), Walk=False), invariants=['NoInvention'], properties=['Frame'], emit=True, workers=4)

    with cf.ThreadPoolExecutor(10) as ex:
        job = ex.submit(build.build, 'mzo', (), False)
        js = [('depth 2, 2 slots, all kinds', ex.submit(full, 2, 2, range(20)))]
        js.append(('depth 3, 2 slots, 2 kinds', ex.submit(full, 2, 3, (0, 19) if c.thorough else (19,))))
        if c.thorough:
            js.append(('depth 4, 2 slots, 1 kind', ex.submit(full, 2, 4, (7,))))
        js += [('walk', ex.submit(walk, i)) for i in range(4)]
        recs = []
        for name, j in js:
            r = c.add(j.result())
            c.note(name, states=r.states, transitions=r.transitions, emitted=len(r.records))
            recs += sorted(r.records, key=lambda x: str(x['h']))
        exe = job.result()
    rnd = random.Random(c.seed)
    d = serve.ask(exe, ['defaults'])[0]
    first = [x for x in recs if not x['h']][0]
    if d.split(',') != [str(v) for v in first['o'][0][:4]]:
        c.fail('documented defaults', expected=first['o'][0][:4], observed=d)
    reqs, exps, xs = [], [], []
    for n, x in enumerate(recs):
        t = 'zsou'[n % 4] if len(x['h']) < 10 else 'z'
        e = Embed(rnd, {op[3] for op in x['h'] if op[0] == 'set' and op[2] == 'debug'})
        reqs.append('%s %d %s' % (t, len(x['o']), ';'.join(op_text(op, e) for op in x['h'])))
        exps.append(expected(x, e, t in 'zu'))
        xs.append(x)
    for q, exp, a, x in zip(reqs, exps, serve.ask(exe, reqs, jobs=8), xs):
        if exp == a:
            c.ok(1, 'walks' if len(x['h']) > 10 else 'histories')
        else:
            c.fail('history %s' % x['h'], expected=exp, observed=a, request=q)
    for x in rnd.sample(recs, 4):
        c.sample(x['h'])


CHECKS = {
    'P21': (p21,),
}
