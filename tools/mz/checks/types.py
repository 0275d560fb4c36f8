"""P30: the engine type every type name denotes."""
import concurrent.futures as cf
import random

from .. import build, serve

GAPS = [' ', ' ', ' ', '  ', '\n', '\t', ' /* c */ ', '/**/', ' -- c\n', ' /** d */ ']


def gap(rnd, must):
    return rnd.choice(GAPS) if must or rnd.random() < 0.3 else ''


class Writer:
    """text built token by token; knows where every token is."""

    def __init__(self, rnd):
        self.rnd, self.s, self.word = rnd, '', False

    def put(self, t):
        w = t[0].isalnum() or t[0] == '_'
        self.s += gap(self.rnd, self.word and w)
        b = len(self.s)
        self.s += t
        self.word = w
        return b, len(self.s)

    def case(self, t):
        return self.rnd.choice([t, t, t.lower(), t.capitalize(), ''.join(self.rnd.choice([c, c.lower()]) for c in t)])

    def words(self, t):
        rs = [self.put(self.case(x)) for x in t.split()]
        return rs[0][0], rs[-1][1]


NAMES = {'tiny_integer': ['TINYINT'], 'small_integer': ['SMALLINT'], 'integer': ['INT', 'INTEGER'], 'big_integer': ['BIGINT'], 'float': ['FLOAT'], 'real': ['REAL'],
         'double_precision': ['DOUBLE', 'DOUBLE PRECISION'], 'boolean': ['BOOLEAN'], 'date': ['DATE'], 'binary_large_object': ['BLOB', 'BINARY LARGE OBJECT'],
         'character_large_object': ['CLOB', 'CHAR LARGE OBJECT', 'CHARACTER LARGE OBJECT'], 'time': ['TIME'], 'timestamp': ['TIMESTAMP'], 'interval': ['INTERVAL'],
         'decimal': ['DECIMAL', 'DEC', 'NUMERIC'], 'binary_integer': ['INT', 'INTEGER'], 'binary_float': ['FLOAT'], 'user_defined': ['my_type', 'a . b', '"Q"', 'a . b . c'],
         ('character', 0): ['CHAR', 'CHARACTER'], ('character', 1): ['VARCHAR', 'CHAR VARYING', 'CHARACTER VARYING'],
         ('octet', 0): ['BINARY'], ('octet', 1): ['VARBINARY', 'BINARY VARYING'],
         'row': ['ROW ( f INT )', 'ROW ( f INT , g CHAR ( 0 ) )'], 'collection': ['INT ARRAY [ 3 ]', 'VARCHAR ( 0 ) [ ]', 'INT [ ]', 'a . b [ * ]', 'INT ARRAY [ 0 ] [ 1 ]']}


def sql(w, x, num):
    """writes one type; answers its places or None when the language has no words for it."""
    k = x['k']
    names = NAMES.get(k) or NAMES.get((k, x['v']))
    if names is None or (k in ('character', 'octet') and x['v'] == 0 and x['a'] == -2):
        return None
    if k in ('binary_integer', 'binary_float') and x['a'] < 0:
        return None
    if k == 'decimal' and x['a'] == -1 and x['b'] != -1:
        return None
    at = {}
    b, e = w.words(w.rnd.choice(names))
    if x['a'] != -1:
        w.put('(')
        size = lambda n: w.put('*' if n == -2 else w.rnd.choice(['', '', '0', '000']) + str(num(n)))
        at['first'] = size(x['a'])
        if x['b'] != -1:
            w.put(',')
            at['second'] = size(x['b'])
        e = w.put(')')[1]
    if k in ('time', 'timestamp') and x['v'] != -1:
        e = w.words('WITH TIME ZONE' if x['v'] else 'WITHOUT TIME ZONE')[1]
    at['type'] = (b, e)
    return at


def embed(rnd, top):
    """0 and 1 stay; the others go anywhere above, in order."""
    n = top - 1
    k = rnd.randrange(5)
    if k == 0:
        xs = list(range(2, 2 + n))
    elif k == 1:
        xs = rnd.sample(range(2, 80), n)
    elif k == 2:
        xs = range(2**64 - 1 - n, 2**64 - 1)
    else:
        pool = {2, 3, 7, 8, 15, 16, 25, 31, 32, 38, 39, 53, 63, 64, 255, 256, 2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**64 - 2}
        xs = rnd.sample(sorted(pool), n)
    return [0, 1] + sorted(xs)


def show(r, num, at):
    if not r['ok']:
        return 'E %s %d %d' % (r['t'], *at[r['a']])
    t, a, b = r['t'], r['a'], r['b']
    n = lambda v: '*' if v == -1 else str(num(v))
    if t in ('character', 'octet', 'bit'):
        return 'T %s(%s, %s)' % (t, 'varying' if b else 'fixed', n(a))
    if t == 'decimal':
        return 'T decimal(%s, %s)' % (n(a), n(b))
    if t in ('time_of_day', 'time_point'):
        return 'T %s(%s)' % (t, 'zone' if b else 'local')
    return 'T %s()' % t


def p30(c):
    inv = ['Sound', 'Kept', 'Blame', 'Room', 'Grows', 'Pure', 'Emit']
    plan = [('simple', 1, 2), ('string', 4, 2), ('decimal', 4, 1), ('decimal', 2, 2), ('integer', 4, 1), ('integer', 2, 2), ('float', 5, 2)]
    if c.thorough:
        plan = [('simple', 1, 3), ('string', 5, 2), ('decimal', 6, 1), ('decimal', 4, 2), ('integer', 6, 1), ('integer', 3, 2), ('float', 6, 2)]
    with cf.ThreadPoolExecutor(4) as ex:
        job = ex.submit(build.build, 'mzt')
        runs = [(g, top, c.tlc('MzType', consts=dict(Top=top, Group=g, Many=many), invariants=inv, emit=True)) for g, top, many in plan]
        exe = job.result()
    rnd = random.Random(c.seed)
    qs, es, xs = [], [], []
    for g, top, run in runs:
        for x in sorted(run.records, key=str):
            e = embed(rnd, top)
            num = lambda v: e[v]
            cap = [num(v) for v in x['s']['cap']]
            rest = lambda d: rnd.choice([d, d, 0, 1, 5, 2**40])
            ints = cap if g == 'integer' else [rest(7), rest(15), rest(31), rest(63)]
            floats = cap if g == 'float' else [rest(25), rest(53)]
            if g == 'decimal':
                mx, df = num(x['s']['max']), '-' if x['s']['def'] == -1 else num(x['s']['def'])
            else:
                mx, df = rest(38), rnd.choice(['-', 38, 5, 0, 77])
            opts = ' '.join(map(str, [mx, df] + ints + floats))
            w = Writer(rnd)
            w.words('CREATE TABLE t')
            w.put('(')
            at = []
            for i, t in enumerate(x['x']):
                if i:
                    w.put(',')
                w.put('c%d' % i)
                at.append(sql(w, t, num))
            w.put(')')
            if None in at or rnd.random() < 0.15:
                if any(t['k'] in ('row', 'collection', 'user_defined') for t in x['x']):
                    continue
                at, q = [], []
                for t in x['x']:
                    ps = sorted(rnd.sample(range(90), 6))
                    at.append({'type': (ps[0], ps[5]), 'first': (ps[1], ps[2]), 'second': (ps[3], ps[4])})
                    n = lambda v: v if v < 0 else min(num(v), 2**63 - 1)
                    q.append('D %s %d %d %d %d %d %d %d %d %d' % (t['k'], n(t['a']), n(t['b']), t['v'], ps[0], ps[5], ps[1], ps[2], ps[3], ps[4]))
                if max(e) > 2**63 - 1:
                    continue
                qs.append(opts + ' ' + ' '.join(q))
            else:
                qs.append('%s S %s' % (opts, w.s.encode().hex()))
            es.append(';'.join(show(r, num, a) for r, a in zip(x['r'], at)))
            xs.append((x, w.s))
    for q, exp, a, (x, text) in zip(qs, es, serve.ask(exe, qs, jobs=4), xs):
        if a == exp:
            c.ok(len(x['x']), x['x'][0]['k'])
        else:
            c.fail('types of %s' % (bytes.fromhex(q.split()[-1]).decode() if ' S ' in q else q), expected=exp, observed=a, request=q, model=x)
    for x in rnd.sample(xs, 5):
        c.sample(x[0])


CHECKS = {
    'P30': (p30,),
}
