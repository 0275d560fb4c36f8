"""P31: the value and the type of every literal."""
import concurrent.futures as cf
import random
from decimal import Decimal

from .. import build, serve
from .types import GAPS, Writer

CHARS = {'a': ['a', 'Z', '0', '-', ';', '*', '/'], 'Q': ["''"], 'B': [' '], 'E': ['\u00e9', '\u03b1'], 'N': ['\n', '\t']}
SPACE = [' ', '\n', '  ', '\t', ' /* c */ ', ' -- c\n']
TYPES = ['int1:*:*', 'int2:*:*', 'int4:*:*', 'int8:*:*', 'float4:*:*', 'float8:*:*', 'boolean:*:*', 'date:*:*', 'decimal:*:*', 'decimal:10:2', 'decimal:38:*', 'character:*:1', 'character:10:0',
         'octet:*:1', 'octet:4:0', 'time_of_day:*:0', 'time_of_day:*:1', 'time_point:*:0', 'time_point:*:1', 'unknown:*:*']


def shown(t):
    n, p, q = t.split(':')
    if n in ('character', 'octet'):
        return '%s(%s, %s)' % (n, 'varying' if q == '1' else 'fixed', p)
    if n == 'decimal':
        return 'decimal(%s, %s)' % (p, q)
    if n in ('time_of_day', 'time_point'):
        return '%s(%s)' % (n, 'zone' if q == '1' else 'local')
    return n + '()'


def kind(r):
    n = lambda v: '*' if v == -1 else str(v)
    t = r['t']
    if t in ('character', 'octet', 'time_of_day', 'time_point', 'decimal'):
        return '%s:%s:%s' % (t, n(r['p']), n(r['q']))
    return t + ':*:*'


def digits(l):
    d = ''.join(map(str, l['d']))
    f = l['f']
    return d if f <= 0 else d[:-f] + '.' + d[-f:]


def write(rnd, l):
    """the text of a literal, and what the value has to print."""
    k = l['k']
    g = lambda: rnd.choice(SPACE)
    case = lambda w: rnd.choice([w, w.lower(), w.capitalize()])
    if k in ('exact', 'approx'):
        s = digits(l)
        if k == 'approx':
            s += rnd.choice('eE') + ('-' if l['e'] < 0 else rnd.choice(['', '+'])) + rnd.choice(['', '0', '00']) + str(abs(l['e']))
        sign = '-' if l['neg'] else rnd.choice(['', '', '+'])
        return sign + (rnd.choice(['', ' ', '  ']) if sign else '') + s, ('-' if l['neg'] else '') + s
    if k in ('string', 'hex'):
        if k == 'string':
            ps = [[rnd.choice(CHARS[a]) for a in p] for p in l['p']]
            val = ''.join(x for p in ps for x in p).replace("''", "'").encode().hex() or '-'
        else:
            ps = [[{'B': ' ', 'X': rnd.choice('gz-:_\u00e9\n\tx'), 'Q': "''"}.get(a, rnd.choice([a.lower(), a.upper()])) if a != 'F' else rnd.choice('fF') for a in p] for p in l['p']]
            val = ''.join(x for p in ps for x in p if x != ' ').lower() or '-'
        return (rnd.choice('xX') if k == 'hex' else '') + g().join("'%s'" % ''.join(p) for p in ps), val
    sub = lambda: '.' + ''.join(map(str, l['sub'])) if l['sub'] else ''
    date = lambda: '%04d-%02d-%02d' % (l['y'], l['m'], l['d'])
    time = lambda: '%02d:%02d:%02d' % (l['h'], l['mi'], l['s']) + sub()

    def damaged(s):
        return {'': s, 'empty': '', 'word': 'today', 'tail': s + 'x', 'slash': s.replace('-', '/').replace(':', '/')}[l['bad']]
    if k == 'date':
        return "%s%s'%s'" % (case('DATE'), rnd.choice(['', ' ', g()]), damaged(date())), None
    zone = lambda w: g().join(case(x) for x in ([w, 'WITH', 'TIME', 'ZONE'] if l['zoned'] else rnd.choice([[w], [w, 'WITHOUT', 'TIME', 'ZONE']])))
    if k == 'time':
        return "%s%s'%s'" % (zone('TIME'), g(), damaged(time())), None
    if k == 'timestamp':
        z = l['z']
        t = '' if z == 9999 else '%s%02d:%02d' % ('-' if z < 0 else '+', abs(z) // 60, abs(z) % 60)
        if z == 0:
            t = rnd.choice(['Z', '+00:00', '-00:00'])
        return "%s%s'%s'" % (zone('TIMESTAMP'), g(), damaged(date() + ' ' + time() + t)), None
    return {'empty': 'ARRAY [ ]', 'interval': "INTERVAL %s'1'" % rnd.choice(['', '-', '+ '])}.get(k, case(k.upper())), None


def ns(sub):
    return int(''.join(map(str, sub)).ljust(9, '0')) if sub else 0


def expect(l, r, val, ctx):
    if not r['ok']:
        return 'E %s ' % r['v'], {'whole': 'whole', 'value': 'value', 'piece': 'piece%d' % r['p']}[r['x']]
    v, x = r['v'], r['x']
    t = shown(ctx if r['t'] == 'context' else kind(r))
    if v in ('int4', 'int8'):
        n = int(''.join(map(str, x['d'])))
        body = '%s %d' % (v, -n if x['neg'] else n)
    elif v == 'decimal':
        n = int(''.join(map(str, x['d'])))
        body = '%s %s%dE%d' % (v, '-' if x['neg'] and n else '', n, -x['f'])
    elif v == 'float8':
        f = float(val)
        body = 'float8 ' + f.hex()
    elif v in ('character', 'octet'):
        body = '%s %s' % (v, val)
    elif v == 'date':
        body = 'date %d' % x['day']
    elif v == 'time_of_day':
        body = 'time_of_day %d' % (x['sec'] * 10**9 + ns(x['sub']))
    elif v == 'time_point':
        body = 'time_point %d.%d' % (x['day'] * 86400 + x['sec'], ns(x['sub']))
    elif v == 'default':
        body = 'int4 77'
    else:
        body = '%s %s' % (v, x)
    cast = 'C %s error ' % shown(ctx) if r['cast'] else ''
    return '%sI %s %s' % (cast, body, t), None


def alike(a, exp, place, opened):
    if place:
        return a.startswith(exp) and a.count(' ') == 2 and place in a[len(exp):].split(',')
    if opened and a.startswith('E unsupported_approximate_number whole'):
        return True
    if a == exp:
        return True
    w, e = a.split(' '), exp.split(' ')
    i = e.index('I') + 1
    if len(w) != len(e) or w[:i + 1] + w[i + 2:] != e[:i + 1] + e[i + 2:]:
        return False
    if e[i] == 'float8':
        return float.fromhex(w[i + 1]) == float.fromhex(e[i + 1])  # zeros have no sign
    if e[i] == 'decimal':  # equal numbers, whatever the trailing zeros of the representation
        return Decimal(w[i + 1]) == Decimal(e[i + 1])
    return False


def p31(c):
    inv = ['Admits', 'Refused', 'Calendar', 'Inside', 'Arithmetic', 'Emit']
    with cf.ThreadPoolExecutor(4) as ex:
        job = ex.submit(build.build, 'mzl')
        runs = list(ex.map(lambda g: (g, c.tlc('MzLiteral', consts=dict(Group=g, Deep=c.thorough), invariants=inv, emit=True, workers=3)), ['exact', 'time', 'approx', 'string', 'hex', 'special']))
        exe = job.result()
    rnd = random.Random(c.seed)
    qs, es, xs = [], [], []
    for g, run in runs:
        groups = {}
        for x in sorted(run.records, key=str):
            s = x['s']
            l, r = x['l'], x['r']
            text, val = write(rnd, l)
            ctx = '-'
            if s['ctx'] == 'same' and r['ok'] and r['t'] != 'context':
                ctx = kind(r)
            elif s['ctx'] != 'none':
                ctx = rnd.choice([t for t in TYPES if r['t'] == 'context' or not r['ok'] or shown(t) != shown(kind(r))])
            exp = expect(l, r, val, ctx) + (r['ok'] and r['x'] == 'open',)
            any_ = lambda v, on: v if on else rnd.random() < 0.5
            opts = (s['max'] if l['k'] in ('exact',) else 38, any_(s['small'], l['k'] == 'exact'), any_(s['tight'], l['k'] == 'exact'), any_(s['chars'], l['k'] == 'string'), any_(s['octets'], l['k'] == 'hex'),
                    s['cast'] if s['ctx'] != 'none' else rnd.random() < 0.5, any_(s['null'], l['k'] == 'null'), s['system'] if l['k'] == 'timestamp' else 0, ctx, any_(s['def'], l['k'] == 'default'))
            if ctx == '-' and g != 'special':
                # several literals share one statement and one session
                groups.setdefault((s['max'], s['small'], s['tight'], s['chars'], s['octets'], s['system']), []).append((text, exp, x, opts))
            else:
                groups.setdefault(len(groups), []).append((text, exp, x, opts))
        for part in groups.values():
            rnd.shuffle(part)
            while part:
                n = rnd.choice([1, 1, 2, 5, 20])
                some, part = part[:n], part[n:]
                o = some[0][3]
                if len(some) > 1:
                    s = some[0][2]['s']
                    o = (s['max'], s['small'], s['tight'], s['chars'], s['octets'], rnd.random() < 0.5, s['null'], s['system'], '-', s['def'])
                w = Writer(rnd)
                sql = 'INSERT INTO t VALUES (' + rnd.choice(['', ' ']) + rnd.choice([', ', ',', ' , ', '), (']).join(t[0] for t in some) + ')'
                qs.append(' '.join(str(int(v) if isinstance(v, bool) else v) for v in o) + ' ' + sql.encode().hex())
                es.append([t[1] for t in some])
                xs.append((some, sql))
    for q, exp, a, (some, sql) in zip(qs, es, serve.ask(exe, qs, jobs=4), xs):
        parts = a.split(';')
        if len(parts) != len(exp):
            c.fail('literals of %s' % sql, expected=exp, observed=a, request=q)
            continue
        for p, e, t in zip(parts, exp, some):
            if alike(p, *e):
                c.ok(1, t[2]['l']['k'])
            else:
                c.fail('literal %s' % t[0], expected=' '.join(str(v) for v in e if v), observed=p, request=q, text=sql, settings=t[2]['s'], model=t[2]['l'])
    for t in rnd.sample(xs, 5):
        c.sample(t[0][0][2])


CHECKS = {
    'P31': (p31,),
}
