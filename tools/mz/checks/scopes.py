"""P32: what names stand for."""
import concurrent.futures as cf
import random

from .. import build, serve

FEATS = {'expose': 'e', 'independent': 'i', 'correlation': 'c'}
GAPS = ['', '', ' ', '\n', ' /* c */ ']


def csv(xs):
    return ','.join(xs) or '-'


def pairs(m):
    """a function of the model: a record, or an empty sequence."""
    return sorted(m.items()) if isinstance(m, dict) else []


def world(w):
    o = [''.join('1' if k in w['lower'] else '0' for k in ['all', 'variable', 'function', 'relation', 'schema', 'catalog']), w['catalog'] or '-', len(w['schemas'])]
    for s in w['schemas']:
        fs = lambda x: csv('%s:%d:%d' % (t, n, k) for n, m in enumerate(s[x]) for t, k in pairs(m) if k)
        o += [s['name'], int(s['listed']), csv('%s:%s' % (t, k[0]) for t, k in pairs(s['rels']) if k != 'none'), csv(sorted(s['idx'])), csv(sorted(s['vars'])), fs('funcs'), fs('aggs')]
    o += [csv(map(str, w['path'])), len(w['scopes'])]
    for s in w['scopes']:
        o += [''.join(FEATS[f] for f in s['feat']) or '-', len(s['rels'])]
        for r in s['rels']:
            o += [r['id'] or '-', r['decl']['s'], r['decl']['n'] or '-', csv((c['id'] or '~') + ('+' if c['out'] else '-') for c in r['cols'])]
        o.append(csv(s['queries']))
    return ' '.join(map(str, o))


def text(rnd, qs):
    """SELECT with the names asked for; the range of each part."""
    s, at = 'SELECT ', []
    for i, q in enumerate(qs):
        if i:
            s += rnd.choice([', ', ',', ' ,\n'])
        ps = []
        for j, p in enumerate(q['nm']):
            if j:
                s += rnd.choice(GAPS) + '.' + rnd.choice(GAPS)
            b = len(s)
            s += '"%s"' % p['t'] if p['q'] else p['t']
            ps.append((b, len(s)))
        at.append(ps)
    return s + ' FROM t', at


def show(a, at):
    if a['k'] == 'E':
        code, part = a['x'].split(' ')
        b, e = at[0][0] if part == 'whole' else at[a['s'] - 1][0], at[a['s'] - 1][1]
        return 'E %s %d %d' % (code, b, e)
    return a['k'] if a['k'] == 'N' else '%s %s' % (a['k'], a['x'])


def handed(ps):
    return ','.join(''.join('(%s %s)' % (x['v'], x['from'] if int(x['from'].split('.')[-1]) % 2 else '-') for x in s) for s in ps)


def op(o):
    return {'a': 'a:%s%s:%d' % (o['x'], '+' if o['j'] else '-', o['i']), 'e': 'e:%d:%d' % (o['i'], o['j']), 'n': 'n:%d:%s' % (o['i'], o['x']), 'x': 'x:%d' % o['i']}[o['k']]


def columns(x):
    chain = lambda s: ','.join(map(str, s))
    return ''.join('%d%s%s ' % (c['n'], '+' if c['out'] else '-', c['id']) for c in x['cols']) + ''.join('|' + chain(s) for s in x['name']) + ''.join('|' + {-1: 'ambiguous', 0: ''}.get(d, str(d)) for d in x['decl'])


def p32(c):
    inv = ['Stable', 'Nearest', 'Closed', 'Parameters', 'Told', 'Quoted', 'Emit']
    with cf.ThreadPoolExecutor(5) as ex:
        job = ex.submit(build.build, 'mzn')
        walks = [ex.submit(c.tlc, 'MzScope', consts=dict(Mode='walk', Top=0, Asks=16), invariants=inv, emit=True, simulate=12000 if c.thorough else 1500, depth=18, workers=1, seed=c.seed + 100 * i) for i in range(2)]
        every = ex.submit(c.tlc, 'MzScope', consts=dict(Mode='all', Top=6 if c.thorough else 4, Asks=0), invariants=inv, emit=True, workers=3)
        cols = [ex.submit(c.tlc, 'MzColumns', consts=dict(Most=5 if c.thorough else 4, Wide=False), invariants=['Found', 'Ordered', 'Emit'], emit=True, workers=3),
                ex.submit(c.tlc, 'MzColumns', consts=dict(Most=4 if c.thorough else 3, Wide=True), invariants=['Found', 'Ordered', 'Emit'], emit=True, workers=2)]
        exe = job.result()
        walks, every, cols = [x.result() for x in walks], every.result(), [x.result() for x in cols]
    rnd = random.Random(c.seed)
    qs, es, xs = [], [], []
    for run in walks + [every]:
        for x in sorted(run.records, key=str):
            sql, at = text(rnd, x['q'])
            qs.append('W %s %d %s %s' % (world(x['w']), len(x['q']), ' '.join('%s %d' % (q['k'], q['n']) for q in x['q']), sql.encode().hex()))
            es.append(([show(a, p) for a, p in zip(x['a'], at)], handed(x['ps'])))
            xs.append((x, sql))
    for run in cols:
        for x in sorted(run.records, key=str):
            qs.append('R ' + ' '.join(op(o) for o in x['ops']))
            es.append(columns(x))
            xs.append((x, None))
    for q, exp, a, (x, sql) in zip(qs, es, serve.ask(exe, qs, jobs=6), xs):
        if sql is None:
            if a == exp:
                c.ok(1, 'columns')
            else:
                c.fail('columns after %s' % q[2:], expected=exp, observed=a, request=q)
            continue
        got, _, ps = a.partition('|')
        got = got.split(';')
        bad = [i for i, e in enumerate(exp[0]) if i >= len(got) or got[i] != e]
        if bad or ps != exp[1]:
            i = bad[0] if bad else -1
            c.fail('names of %s' % sql if not bad else '%s %s' % (x['q'][i]['k'], '.'.join(('"%s"' if p['q'] else '%s') % p['t'] for p in x['q'][i]['nm'])),
                   expected=exp[0][i] if bad else exp[1], observed=(got[i] if i < len(got) else a) if bad else ps, request=q, text=sql, world=x['w'])
        else:
            for y in x['q']:
                c.ok(1, y['k'])
    for x in rnd.sample(xs, 5):
        c.sample(x[0])


CHECKS = {
    'P32': (p32,),
}
