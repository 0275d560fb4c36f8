"""P05, P11: every sentence generated from the specification, replayed into the real parser."""
import random

from .. import build, conf, concrete, corpus, serve


def expected(x, t, measure=False, **kw):
    """the answer the parser owes for sentence x laid out as t."""
    if x['err']:
        return 'E\t%s\t%d\t%d' % (x['err'][0], t.pos(x['err'][1]), t.pos(x['err'][2]))
    stm = x['tree'][1]
    last = 1 if stm[-1][1] == 'statement.empty_statement' else 0
    n, d = (x['n'] - last, 0 if last and len(stm) == 1 else x['d']) if measure else (0, 0)
    return 'V\t%d\t%d\t%d\t%s\t%s' % (len(stm) - last, n, d, t.comment_list(), t.statements(x['tree'], **kw))


def observed(a):
    f = a.split('\t')
    return '\t'.join(f[:4]) if f[0] == 'E' else a


def replay(c, recs, layouts, opts='zo', part='replay', **kw):
    """every record in every layout; the settings that make no difference take turns."""
    exe = build.build('mzh')
    for n, (seed, layout) in enumerate(layouts):
        ts = [concrete.Text(x['toks'], seed, layout) for x in recs]
        cf = [conf.idle(n + i) for i in range(len(recs))]
        reqs = [serve.P(t.bytes, opts + (',' + f[0] if f[0] else '')) for t, f in zip(ts, cf)]
        ans = serve.ask(exe, reqs, jobs=4)
        for x, t, f, q, a in zip(recs, ts, cf, reqs, ans):
            exp = expected(x, t, measure=f[1], desc=f[2], **kw)
            got = observed(a)
            if exp != got:
                c.fail('%s layout: %r' % (layout, t.bytes[:2000].decode('utf-8', 'replace')), expected=exp, observed=a, derivation=x['g'], text=t.bytes, request=q)
            else:
                c.ok(1, part)
    if part == 'replay':
        for x in recs[:3] + recs[len(recs) // 2:len(recs) // 2 + 3]:
            c.sample(concrete.Text(x['toks'], layouts[-1][0], layouts[-1][1]).bytes.decode('utf-8', 'replace'))


def vast(c, recs, n, opts='zo', part='vast', want=lambda x: True, **kw):
    """some records with gaps and images of enormous length."""
    rng = random.Random('vast/%s/%s' % (part, c.seed))
    have = [x for x in recs if want(x) and len(x['toks']) < 300]
    replay(c, rng.sample(have, min(n, len(have))), [(c.seed, 'vast')], opts=opts, part=part, **kw)


def p05(c):
    modes = ['prod', 'pair', 'sib', 'full', 'chain', 'wound', 'based', 'long', 'unit', 'triple']
    recs, exe = corpus.get(c, modes, walks=20000 if c.thorough else 1200, fuel=50, background=[lambda: build.build('mzh')])
    short = [x for x in recs if x['mode'] not in ('triple', 'unit')]
    layouts = [(c.seed, 'plain'), (c.seed, 'full')]
    if c.thorough:
        replay(c, recs, layouts + [(c.seed + i, l) for i in range(4) for l in ('tight', 'full')], opts='zn', regions=False)
    else:
        replay(c, short, layouts, opts='zn', regions=False)
        replay(c, [x for x in recs if x['mode'] in ('triple', 'unit')], layouts[1:], opts='zn', regions=False)
    vast(c, recs, 2000 if c.thorough else 250, opts='zn', regions=False)


def p11(c):
    modes = ['prod', 'pair', 'full', 'chain', 'wound', 'based', 'long'] + (['sib', 'triple', 'unit'] if c.thorough else [])
    recs, exe = corpus.get(c, modes, walks=20000 if c.thorough else 1200, fuel=60, background=[lambda: build.build('mzh')])
    layouts = [(c.seed, 'tight'), (c.seed, 'full'), (c.seed + 1, 'full')] + ([(c.seed + i, 'full') for i in range(2, 8)] if c.thorough else [])
    replay(c, recs, layouts, opts='zo')
    vast(c, recs, 3000 if c.thorough else 400)


CHECKS = {
    'P05': (p05,),
    'P11': (p11,),
}
