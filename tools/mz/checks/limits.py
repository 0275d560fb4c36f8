"""P12, P13: limits carried out by MzLimits, replayed into the real parser."""
import concurrent.futures as cf
import os
import random

from .. import build, conf, concrete, corpus, serve, tlc


def run(c, recs, mode):
    """outcomes of MzLimits for the given sentences: (index, limits, node limit, depth limit, outcome)."""
    parts = os.cpu_count() or 4
    n = (len(recs) + parts - 1) // parts
    out = []

    def go(i):
        part = [{k: x[k] for k in ('gr', 'err', 'tree', 'n', 'd')} for x in recs[i:i + n]]
        return i, tlc.run('MzLimits', dict(Mode=mode), files={'File': part}, emit=True, invariants=['Emit', 'Exact', 'Agrees'], workers=1, heap='3g')
    with cf.ThreadPoolExecutor(parts) as ex:
        for i, r in ex.map(go, range(0, len(recs), n)):
            c.add(r)
            c.note('MzLimits:' + mode, states=r.states, transitions=r.transitions, outcomes=len(r.records))
            out += [(i + x['i'] - 1, x['lim'], x['nl'], x['dl'], x['out']) for x in r.records]
    return sorted(out, key=str)


def judge(c, recs, outs, exe, part, layout='plain'):
    ts = {}
    reqs = []
    for x in recs:
        x['lens'] = {}
        for g in x['gr']:
            x['lens'][g[0]] = max(g[1], x['lens'].get(g[0], 0))
        x['size'] = (0, 0) if x['err'] else (x['n'], x['d'])
    for i, lim, nl, dl, out in outs:
        if i not in ts:
            ts[i] = concrete.Text(recs[i]['toks'], c.seed, layout)
        # limits beyond what is there are all the same, however large
        here, (cnt, deep) = recs[i]['lens'], recs[i]['size']
        j = len(reqs)
        lim = dict(map(tuple, lim))
        if j % 3:
            lim = {k: conf.huge(j // 3 + n) if n > here.get(k, 0) else n for k, n in lim.items()}
        if j % 3 == 2:
            lim = {**{k: conf.huge(j // 3) for k in conf.KINDS}, **lim}
        if j % 2 and not recs[i]['err']:
            nl, dl = conf.huge(j // 2) if nl > cnt else nl, conf.huge(j // 5) if dl > deep else dl
        o = ['zn'] + ['l%s=%d' % (k, n) for k, n in sorted(lim.items())]
        # a limit of zero is the same as none given
        o += ['n%d' % nl] if nl or i % 2 else []
        o += ['d%d' % dl] if dl or i % 3 else []
        reqs.append(serve.P(ts[i].bytes, ','.join(o)))
    ans = serve.ask(exe, reqs, jobs=8)
    shown = {}
    for (i, lim, nl, dl, out), q, a in zip(outs, reqs, ans):
        x, t = recs[i], ts[i]
        f = a.split('\t')
        if out[0] == 'E':
            want = ['E\t%s\t%s\t%s' % (out[1], *(('-', '-') if b == 0 else (t.pos(b), t.pos(e)))) for b, e in out[2]]
            good = '\t'.join(f[:4]) in want
            want = want if len(want) < 4 else want[:4] + ['...']
        else:
            if i not in shown:
                stm = x['tree'][1]
                shown[i] = (len(stm) - (stm[-1][1] == 'statement.empty_statement'), t.comment_list(), t.statements(x['tree'], regions=False))
            n, cm, tree = shown[i]
            want = 'V\t%d\t%d\t%d\t%s\t%s' % (n, out[1], out[2], cm, tree)
            good = a == want
        if good:
            c.ok(1, part)
        else:
            c.fail('%r with limits %s' % (t.bytes[:2000].decode('utf-8', 'replace'), q.split(' ')[1]), expected=want, observed=a, text=t.bytes, request=q)
    for x in outs[::max(1, len(outs) // 6)]:
        c.sample({'text': ts[x[0]].bytes.decode('utf-8', 'replace'), 'limits': x[1:4], 'outcome': x[4]})


def p12(c):
    modes = ['prod', 'full', 'pump', 'long'] + (['pair', 'sib'] if c.thorough else [])
    recs, exe = corpus.get(c, modes, walks=4000 if c.thorough else 500, fuel=50, background=[lambda: build.build('mzh')])
    recs = [x for x in recs if x['gr']]
    outs = run(c, recs, 'lists')
    judge(c, recs, outs, exe, 'lists')
    rng = random.Random('p12/%s' % c.seed)
    judge(c, recs, rng.sample(outs, 3000 if c.thorough else 300), exe, 'vast', 'vast')
    if c.thorough:
        judge(c, recs, outs, exe, 'lists', 'full')


def p13(c):
    modes = ['prod', 'full'] + (['pair', 'sib', 'pump', 'triple'] if c.thorough else ['pair'])
    recs, exe = corpus.get(c, modes, walks=8000 if c.thorough else 400, fuel=50, background=[lambda: build.build('mzh')])
    if not c.thorough:
        recs = [x for i, x in enumerate(recs) if x['mode'] != 'pair' or i % 5 == c.seed % 5]
    outs = run(c, recs, 'tree')
    judge(c, recs, outs, exe, 'tree')
    rng = random.Random('p13/%s' % c.seed)
    judge(c, recs, rng.sample(outs, 3000 if c.thorough else 300), exe, 'vast', 'vast')


CHECKS = {'P12': (p12,), 'P13': (p13,)}
