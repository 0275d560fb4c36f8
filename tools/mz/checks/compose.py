"""P23: texts of several statements, put together by MzCompose, replayed into the real parser."""
import concurrent.futures as cf
import random

from .. import build, conf, concrete, corpus, reading, serve, tlc
from ..lexicon import EOF, UNCLOSED
from .sentences import observed


def choose(c, recs, good, bad):
    """parts: single statements, legal and not, with their meaning when they stand alone."""
    rng = random.Random('compose/%s' % c.seed)
    one = [x['toks'][:-1] for x in recs if ';' not in x['toks'] and x['toks'][-1] == EOF and 1 < len(x['toks']) < 40 and not x['err']]
    viol = [x['toks'][:-1] for x in recs if ';' not in x['toks'] and x['toks'][-1] == EOF and x['err']]
    rng.shuffle(one)
    # something of everything: statements of each kind first
    first = {}
    for t in one:
        first.setdefault(t[0] + ('~' + t[1] if len(t) > 1 and t[0] in ('CREATE', 'DROP', 'ALTER') else ''), t)
    marked = [t for t in one if '?' in t][:6]
    picks = list(first.values())
    rng.shuffle(picks)
    picks = (marked + picks + one)[:good]
    muts = [m[:-1] for m in reading.mutants([x for x in recs if ';' not in x['toks']], bad * 6, c.seed) if m[-1] == EOF and ';' not in m and UNCLOSED not in m and 1 < len(m) < 30]
    cut = [t[:rng.randrange(1, len(t))] for t in rng.sample(one, min(len(one), bad))]
    rng.shuffle(viol)
    cands = picks + viol[:bad // 4] + cut[:bad // 3] + muts
    R = reading.Reading(c, [t + [';', EOF] for t in cands] + [t + [EOF] for t in cands], values=True)
    parts = [dict(toks=[], v=[], semi=[], last=[])]
    nbad = 0
    for t in cands:
        a, b = R.verdict(t + [';', EOF]), R.verdict(t + [EOF])
        legal = a[0] == 'V' and b[0] == 'V'
        if not legal:
            if a[0] == 'V' or b[0] == 'V' or a[2] > len(t) + 1 or nbad >= bad:
                continue
            nbad += 1
        parts.append(dict(toks=t, v=a[1][1][1][0] if legal else [], semi=[] if legal else [list(x) for x in a[1]], last=[] if legal else [list(x) for x in b[1]]))
    return parts


def expected(r, t):
    if r['fail']:
        return ['E\t%s\t%d\t%d' % (k, t.pos(b), t.pos(e)) for k, b, e in r['fail']]
    return ['V\t%d\t%d\t%d\t%s\t%s' % (len(r['tree'][1]), r['n'], r['d'], t.comment_list(), '[' + ','.join(t.render(x) for x in r['tree'][1]) + ']')]


def p23(c):
    with cf.ThreadPoolExecutor(2) as ex:
        bg = ex.submit(build.build, 'mzh')
        recs = corpus.get(c, ['prod', 'full'], walks=2000 if c.thorough else 300, fuel=40)
        exe = bg.result()
    parts = choose(c, recs, 90 if c.thorough else 34, 50 if c.thorough else 16)
    c.note('parts', legal=sum(1 for p in parts if not p['semi']), failing=sum(1 for p in parts if p['semi']))

    def go(job):
        ps, most, rnd, sim = job
        return tlc.run('MzCompose', dict(Most=most, Random=rnd), files={'File': ps}, emit=True, invariants=['Emit', 'Ordered'], properties=['Final'],
                       simulate=sim, depth=most + 3 if sim else None, seed=c.seed if sim else None, workers=1, heap='3g')
    few = [parts[0]] + parts[1:5] + [p for p in parts if p['semi']][:3]
    n = 1500 if c.thorough else 150
    jobs = [(parts, 2, False, None), (few, 4 if c.thorough else 3, False, None), (parts, 4, True, n), (parts, 9, True, n), (parts, 30, True, n // 5), ([p for p in parts if not p['semi']], 12, True, n)]
    with cf.ThreadPoolExecutor(len(jobs)) as ex:
        runs = list(ex.map(go, jobs))
    todo, seen = [], set()
    for (ps, most, _, _), r in zip(jobs, runs):
        c.add(r)
        c.note('MzCompose', states=r.states, transitions=r.transitions, texts=len(r.records))
        for x in r.records:
            toks = []
            for i in x['ids']:
                toks += ps[i - 1]['toks'] + [';']
            if not x['semi']:
                toks.pop()
            k = tuple(toks)
            if k not in seen:
                seen.add(k)
                todo.append((toks + [EOF], x))
    # the whole read at once says the same
    rng = random.Random('whole/%s' % c.seed)
    some = rng.sample(todo, min(len(todo), 3000 if c.thorough else 250))
    R = reading.Reading(c, [t for t, _ in some], values=True)
    for t, x in some:
        v = R.verdict(t)
        if x['fail']:
            good = v[0] == 'E' and sorted(map(list, set(v[1]))) == sorted(map(list, {tuple(f) for f in x['fail']}))
        else:
            whole = [s for s in v[1][1][1]] if v[0] == 'V' else None
            if whole and whole[-1][1] == 'statement.empty_statement' and x['semi']:
                whole.pop()
            good = whole == x['tree'][1]
        if not good:
            raise tlc.TlcError('MzCompose and MzParse disagree on %s\n%s\n%s' % (t, x, v))
    c.ok(len(some), 'MzCompose=MzParse')
    reqs, ts = [], []
    for i, (toks, x) in enumerate(todo):
        for layout in ('plain', 'full')[i % 2:] if not c.thorough else ('plain', 'full', 'tight'):
            t = concrete.Text(toks, c.seed + i, layout)
            ts.append((t, x))
            reqs.append(serve.P(t.bytes, 'n100000000,zo'))
    for (t, x), q, a in zip(ts, reqs, serve.ask(exe, reqs, jobs=8)):
        want = expected(x, t)
        if observed(a) in want:
            c.ok(1, 'replay')
        else:
            c.fail('%r' % t.bytes.decode('utf-8', 'replace'), expected=want, observed=a, text=t.bytes, request=q)
    bulk(c, exe, parts)
    far = [(concrete.Text(toks, c.seed + i, 'vast'), x) for i, (toks, x) in enumerate(rng.sample(todo, 2500 if c.thorough else 250))]
    reqs = [serve.P(t.bytes, 'n100000000,zo') for t, _ in far]
    for (t, x), q, a in zip(far, reqs, serve.ask(exe, reqs, jobs=8)):
        if observed(a) in expected(x, t):
            c.ok(1, 'vast')
        else:
            c.fail('%r' % t.bytes[:2000].decode('utf-8', 'replace'), expected=expected(x, t), observed=a, text=t.bytes, request=q)
    for t, x in ts[::max(1, len(ts) // 6)]:
        c.sample(t.bytes.decode('utf-8', 'replace')[:600])


EMPTY = ['N', 'statement.empty_statement', [], 1, 1]


def bulk(c, exe, parts, name='bulk'):
    """texts of very many statements: MzBulk."""
    rng = random.Random('bulk/%s' % c.seed)
    ok = [p for p in parts if not p['semi'] and len(p['toks']) < 12]
    bad = [p for p in parts if p['semi']]
    few = [parts[0]] + ok[1:4] + bad[:2]
    marked = sorted((p for p in ok if '?' in p['toks']), key=lambda p: len(p['toks']))
    some = [parts[0]] + marked[:2] + sorted(ok[1:], key=lambda p: len(p['toks']))[:5] + bad[:4]
    c.add(tlc.run('MzBulk', dict(Most=0, Random=False, Lengths={1, 2, 3}, Runs=3), files={'File': few}, spec='SpecB', invariants=['SameAsStepwise'], workers=2, emit=True))
    runs = []
    for lengths, n, seed in [({1, 255, 256, 300}, 12, 1), ({1, 65536, 70000}, 6 if not c.thorough else 40, 2), ({3, 1000, 33000}, 5, 3)]:
        r = c.add(tlc.run('MzBulk', dict(Most=0, Random=False, Lengths=lengths, Runs=3), files={'File': some}, spec='SpecPick', invariants=['EmitB'], emit=True, workers=1, simulate=n * 2, depth=4, seed=c.seed * 10 + seed, heap='3g'))
        seen = {}
        for x in r.records:
            if sum(k for _, k, _ in x['runs']) < 150000:
                seen.setdefault(str(x['runs']), x)
        xs = [seen[k] for k in sorted(seen)]
        rng.shuffle(xs)
        # prefer those with placeholders and those that fail in the end
        runs += sorted(xs, key=lambda x: -sum(k for _, k, _ in x['runs']))[:n // 2] + xs[:n]
    c.note('MzBulk', texts=len(runs))
    for n, x in enumerate(runs):
        toks = []
        for i, k, at in x['runs']:
            assert len(toks) == at
            toks += (some[i - 1]['toks'] + [';']) * k
        t = concrete.Text(toks + [EOF], c.seed + n, 'plain' if n % 2 else 'spaces')
        f = conf.idle(n)
        q = serve.P(t.bytes, 'zo' + (',' + f[0] if f[0] and not f[1] else ''))
        a = serve.ask(exe, [q])[0]
        if x['fail']:
            want = ['E\t%s\t%d\t%d' % (k, t.pos(b), t.pos(e)) for k, b, e in x['fail']]
        else:
            out = []
            for i, k, at in x['runs']:
                p = some[i - 1]
                for j in range(k):
                    o = at + j * (len(p['toks']) + 1)
                    out.append('statement.empty_statement{}@-' if not p['toks'] and o == 0 else t.moved(p['v'] or EMPTY, o, desc=f[2]))
            want = ['V\t%d\t0\t0\t%s\t[%s]' % (len(out), t.comment_list(), ','.join(out))]
        if observed(a) in want:
            c.ok(1, name)
        else:
            i = next((i for i, (p, q) in enumerate(zip(want[0], a)) if p != q), 0)
            c.fail('runs %s of %s' % (x['runs'], [' '.join(some[r[0] - 1]['toks']) for r in x['runs']]), expected=want[0][max(0, i - 200):i + 200], observed=a[max(0, i - 200):i + 200], request=q[:2000])


CHECKS = {'P23': (p23,)}
