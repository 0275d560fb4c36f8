"""P16, P17, P18, P22: objects of the syntax tree (MzAst), built from terms and looked at from outside."""
import concurrent.futures as cf
import json

from .. import build, serve, tlc


def place(r):
    return '%d:%d' % tuple(r) if r else '-'


def term(v):
    """a value of MzAst in the notation of the harness."""
    k = v[0]
    if k == 't':
        return 't' + v[1]
    if k == 'b':
        return 'b%d' % v[1]
    if k == 'n':
        return 'n*' if v[1] < 0 else 'n%d' % v[1]
    if k == 'e':
        return 'e' + v[1]
    if k == 'm':
        return 'm%s@%s' % (term(v[1]), place(v[2]))
    if k == 'd':
        return 'd' + place(v[1])
    if k == 'l':
        return '[%s]' % ','.join(map(term, v[1]))
    if k == 'N':
        return '{%s %s}@%s' % (v[1], ','.join(map(term, v[2])), '-' if v[1] == 'compilation_unit' else place(v[3]))
    return '-'


def values(c):
    """terms of every class: single alterations, combined alterations."""
    jobs = [('single', 1, 5), ('place', 0, 1), ('pair', 3 if c.thorough else 2, 3)] + ([('single', 2, 16)] if c.thorough else [])
    runs = [(m, d, i, n) for m, d, n in jobs for i in range(n)]

    def go(x):
        m, d, i, n = x
        return tlc.run('MzAst', dict(Mode=m, Depth=d, Part=i, Parts=n), invariants=['Seen', 'KindRight', 'Emit'], emit=True, workers=1, heap='3g')
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(go, runs))
    out = {}
    for x, r in zip(runs, rs):
        c.add(r)
        c.note('MzAst:%s%d' % x[:2], states=r.states, transitions=r.transitions)
        for e in r.records:
            out[json.dumps(e['t'])] = e
    return [out[k] for k in sorted(out)]


def walks(c):
    """histories of objects (MzObjects): every short one over a few classes, random longer ones over all classes."""
    base = dict(Mode='single', Depth=1, Part=0, Parts=200)
    inv = dict(invariants=['Faithful', 'OneOwner', 'EmitO'], properties=['Apart'], emit=True, workers=1, heap='3g')
    jobs = [('all', dict(Handles=2, Most=3, Few_=[k]), None) for k in SMALL]
    if c.thorough:
        jobs += [('all', dict(Handles=2, Most=4, Few_=[k]), None) for k in SMALL[:2]]
    for i in range(40 if c.thorough else 8):
        jobs.append(('walk', dict(Handles=3, Most=40 if c.thorough else 25, Few_=[]), 100 * c.seed + i))

    def go(j):
        kind, k, seed = j
        if kind == 'all':
            return tlc.run('MzObjects', dict(base, **k), spec='SpecAll', **inv)
        return tlc.run('MzObjects', dict(base, **k), spec='SpecWalk', simulate=300 if c.thorough else 60, depth=k['Most'] + 2, seed=seed, **inv)
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(go, jobs))
    out = []
    for j, r in zip(jobs, rs):
        c.add(r)
        c.note('MzObjects:' + j[0], states=r.states, transitions=r.transitions)
        out += [x['h'] for x in r.records]
    return out


SMALL = ['name.qualified', 'scalar.literal_expression', 'query.table_reference', 'statement.set_element', 'type.row']


def step(o):
    op, h, g, path, x, _ = o
    s = '%s %d' % (op, h)
    if op in 'CMSPE':
        s += ' %d' % g
    if op in 'SPA':
        s += ' ' + '.'.join(map(str, path))
    if op in 'NA':
        s += ' ' + term(x).replace(' ', '^')
    return s


def replay(c, exe, hists, family, flags):
    """histories against the objects themselves."""
    def go(part):
        try:
            return part, serve.ask(exe, ['H ' + ' '.join(map(step, h)) for h in part])
        except serve.Crash as e:
            return part, e
    n = 8
    with cf.ThreadPoolExecutor(n) as ex:
        for part, ans in ex.map(go, [hists[i::n] for i in range(n)]):
            if isinstance(ans, Exception):
                raise ans
            for h, a in zip(part, ans):
                compare(c, h, a.rstrip('\x1e').split('\x1e'), family, flags)


def compare(c, hist, ans, family, flags):
    want, done = {}, []
    for o, a in zip(hist, ans):
        op, h, g, path, x, v = o
        done.append(step(o))
        if op == 'M':
            want.pop(g)
        if op == 'D':
            want.pop(h)
        elif op != 'E':
            want[h] = term(v)
        head, *states = a.split(' ')
        shared = states and states[-1] == 'SHARED'
        got = dict((int(s.split('=', 1)[0]), s.split('=', 1)[1].replace('^', ' ')) for s in states if s != 'SHARED')
        right = got == want and not shared
        if 'c' in flags:
            if not right or head[0] != '+':
                bad = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
                c.fail('after %s: %s' % (done[-1][:200], 'objects are shared' if shared else 'object %d is %s, not %s' % (bad[0], got.get(bad[0], 'absent')[:300], want.get(bad[0], 'absent')[:300]) if bad else 'no such place'), history=done)
                return
            c.ok(1, 'operations')
        elif not right:
            return                  # not a matter of equality
        if 'e' in flags and op == 'E':
            a_, b_ = (family.get(w[1:].split(' ')[0]) for w in (want[h], want[g]))
            if head[1:] == 'incomparable' and a_ != b_:
                continue
            if head[1:] != x:
                c.fail('%s and %s are %s, the comparison says %s' % (want[h][:300], want[g][:300], x, head[1:]), history=done)
                return
            c.ok(1, 'comparisons')


def check(c, flags):
    with cf.ThreadPoolExecutor(1) as ex:
        job = ex.submit(build.build, 'mza', PLAIN)
        recs = values(c)
        exe = job.result()
    classes = {}
    for r in recs:
        classes.setdefault(r['c'], []).append(r)
    c.note('terms', terms=len(recs), classes=len(classes))
    num = {}

    def code(x):
        return num.setdefault(json.dumps(x), len(num) + 1)
    reqs = {k: ['T %s %d %d %s %s %s' % (flags, code(['q', r['q']]), code(['p', r['p']]), r['k'] or '-', r['c'], term(r['t'])) for r in v] for k, v in classes.items()}
    # classes of one family stay together
    fam = {}
    for k, v in classes.items():
        fam.setdefault(k if v[0]['f'] == 'element' else v[0]['f'], []).append(k)

    def go(f):
        rs = [q for k in fam[f] for q in reqs[k]]
        rs += ['A ' + flags, 'X ' + flags]
        try:
            return rs, serve.ask(exe, rs)
        except serve.Crash as e:
            return rs, e
    order = sorted(fam, key=lambda f: -sum(len(reqs[k]) for k in fam[f]))
    with cf.ThreadPoolExecutor(8) as ex:
        for rs, ans in ex.map(go, order):
            if isinstance(ans, Exception):
                raise ans
            for q, a in zip(rs, ans):
                n, *bad = a.split('\x1e')
                c.ok(int(n), {'T': 'objects', 'A': 'pairs', 'X': 'classes'}[q[0]])
                for b in bad:
                    c.fail('%s: %s' % (q.split(' ')[5] if q[0] == 'T' else 'pair', b), object=q[:3000])
    if set(flags) & set('ce'):
        replay(c, exe, walks(c), {r['c']: r['c'] if r['f'] == 'element' else r['f'] for r in recs}, flags)
    for r in recs[::max(1, len(recs) // 6)]:
        c.sample('%s %s' % (r['k'], term(r['t'])))


PLAIN = ['-USERIALIZE_REGION']
CHECKS = {
    'P16': (lambda c: check(c, 'e'),),
    'P18': (lambda c: check(c, 'p'),),
    'P22': (lambda c: check(c, 'd'),),
    'P17': (lambda c: check(c, 'c'),),
}
