"""P04, P08, P09: texts that may or may not be sentences, judged by the reader machine (MzParse)."""
import random

from .. import build, conf, concrete, corpus, lexicon, reading, serve
from ..lexicon import EOF, ERROR, UNCLOSED


def outcome(x, t, v, measure=False, desc=True):
    """the answers the parser may give: sequence x laid out as t, with verdict v."""
    if v[0] == 'E':
        return ['E\t%s\t%d\t%d' % (code, t.pos(b), t.pos(e)) for code, b, e in v[1]]
    _, tree, n, d, _gr = v[1]
    stm = tree[1]
    last = 1 if stm[-1][1] == 'statement.empty_statement' else 0
    n, d = (n - last, 0 if last and len(stm) == 1 else d) if measure else (0, 0)
    return ['V\t%d\t%d\t%d\t%s\t%s' % (len(stm) - last, n, d, t.comment_list(), t.statements(tree, desc=desc))]


def observed(a):
    return '\t'.join(a.split('\t')[:4]) if a[:1] == 'E' else a


def judge(c, exe, R, seqs, layouts, part, opts='zo'):
    """every sequence in every layout; the settings that make no difference take turns."""
    for n, (seed, layout) in enumerate(layouts):
        ts = [concrete.Text(x, seed, layout) for x in seqs]
        cf = [conf.idle(n + i) for i in range(len(seqs))]
        reqs = [serve.P(t.bytes, opts + (',' + f[0] if f[0] else '')) for t, f in zip(ts, cf)]
        ans = serve.ask(exe, reqs, jobs=6)
        for x, t, f, q, a in zip(seqs, ts, cf, reqs, ans):
            want = outcome(x, t, R.verdict(x), f[1], f[2])
            if observed(a) in want:
                c.ok(1, part)
            else:
                c.fail('%s: %r' % (layout, t.bytes[:2000].decode('utf-8', 'replace')), expected=want, observed=a, tokens=x, text=t.bytes, request=q)


def corpora(c, modes, walks, fuel=50):
    recs, exe = corpus.get(c, modes, walks=walks, fuel=fuel, background=[lambda: build.build('mzh')])
    return [list(x['toks']) for x in recs], recs, exe


def plain(toks):
    return concrete.Text(list(toks), 0, 'plain')


def p04(c):
    """accepted iff a sentence; every token tried behind every viable prefix."""
    seqs, recs, exe = corpora(c, ['prod', 'pair', 'sib', 'full'] if c.thorough else ['prod', 'pair', 'full'], 4000 if c.thorough else 400)
    mut = reading.mutants(recs, 300000 if c.thorough else 16000, c.seed)
    R = reading.Reading(c, seqs + mut, parts=32 if c.thorough else 8)
    judge(c, exe, R, seqs + mut, [(c.seed, 'plain'), (c.seed, 'full')], 'texts')
    c.note('texts', accepted=sum(R.verdict(x)[0] == 'V' for x in mut))
    # every prefix of a sentence, every token behind it
    rng = random.Random('after/%s' % c.seed)
    pre = sorted((k, r) for k, r in R.prefixes() if not r['e'] and not r['s'] and EOF not in k)
    rng.shuffle(pre)
    pre = pre[:40000 if c.thorough else 3000]
    reqs, jobs = [], []
    for k, r in pre:
        legal = set(r['l']) | set(r['m'])
        ts = [t for t in lexicon.ALL if not (k and (k[-1], t) in reading.FUSED)]
        t0 = plain(k).bytes + (b' ' if k else b'')
        n = len(k) + 1
        ims = [concrete.image(t, n, rng) for t in ts]
        reqs.append('A - %s %s' % (t0.hex() or '-', ','.join(x.hex() for x in ims)))
        jobs.append((k, t0, ts, ims, ''.join('1' if t in legal else 'c' if t == ERROR else 'i' if t in lexicon.RESTRICTED else 'u' for t in ts)))
    ans = serve.ask(exe, reqs, jobs=6)
    again = []
    for (k, t0, ts, ims, want), a in zip(jobs, ans):
        if a == want:
            c.ok(len(ts), 'continuations')
            continue
        for t, im, w, g in zip(ts, ims, want, a.ljust(len(ts), '-')):
            if w == '1' and g in 'xy':
                # a condition may be violated by what this token completes
                again.append(list(k) + [t, ERROR, EOF])
                continue
            if w != g:
                text = t0 + im + b' \\'
                c.fail('%s behind %r is %s' % (t, t0.decode('utf-8', 'replace'), 'legal' if w == '1' else 'illegal'), expected=w, observed=g, tokens=list(k) + [t], text=text, request=serve.P(text))
                break
    if again:
        R = reading.Reading(c, again, name='MzParse:again')
        judge(c, exe, R, again, [(c.seed, 'plain')], 'continuations')
        c.note('continuations', violating=len(again))


TAILS = [b'', b' ', b' ;', b' SELECT', b' )', b' /* x', b" 'x", b' "', b' \\', b' \x00\xff', b' FROM t0 WHERE 1', b'\n-- x', b' ; SELECT * FROM t0 ; ', b' \xe3\x81', b' __x']


def p08(c):
    """one diagnostic, at the first offending token, whatever follows."""
    seqs, recs, exe = corpora(c, ['prod', 'pair', 'sib', 'full'] if c.thorough else ['prod', 'pair', 'full'], 4000 if c.thorough else 400)
    mut = reading.mutants(recs, 300000 if c.thorough else 14000, c.seed + 500)
    # what ends early or holds a character or name no text may hold
    rng = random.Random('p08/%s' % c.seed)
    for s in seqs:
        i = rng.randrange(len(s))
        mut += [s[:i] + [EOF], s[:i] + [UNCLOSED], s[:i] + [ERROR] + s[i:], s[:i] + [rng.choice(lexicon.RESTRICTED)] + s[i:]]
    mut = [list(x) for x in dict.fromkeys(tuple(reading.fuse(m)) for m in mut)]
    R = reading.Reading(c, seqs + mut, parts=32 if c.thorough else 8)
    bad = [x for x in seqs + mut if R.verdict(x)[0] == 'E']
    judge(c, exe, R, bad, [(c.seed + i, l) for i, l in enumerate(['plain', 'full', 'tight'] + (['full'] * 3 if c.thorough else []))], 'diagnostics')
    # the same diagnostic, message included, whatever follows the offending token
    import collections
    codes = collections.Counter(R.verdict(x)[1][0][0] for x in bad)
    c.note('diagnostics', **{k: v for k, v in codes.items()})
    if len(codes) < 5:
        c.fail('the corpus does not reach all kinds of diagnostics: %s' % codes)
    rest = [x for x in bad if EOF not in x[:R.verdict(x)[2]] and x[R.verdict(x)[2] - 1] != UNCLOSED]
    rng.shuffle(rest)
    rest = rest[:40000 if c.thorough else 6000]
    reqs, info = [], []
    for x in rest:
        v = R.verdict(x)
        t = concrete.Text(x, c.seed, 'full')
        cut = t.span[v[2]][1]
        whole, head = t.bytes, t.bytes[:cut]
        ends = {}
        texts = [whole] + [head + b for b in rng.sample(TAILS, 4)]
        info.append((x, t, v, texts, len(reqs)))
        reqs += [serve.P(y, 'zx') for y in texts]
    ans = serve.ask(exe, reqs, jobs=6)
    for x, t, v, texts, k in info:
        got = ans[k:k + len(texts)]
        want = outcome(x, t, v)
        for y, a in zip(texts, got):
            if observed(a) not in want or a != got[0]:
                c.fail('the diagnostic changes with what follows: %r' % y.decode('utf-8', 'replace'), expected=want, first=got[0], observed=a, text=y, request=serve.P(y, 'zx'))
                break
        else:
            c.ok(len(texts), 'suffixes')


def spell(text, names):
    """splits 'A, B, C' into known token names (a name may be a comma); None if impossible."""
    n = len(text)
    best = {n: []}
    for i in range(n - 1, -1, -1):
        if not (i == 0 or text[:i].endswith(', ')):
            continue
        for w in names.get(text[i], ()):
            if text.startswith(w, i):
                j = i + len(w)
                if j == n:
                    best[i] = [w]
                elif text.startswith(', ', j) and j + 2 in best:
                    best[i] = [w] + best[j + 2]
    return best.get(0)


def p09(c):
    """suggestions are exactly the legal continuations."""
    seqs, recs, exe = corpora(c, ['prod', 'pair', 'sib', 'full'] if c.thorough else ['prod', 'pair', 'full'], 4000 if c.thorough else 500)
    mut = reading.mutants(recs, 60000 if c.thorough else 6000, c.seed + 900)
    R = reading.Reading(c, seqs + mut, parts=32 if c.thorough else 8)
    rng = random.Random('p09/%s' % c.seed)
    names = {}
    for w in set(lexicon.ALL) | {EOF, UNCLOSED}:
        names.setdefault(w[0], []).append(w)
    pre = sorted((k, r) for k, r in R.prefixes() if not r['e'] and not r['s'] and EOF not in k)
    rng.shuffle(pre)
    pre = pre[:60000 if c.thorough else 9000]
    reqs, info = [], []
    for k, r in pre:
        # ended too early, or by a token that cannot stand there
        legal = set(r['l']) | set(r['m'])
        stops = [] if EOF in legal else [EOF]
        stops += [t for t in rng.sample(lexicon.PLAIN, 24) if t not in legal and not (k and (k[-1], t) in reading.FUSED)][:2]
        for s in stops[:2]:
            t = concrete.Text(list(k) + [s] + ([EOF] if s not in (EOF, UNCLOSED) else []), c.seed, 'full')
            full = len(r['l'])
            for m in (100000, None, rng.choice([0, 1, 2, 3, full - 1, full, full + 1, rng.randrange(full + 1)])):
                m = None if m is None else max(m, 0)
                info.append((k, r, s, t, m))
                reqs.append(serve.P(t.bytes, 'zx' + ('' if m is None else ',m%d' % m)))
    ans = serve.ask(exe, reqs, jobs=6)
    import re
    seen = 0
    for (k, r, s, t, m), a, q in zip(info, ans, reqs):
        f = a.split('\t')
        place = 2 * len(k) + 2
        what = None
        if f[0] != 'E' or f[2] != str(t.pos(place)):
            what = 'not rejected at the offending token'
        else:
            msg = bytes.fromhex(f[4]).decode('utf-8', 'replace')
            limit = 5 if m is None else m
            got = re.search(r'expected one of \{(.*)\}$', msg, re.S)
            want = set(r['l'])
            if limit == 0:
                if got or 'one of' in msg or '...' in msg:
                    what = 'a list although none was asked for'
            elif not want:
                if got and got.group(1).strip():
                    what = 'suggestions although nothing can follow'
            elif not got:
                what = 'no list of suggestions'
            else:
                body = got.group(1)
                cut = len(want) > limit
                more = False
                if body.endswith(', ...'):
                    body, more = body[:-5], True
                elif body == '...':
                    body, more = '', True
                items = spell(body, names) if body else []
                if items is None:
                    what = 'unknown names among the suggestions'
                elif len(set(items)) != len(items):
                    what = 'a suggestion is given twice'
                elif not set(items) <= want:
                    what = 'suggests what cannot follow: %s' % sorted(set(items) - want)
                elif len(items) != min(limit, len(want)):
                    what = '%d suggestions, %d expected, missing %s' % (len(items), min(limit, len(want)), sorted(want - set(items))[:20])
                elif more != cut:
                    what = 'ellipsis %s' % ('although all are listed' if more else 'missing')
                else:
                    seen += len(items)
        if what:
            c.fail('%s: %r (maximum %s)' % (what, t.bytes.decode('utf-8', 'replace'), m), message=bytes.fromhex(f[4]) if len(f) > 4 else a, expected=sorted(r['l']), text=t.bytes, request=q)
        else:
            c.ok(1, 'messages')
    c.note('messages', suggestions=seen)
    c.sample({'prefix': list(pre[0][0]), 'continuations': sorted(pre[0][1]['l'])[:40]})


CHECKS = {
    'P04': (p04,),
    'P08': (p08,),
    'P09': (p09,),
}
