"""P10: parser objects in use (MzSession), replayed into the real parser; arbitrary bytes; sizes."""
import concurrent.futures as cf
import random
import subprocess

from .. import build, conf, concrete, corpus, reading, scan, serve, tlc
from ..lexicon import EOF
from .chars import judge_raw
from .compose import choose
from .sentences import observed

KINDS = conf.KINDS
# settings in which the diagnostic of a text without commas is that of the text without limits
SETTINGS = [
    dict(nl=0, dl=0, desc=True, max=5, lim=[]),
    dict(nl=100000, dl=0, desc=False, max=5, lim=[]),
    dict(nl=6, dl=0, desc=True, max=0, lim=[]),
    dict(nl=0, dl=4, desc=True, max=1, lim=[['select_element', 2]]),
    dict(nl=0, dl=0, desc=False, max=100, lim=[['select_element', 1], ['scalar_expression', 1], ['table_reference', 1], ['ordering_element', 1], ['column_reference', 1], ['set_clause', 1], ['row_expression', 1]]),
    dict(nl=100000, dl=1000, desc=True, max=3, lim=[['scalar_expression', 3], ['table_element_definition', 2]]),
]


def spec_of(o):
    return ','.join(['m%d' % o['max'], 'n%d' % o['nl'], 'd%d' % o['dl'], 'c%d' % o['desc']] + ['l%s=%d' % tuple(x) for x in o['lim']])


def shown(o):
    lim = dict(map(tuple, o['lim']))
    return ','.join(map(str, [o['max'], o['nl'], o['dl'], int(o['desc']), 0] + [lim.get(k, 0) for k in KINDS]))


def huge_of(toks):
    return ['<huge-integer>' if t == '<unsigned-integer>' else t for t in toks]


def material(c, recs, n):
    """texts with their meaning, every second one damaged."""
    rng = random.Random('session/%s' % c.seed)
    good = [x for x in recs if len(x['toks']) < 40 and (not x['err'])]
    wanted = ['?', '<delimited-identifier>', '<character-string-literal>', '<unsigned-integer>', 'CREATE', '-', ';', ',', '<hex-string-literal>', 'JOIN', 'UNION', 'CASE']
    picks = []
    for w in wanted:
        have = [x for x in good if w in x['toks']]
        picks += rng.sample(have, min(len(have), max(1, n // 30)))
    picks += [x for x in recs if x['err'] and len(x['toks']) < 30][:2]
    picks += rng.sample(good, n // 4)
    bad = [p for p in choose(c, recs, 4, n) if p['last'] and not {',', ';'} & set(p['toks'])][:n // 2]
    # sizes of types: usual ones, and ones no type can have
    sized = [x for x in good if '<unsigned-integer>' in x['toks'] and {'CHAR', 'VARCHAR', 'BINARY', 'DECIMAL', 'BIT', 'TIME', 'VARYING'} & set(x['toks'])]
    sized = sorted(sized, key=lambda x: len(x['toks']))[:4]
    picks = sized + picks
    huge = []
    R = reading.Reading(c, [huge_of(x['toks']) for x in sized], name='MzParse:sizes')
    for x in sized:
        v = R.verdict(huge_of(x['toks']))
        if v[0] == 'E':
            huge.append((x['toks'], v))
    assert huge
    bad = bad[:n // 2 - 2]
    out, ts = [], []
    for k, (toks, v) in enumerate(huge[:2]):
        out.append(dict(gr=[], err=[], tree=[], bad=[list(a) for a in v[1]]))
        ts.append((None, concrete.Text(toks, rng.random(), 'full', images={i + 1: [b'9' * 25, b'18446744073709551616'][k] for i, t in enumerate(toks) if t == '<unsigned-integer>'})))
    for x in picks[:n - len(bad) - len(out)]:
        out.append(dict(gr=x['gr'], err=x['err'], tree=x['tree'], bad=[]))
        ts.append((x, concrete.Text(x['toks'], rng.random(), rng.choice(['plain', 'full', 'full']))))
    for p in bad:
        out.append(dict(gr=[], err=[], tree=[], bad=p['last']))
        ts.append((p, concrete.Text(p['toks'] + [EOF], rng.random(), rng.choice(['plain', 'full']))))
    return out, ts


def wanted(out, x, t):
    """the acceptable answers."""
    if out[0] == 'E':
        return ['E\t%s\t%s\t%s' % (k, *(('*', '*') if b == 0 else (t.pos(b), t.pos(e)))) for k, b, e in out[1]]
    stm = x['tree'][1]
    n = len(stm) - (stm[-1][1] == 'statement.empty_statement')
    return ['V\t%d\t%d\t%d\t%s\t%s' % (n, out[1], out[2], t.comment_list(), t.statements(x['tree'], desc=out[3]))]


def fits(a, want):
    f = observed(a)
    if f in want:
        return True
    g = f.split('\t')
    return g[0] == 'E' and '\t'.join(g[:2] + ['*', '*']) in want  # a limit on the tree may be reported at any surplus node


def p10(c):
    with cf.ThreadPoolExecutor(3) as ex:
        bg = ex.submit(build.build, 'mzp')
        recs = corpus.get(c, ['prod', 'full'], walks=1000 if c.thorough else 200, fuel=40)
        exe = bg.result()
    texts, ts = material(c, recs, 90 if c.thorough else 36)
    n = len(texts)
    files = {'TextFile': texts, 'SettingFile': SETTINGS}
    r = tlc.run('MzSession', dict(Slots=1, Threads=1, Most=0, Mode='table'), files=files, emit=True, invariants=['EmitTable'], workers=1)
    table = c.add(r).records[0]['table']
    inv, prop = ['Alive', 'Emit'], ['Quiet', 'Kept']

    def go(job):
        tx, st, k = job
        return tlc.run('MzSession', k, files={'TextFile': texts[:tx], 'SettingFile': SETTINGS[:st]}, emit=True, invariants=inv, properties=prop,
                       simulate=None if k['Mode'] != 'walk' else (2500 if c.thorough else 250), depth=None if k['Mode'] != 'walk' else 6 * k['Most'], seed=c.seed if k['Mode'] == 'walk' else None, workers=2, heap='4g')
    jobs = [(n, 6 if c.thorough else 2, dict(Slots=1, Threads=1, Most=7, Mode='pairs')),
            (2, 2, dict(Slots=2, Threads=2, Most=6 if c.thorough else 5, Mode='all')),
            (n, 6, dict(Slots=3, Threads=4, Most=40, Mode='walk')),
            (n, 6, dict(Slots=1, Threads=6, Most=30, Mode='walk'))]
    with cf.ThreadPoolExecutor(len(jobs)) as ex:
        runs = list(ex.map(go, jobs))
    hs = []
    for (_, _, k), r in zip(jobs, runs):
        c.add(r)
        c.note('MzSession:' + k['Mode'], states=r.states, transitions=r.transitions, histories=len(r.records))
        hs += [x['h'] for x in r.records]
    want = {(o, t): wanted(table[o - 1][t - 1], *ts[t - 1]) for o in range(1, len(SETTINGS) + 1) for t in range(1, n + 1)}
    said = {}

    def check(o, t, a, how, h=None):
        key = (o, t)
        if not fits(a, want[key]):
            c.fail('%s: %r under %s' % (how, ts[t - 1][1].bytes.decode('utf-8', 'replace'), spec_of(SETTINGS[o - 1])), expected=want[key], observed=a, history=h)
        elif said.setdefault(key, a) != a:
            c.fail('%s: another answer than before for %r under %s' % (how, ts[t - 1][1].bytes.decode('utf-8', 'replace'), spec_of(SETTINGS[o - 1])), before=said[key], observed=a, history=h)
        else:
            c.ok(1, how)
    head = ['T ' + ' '.join(t.bytes.hex() or '-' for _, t in ts), 'O ' + ' '.join(spec_of(o) for o in SETTINGS)]
    reqs, views = [], []
    for h in hs:
        ops, view, run = [], [], {}
        for x in h:
            k, v = x[0], x[1:]
            if k == 'B':
                run[v[0]] = v
            if k == 'E':
                run.pop(v[0])
            ops.append(':'.join(map(str, [k] + ([v[0]] if k in 'XELO' else v))))
            if k in 'ELO':
                view.append((k, v))
        for p in run:  # calls still in progress are ended
            ops.append('E:%d' % p)
            view.append(('E', None))
        reqs.append('H ' + ' '.join(ops))
        views.append(view)
    k = max(1, (len(reqs) + 3) // 4)
    with cf.ThreadPoolExecutor(4) as ex:
        ans = [a for part in ex.map(lambda i: serve.ask(exe, head + reqs[i:i + k])[2:], range(0, len(reqs), k)) for a in part]
    for q, view, a in zip(reqs, views, ans):
        got = a.split('\x1e')[:-1]
        if len(got) != len(view):
            c.fail('history answered %d times instead of %d' % (len(got), len(view)), history=q, observed=a)
            continue
        for (op, v), g in zip(view, got):
            if v is None:
                continue
            if op == 'O':
                if g != shown(SETTINGS[v[1] - 1]):
                    c.fail('the options of a parser are not those given to it', expected=shown(SETTINGS[v[1] - 1]), observed=g, history=q)
                else:
                    c.ok(1, 'options')
            else:
                check(v[1], v[2], g, 'look' if op == 'L' else 'call', q)
    # many threads at once
    for seed in range(6 if c.thorough else 2):
        a = serve.ask(exe, head + ['R 8 %d %d' % (4000 if c.thorough else 700, c.seed * 100 + seed)])[2].split('\x1e')
        c.note('race', calls=int(a[0]))
        for x in a[1:-1]:
            o, t, y = x.split(':', 2)
            check(int(o), int(t), y, 'threads')
    for h in hs[::max(1, len(hs) // 5)]:
        c.sample(str(h)[:600])
    total(c)
    deep(c)


def total(c):
    """arbitrary bytes, arbitrary sizes: one answer each."""
    exe = build.build('mzh')
    rng = random.Random('total/%s' % c.seed)
    pieces = [bytes([i]) for i in range(256)] + [b'/*', b'*/', b'--', b"''", b'""', b'SELECT', b'CREATE', b' ', b';', b'(', b')', b"X'", b'1e', b'.', b'\r\n', b'\xe3\x81\x82', b'UNION JOIN', b'a', b'1', b'?', b':']
    texts = [b'', b'\0', b'\xff', b'\xef\xbb\xbf', b'\xef\xbb\xbfSELECT 1', b'SELECT 1\0', b'\0SELECT 1', b'SELECT \0 1', b"'\0'", b'"\0"', b'/*\0*/', b'--\0', b'SELECT 1;\0', b"SELECT 'a\0b'", b'a\x1ab', b'\x1a', b"'", b'"', b"'a\n", b'"a\n', b'\\', b'SELECT\xc2\xa01', b'SELECT\xe3\x80\x801']
    for _ in range(8000 if c.thorough else 700):
        k = rng.choice([1, 2, 3, 5, 8, 20])
        texts.append(b''.join(rng.choice(pieces) if rng.random() < .7 else rng.choice(pieces[256:]) for _ in range(k)))
    texts = list(dict.fromkeys(texts))
    judge_raw(c, exe, [scan.Raw(r) for r in scan.lex_file(c, texts)], 'bytes', 'zo')
    # long things: what a text means does not depend on its length
    big = 400000 if c.thorough else 60000
    for name, prefix, body, suffix in [
            ('blanks', b'', b' ', b'SELECT a'), ('comment', b'/*', b'x', b'*/SELECT a'), ('line comment', b'--', b'x', b'\nSELECT a'), ('stars', b'/*', b'*', b'*/SELECT a'),
            ('blanks behind', b'SELECT a', b'\n', b'')]:
        for k in {1, big} | {16384 * j + d for j in (1, 2) for d in range(-12, 4)} | {8192 + d for d in range(-8, 4)}:
            t = prefix + body * k + suffix
            a = serve_one(c, exe, t)
            s = t.index(b'SELECT') if name != 'comment' else len(prefix) + k + 2
            cm = '0:%d' % (s if name in ('comment', 'stars') else s - 1) if name not in ('blanks', 'blanks behind') else ''
            want = 'V\t1\t0\t0\t%s\t' % cm
            if not a.startswith(want) or '@%d:%d' % (s, s + 8) not in a:
                c.fail('%s of length %d in front of or behind SELECT a' % (name, k), expected=want + '...@%d:%d' % (s, s + 8), observed=a[:500])
            else:
                c.ok(1, 'long')
    for name, f, want in [
            ('name', lambda k: b'SELECT ' + b'a' * k, lambda k: ('a' * k, 7, 7 + k)), ('quoted', lambda k: b'SELECT "' + b'""' * k + b'x"', lambda k: ('"' * k + 'x', 7, 7 + 2 * k + 3)),
            ('string', lambda k: b"SELECT '" + b'x' * k + b"'", lambda k: ("'" + 'x' * k + "'", 7, 9 + k)), ('number', lambda k: b'SELECT ' + b'7' * k, lambda k: ('7' * k, 7, 7 + k))]:
        for k in [1, big] + [16384 + d for d in range(-10, 4)] + [8192 + d for d in range(-9, 2)]:
            a = serve_one(c, exe, f(k))
            v, b, e = want(k)
            q = concrete.quote(v.encode())
            if not a.startswith('V\t1\t') or q not in a or '@%d:%d' % (b, e) not in a:
                c.fail('%s of length %d' % (name, k), expected=q[:60], observed=a[:500])
            else:
                c.ok(1, 'long')
    for name, f in [('list', lambda k: (b'VALUES (' + b','.join([b'1'] * k) + b')', 1)), ('statements', lambda k: (b';'.join([b'SELECT 1'] * k), k)), ('open', lambda k: (b'SELECT ' + b'(' * k + b'1' + b')' * k, 1))]:
        for k in (1, 1000, big // 3):
            t, n = f(k)
            a = serve_one(c, exe, t, 'zx')
            if a != 'V\t%d\t0\t0\t\t' % n:
                c.fail('%s of %d elements' % (name, k), expected='V %d' % n, observed=a[:300])
            else:
                c.ok(1, 'long')


def serve_one(c, exe, text, opts='zo'):
    try:
        return serve.ask(exe, [serve.P(text, opts)])[0]
    except serve.Crash as e:
        return 'CRASH %s' % e.status


def deep(c):
    """texts nested very deeply; the known limit of the recursion is a listed finding."""
    exe = build.build('mzh')
    for name, f in [('not', lambda k: b'VALUES (' + b'NOT ' * k + b'a)'), ('sign', lambda k: b'VALUES (' + b'- ' * k + b'a)'), ('sum', lambda k: b'VALUES (1' + b'+1' * k + b')'), ('name', lambda k: b'SELECT a' + b'.b' * k),
                    ('query', lambda k: b'SELECT ' + b'(SELECT ' * k + b'1' + b')' * k), ('case', lambda k: b'VALUES (' + b'CASE WHEN a THEN ' * k + b'1' + b' END' * k + b')')]:
        for k in (100, 1000, 3000):
            a = serve_one(c, exe, f(k), 'zx')
            if a != 'V\t1\t0\t0\t\t':
                c.fail('%s nested %d levels deep' % (name, k), expected='V', observed=a[:300])
            else:
                c.ok(1, 'deep')
    t = b'VALUES (' + b'NOT ' * 200000 + b'a)'
    for key, opts, want in [('deep-200000', 'zx', 'V\t1\t0\t0\t\t'), ('deep-200000-limited', 'zx,d100', 'E\texceed_number_of_elements')]:
        a = serve_one(c, exe, t, opts)
        if not a.startswith(want):
            c.fail('NOT nested 200000 levels deep (%s): %s' % (opts, a[:100]), key=key)


CHECKS = {'P10': (p10,)}
