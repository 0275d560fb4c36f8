"""P01, P02, P03, P07: texts byte by byte, scanned by MzLexer and read by MzParse."""
import concurrent.futures as cf
import random

from .. import build, conf, concrete, corpus, lexicon, reading, scan, serve
from ..lexicon import EOF
from .reader import observed, outcome
from .sentences import vast

UTF = [b'\x80', b'\xbf', b'\xc2', b'\xc3', b'\xdf', b'\xe0', b'\xe3', b'\xef', b'\xf0', b'\xf4', b'\xf5', b'\xc1', b'\x7f', b'\x00', b'a', b'"']
THEMES = {
    'comments': (['/', '*', '-', '\n', '\r', 'a'], 5, 6),
    'strings': (["'", 'X', 'x', '"', ' ', '\n', b'\x80'], 4, 6),
    'names': (['"', '_', 'a', '1', ' ', b'\x7f', b'\xe3\x81\x82'], 5, 6),
    'numbers': (['0', '7', '.', 'E', 'e', '+', '-', '_'], 4, 6),
    'words': (['_', 'a', 'X', ':', '.', '*', ' ', '"', '9', "'"], 4, 5),
    'signs': (['<', '>', '=', '!', '|', '&', '@', '-', ':', '.', '*', '?', '/'], 3, 4),
    'brackets': (['(', ')', '[', ']', '{', '}', ',', ';', '^', '%', '+', '#', '$', '~', '`', '\\'], 2, 3),
    'bytes': (UTF, 3, 4),
    'phrases': (['UNION', 'join', 'Outer', 'APPLY', ' ', '\n\t', 'x', '/**/', '.', '*', '_', '--\n'], 3, 5),
    'separators': ([' ', '\t', '\n', '\v', '\f', '\r', 'a', '1', '/*', '*/', '--'], 3, 4),
}


def judge_raw(c, exe, raws, part, opts='zo', jobs=6, R=None):
    """raw texts against the reader machine."""
    R = R or reading.Reading(c, [r.symbols() for r in raws], name='MzParse:' + part)
    cf = [conf.idle(i, desc=True) for i in range(len(raws))]
    reqs = [serve.P(r.bytes, opts + (',' + f[0] if f[0] else '')) for r, f in zip(raws, cf)]
    ans = serve.ask(exe, reqs, jobs=jobs)
    acc = 0
    for r, f, q, a in zip(raws, cf, reqs, ans):
        v = R.verdict(r.symbols())
        want = outcome(r.symbols(), r, v, f[1])
        acc += v[0] == 'V'
        if observed(a) in want:
            c.ok(1, part)
        else:
            c.fail('%s: %r' % (part, r.bytes.decode('utf-8', 'replace')), expected=want, observed=a, tokens=r.toks, text=r.bytes, request=q)
    c.note(part, accepted=acc)
    return R


def squeeze(x, rng):
    """a sentence written with as few separators as may do."""
    t = concrete.Text(x, rng.random(), 'full')
    out = b''
    for i in range(1, t.n + 1):
        if i > 1:
            out += rng.choice([b'', b'', b'', b' ', b'/**/', b'--\n'])
        out += t.image[i]
    return out


def cases(w, rng):
    s = w.encode()
    mixed = bytes(rng.choice([ch, ch | 32]) if 65 <= ch <= 90 else ch for ch in s)
    return s, s.lower(), mixed


def p01(c):
    with cf.ThreadPoolExecutor(8) as ex:
        bg = ex.submit(build.build, 'mzh')
        scanner = ex.submit(build.build, 'mzs')
        runs = {n: ex.submit(scan.lex_all, c, n, a, big if c.thorough else small) for n, (a, small, big) in THEMES.items()}
        rng = random.Random('p01/%s' % c.seed)
        words = []
        for w in lexicon.WORDS:
            up, low, mix = cases(w, rng)
            words += [up, low, mix, mix + b'_', b'_' + up, up + b'1', b'1' + low, mix + b'x', b'x' + up, b'"' + up + b'"', up + b"'a'", b':' + low, up + b'.' + mix,
                      mix[:-1], mix[1:], up + b'/**/' + low, b'-' + up + b'-', mix + rng.choice(lexicon.WORDS).encode(), up + b' ' + rng.choice(lexicon.WORDS).encode()]
        atoms = sorted({bytes(a.encode('utf-8') if isinstance(a, str) else a) for v in THEMES.values() for a in v[0]}) + [w.encode() for w in rng.sample(lexicon.WORDS, 30)] + [b'1.5', b"'s'", b'id', b'"Q"', b':h', b'1E5', b"x'0a'"]
        mixed = [b''.join(rng.choice(atoms) for _ in range(rng.randrange(4, 16))) for _ in range(40000 if c.thorough else 4000)]
        frames = [b'', b'SELECT * FROM t0 WHERE ', b'SELECT ', b'SELECT a', b'INSERT INTO t VALUES (1, ', b'TABLE a ', b'CREATE TABLE t (a ', b'SELECT 1', b"SELECT 'a'"]
        framed = [rng.choice(frames) + m[:rng.choice([1, 2, 4, 30])] + rng.choice([b'', b'', b' FROM t1', b')']) for m in mixed]
        recs = corpus.get(c, ['prod'], walks=200)
        tight = [squeeze(x['toks'], rng) for x in recs for _ in range(6 if c.thorough else 2)]
        texts = words + mixed + framed + tight
        got = scan.lex_file(c, texts)
        try:
            sexe = scanner.result()
        except build.BuildError:
            sexe = None  # the scanner is only seen through the parser then
        exe = bg.result()
        allrecs = [r for n in THEMES for r in runs[n].result()] + got
    raws = [scan.Raw(r) for r in allrecs]
    # tokens and gaps of enormous length
    far = [concrete.Text(x['toks'], rng.random(), 'vast') for x in rng.sample(recs, min(len(recs), 600 if c.thorough else 120))]
    vast(c, recs, 2000 if c.thorough else 150)
    if sexe:
        ans = serve.ask(sexe, ['S ' + r.bytes.hex() for r in raws + far], jobs=6)
        for r, a in zip(raws + far, ans):
            if a == r.scanned():
                c.ok(1, 'tokens')
            else:
                c.fail('tokens of %r' % r.bytes[:2000].decode('utf-8', 'replace'), expected=r.scanned(), observed=a, text=r.bytes)
    else:
        c.note('tokens', internal_scanner_not_reachable=1)
    extra = rng.sample(raws[:-len(got)], 60000 if c.thorough else 6000)
    judge_raw(c, exe, [scan.Raw(r) for r in got] + extra, 'texts')
    for r in raws[::len(raws) // 6]:
        c.sample({'text': r.bytes.decode('utf-8', 'replace'), 'tokens': r.scanned()})


FREE = ['FOO', 'A', 'X', 'SELECTED', 'TABLES', 'NAME', 'TYPE', 'STATUS', 'DATA', 'NAMES', 'ROLE_', 'KEYS', 'VALUE_', 'UNIONJOIN', 'OUTERAPPLY', 'E', 'E1', 'X1', 'INDEXES', 'END_EXEC', '_X', 'DATABASE', 'TEXT', 'JSON', 'UUID', 'COMMENT', 'REPLACED', 'OFFSET_', 'I', '_']


def p02(c):
    """every word at the places where names stand."""
    with cf.ThreadPoolExecutor(4) as ex:
        bg = ex.submit(build.build, 'mzh')
        recs = corpus.get(c, ['prod', 'full'] + (['pair'] if c.thorough else []), walks=100)
        exe = bg.result()
    rng = random.Random('p02/%s' % c.seed)
    recs = sorted((x for x in recs if not x['err']), key=lambda x: len(x['toks']))
    # one sentence for each kind of place: the terminals around a name
    places = {}
    for x in recs:
        for i, t in enumerate(x['toks']):
            if t in lexicon.NAMES:
                ctx = (x['toks'][i - 2:i], x['toks'][i - 1:i], x['toks'][i + 1:i + 2])
                places.setdefault(str(ctx), (x['toks'], i))
    places = [places[k] for k in sorted(places)]
    rng.shuffle(places)
    texts = []
    many = len(places) if c.thorough else 8
    for n, (toks, i) in enumerate(places):
        t = concrete.Text(toks, c.seed + n, 'plain')
        b, e = t.span[i + 1]

        def put(img):
            texts.append(t.bytes[:b] + img + t.bytes[e:])
        ws = lexicon.WORDS if n < many else rng.sample(lexicon.WORDS, 5)
        for w in ws:
            put(rng.choice(cases(w, rng)))
        for w in (lexicon.CONTEXTUAL if n < many else rng.sample(lexicon.CONTEXTUAL, 4)):
            put(rng.choice(cases(w, rng)))
        for w in (FREE if n < many else rng.sample(FREE, 2)):
            put(rng.choice(cases(w, rng)))
        for w in (lexicon.WORDS if n < many // 3 else rng.sample(lexicon.WORDS, 2)) + rng.sample(FREE, 1):
            put(b'"' + rng.choice(cases(w, rng)) + b'"')
    # contextual words as names everywhere at once
    for x in recs:
        if any(t in lexicon.NAMES for t in x['toks']):
            for _ in range(2):
                t = concrete.Text(x['toks'], rng.random(), 'full', images={i + 1: rng.choice(cases(rng.choice(lexicon.CONTEXTUAL), rng)) for i, k in enumerate(x['toks']) if k == '<identifier>'})
                texts.append(t.bytes)
    texts = list(dict.fromkeys(texts))
    c.note('places', kinds=len(places), texts=len(texts))
    raws = [scan.Raw(r) for r in scan.lex_file(c, texts)]
    judge_raw(c, exe, raws, 'words')
    for r in raws[::max(1, len(raws) // 6)]:
        c.sample(r.bytes.decode('utf-8', 'replace'))


def variants(c, exe, recs, pick, images, per, part, seed, opts='zo'):
    """sentences in which the tokens chosen by pick are written with the given images."""
    rng = random.Random('%s/%s' % (part, seed))
    places = {}
    for x in recs:
        for i, t in enumerate(x['toks']):
            if pick(t):
                places.setdefault((t, str((x['toks'][max(0, i - 2):i], x['toks'][i + 1:i + 2]))), (x['toks'], i))
    places = [places[k] for k in sorted(places)]
    texts = []
    todo = list(images)
    rng.shuffle(todo)
    k = 0
    for n, (toks, i) in enumerate(places):
        t = concrete.Text(toks, seed + n, 'plain')
        b, e = t.span[i + 1]
        for _ in range(per):
            texts.append(t.bytes[:b] + todo[k % len(todo)] + t.bytes[e:])
            k += 1
    while k < len(todo):
        toks, i = rng.choice(places)
        t = concrete.Text(toks, seed, 'plain')
        b, e = t.span[i + 1]
        texts.append(t.bytes[:b] + todo[k] + t.bytes[e:])
        k += 1
    # all such tokens of a sentence at once
    for x in recs:
        idx = [i for i, t in enumerate(x['toks']) if pick(t)]
        if len(idx) > 1:
            t = concrete.Text(x['toks'], rng.random(), 'full', images={i + 1: rng.choice(todo) for i in idx})
            texts.append(t.bytes)
    texts = list(dict.fromkeys(texts))
    c.note(part, places=len(places), texts=len(texts))
    raws = [scan.Raw(r) for r in scan.lex_file(c, texts, name=part)]
    judge_raw(c, exe, raws, part, opts)
    for r in raws[::max(1, len(raws) // 4)]:
        c.sample(r.bytes.decode('utf-8', 'replace'))


def tokens_of(recs, classes):
    """images that are one token of the given classes by themselves."""
    return [bytes(r['x']) for r in recs if len(r['k']) == 2 and r['k'][0][0] in classes and r['k'][0][2] == len(r['x']) and not r['c']]


def p03(c):
    with cf.ThreadPoolExecutor(8) as ex:
        bg = ex.submit(build.build, 'mzh')
        k = 6 if c.thorough else 5
        runs = [ex.submit(scan.lex_all, c, 'quoted', ['"', '_', 'a', 'B', ' ', b'\xe3\x81\x82'], k),
                ex.submit(scan.lex_all, c, 'unquoted', ['_', 'a', 'B', '0', 'z9', '"'], k),
                ex.submit(scan.lex_all, c, 'odd quoted', ['"', "'", '.', '--', '/*', '?', ';', '\\', b'\x80', 'SELECT'], k - 1),
                ex.submit(scan.lex_all, c, 'host', [':', '_', 'a', 'B', '0'], k)]
        recs = corpus.get(c, ['prod', 'full'] + (['pair'] if c.thorough else []), walks=100)
        runs = [r.result() for r in runs]
        exe = bg.result()
    recs = sorted((x for x in recs if not x['err']), key=lambda x: len(x['toks']))
    rng = random.Random('p03/%s' % c.seed)
    names = [x for r in runs[:3] for x in tokens_of(r, {'<identifier>', '<delimited-identifier>', 'REGULAR_IDENTIFIER_RESTRICTED', 'DELIMITED_IDENTIFIER_RESTRICTED'})]
    hosts = tokens_of(runs[3], {'<host-parameter-name>'})
    # long names, and longer runs of quotes
    names += [b'n' * 300, b'"' + b'q' * 500 + b'"', b'"' + b'""' * 40 + b'"', b'"' + b'a""' * 33 + b'"', b'_' * 3, b'"_a"', b'"_"', b'_1', b'"_""_"', b'"' + bytes(range(128, 256)) + b'"',
              b'"' + bytes(i for i in range(32, 127) if i != 34) + b'"']
    c.note('names', spellings=len(names))
    variants(c, exe, recs, lambda t: t in lexicon.NAMES, names, 12 if c.thorough else 3, 'names', c.seed)
    variants(c, exe, recs, lambda t: t == '<host-parameter-name>', hosts, 8, 'hosts', c.seed)
    # qualified names keep all their parts in order
    texts = []
    for n in range(1, 9):
        for ctx in (b'SELECT %s', b'TABLE %s', b'SELECT * FROM %s', b'DELETE FROM %s', b'SELECT %s.*', b'SELECT %s(1)', b'DROP TABLE %s', b'CREATE TABLE %s (a INT)', b'INSERT INTO %s DEFAULT VALUES', b'UPDATE a SET b = %s', b'VALUES (NEXT VALUE FOR %s)', b'VALUES (a::%s)', b'VALUES ((%s))', b'VALUES (:h.%s)', b'VALUES ((1).%s)'):
            for _ in range(6 if c.thorough else 2):
                texts.append(ctx % rng.choice([b'.', b' . ', b'/**/.']).join(rng.choice(names if rng.random() < .3 else [b'a', b'"b"', b'C', b'"D.e"', b'key', b'"__"', b'_x']) for _ in range(n)))
    judge_raw(c, exe, [scan.Raw(r) for r in scan.lex_file(c, texts, name='qualified')], 'qualified')
    vast(c, recs, 3000 if c.thorough else 300, want=lambda x: set(x['toks']) & {'<identifier>', '<delimited-identifier>', '<host-parameter-name>'})


SIZES = [b'0', b'1', b'00', b'007', b'9', b'10', b'255', b'2147483647', b'2147483648', b'4294967295', b'4294967296', b'9223372036854775807', b'9223372036854775808',
         b'18446744073709551613', b'18446744073709551614', b'18446744073709551615', b'18446744073709551616', b'18446744073709551617', b'18446744073709551620', b'19446744073709551614',
         b'28446744073709551614', b'99999999999999999999', b'100000000000000000000', b'000000000000000000000000000001', b'00018446744073709551614', b'00018446744073709551615',
         b'0' * 60, b'1' + b'0' * 40, b'340282366920938463463374607431768211456', b'36893488147419103232', b'55340232221128654848']


def p07(c):
    with cf.ThreadPoolExecutor(8) as ex:
        bg = ex.submit(build.build, 'mzh')
        k = 6 if c.thorough else 5
        runs = [ex.submit(scan.lex_all, c, 'numbers', ['0', '7', '.', 'E', 'e', '+', '-'], k),
                ex.submit(scan.lex_all, c, 'strings', ["'", 'a', 'X', ' ', '\n', '"', b'\xe3\x81\x82'], k),
                ex.submit(scan.lex_all, c, 'hex', ["x'", 'X', "'", '0', 'aF', ' '], k)]
        recs = corpus.get(c, ['prod', 'full', 'pair'], walks=100)
        runs = [r.result() for r in runs]
        exe = bg.result()
    rng = random.Random('p07/%s' % c.seed)
    recs = sorted((x for x in recs if not x['err']), key=lambda x: len(x['toks']))
    nums = tokens_of(runs[0], {'<unsigned-integer>', '<exact-numeric-literal>', '<approximate-numeric-literal>'})
    strs = tokens_of(runs[1], {'<character-string-literal>'})
    hexs = tokens_of(runs[2] + runs[1], {'<hex-string-literal>'})
    nums += SIZES + [b'1' * 200, b'0.' + b'0' * 90 + b'1', b'1E999999999999999999999', b'0.0E-0', b'00.00']
    strs += [b"'" + b"''" * 30 + b"'", b"'" + b'x' * 999 + b"'", b"'" + bytes(i for i in range(256) if i != 39) + b"'"]
    ints = [x for x in nums if x.isdigit()]
    lits = {'<unsigned-integer>', '<exact-numeric-literal>', '<approximate-numeric-literal>', '<character-string-literal>', '<hex-string-literal>'}
    per = 8 if c.thorough else 2
    variants(c, exe, recs, lambda t: t == '<unsigned-integer>', ints, per * 3, 'integers', c.seed)
    variants(c, exe, recs, lambda t: t in ('<exact-numeric-literal>', '<approximate-numeric-literal>'), [x for x in nums if not x.isdigit()], per, 'numbers', c.seed)
    variants(c, exe, recs, lambda t: t == '<character-string-literal>', strs, per, 'strings', c.seed)
    variants(c, exe, recs, lambda t: t == '<hex-string-literal>', hexs, per, 'hex', c.seed)
    # signs in front of operands, adjacent string pieces
    texts = []
    lit = lambda: rng.choice([rng.choice(nums), rng.choice(nums), rng.choice(nums), b'a', b"'s'", b'?', b':h', b'TRUE', b'NULL', b'(1)', b'(a)', b'((2.5))', b'f(1)', b'(-3)', b"DATE'x'"])  # noqa: E731
    for _ in range(20000 if c.thorough else 2500):
        e = b''.join(rng.choice([b'-', b'+', b'- ', b'+ ', b' -', b'-(', b'+(', b'']) for _ in range(rng.randrange(4)))
        e = e.replace(b'--', b'- -') + lit()
        e += b')' * (e.count(b'(') - e.count(b')'))
        if rng.random() < .5:
            e = lit() + rng.choice([b'-', b' - ', b' -', b'- ', b'+', b' +', b'*', b'*-', b' AT TIME ZONE ', b' AT TIME ZONE -', b' BETWEEN -1 AND ', b' || ']) + e
        texts.append(rng.choice([b'VALUES (%s)', b'SELECT %s FROM t', b'SELECT * FROM t LIMIT %s', b'CREATE SEQUENCE s START %s', b'UPDATE t SET a = %s', b'CREATE TABLE t (a INT DEFAULT %s)']) % e)
    small = [x for x in strs if len(x) < 20]
    for _ in range(4000 if c.thorough else 600):
        ps = [rng.choice(small) for _ in range(rng.randrange(1, 6))]
        texts.append(b'VALUES (' + b''.join(p + rng.choice([b' ', b'\n', b'/**/', b'--x\n', b'']) for p in ps) + b')')
        ps = [rng.choice(hexs)] + [rng.choice(small) for _ in range(rng.randrange(4))]
        texts.append(b'VALUES (' + rng.choice([b' ', b'\n', b'/**/', b'']).join(ps) + b')')
    judge_raw(c, exe, [scan.Raw(r) for r in scan.lex_file(c, list(dict.fromkeys(texts)), name='signs')], 'signs')
    vast(c, recs, 3000 if c.thorough else 300, want=lambda x: set(x['toks']) & lits)


CHECKS = {'P01': (p01,), 'P02': (p02,), 'P03': (p03,), 'P07': (p07,)}
