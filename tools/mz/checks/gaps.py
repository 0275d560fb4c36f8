"""P14, P15: placeholders and comments, scanned by MzLexer and read by MzParse."""
import concurrent.futures as cf
import itertools
import random

from .. import build, concrete, corpus, lexicon, scan, serve
from ..lexicon import EOF
from . import compose
from .chars import judge_raw
from .reader import judge
from .sentences import vast

VALUE = {'<identifier>', '<delimited-identifier>', '<unsigned-integer>', '<exact-numeric-literal>', '<approximate-numeric-literal>',
         '<character-string-literal>', '<hex-string-literal>', '<host-parameter-name>', 'NULL', 'TRUE', 'FALSE', 'DEFAULT', '*', '?'}
DECOY = [b"'?'", b'"?"', b'"?""?"', b'/* ? */', b'/*?*/', b'-- ?\n', b"'it''s ?'", b"x'3f'", b':q']


def p14(c):
    with cf.ThreadPoolExecutor(2) as ex:
        bg = ex.submit(build.build, 'mzh')
        recs = corpus.get(c, ['prod', 'full'] + (['pair', 'sib'] if c.thorough else []), walks=2000 if c.thorough else 300)
        exe = bg.result()
    rng = random.Random('p14/%s' % c.seed)
    sents = [x['toks'][:-1] for x in recs if not x['err'] and x['toks'][-1] == EOF]
    texts = []

    def write(toks):
        t = concrete.Text(toks + [EOF], rng.random(), rng.choice(['plain', 'full', 'full']))
        return t.bytes

    def marked(toks):
        # each value alone, all at once, and a random choice of them
        at = [i for i, t in enumerate(toks) if t in VALUE]
        for i in at:
            yield [('?' if j == i else t) for j, t in enumerate(toks)]
        for _ in range(2 if len(at) > 1 else 0):
            p = rng.choice([.3, .6, 1])
            yield [('?' if t in VALUE and t != '<identifier>' and rng.random() < p or t == '<identifier>' and rng.random() < p / 3 else t) for t in toks]
    some = []
    for s in sents:
        some += list(marked(s))
    rng.shuffle(some)
    some = some[:30000 if c.thorough else 3000]
    texts += [write(s) for s in some]
    for _ in range(6000 if c.thorough else 700):
        parts = [rng.choice(some) for _ in range(rng.randrange(2, 5))]
        texts.append(rng.choice([b';', b' ; ', b';\n-- ?\n', b'; /* ? */']).join(write(p).rstrip(b'/') for p in parts))
    # many placeholders among things that only look alike
    exprs = [b'?', b'(?)', b'? + ?', b'f(?, ?)', b'CASE ? WHEN ? THEN ? ELSE ? END', b'CAST(? AS INT)', b'? BETWEEN ? AND ?', b'? IN (?, ?)', b'(SELECT ? FROM t WHERE ? = ?)', b'-?', b'NOT ?',
             b'? IS NULL', b'ARRAY[?, ?]', b'?.a', b'? || ?', b'EXISTS (SELECT ?)', b'TRIM(? FROM ?)', b'? LIKE ? ESCAPE ?', b'?::INT', b'COUNT(?)', b'?[?]', b'ROW(?, ?)', b'a.b(?)', b':h', b'1', b"'?'", b'"?"', b'NULL']
    for n in list(range(1, 30)) + [100, 300]:
        for _ in range(6 if c.thorough else 2):
            sep = lambda: rng.choice([b',', b', ', b' /* ? */,', b', -- ?\n', b' , '])  # noqa: E731
            es = [rng.choice(exprs if rng.random() < .7 else DECOY[:3] + [b'?']) for _ in range(n)]
            texts.append(rng.choice([b'VALUES (%s)', b'SELECT %s FROM t WHERE ? = ? LIMIT ?', b'INSERT INTO t VALUES (%s), (?)', b'SELECT a FROM f(%s) AS x', b'UPDATE t SET a = (%s)', b'DELETE FROM t WHERE x IN (%s)', b'SELECT ? UNION SELECT %s'])
                         % b''.join(e + (sep() if i < n - 1 else b'') for i, e in enumerate(es)))
    texts = list(dict.fromkeys(texts))
    raws = [scan.Raw(r) for r in scan.lex_file(c, texts)]
    R = judge_raw(c, exe, raws, 'placeholders', 'zo')
    far = [r.toks for r in raws if '?' in r.toks and not any(r.huge.values())]
    judge(c, exe, R, rng.sample(far, 4000 if c.thorough else 400), [(c.seed, 'vast')], 'vast')
    # very many of them
    one = sorted(((r.toks, []) for r in raws if '?' in r.toks and not any(r.huge.values()) and len(r.toks) < 12 and R.verdict(r.toks)[0] == 'V'), key=lambda x: (len(x[0]), x))
    compose.bulk(c, exe, compose.choose(c, [dict(toks=t, err=e) for t, e in one[:40]], 12, 4), 'very many')
    for x in texts[-6:]:
        c.sample(x.decode('utf-8', 'replace')[:300])


SHAPES = [b'/**/', b'/***/', b'/****/', b'/** a */', b'/* a */', b'/**b*/', b'/*** c **/', b'-- d\n', b'/*\n*/', b'/** e\n * f\n */', b'/*/ */', b'/**/ /', b'--/** */\n', b'/** --*/', b"/** ' */", b'/** " */',
          b'/** ; */', b'/* /** */', b'/**\xe3\x81\x82*/', b'/**\xff*/', b'-- \r\n', b'--\n', b'/** x', b'/*', b'*/', b'/**\n', b'\n', b' ', b'/* ** */', b'/** /* */', b'/*\t*/']
GOOD = SHAPES[:11] + SHAPES[12:21] + SHAPES[28:]
ATOMS = [b'/', b'*', b'/*', b'*/', b'-', b'\n', b' ', b'x', b'\r']
# texts with places (@) for gaps
FRAMES = [b'@CREATE@ TABLE@ t (@a@ INT@,@ b@ INT@ PRIMARY KEY@,@ PRIMARY KEY(a)@)@', b'@CREATE INDEX i ON t (@a@)@', b'@CREATE VIEW v @AS SELECT @1@', b'@CREATE SEQUENCE@ s@', b'@CREATE@ SCHEMA s@ CREATE TABLE t (@a INT) @CREATE INDEX ON t (a)@',
          b'@CREATE OR REPLACE @VIEW v (@a@) AS VALUES (@1@)', b'@SELECT@ a@.@b@ FROM@ t@;@ DELETE@ FROM@ u@', b'@', b'@;@', b"@INSERT INTO t VALUES@ (@'a'@ 'b'@,@-@1@,@a@.@*@)", b'@DROP TABLE t@;@CREATE TABLE u (@"a"@ @INT@)@;@', b'SELECT@*@FROM@a@UNION@JOIN@b@',
          b'@CREATE TEMPORARY TABLE t (@key@ INT@ @,@CONSTRAINT c UNIQUE (@a@)@)@', b'@CREATE TABLE IF NOT EXISTS t (@a INT DEFAULT @1 @NOT NULL@,@b@ INT)@', b'@ALTER TABLE t @ADD COLUMN@ c INT@', b'@CREATE UNIQUE INDEX IF NOT EXISTS i @ON t (a)@']


def p15(c):
    with cf.ThreadPoolExecutor(2) as ex:
        bg = ex.submit(build.build, 'mzh')
        recs = corpus.get(c, ['prod', 'full'], walks=1500 if c.thorough else 200)
        exe = bg.result()
    rng = random.Random('p15/%s' % c.seed)
    texts = []

    def fill(f, gaps):
        p = f.split(b'@')
        return b''.join(x + (gaps.get(i, b'') if i < len(p) - 1 else b'') for i, x in enumerate(p))

    def gap(k):
        return b' ' + b''.join(rng.choice(GOOD) + rng.choice([b'', b' ', b'\n']) for _ in range(k)) + b' '
    # all short gaps, in front of declarations
    for k in (range(1, 6) if c.thorough else range(1, 4)):
        for g in itertools.product(ATOMS, repeat=k):
            f = FRAMES[rng.randrange(3)] if k > 2 else FRAMES[0]
            texts.append(fill(f, {0 if rng.random() < .5 or f is not FRAMES[0] else 3: b' ' + b''.join(g) + b' '}))
    # one or two comments of each shape at each place
    for f in FRAMES:
        n = f.count(b'@')
        for i in range(n):
            for s in SHAPES:
                if c.thorough or rng.random() < .35:
                    texts.append(fill(f, {i: b' ' + s + rng.choice([b' ', b'', b'\n'])}))
            for _ in range(40 if c.thorough else 4):
                texts.append(fill(f, {i: gap(rng.randrange(2, 5))}))
        for _ in range(400 if c.thorough else 50):
            texts.append(fill(f, {i: gap(rng.randrange(1, 4)) for i in range(n) if rng.random() < .5}))
    # anywhere in sentences
    for x in recs:
        if not x['err'] and rng.random() < .6:
            toks = x['toks']
            t = concrete.Text(toks, c.seed, 'plain', gaps={i: [gap(rng.randrange(1, 3))] for i in range(1, len(toks) + 1) if rng.random() < .3})
            texts.append(t.bytes)
    texts = list(dict.fromkeys(texts))
    raws = [scan.Raw(r) for r in scan.lex_file(c, texts)]
    R = judge_raw(c, exe, raws, 'comments', 'zo')
    # the same texts with descriptions switched off
    off = [r for r in raws if r.desc]
    for r in off:
        r.desc = {}
    judge_raw(c, exe, off, 'switched off', 'zo,c0', R=R)
    vast(c, recs, 3000 if c.thorough else 300, want=lambda x: 'CREATE' in x['toks'])
    descriptions(c)
    for x in texts[::len(texts) // 6]:
        c.sample(x.decode('utf-8', 'replace')[:300])


CHAR = {'s': b' ', 't': b'\t', 'r': b'\r', 'n': b'\n', '/': b'/', '*': b'*', 'x': b'x', 'y': b'y;', 'u': '\u3042'.encode(), '-': b'-'}


def descriptions(c):
    """the text of description comments: MzDescription."""
    try:
        exe = build.build('mzd', lib=False)
    except build.BuildError as e:
        c.note('descriptions', skipped='the source of the description texts cannot be built alone: %s' % str(e)[-200:])
        return
    opens = [['/', '*', '*']]
    closes = [['*', '/'], ['n', 's', '*', '/']]
    recs = c.tlc('MzDescription', consts=dict(Chars={'s', 't', 'n', '*', 'x', '/'}, Size=6 if c.thorough else 4, Opens=set_of(opens), Closes=set_of(closes)), invariants=['Sound', 'Report'], emit=True).records
    recs += c.tlc('MzDescription', consts=dict(Chars={'s', 'n', '*', 'x'}, Size=8 if c.thorough else 6, Opens=set_of(opens), Closes=set_of([['*', '/']])), invariants=['Sound', 'Report'], emit=True).records
    recs += c.tlc('MzDescription', consts=dict(Chars={'s', 'r', 'n', '*', 'u', '-'}, Size=3, Opens=set_of([[], ['/', '*'], ['/', '*', '*', 'x', 'n']]), Closes=set_of([[], ['/'], ['*', '*', '/'], ['n', '*', '/']])), invariants=['Sound', 'Report'], emit=True).records
    # long ones
    recs += c.tlc('MzDescription', consts=dict(Chars=set(CHAR), Size=60, Opens=set_of(opens), Closes=set_of(closes)), spec='Walk', invariants=['Sound'], emit=True, simulate=4000 if c.thorough else 150, depth=34, seed=c.seed).records
    rng = random.Random('p15d/%s' % c.seed)
    reqs, want = [], []
    for r in recs:
        text = b''.join(CHAR[x] for x in r['s'])
        before, after = rng.choice([(b'', b''), (b'CREATE ', b' TABLE'), (b'/** ', b'*/'), (b'\n', b'\n')])
        reqs.append('%s %s %s' % tuple(x.hex() or '-' for x in (before, text, after)))
        want.append((b''.join(CHAR[x] for x in r['t']).hex() or '-') + ' 11111')
    for q, w, a in zip(reqs, want, serve.ask(exe, reqs, jobs=4)):
        if w != a:
            f = [bytes.fromhex(x.strip('-')) for x in (q.split()[1], w.split()[0], a.split()[0])]
            c.fail('the text of a description comment is not the one prescribed', comment=f[0], specification=f[1], code=f[2], flags=a.split()[1])
    c.ok(len(reqs), 'descriptions')


def set_of(xs):
    return {tuple(x) for x in xs}


CHECKS = {'P14': (p14,), 'P15': (p15,)}
