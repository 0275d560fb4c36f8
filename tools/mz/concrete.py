"""Concrete texts for symbolic token sequences, and the dump the real parser must give for them.

The specification speaks of token i (counted from 1), its image and source positions 2*i (begin)
and 2*i+1 (end). Here each token gets an image and each gap a layout; nothing else is decided here.
"""
import random

CLASSES = {
    '<identifier>', '<delimited-identifier>', '<character-string-literal>', '<hex-string-literal>',
    '<unsigned-integer>', '<exact-numeric-literal>', '<approximate-numeric-literal>', '<host-parameter-name>',
}
BRACKETS = set('( ) , ; [ ] { }'.split())
EOF = '<END_OF_FILE>'
UNCLOSED = '<UNCLOSED_BLOCK_COMMENT>'


def quote(b):
    r = ["'"]
    for c in b:
        ch = chr(c)
        if c < 0x20 or c >= 0x7f or ch in "'\\;,{}[]=@":
            r.append('\\x%02x' % c)
        else:
            r.append(ch)
    r.append("'")
    return ''.join(r)


def image(t, i, rng, plain=False):
    """an image for terminal t at index i, distinct from the images of all other indices."""
    if t == '<identifier>':
        return b'i%d' % i if plain or rng.random() < .5 else rng.choice([b'I%d', b'_i%d', b'i_%d_', b'Z%dz', b'iNteger%d', b'selecT_%d', b'x%d_Y']) % i
    if t == '<delimited-identifier>':
        return b'"d%d"' % i if plain or rng.random() < .5 else rng.choice([b'"D %d"', b'"q""%d"', b'"%d"', b'"sel\xc3\xa9ct%d"', b'"--%d"', b'"/*%d*/"', b'"\'%d\'"', b'"_%d""""x"', b'"?%d"']) % i
    if t == '<character-string-literal>':
        return b"'s%d'" % i if plain or rng.random() < .5 else rng.choice([b"'S %d'", b"'it''s%d'", b"'%d?'", b"'--%d'", b"'\"%d\"'", b"'/*%d'", b"'a\nb%d'", b"'\xe3\x81\x82%d;'", b"'''%d'''"]) % i
    if t == '<hex-string-literal>':
        h = b'%02x' % i
        h = h if len(h) % 2 == 0 else b'0' + h
        return (rng.choice([b'X', b'x']) if not plain else b'X') + b"'" + (h.upper() if not plain and rng.random() < .5 else h) + b"'"
    if t == '<unsigned-integer>':
        return b'%d' % i if plain or rng.random() < .7 else b'00%d' % i
    if t == '<exact-numeric-literal>':
        return b'%d.5' % i if plain or rng.random() < .5 else b'%d.0%d' % (i, rng.randrange(100))
    if t == '<approximate-numeric-literal>':
        return b'%dE1' % i if plain or rng.random() < .4 else rng.choice([b'%de+2', b'%d.5E-3', b'%d.25e07', b'%dE0']) % i
    if t == '<host-parameter-name>':
        return b':h%d' % i if plain or rng.random() < .5 else rng.choice([b':H%d', b':_h%d', b':select%d']) % i
    if t == 'REGULAR_IDENTIFIER_RESTRICTED':
        return b'__i%d' % i if plain else rng.choice([b'__%d', b'__I%d', b'___%d', b'__select%d']) % i
    if t == 'DELIMITED_IDENTIFIER_RESTRICTED':
        return b'"__d%d"' % i if plain else rng.choice([b'"__%d"', b'"__ %d"', b'"___""%d"']) % i
    if t == '<ERROR>':
        return b'\\' if plain else rng.choice([b'\\', b'`', b'#', b'$', b'~', b'@', b'!', b'\x01', b'\x7f', b'\x00', b'\xc3\xa9', b'\xe3\x81\x82', b'\xf0\x9f\x98\x80', b'\x80', b'\xff', b'\xc3'])
    if t == UNCLOSED:
        return b'/*'
    if t[0].isalpha() or t in ('UNION JOIN',):
        s = t
        if not plain:
            k = rng.random()
            if k < .3:
                s = s.lower()
            elif k < .6:
                s = ''.join(rng.choice([c.lower(), c]) for c in s)
        if ' ' in s:
            s = s.replace(' ', ' ' if plain else rng.choice([' ', '  ', '\n', '\t']))
        return s.encode()
    if t == '. *':
        return b'.*' if plain else rng.choice([b'.*', b'. *', b'.\n *'])
    return t.encode()


def long_image(t, i, rng):
    """an image of some ten thousand characters, or none."""
    k = rng.choice([32768, 65530, 65536, 70000]) + rng.randrange(9)
    if t == '<identifier>':
        return b'i%d' % i + rng.choice([b'x', b'_', b'A9']) * (k // 2)
    if t == '<delimited-identifier>':
        return b'"%d' % i + rng.choice([b'x', b' ', b'""', b'\xe3\x81\x82', b'-- ']) * (k // 2) + b'"'
    if t == '<character-string-literal>':
        return b"'%d" % i + rng.choice([b'x', b' ', b"''", b'\xe3\x81\x82', b'\n', b'?']) * (k // 2) + b"'"
    if t == '<hex-string-literal>':
        return b"X'" + b'0a' * (k // 2) + b'%04x' % i + b"'"
    if t == '<unsigned-integer>':
        return b'0' * k + b'%d' % i
    if t == '<exact-numeric-literal>':
        return b'%d.' % i + b'05' * (k // 2)
    if t == '<approximate-numeric-literal>':
        return b'%d.' % i + b'05' * (k // 2) + b'E1'
    if t == '<host-parameter-name>':
        return b':h%d' % i + b'x' * k
    return None


class Text:
    """token images laid out in a text."""

    value = {}  # values given by the specification instead of the images here

    def __init__(self, toks, seed=0, layout='plain', gaps=None, images=None):
        rng = random.Random('%s/%s' % (seed, ' '.join(toks)))
        self.toks = list(toks)
        toks = self.toks
        self.has_eof = bool(toks) and toks[-1] == EOF
        n = len(toks) - (1 if self.has_eof else 0)
        if layout == 'vast':
            # a few gaps and images far longer than anybody writes
            layout = 'full'
            gaps = dict(gaps or {})
            far = [1] if rng.random() < .4 else []
            far += [rng.randrange(1, n + 2) for _ in range(rng.choice([1, 1, 2]))]
            for i in far:
                gaps[i] = self.vast_gap(rng)
            images = dict(images or {})
            some = [i for i in range(1, n + 1) if toks[i - 1] in CLASSES]
            if some and rng.random() < .6:
                i = rng.choice(some)
                images.setdefault(i, long_image(toks[i - 1], i, rng))
        self.image = {}
        self.span = {}
        self.comments = []
        self.desc = {}
        out = bytearray()
        for i in range(1, n + 2):
            # gap in front of token i
            if gaps is not None and gaps.get(i) is not None:
                gap = gaps[i]
            elif i > n:
                gap = [] if layout == 'plain' else rng.choice([[], [b' '], [b'\n'], [b' ', (b'-- end', b'')], [b' ', (b'/* end */', b'')]])
            elif layout == 'plain':
                gap = [] if i == 1 else [b' ']
            else:
                gap = self.random_gap(i, toks[i - 2] if i > 1 else None, toks[i - 1], rng, layout)
            for g in gap:
                if isinstance(g, tuple):
                    c, term = g
                    self.comments.append((len(out), len(out) + len(c)))
                    if c.startswith(b'/**') and len(c) >= 5 and c.endswith(b'*/'):
                        self.desc[i] = (len(out), len(out) + len(c))
                    out += c + term
                else:
                    out += g
            if i <= n:
                im = images[i] if images and i in images else image(toks[i - 1], i, rng, layout == 'plain')
                self.image[i] = im
                self.span[i] = (len(out), len(out) + len(im))
                out += im
                if toks[i - 1] == UNCLOSED:
                    # the rest of the text belongs to the comment that never ends
                    out += rng.choice([b'', b'*', b' x', b'* /', b'\n', b" 'a", b'/', b'/*', b' -- x\n'])
                    break
        if self.has_eof:
            self.image[n + 1] = b''
            self.span[n + 1] = (len(out), len(out))
        self.n = n
        self.bytes = bytes(out)
        marks = [i for i in range(1, n + 1) if toks[i - 1] == '?']
        self.mark = {i: k + 1 for k, i in enumerate(marks)}

    @staticmethod
    def vast_gap(rng):
        k = rng.choice([32760, 65530, 65536, 70000]) + rng.randrange(9)
        return [b' '] + rng.choice([
            [rng.choice([b' ', b'\n', b'\t', b'\r\n', b' \n']) * k],
            [(b'/* ' + rng.choice([b'x', b'*', b'?', b'-- ', b'\n', b"'"]) * k + b'*/', b'')],
            [(b'/** ' + rng.choice([b'x', b'* ', b'\n * y']) * (k // 3) + b'*/', b'')],
            [(b'--' + rng.choice([b'x', b'-', b'/*', b';?']) * k, b'\n')],
            [(b'/**/', b'')] * 300 + [b'\n' * k],
            [(b'/** d */', b''), b'\n'] + [(b'--' + b'x' * 250, b'\n')] * 270,
        ]) + [b' ']

    @staticmethod
    def random_gap(i, prev, tok, rng, layout):
        k = rng.random()
        tight_ok = prev is None or prev in BRACKETS or tok in BRACKETS
        if layout == 'tight':
            return [] if tight_ok else [b' ']
        if layout == 'spaces' or k < .6:
            if tight_ok and rng.random() < .4:
                return []
            return [rng.choice([b' ', b'  ', b'\n', b'\t', b'\r\n', b' \n ', b'\x0b', b'\x0c'])]
        cs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            # never glued to a preceding '/', '-' or '*'
            cs.append(b' ')
            cs.append(rng.choice([
                (b'/* c */', b''), (b'/**/', b''), (b'/***/', b''), (b'/* ; ? \' " */', b''), (b'/* -- */', b''),
                (b'-- x', b'\n'), (b'--', b'\r\n'), (b'-- /* y', b'\n'), (b'/*\n*/', b''), (b'/* \xe3\x81\x82 */', b''),
                (b'/** d%d */' % i, b''), (b'/** a\n * b%d\n */' % i, b''), (b'/* / * **/', b''),
            ]))
        cs.append(b' ')
        return cs

    # ---- spec positions and values
    off = 0  # tokens before what is rendered

    def pos(self, p):
        if p == 0:
            return None
        p += 2 * self.off
        s = self.span[p // 2]
        return s[p % 2]

    def region(self, b, e):
        if b == 0:
            return '@-'
        return '@%d:%d' % (self.pos(b), self.pos(e))

    def moved(self, v, k, **kw):
        """what v looks like k tokens further on."""
        self.off = k
        try:
            return self.render(v, **kw)
        finally:
            self.off = 0

    def render(self, v, regions=True, desc=True):
        k, o = v[0], self.off
        if k == 'N':
            ps = []
            for name, x in sorted(v[2]):
                if x[0] == 'D':
                    d = self.desc.get(x[1] + o) if desc else None
                    if d is None:
                        continue
                    ps.append('%s=D%d:%d' % (name, d[0], d[1]))
                    continue
                ps.append(name + '=' + self.render(x, regions, desc))
            return v[1] + '{' + ';'.join(ps) + '}' + (self.region(v[3], v[4]) if regions else '')
        if k == 'S':
            return quote(v[1].encode())
        if k == 'L':
            return '[' + ','.join(self.render(x, regions, desc) for x in v[1]) + ']'
        if k == 'T':
            return quote(self.image[v[1] + o])
        if k == 'Q':
            return quote(self.value[v[1] + o] if v[1] + o in self.value else self.image[v[1] + o][1:-1].replace(b'""', b'"'))
        if k == 'H':
            return quote(self.image[v[1] + o][1:])
        if k == 'Z':
            return quote(self.value[v[1] + o] if v[1] + o in self.value else self.image[v[1] + o].lstrip(b'0') or b'0')
        if k == 'M':
            return quote(b'%d' % self.mark[v[1] + o])
        raise ValueError(v)

    def statements(self, tree, **kw):
        """expected dump of the statements of a whole text; a trailing empty statement is dropped."""
        xs = list(tree[1])
        if xs and xs[-1][1] == 'statement.empty_statement':
            xs.pop()
        return '[' + ','.join(self.render(x, **kw) for x in xs) + ']'

    def comment_list(self):
        return ','.join('%d:%d' % c for c in self.comments)

    def scanned(self):
        return 'T\t%s\t%s' % ('~'.join('%s %d %d' % (t, *self.span[i + 1]) for i, t in enumerate(self.toks)), self.comment_list())
