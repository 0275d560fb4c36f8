"""Runs MzLexer and turns its records into texts with known tokens."""
import concurrent.futures as cf
import os

from . import concrete, tlc

INV = ['Emit', 'Tiles', 'Stable']


def codes(s):
    return list(s.encode('utf-8') if isinstance(s, str) else s)


def lex_all(check, name, atoms, size, workers=2):
    """every concatenation of at most size atoms, scanned."""
    r = tlc.run('MzLexer', consts=dict(TextFile='', Atoms=[codes(a) for a in atoms], Size=size), emit=True, invariants=INV, workers=workers)
    check.add(r)
    check.note('MzLexer:' + name, states=r.states, transitions=r.transitions, texts=len(r.records))
    return r.records


def lex_file(check, texts, name='texts', parts=None, inv=('Emit',)):
    """the given texts, scanned; records in the same order."""
    texts = [bytes(t) for t in texts]
    todo = sorted(set(texts))
    parts = parts or os.cpu_count() or 4
    n = max(1, (len(todo) + parts - 1) // parts)
    got = {}

    def go(part):
        return tlc.run('MzLexer', consts=dict(Atoms=[[0]], Size=1), files={'TextFile': [{'x': list(t)} for t in part]}, emit=True, invariants=list(inv), workers=1, heap='3g')
    with cf.ThreadPoolExecutor(parts) as ex:
        for r in ex.map(go, [todo[i:i + n] for i in range(0, len(todo), n)]):
            check.add(r)
            check.note('MzLexer:' + name, states=r.states, transitions=r.transitions, texts=len(r.records))
            for x in r.records:
                got[bytes(x['x'])] = x
    return [got[t] for t in texts]


class Raw(concrete.Text):
    """a text scanned by the specification."""

    def __init__(self, rec):
        self.bytes = bytes(rec['x'])
        self.toks = [k[0] for k in rec['k']]
        self.image, self.span, self.value, self.desc = {}, {}, {}, {}
        self.comments = [tuple(c) for c in rec['c']]
        self.huge = {}
        self.mark = {}
        for i, (t, b, e, v) in enumerate(rec['k'], 1):
            self.image[i] = self.bytes[b:e]
            self.span[i] = (b, e)
            if t == '<delimited-identifier>':
                self.value[i] = bytes(v)
            if t == '<unsigned-integer>':
                self.huge[i] = not v
                self.value[i] = bytes(v)
            if t == '?':
                self.mark[i] = v[0]
        self.desc = {i: tuple(c) for i, c in rec['d']}
        self.has_eof = self.toks[-1] == concrete.EOF
        self.n = len(self.toks) - self.has_eof

    def symbols(self):
        """token sequence for MzParse: sizes no type can have are told apart."""
        return ['<huge-integer>' if self.huge.get(i + 1) else t for i, t in enumerate(self.toks)]

