"""Runs MzParse over sets of token sequences and turns its records into verdicts."""
import concurrent.futures as cf
import os
import random

from . import lexicon, tlc, trie
from .lexicon import EOF, ERROR, UNCLOSED

INV = ['Unambiguous', 'Decided', 'NamesAlike']
FUSED = {('.', '*'): '. *', ('UNION', 'JOIN'): 'UNION JOIN', ('OUTER', 'APPLY'): 'OUTER APPLY'}


def fuse(toks):
    """the token sequence a scanner sees: some neighbours make one token."""
    out = []
    for t in toks:
        if out and (out[-1], t) in FUSED:
            out[-1] = FUSED[(out[-1], t)]
        else:
            out.append(t)
        if t == UNCLOSED:
            break
    return out


def mutants(recs, n, seed):
    """token sequences a few edits away from the given sentences."""
    rng = random.Random('mutants/%s' % seed)
    pool = [x['toks'] for x in recs]
    words = lexicon.ALL
    common = sorted({t for x in pool for t in x})
    out = {}
    while len(out) < n:
        a = list(rng.choice(pool))
        if a and a[-1] == EOF:
            a.pop()
        if not a:
            continue
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            i = rng.randrange(len(a) + 1)
            k = rng.randrange(10)
            t = rng.choice(words) if rng.random() < .5 else rng.choice(common)
            if t == EOF:
                t = ';'
            if k == 0:
                a.insert(i, t)
            elif k == 1 and i < len(a):
                a[i] = t
            elif k == 2 and i < len(a):
                del a[i]
            elif k == 3 and i < len(a):
                a.insert(i, a[i])
            elif k == 4 and i + 1 < len(a):
                a[i], a[i + 1] = a[i + 1], a[i]
            elif k == 5:
                del a[i:]
            elif k == 6:
                b = list(rng.choice(pool))
                b = b[:-1] if b and b[-1] == EOF else b
                a = a[:i] + b[rng.randrange(len(b) + 1):]
            elif k == 7:
                b = list(rng.choice(pool))
                b = b[:-1] if b and b[-1] == EOF else b
                j = rng.randrange(len(b) + 1)
                a[i:i] = b[j:j + rng.randrange(1, 5)]
            elif k == 8 and i + 1 < len(a):
                j = rng.randrange(i + 1, min(len(a), i + 6) + 1)
                del a[i:j]
            elif k == 9 and rng.random() < .1:
                a[i:] = [UNCLOSED]
                break
        a = fuse([t for t in a if t != EOF])
        if not a or a[-1] != UNCLOSED:
            a.append(EOF)
        if len(a) < 120:
            out[tuple(a)] = 1
    return [list(x) for x in out]


class Reading:
    """what the specification says about a set of token sequences."""

    def __init__(self, check, seqs, values=True, parts=None, timeout=800, name='MzParse'):
        self.of = {}
        seqs = sorted({tuple(s) for s in seqs})
        parts = parts or os.cpu_count() or 4
        n = (len(seqs) + parts - 1) // parts
        chunks = [seqs[i:i + n] for i in range(0, len(seqs), n)]
        with cf.ThreadPoolExecutor(parts) as ex:
            for chunk, (t, r) in zip(chunks, ex.map(lambda s: self.read(s, values, timeout), chunks)):
                check.add(r)
                check.note(name, states=r.states, transitions=r.transitions, sequences=len(chunk))
                rec = {x['n'] - 1: x for x in r.records}
                for s in chunk:
                    self.of[s] = (t, rec)
        self.seqs = seqs

    @staticmethod
    def read(seqs, values, timeout):
        t = trie.Trie()
        for s in seqs:
            t.add(s)
        return t, tlc.run('MzParse', consts=dict(Values=values), files={'TrieFile': t.records()}, emit=True, invariants=INV,
                          workers=1, heap='3g', timeout=timeout)

    def path(self, toks):
        """the records of the nodes walked, the root first, up to the first dead one."""
        t, rec = self.of[tuple(toks)]
        out = []
        for k in t.nodes(toks):
            r = rec.get(k)
            if r is None:
                break
            out.append(r)
        return out

    def prefixes(self):
        """every viable token prefix with its record."""
        seen = set()
        for s in self.seqs:
            p = self.path(s)
            for i, r in enumerate(p):
                k = s[:i]
                if r['a'] and k not in seen:
                    seen.add(k)
                    yield k, r

    def verdict(self, toks):
        """('V', result), or ('E', [(code, b, e)...], index of the last token that matters)."""
        p = self.path(toks)
        for i, r in enumerate(p):
            if i and not r['a']:
                alt = [(r['b'], 2 * i, 2 * i + 1)]
                alt += [tuple(x[:3]) for x in p[i - 1]['e']]
                return 'E', alt, i
            if r['s']:
                assert len(r['s']) == 1, r
                return 'E', [tuple(r['s'][0][:3])], i
        r = p[-1]
        assert len(p) == len(toks) + 1 and r['r'], (toks, r)
        if r['r'][0]:
            return 'E', [tuple(r['r'][0][:3])], len(toks)
        return 'V', r['r'], len(toks)
