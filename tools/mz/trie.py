"""Token sequences as a tree for MzParse."""


class Trie:
    def __init__(self):
        self.tok = ['']
        self.kid = [{}]
        self.up = [-1]

    def add(self, toks):
        """index of the last node of the branch."""
        n = 0
        for t in toks:
            k = self.kid[n].get(t)
            if k is None:
                k = len(self.tok)
                self.tok.append(t)
                self.kid.append({})
                self.up.append(n)
                self.kid[n][t] = k
            n = k
        return n

    def path(self, n):
        r = []
        while n > 0:
            r.append(self.tok[n])
            n = self.up[n]
        return r[::-1]

    def nodes(self, toks):
        """nodes along a sequence, the root included."""
        n, r = 0, [0]
        for t in toks:
            n = self.kid[n][t]
            r.append(n)
        return r

    def records(self):
        return [{'t': t, 'k': [v + 1 for v in k.values()]} for t, k in zip(self.tok, self.kid)]
