"""The word lists of spec/MzLexicon.tla."""
import os
import re

from . import build

with open(os.path.join(build.ROOT, 'spec', 'MzLexicon.tla')) as f:
    SRC = f.read()


def set_of(name):
    body = re.search(r'^%s == \{(.*?)\n?\s*\}' % name, SRC, re.S | re.M).group(1)
    if name == 'Signs':
        body = re.search(r'^Signs == \{\n(.*?)" \}', SRC, re.S | re.M).group(1) + '"'
    return sorted(re.findall(r'"([^"]*)"', body))


WORDS = set_of('Words')
SIGNS = set_of('Signs')
CONTEXTUAL = set_of('Contextual')
VARIABLE = ['<identifier>', '<delimited-identifier>', '<host-parameter-name>', '<unsigned-integer>', '<exact-numeric-literal>',
            '<approximate-numeric-literal>', '<character-string-literal>', '<hex-string-literal>']
PHRASES = ['UNION JOIN', 'OUTER APPLY', '. *']
ERROR = '<ERROR>'
UNCLOSED = '<UNCLOSED_BLOCK_COMMENT>'
RESTRICTED = ['REGULAR_IDENTIFIER_RESTRICTED', 'DELIMITED_IDENTIFIER_RESTRICTED']
EOF = '<END_OF_FILE>'
# the lone quote is left out: it is read only where no string begins
PLAIN = WORDS + [s for s in SIGNS if s not in ("'",)] + ['?'] * ('?' not in SIGNS) + VARIABLE + PHRASES
ALL = PLAIN + RESTRICTED + [ERROR]
NAMES = set(CONTEXTUAL) | {'<identifier>', '<delimited-identifier>'}
assert len(WORDS) == 280 and len(SIGNS) == 33, (len(WORDS), len(SIGNS))
