"""P33, P35: queries; P34: statements which define and change data."""
import concurrent.futures as cf
import random
import re

from .. import build, serve

GAPS = [' ', ' ', ' ', '\n', '  ', ' /* c */ ', ' -- c\n']


def world(w):
    """the catalog, as the harness is told."""
    o = [('S:' if i + 1 in w['path'] else 's:') + s['name'] for i, s in enumerate(w['schemas'])]
    for t in w['tables']:
        col = lambda c: '%s/%s/%s%s' % (c['n'], c['y'], '' if c['nul'] else 'n', 'h' if c['hid'] else '')
        o.append('T:%s:%s:%s:%s' % (t['s'], t['n'], ','.join(map(col, t['cols'])), ','.join(k['n'] + k['d'] for k in t['keys']) or t['pk']))
    for i in w.get('idx', []):
        o.append('I:%s:%s:%s:%s' % (i['s'], i['t'], i['n'], ','.join(k['n'] + k['d'] for k in i['keys'])))
    for k in ['funcs', 'aggs']:
        result = lambda f: '[%s]' % ';'.join(c['n'] + '/' + c['y'] for c in f['cs']) if f['y'] == 'table' else f['y']
        o += ['%s:%s:%s:%s:%s:%s' % (k[0].upper(), f['s'], f['n'], result(f), ','.join(f['ps']), f['kd']) for f in w[k]]
    o += ['G:%s:%s' % (g['n'].replace(':', '%'), g['y']) for g in w['given']]
    o += ['H:%s:%s' % (g['n'].replace(':', '%'), g['y']) for g in w['hosts']]
    return 'W ' + ' '.join(o)


def options(w):
    return ('l' if 'all' in w['lower'] else '') + ('n' if w['null'] else '') + ('h' if w['colon'] else '') + ''.join(w.get('opts', [])) or '-'


def text(rnd, tokens):
    """the tokens put together, and where the marks are."""
    s, begin, end, fresh = '', {}, {}, []
    for t in tokens:
        if t[:2] == '<q':
            fresh.append(t[1:])
        elif t[:2] == '>q':
            end[t[1:]] = len(s)
        else:
            if s:
                s += rnd.choice(GAPS)
            for m in fresh:
                begin[m] = len(s)
            fresh = []
            s += t
    return s, begin, end


def place(r, begin, end):
    """code and range of the diagnostic."""
    code, _, part = r['e'].partition(' ')
    a, b = r['a'], r['b']
    if part == 'last':
        a = b
    return 'error %s@%d-%d' % (code, begin[a], end[b])


def norm(s):
    """columns of groups in a fixed order."""
    out, stack = [], []
    for i, c in enumerate(s):
        if c == '{':
            stack.append(len(out) if s[max(0, i - 3):i] == 'do ' else -1)
            out.append(c)
        elif c == '}' and stack:
            b = stack.pop()
            if b >= 0:
                xs = split(''.join(out[b + 1:]))
                del out[b + 1:]
                out += sorted(set(xs), key=str) and [';'.join(sorted(set(xs)))]
            out.append(c)
        else:
            out.append(c)
    return ''.join(out)


def split(s):
    """at semicolons outside of parentheses and braces."""
    r, depth, at = [], 0, 0
    for i, c in enumerate(s):
        depth += (c in '({[') - (c in ')}]')
        if c == ';' and not depth:
            r.append(s[at:i])
            at = i + 1
    return r + [s[at:]]


def told(r):
    return norm(r['told'] if 'told' in r else 'plan ' + r['plan'])


def ask(c, exe, runs, label):
    """the statements of the runs put to the analyzer."""
    rnd = random.Random(c.seed)
    qs, xs = [], []
    for run in runs:
        worlds = [x for x in run.records if 'worlds' in x][0]['worlds']
        for x in sorted((x for x in run.records if 'worlds' not in x), key=str):
            w = worlds[x['w'] - 1]
            s, b, e = text(rnd, x['t'])
            exp = place(x['r'], b, e) if 'e' in x['r'] else told(x['r'])
            qs.append('%s\tQ %s %s' % (world(w), options(w), s.encode().hex()))
            xs.append((s, exp, w, x))
    answers = serve.ask(exe, qs, jobs=6)
    for q, (s, exp, w, x), a in zip(qs, xs, answers):
        a = norm(a)
        if (a.split(' ')[:2] == exp.split(' ') if exp.startswith('error ') else a == exp):
            c.ok(1, label(x, exp))
        else:
            c.fail('%s' % ' '.join(s.split()), expected=exp, observed=a, request=q, text=s)
    for s, exp, w, x in rnd.sample(xs, 5):
        c.sample({'text': s, 'meaning': exp})


def kind(x, exp):
    return exp.split('@')[0] if exp.startswith('error ') else 'accepted'


def statement(x, exp):
    return x['k'] + ' ' + kind(x, exp)


def queries(c, grouping, module='MzQueries', label=kind, focus='', steps=1200):
    with cf.ThreadPoolExecutor(7) as ex:
        job = ex.submit(build.build, 'mzq')
        # one worker each: the lines they write are long
        runs = [ex.submit(c.tlc, module, consts=dict(Chains=20, Steps=steps if c.thorough else 130, Seed0=c.seed * 10 + i, Grouping=grouping, Focus=focus), invariants=['Emit'], emit=True, workers=1) for i in range(6)]
        exe = job.result()
        runs = [x.result() for x in runs]
    ask(c, exe, runs, label)


def p33(c):
    queries(c, 5)


def p34(c):
    queries(c, 5, 'MzStatements', statement, steps=2500)


def p35(c):
    queries(c, 2)


def p36(c):
    queries(c, 5, focus='calls')


def p37(c):
    queries(c, 5, focus='parameters', steps=700)
    queries(c, 5, 'MzStatements', statement, 'parameters', 900)


CHECKS = {
    'P33': (p33,),
    'P34': (p34,),
    'P35': (p35,),
    'P36': (p36,),
    'P37': (p37,),
}
