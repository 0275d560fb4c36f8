"""Runs TLC on a module of /verif/spec and reads back what it explored and emitted."""
import json
import os
import re
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(ROOT, 'spec')


class TlcError(Exception):
    pass


def tla(v):
    """a constant in TLA+ syntax."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    raise TypeError(v)


def brief(out):
    """the part of TLC's output that says what went wrong."""
    ls = [x for x in out.split('\n') if x.strip() and not x.startswith(('Parsing file', 'Semantic processing', 'Picked up', 'NOTE: Picked up', 'Progress'))]
    at = [i for i, x in enumerate(ls) if 'rror' in x]
    return '\n'.join(ls[at[0]:at[0] + 40] if at else ls[-40:])[:3000]


class Run:
    """result of a TLC run: distinct states, transitions (states generated) and emitted records."""

    def __init__(self):
        self.states = self.transitions = 0
        self.records = []
        self.violated = None
        self.out = ''


def run(module, consts=None, invariants=(), properties=(), spec='Spec', emit=False, simulate=None,
        depth=None, seed=None, workers=None, timeout=800, heap='6g', expect_violation=False, constraint=None,
        view=None, postcondition=None, deadlock=False, files=None):
    """consts: name -> python value; emit: pass OutFile and collect the records written to it.

    simulate: number of behaviours for TLC's simulation mode (None: exhaustive).
    files: name -> python value, written as json next to the output and passed as a file name constant.
    """
    d = tempfile.mkdtemp(prefix='mz-tlc-')
    try:
        r = Run()
        consts = dict(consts or {})
        out = os.path.join(d, 'out.ndjson')
        if emit:
            consts['OutFile'] = out
        for k, v in (files or {}).items():
            p = os.path.join(d, k + '.json')
            with open(p, 'w') as f:
                if isinstance(v, list):
                    for x in v:
                        f.write(json.dumps(x) + '\n')
                else:
                    json.dump(v, f)
            consts[k] = p
        simple, defs = [], []
        for k, v in consts.items():
            if isinstance(v, (list, tuple, dict, set, frozenset)) or (isinstance(v, str) and '\\' in v) or (isinstance(v, int) and v < 0):
                defs.append('const_%s == %s' % (k, tla(v)))
                simple.append('CONSTANT %s <- const_%s' % (k, k))
            else:
                simple.append('CONSTANT %s = %s' % (k, tla(v)))
        top = 'MC' + module
        with open(os.path.join(d, top + '.tla'), 'w') as f:
            f.write('---- MODULE %s ----\nEXTENDS %s\n%s\n====\n' % (top, module, '\n'.join(defs)))
        with open(os.path.join(d, top + '.cfg'), 'w') as f:
            f.write('SPECIFICATION %s\n' % spec + '\n'.join(simple) + '\n')
            for x in invariants:
                f.write('INVARIANT %s\n' % x)
            for x in properties:
                f.write('PROPERTY %s\n' % x)
            if constraint:
                f.write('CONSTRAINT %s\n' % constraint)
            if view:
                f.write('VIEW %s\n' % view)
            if postcondition:
                f.write('POSTCONDITION %s\n' % postcondition)
            f.write('CHECK_DEADLOCK %s\n' % ('TRUE' if deadlock else 'FALSE'))
        for x in os.listdir(SPEC):
            if x.endswith('.tla'):
                os.symlink(os.path.join(SPEC, x), os.path.join(d, x))
        cmd = ['tlc', '-workers', str(workers or os.cpu_count() or 4), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config', top + '.cfg']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate]
        if depth:
            cmd += ['-depth', str(depth)]
        if seed is not None:
            cmd += ['-seed', str(seed)]
        cmd.append(top + '.tla')
        env = dict(os.environ)
        env.setdefault('JDK_JAVA_OPTIONS', '')
        env['JDK_JAVA_OPTIONS'] = (env['JDK_JAVA_OPTIONS'] + ' -Djava.io.tmpdir=' + d + ' -Xss256m -Xmx' + heap + (' -XX:ParallelGCThreads=1 -XX:CICompilerCount=2' if workers == 1 else '')).strip()
        try:
            p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise TlcError('TLC exceeded %d s on %s' % (timeout, module)) from e
        r.out = p.stdout
        m = None
        for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct states found', p.stdout):
            pass
        if m:
            r.transitions = int(m.group(1).replace(',', ''))
            r.states = int(m.group(2).replace(',', ''))
        m = None
        for m in re.finditer(r'The number of states generated: ([\d,]+)', p.stdout):
            pass
        if m:
            r.transitions = r.states = int(m.group(1).replace(',', ''))
        m = re.search(r'Error: (Invariant|Action property|Temporal properties|Temporal property) ?(\S*)', p.stdout)
        if m:
            r.violated = m.group(2) or m.group(1)
        bad = p.returncode != 0 or re.search(r'^Error:', p.stdout, re.M) is not None
        if bad and not (expect_violation and r.violated):
            raise TlcError('TLC failed on %s (exit %d)\n%s' % (module, p.returncode, brief(p.stdout)))
        if emit and os.path.exists(out):
            with open(out) as f:
                for line in f:
                    line = line.strip()
                    if line:
                        x = json.loads(line)
                        r.records.append(json.loads(x) if isinstance(x, str) else x)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
