"""Makes /verif/seeded/<id> from the current diff of a scratch copy of the repository.

plant.py ID PROPERTY NEEDS BREAKS CASE...     CASE: [opts|]SQL, the expected answers are those of /repo
Keeps it only if the stable tests pass with it and the demonstration tells both trees apart.
"""
import json
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mz import build, serve  # noqa: E402

WT = os.environ.get('WT', '/tmp/wt')
ROOT = build.ROOT


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    pid, prop, needs, breaks, *cases = sys.argv[1:]
    d = os.path.join(ROOT, 'seeded', pid)
    os.makedirs(d, exist_ok=True)
    diff = sh('git diff', WT).stdout
    assert diff, 'no change'
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    kit = os.path.join(ROOT, 'tools/seedkit')
    if cases and cases[0] == '--cpp':
        shutil.copy(cases[1], d + '/demo.cpp')
        shutil.copy(kit + '/demo_cpp.sh', d + '/demo.sh')
        if len(cases) > 2:
            sh('tar czf %s/kit.tgz --sort=name --mtime=2020-01-01 -C %s/tools/seedkit build.sh -C %s/harness mzdump.h mzh.cpp -C %s shim' % (d, ROOT, ROOT, ROOT), ROOT)
    elif cases and cases[0] == '--q':  # WORLD SQL [WORLD SQL]..., or --q OPTIONS=.. first in SQL: "OPTS|SQL"
        sh('tar czf %s/kit.tgz --sort=name --mtime=2020-01-01 -C %s/tools/seedkit buildq.sh -C %s/harness mzq.cpp mzana.h -C %s shim stand' % (d, ROOT, ROOT, ROOT), ROOT)
        shutil.copy(kit + '/demoq.sh', d + '/demo.sh')
        exe = build.build('mzq')
        rows = []
        for w, x in zip(cases[1::2], cases[2::2]):
            o, x = x.split('|', 1) if '|' in x.split(' ')[0] else ('-', x)
            rows.append((w, 'Q %s %s' % (o, x.encode().hex())))
        out = sh("printf '%%s\\n' %s | %s" % (' '.join("'%s'" % y for r in rows for y in r), exe), '/').stdout.split('\n')[1::2]
        with open(d + '/cases.txt', 'w') as f:
            for r, a in zip(rows, out):
                print('   ', a[:500])
                f.write('%s\t%s\t%s\n' % (*r, a))
    else:
        sh('tar czf %s/kit.tgz --sort=name --mtime=2020-01-01 -C %s/tools/seedkit build.sh -C %s/harness mzdump.h mzh.cpp -C %s shim' % (d, ROOT, ROOT, ROOT), ROOT)
        shutil.copy(kit + '/demo.sh', d + '/demo.sh')
        exe = build.build('mzh')
        reqs = []
        for c in cases:
            o, s = c.split('|', 1) if '|' in c and ' ' not in c.split('|', 1)[0] and c.split('|', 1)[0] else ('zo', c)
            s = s.encode().decode('unicode_escape').encode('latin1')
            reqs.append((o, s))
        ans = serve.ask(exe, [serve.P(s, o) for o, s in reqs])
        with open(d + '/cases.txt', 'w') as f:
            for (o, s), a in zip(reqs, ans):
                f.write('%s\t%s\t%s\n' % (o, s.hex(), a))
    ok = sh('bash %s/demo.sh' % d, build.REPO)
    bad = sh('bash %s/demo.sh' % d, WT)
    print('clean', ok.returncode, ok.stdout[-200:])
    print('patched', bad.returncode, bad.stdout[:600])
    print('KEEP' if ok.returncode == 0 and bad.returncode not in (0, 2) else 'REFUSED')


main()
