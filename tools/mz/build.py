"""Builds the harness against /repo's working tree (nothing is written into /repo)."""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('MZ_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
CXX = os.environ.get('CXX', 'g++')
FLAGS = ['-std=c++17', '-O0', '-w', '-Wno-attributes', '-DSERIALIZE_REGION', '-pthread']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return p.returncode, p.stdout


def files_in(*bases):
    fs = []
    for base in bases:
        for d, _, names in os.walk(base):
            fs += [os.path.join(d, n) for n in names if n.rsplit('.', 1)[-1] in ('h', 'hpp', 'cpp', 'll', 'yy')]
    return sorted(fs)


def hash_files(files, extra=''):
    h = hashlib.sha256()
    h.update((CXX + extra).encode())
    for f in files:
        h.update(f.encode())
        with open(f, 'rb') as s:
            h.update(hashlib.sha256(s.read()).digest())
    return h.hexdigest()[:20]


def incs(gen):
    first = ['-I' + ROOT + '/harness/stub_desc'] if os.path.exists(gen + '/desc') else []
    if os.path.exists(gen + '/ana'):
        first.append('-I' + ROOT + '/stand')
    return first + ['-I' + ROOT + '/shim', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + gen, '-I' + ROOT + '/harness']


def compile_one(args):
    src, obj, gen, flags = args
    rc, out = run([CXX, *flags, *incs(gen), '-c', src, '-o', obj])
    return rc, out


def compile_chunk(args):
    """one translation unit for several sources; falls back to one by one."""
    name, srcs, d, gen, flags = args
    if len(srcs) > 1:
        unit = os.path.join(d, name + '.cpp')
        with open(unit, 'w') as f:
            for s in srcs:
                f.write('#include "%s"\n' % s)
        obj = os.path.join(d, name + '.o')
        rc, out = compile_one((unit, obj, gen, flags))
        if rc == 0:
            return [obj]
    objs = []
    for i, s in enumerate(srcs):
        obj = os.path.join(d, '%s_%d.o' % (name, i))
        rc, out = compile_one((s, obj, gen, flags))
        if rc != 0:
            raise BuildError('cannot compile %s\n%s' % (s, out[-4000:]))
        objs.append(obj)
    return objs


def generate(gen):
    os.makedirs(gen + '/mizugaki/parser', exist_ok=True)
    src = REPO + '/src/mizugaki/parser/'
    out = gen + '/mizugaki/parser/'
    jobs = [
        ['flex', '-Cfe', '-o', out + 'sql_scanner_generated.cpp', src + 'sql_scanner.ll'],
        ['bison', '--defines=' + out + 'sql_parser_generated.hpp', '-o', out + 'sql_parser_generated.cpp', src + 'sql_parser.yy'],
    ]
    with cf.ThreadPoolExecutor(2) as ex:
        for rc, o in ex.map(run, jobs):
            if rc != 0:
                raise BuildError('generator failed\n' + o[-4000:])


def place(tmp, out):
    """moves a finished build into the cache; another process may have been faster."""
    try:
        os.rename(tmp, out)
    except OSError:
        if not os.path.isdir(out):
            raise
        shutil.rmtree(tmp, ignore_errors=True)


def library(flags):
    """objects and generated sources of the parser and the syntax tree; returns their directory."""
    key = 'lib-' + hash_files(files_in(REPO + '/include', REPO + '/src', ROOT + '/shim'), ' '.join(flags))
    out = os.path.join(BUILD, key)
    if os.path.isdir(out):
        os.utime(out)
        return out
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    try:
        gen = d + '/gen'
        generate(gen)
        srcs = sorted(glob.glob(REPO + '/src/mizugaki/ast/**/*.cpp', recursive=True))
        par = sorted(glob.glob(REPO + '/src/mizugaki/parser/*.cpp'))
        chunks = [('gp', [gen + '/mizugaki/parser/sql_parser_generated.cpp']),
                  ('gs', [gen + '/mizugaki/parser/sql_scanner_generated.cpp'])]
        chunks += [('p%d' % i, par[i::3]) for i in range(3) if par[i::3]]
        chunks += [('a%d' % i, srcs[i::10]) for i in range(10) if srcs[i::10]]
        objs = []
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for r in ex.map(compile_chunk, [(n, s, d, gen, flags) for n, s in chunks]):
                objs += r
        rc, o = run(['ar', 'rcs', d + '/libmz.a', *objs])
        if rc != 0:
            raise BuildError('ar failed\n' + o[-4000:])
        for x in os.listdir(d):
            if x.endswith(('.o', '.cpp')):
                os.remove(os.path.join(d, x))
        place(d, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def build(main='mzh', flags=(), lib=True):
    """returns the path of the harness binary built from the current tree.

    lib=False: a harness that needs no part of the parser or the tree; main may then name extra
    sources of the repository in its first line: // sources: a.cpp b.cpp
    """
    if not lib:
        try:
            return build_(main, flags, False)
        except BuildError:
            return build_(main, flags, True)  # a function may have moved into another source
    return build_(main, flags, True)


def build_(main, flags, lib):
    flags = FLAGS + list(flags)
    src = ROOT + '/harness/' + main + '.cpp'
    with open(src) as f:
        head = f.readline()
    ana = head.startswith('// analyzer:')
    key = main + '-' + hash_files(files_in(REPO + '/include', REPO + '/src', ROOT + '/shim', *([ROOT + '/stand'] if ana else [])) + [
        f for f in files_in(ROOT + '/harness') if f.endswith('.h') or f == src or (main == 'mzp' and f.endswith('/mzh.cpp'))], ' '.join(flags) + str(lib))
    out = os.path.join(BUILD, key)
    exe = os.path.join(out, main)
    if os.path.exists(exe):
        os.utime(out)
        return exe
    os.makedirs(BUILD, exist_ok=True)
    extra = []
    if ana:
        extra = [REPO + '/' + x for x in head.split(':', 1)[1].split()]
        extra = [x for x in extra if os.path.exists(x)]
    if head.startswith('// sources:') and not lib:
        extra = [REPO + '/' + x for x in head.split(':', 1)[1].split()]
    d = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    try:
        obj = d + '/' + main + '.o'
        with cf.ThreadPoolExecutor(2) as ex:
            job = ex.submit(library, flags) if lib else None
            gen = d + '/gen'
            os.makedirs(gen)
            if main == 'mzd':
                open(gen + '/desc', 'w').close()  # part of the analyzer, with a stand-in for its context
            if ana:
                open(gen + '/ana', 'w').close()  # parts of the analyzer, with stand-ins for what it refers to
            if main in NEEDS_GEN:
                gen = job.result() + '/gen'
            jobs = [(src, obj)] + [(x, '%s/x%d.o' % (d, i)) for i, x in enumerate(extra)]
            objs = compile_all(jobs, gen, flags)
            libs = [job.result() + '/libmz.a'] if lib else []
        link = lambda objs: run([CXX, *flags, '-o', exe.replace(out, d), *objs, *libs])
        rc, o = link(objs)
        if rc != 0 and ana:
            # something may have moved into another source: take whatever compiles
            more = sorted(set(glob.glob(REPO + '/src/mizugaki/**/*.cpp', recursive=True)) - set(extra)
                          - set(glob.glob(REPO + '/src/mizugaki/ast/**/*.cpp', recursive=True)) - set(glob.glob(REPO + '/src/mizugaki/parser/**/*.cpp', recursive=True)))
            more = compile_all([(x, '%s/y%d.o' % (d, i)) for i, x in enumerate(more)], gen, flags, strict=False)
            run(['ar', 'rcs', d + '/more.a', *more])
            rc, o = link(objs + [d + '/more.a'])
        if rc != 0:
            raise BuildError('link failed\n' + o[-4000:])
        for x in os.listdir(d):
            if x.endswith('.o'):
                os.remove(os.path.join(d, x))
        place(d, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    prune(keep=key)
    return exe


def compile_all(jobs, gen, flags, strict=True):
    objs = []
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for (x, obj), (rc, o) in zip(jobs, ex.map(lambda j: compile_one((j[0], j[1], gen, flags)), jobs)):
            if rc == 0:
                objs.append(obj)
            elif strict:
                raise BuildError('cannot compile %s\n%s' % (x, o[-4000:]))
    return objs


NEEDS_GEN = {'mzs'}


def prune(keep, limit=24):
    ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD)]
    ds = sorted((x for x in ds if os.path.isdir(x) and not os.path.basename(x).startswith('tmp-')), key=os.path.getmtime)
    for x in ds[:-limit]:
        if os.path.basename(x) != keep:
            shutil.rmtree(x, ignore_errors=True)


if __name__ == '__main__':
    print(build(*(sys.argv[1:2])))
