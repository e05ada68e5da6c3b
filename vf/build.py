"""Compile /repo's current sources (plus a harness file) to LLVM bitcode for the verifier, or
to a native sanitised executable for replay.  Output is cached by content hash under
/verif/.build (ignored by git)."""
import glob
import hashlib
import os
import subprocess
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, '.build'))
LLVM = '/usr/lib/llvm-18/bin/'
SYM = ['clang++', '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-gline-tables-only',
       '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DNDEBUG', '-DVF_SYMBOLIC=1', '-w', '-ffp-contract=off',
       '-I' + VERIF + '/models/include', '-I' + VERIF + '/include']
NAT = ['clang++', '-std=c++20', '-O1', '-g1', '-DNDEBUG', '-w', '-ffp-contract=off', '-fno-sanitize-recover=all',
       '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr',
       '-I' + VERIF + '/include']
PASSES = ('function(sroa,early-cse,simplifycfg,instcombine,simplifycfg),cgscc(inline),globaldce,'
          'function(sroa,early-cse,instcombine,simplifycfg)')


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-6000:])
    return p.stdout


def sources():
    return sorted(glob.glob(REPO + '/src/*.cpp'))


def digest(extra=()):
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + '/src/**/*', recursive=True) + glob.glob(REPO + '/include/**/*', recursive=True))
    fs += sorted(glob.glob(VERIF + '/models/**/*', recursive=True) + glob.glob(VERIF + '/include/*'))
    fs += [VERIF + '/vf/build.py', VERIF + '/runtime/native.cpp'] + list(extra)
    for f in fs:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0')
            h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]


def par(cmds):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, cmds))


def atomic(d, work):
    """fill directory d by work(tmp)"""
    if os.path.isdir(d):
        return d
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        work(tmp)
        try:
            os.rename(tmp, d)
        except OSError:
            if not os.path.isdir(d):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def base():
    """repo + models bitcode"""
    d = os.path.join(BUILD, 'base-' + digest())

    def work(t):
        inc = ['-I' + REPO + '/include', '-I' + REPO + '/src']
        cmds = [SYM + inc + ['-emit-llvm', '-c', s, '-o', '%s/r_%s.bc' % (t, os.path.basename(s))] for s in sources()]
        cmds.append(SYM + ['-emit-llvm', '-c', VERIF + '/models/models.cpp', '-o', t + '/models.bc'])
        par(cmds)
    return atomic(d, work)


def module(spec):
    """bitcode of the whole library with harness file specs/<spec>.cpp"""
    f = '%s/specs/%s.cpp' % (VERIF, spec)
    extra = [f] + sorted(glob.glob(VERIF + '/specs/*.hpp'))
    b = base()
    d = os.path.join(BUILD, 'mod-%s-%s' % (spec, digest(extra)))

    def work(t):
        run(SYM + ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + VERIF + '/specs', '-emit-llvm', '-c', f, '-o', t + '/spec.bc'])
        run([LLVM + 'llvm-link', '-o', t + '/l.bc'] + sorted(glob.glob(b + '/*.bc')) + [t + '/spec.bc'])
        run([LLVM + 'opt', '-passes=' + PASSES, '-inline-threshold=25', t + '/l.bc', '-o', t + '/m.bc'])
        os.unlink(t + '/l.bc')
    atomic(d, work)
    return d + '/m.bc'


def native_base():
    d = os.path.join(BUILD, 'nbase-' + digest())

    def work(t):
        inc = ['-I' + REPO + '/include', '-I' + REPO + '/src']
        cmds = [NAT + inc + ['-c', s, '-o', '%s/r_%s.o' % (t, os.path.basename(s))] for s in sources()]
        cmds.append(NAT + ['-c', VERIF + '/runtime/native.cpp', '-o', t + '/rt.o'])
        par(cmds)
    return atomic(d, work)


def native(spec):
    f = '%s/specs/%s.cpp' % (VERIF, spec)
    extra = [f] + sorted(glob.glob(VERIF + '/specs/*.hpp'))
    b = native_base()
    d = os.path.join(BUILD, 'nat-%s-%s' % (spec, digest(extra)))

    def work(t):
        run(NAT + ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + VERIF + '/specs', '-c', f, '-o', t + '/spec.o'])
        run(NAT + ['-rdynamic', '-o', t + '/run'] + sorted(glob.glob(b + '/*.o')) + [t + '/spec.o', '-ldl'])
        os.unlink(t + '/spec.o')
    atomic(d, work)
    return d + '/run'


def clean_old(keep=12):
    try:
        ds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)), key=os.path.getmtime)
    except OSError:
        return
    for x in ds[:-keep]:
        shutil.rmtree(x, ignore_errors=True)
