"""Builds the simulator of /repo's working tree together with the stand-ins and
monitors of this directory. Output goes to /verif/build (git-ignored)."""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
JOBS = 8


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e['CCACHE_DIR'] = os.path.join(BUILD, 'ccache')
    e['CCACHE_MAXSIZE'] = '3G'
    e['CCACHE_SLOPPINESS'] = 'include_file_mtime,include_file_ctime,time_macros'
    e['LC_ALL'] = 'C'
    return e


def shadow(name, profile=None, edits=()):
    """A tree of links to /repo's files in which the configuration headers are
    those of a build profile, as `make PROFILE=...` would choose them. edits:
    (file, pattern, replacement) on top of that; an edit that does not apply
    raises BuildError."""
    root = os.path.join(BUILD, 'tree', name)
    shutil.rmtree(root, ignore_errors=True)
    for d, dirs, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        if rel == '.':
            dirs[:] = [x for x in dirs if x not in ('.git', 'build')]
        os.makedirs(os.path.join(root, rel), exist_ok=True)
        for f in files:
            if f.endswith(('.h', '.hpp', '.cpp', '.inc', '.c', '.def', '.a')):
                os.symlink(os.path.join(d, f), os.path.join(root, rel, f))
    conf = ('include/config.h', 'front-end/config/frontend_feature_config.h')
    if profile:
        for f in conf:
            os.unlink(os.path.join(root, f))
            os.symlink(os.path.join(REPO, f + '.' + profile),
                       os.path.join(root, f))
    for f, pat, rep in edits:
        p = os.path.join(root, f)
        text = open(p).read()
        new, n = re.subn(pat, rep, text, flags=re.M)
        if n == 0:
            raise BuildError('setting %s does not apply to %s' % (pat, f))
        os.unlink(p)
        with open(p, 'w') as o:
            o.write(new)
    return root


def find(d, root):
    return sorted(p for p in glob.glob(os.path.join(root, d, '**', '*.cpp'),
                                       recursive=True)
                  if not p.endswith('_test.cpp'))


def repo_sources(root=REPO):
    """Same selection as the Makefile of /repo, plus diff/ref.cpp (which stands
    in for the external reference library where a check needs it)."""
    out = find('back-end', root) + find('front-end', root) + find('diff', root)
    out += sorted(glob.glob(os.path.join(root, 'MemSubSystem', '*.cpp')))
    out += [os.path.join(root, 'main.cpp'),
            os.path.join(root, 'rv_simu_mmu_v2.cpp')]
    return out


def includes(r=REPO):
    dirs = [VERIF + '/monitor', VERIF + '/standin/kit', VERIF + '/standin/ref',
            r + '/include', r + '/libs/include', r + '/back-end/include',
            r + '/back-end/Exu/include', r + '/back-end/Lsu/include',
            r + '/back-end/tools/include', r + '/MemSubSystem/include',
            r + '/diff/include', r + '/legacy/mmu/include', r + '/front-end', r]
    return ['-I' + d for d in dirs]


def fast_march():
    """The upstream build uses -march=native; this is the portable part of it,
    used only where the machine has it."""
    try:
        fl = set(open('/proc/cpuinfo').read().split('flags', 1)[1]
                 .split('\n', 1)[0].split())
    except (OSError, IndexError):
        return []
    need = {'avx2', 'bmi1', 'bmi2', 'fma', 'f16c', 'movbe', 'abm'}
    return ['-march=x86-64-v3'] if need <= fl else []


# One line per build variant: compiler, flags.
BASE = ['-std=c++2a', '-w']
VARIANTS = {
    # repository assertions on
    'dbg': ('g++', ['-O3', '-g1'] + fast_march()),
    # as shipped
    'rel': ('g++', ['-O3', '-g1', '-DNDEBUG'] + fast_march()),
}


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors='replace', **kw)


def compile_all(cc, flags, srcs, outdir, inc, optional=()):
    """Compiles srcs -> objects. Returns {src: object}; raises BuildError."""
    os.makedirs(outdir, exist_ok=True)
    objs = {}
    e = env()

    def one(s):
        o = os.path.join(outdir, s.strip('/').replace('/', '_') + '.o')
        objs[s] = o
        p = run(['ccache', cc] + flags + inc + ['-c', s, '-o', o], env=e)
        return s, o, p

    # longest first
    srcs = sorted(srcs, key=lambda s: -os.path.getsize(s))
    errs = []
    with ThreadPoolExecutor(JOBS) as ex:
        for s, o, p in ex.map(one, srcs):
            if p.returncode:
                if s in optional:
                    objs.pop(s)
                else:
                    errs.append('%s\n%s' % (s, p.stdout[-3000:]))
    if errs:
        raise BuildError('\n'.join(errs[:3]))
    return objs


def sim(variant='dbg', cc=None, flags=None, monitor=('monitor.cpp',),
        extra=(), inc_first=(), name=None, resource=None, ld=(),
        root=REPO, reverse=False):
    """Builds one simulator binary and returns its path."""
    if flags is None:
        cc, flags = VARIANTS[variant]
    name = name or variant
    out = os.path.join(BUILD, name)
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(out, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        srcs = repo_sources(root)
        srcs += [os.path.join(VERIF, 'monitor', m) for m in monitor]
        srcs += list(extra)
        opt = ()
        if resource:
            # monitors of pipeline internals, a file each; one that does not
            # compile is left out
            d = os.path.join(VERIF, 'monitor', resource)
            opt = [os.path.join(d, f) for f in sorted(os.listdir(d))
                   if f.endswith('.cpp') and f != 'core.cpp']
            srcs += opt + [os.path.join(d, 'core.cpp')]
        else:
            srcs.append(os.path.join(VERIF, 'monitor', 'nores.cpp'))
        flags = BASE + list(flags)
        inc = ['-I' + d for d in inc_first] + includes(root)
        objs = compile_all(cc, flags, srcs, os.path.join(out, 'obj'), inc, opt)
        sim.left_out = [os.path.basename(s)[:-4] for s in opt if s not in objs]
        exe = os.path.join(out, 'sim')
        order = [objs[s] for s in srcs if s in objs]
        if reverse:
            order.reverse()
        p = run([cc] + flags + order +
                [REPO + '/libs/softfloat.a', '-lz'] + list(ld) + ['-o', exe + '.new'])
        if p.returncode:
            raise BuildError('link: ' + p.stdout[-3000:])
        os.rename(exe + '.new', exe)
        return exe
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


sim.left_out = []


def tool(name, srcs, flags, cc='g++', inc=(), libs=()):
    """Builds a single stand-alone driver (no simulator) and returns its path."""
    out = os.path.join(BUILD, name)
    os.makedirs(out, exist_ok=True)
    flags = BASE + list(flags)
    objs = compile_all(cc, flags, list(srcs), os.path.join(out, 'obj'),
                       ['-I' + d for d in inc] + includes())
    exe = os.path.join(out, 'tool')
    p = run([cc] + flags + list(objs.values()) + list(libs) + ['-o', exe + '.new'])
    if p.returncode:
        raise BuildError('link: ' + p.stdout[-3000:])
    os.rename(exe + '.new', exe)
    return exe


SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']


def refstep():
    """The repository's reference model against the sequential model."""
    return tool('refstep', [VERIF + '/tools/refstep.cpp', REPO + '/diff/ref.cpp'],
                ['-O1', '-g1'] + SAN, libs=[REPO + '/libs/softfloat.a'])


def fpunit():
    return tool('fpunit', [VERIF + '/tools/fpunit.cpp'], ['-O1', '-g1'] + SAN,
                libs=[REPO + '/libs/softfloat.a'])


def mkckpt():
    """Switch points and checkpoints of a program."""
    return tool('mkckpt', [VERIF + '/tools/mkckpt.cpp'], ['-O2', '-g1'],
                libs=[REPO + '/libs/softfloat.a', '-lz'])
