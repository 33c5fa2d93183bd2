"""Builds a simulation binary from /repo's current working tree (or SIM_REPO)."""
import os, sys, hashlib, subprocess, glob, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(VERIF, '.build'))
CC, CXX = 'gcc', 'g++'
WRAP = ('malloc calloc realloc free strdup memcpy memmove memset memcmp strlen strcmp strncmp strcpy strncpy strcat '
        'strchr memchr __ctype_b_loc').split()
SUT = ['-O1', '-g', '-w', '-fno-omit-frame-pointer', '-fsanitize=thread', '-fno-builtin', '-fno-pie', '-fcommon']
RT = ['-O2', '-g', '-w', '-std=c++17', '-fno-pie', '-fno-omit-frame-pointer', '-fno-strict-aliasing']


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-4000:])
    return p.stdout


_hdr = {}


def tree_digest(dirs):
    key = tuple(dirs)
    if key not in _hdr:
        h = hashlib.sha256()
        for d in dirs:
            for root, ds, fs in os.walk(d):
                ds[:] = sorted(x for x in ds if x not in ('.git', 'build', '_build', 'googletest', 'tests', 'unittests', 'doc', 'phpext'))
                for f in sorted(fs):
                    if f.endswith(('.h', '.hpp', '.hh', '.inc', '.def')):
                        p = os.path.join(root, f)
                        h.update(p.encode()); h.update(open(p, 'rb').read())
        _hdr[key] = h.hexdigest()
    return _hdr[key]


def obj(src, flags, sut, redefs=(), lang=None, globalize=()):
    """compile one source; content-addressed so an unchanged file is not compiled twice"""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    cxx = lang == 'c++' or (lang is None and src.endswith(('.cpp', '.cc')))
    h = hashlib.sha256()
    hd = tree_digest([REPO, os.path.join(VERIF, 'sim')] if not sut else [REPO])
    h.update(repr((src, flags, sut, redefs, lang, globalize, hd, 3)).encode()); h.update(open(src, 'rb').read())
    o = os.path.join(BUILD, 'obj', os.path.basename(src).replace('+', 'p') + '-' + h.hexdigest()[:20] + '.o')
    if os.path.exists(o):
        return o
    t = o + '.%d.tmp.o' % os.getpid()
    sh([CXX if cxx else CC] + flags + ['-c', src, '-o', t], cwd=REPO)
    if sut:
        r = []
        for w in WRAP:
            r += ['--redefine-sym', '%s=__wrap_%s' % (w, w)]
        for a, b in redefs:
            r += ['--redefine-sym', '%s=%s' % (a, b)]
        for g in globalize:
            r += ['--globalize-symbol', g]
        sh(['objcopy'] + r + [t])
    os.rename(t, o)
    return o


def rt_objs(cxxnew=False):
    d = os.path.join(VERIF, 'sim', 'rt')
    f = RT + ['-I' + d] + (['-DSIM_CXX_NEW'] if cxxnew else [])
    return [(os.path.join(d, x), f, False, ()) for x in ('simrt.cpp', 'tsan_rt.cpp')]


def lib_jobs(libs, defs=(), redefs=(), exclude=()):
    jobs = []
    for l in libs:
        for s in sorted(glob.glob(os.path.join(REPO, l, '*.c'))):
            if os.path.basename(s) in exclude:
                continue
            jobs.append((s, SUT + ['-I' + REPO, '-I' + os.path.join(REPO, 'arch/unix')] + list(defs), True, tuple(redefs)))
    return jobs


def link(name, jobs, ldflags=('-lm',)):
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: obj(*j), jobs))
    out = os.path.join(BUILD, name)
    tmp = out + '.%d.tmp' % os.getpid()
    sh([CXX, '-no-pie', '-g', '-o', tmp] + objs + list(ldflags))
    os.rename(tmp, out)
    return out
