"""Which harness decides which property, and how it is built from /repo."""
import os, sys, subprocess, hashlib, glob
from simbuild import *

S = os.path.join(VERIF, 'sim')
I = ['-I' + os.path.join(S, 'rt'), '-I' + S, '-I' + REPO, '-I' + os.path.join(REPO, 'arch/unix')]


def h_rpa():
    R = [('rpa_cache_lookup', 'simw_cache_lookup'), ('rpa_cache_set', 'simw_cache_set')]
    jobs = rt_objs() + lib_jobs(['rlib', 'rvm', 'rpa', 'rex'], redefs=R, exclude=['rpacache.c'])
    jobs += [j for j in lib_jobs(['rpa']) if j[0].endswith('rpacache.c')]
    return jobs + [(os.path.join(S, 'h_rpa.cpp'), RT + I, False, ())]


def h_rlib():
    return rt_objs() + lib_jobs(['rlib', 'rvm', 'rpa', 'rex'], defs=['-DR_DEBUG_MEMALLOC']) + [(os.path.join(S, 'h_rlib.cpp'), RT + I, False, ())]


def h_rex():
    return rt_objs() + lib_jobs(['rlib', 'rex']) + [(os.path.join(S, 'h_rex.cpp'), RT + I, False, ())]


IO = [(a, 'sim_' + a) for a in ('open close fstat stat lstat read lseek mmap munmap opendir readdir rewinddir closedir fopen fclose fwrite fread '
      'printf puts putchar clock time exit _exit unlink remove rename access stdout stderr stdin '
      'write fsync fdatasync fileno fileno_unlocked isatty madvise posix_madvise posix_fadvise posix_fadvise64 '
      'open64 fstat64 stat64 lstat64 lseek64 mmap64 readdir64 fopen64').split()]
IO = [(a, b + '_' if a == 'access' else b) for a, b in IO]


def tool_jobs():
    jobs = lib_jobs(['rlib', 'rvm', 'rpa', 'rex'], redefs=IO)
    inc = ['-I' + REPO, '-I' + os.path.join(REPO, 'arch/unix')]
    for tool in ('rexgrep', 'rpagrep', 'rexcc'):
        t = os.path.join(REPO, tool)
        srcs = sorted(glob.glob(t + '/*.c')) + sorted(glob.glob(t + '/unix/*.c'))
        own = [(n, tool + '_' + n) for n in 'usage fse_create fse_destroy fse_next_file fseFileName fse_progress rex_buffer_map_file rex_buffer_unmap_file'.split()]
        for s in srcs:
            jobs.append((s, SUT + inc + ['-I' + t, '-I' + t + '/unix', '-Dmain=%s_main' % tool], True, tuple(IO + own)))
    return jobs


def h_tools():
    return rt_objs() + tool_jobs() + [(os.path.join(S, 'h_tools.cpp'), RT + I, False, ())]


def rexjson_dfa():
    """rexjsondfa.h, generated by rexcc as rexjson/Makefile does (a plain rexcc built from the tree)"""
    inc = ['-I' + REPO, '-I' + os.path.join(REPO, 'arch/unix'), '-I' + os.path.join(REPO, 'rexcc/unix'), '-O1', '-w']
    src = [s for l in ('rlib', 'rex', 'rexcc') for s in sorted(glob.glob(os.path.join(REPO, l, '*.c')) + glob.glob(os.path.join(REPO, l, 'unix', '*.c')))]
    spec = os.path.join(REPO, 'rexjson/rexjsondfa.rexcc')
    h = hashlib.sha256(tree_digest([REPO]).encode())
    for f in src + [spec]:
        h.update(f.encode() + open(f, 'rb').read())
    d = os.path.join(BUILD, 'gen-' + h.hexdigest()[:16])
    if not os.path.exists(d + '/rexjsondfa.h'):
        os.makedirs(d, exist_ok=True)
        sh([CC] + inc + src + ['-o', d + '/rexcc', '-lm'])
        sh(['sh', '-c', 'ulimit -v 4000000; ulimit -t 100; exec "$@"', 'x', d + '/rexcc', spec, '-o', d + '/tmp.h'])
        os.rename(d + '/tmp.h', d + '/rexjsondfa.h')
    return d


def h_json():
    cx = [f for f in SUT if f != '-fcommon'] + ['-std=c++17', '-include', 'array', '-include', 'tuple', '-include', 'cstring', '-I' + rexjson_dfa(), '-I' + os.path.join(REPO, 'rexjson'), '-I' + os.path.join(REPO, 'rexjsonrpc'), '-I' + REPO]
    jobs = rt_objs(cxxnew=True)
    jobs.append((os.path.join(REPO, 'rexjson/rexjson.c'), [f for f in cx if not f.startswith('-std') and f not in ('-include', 'array', 'tuple', 'cstring')], True, ()))
    jobs.append((os.path.join(REPO, 'rexjson/rexjson++.cpp'), cx, True, ()))
    jobs.append((os.path.join(REPO, 'rexjsonrpc/property.cpp'), cx, True, ()))
    return jobs + [(os.path.join(S, 'h_json.cpp'), cx + I + ['-DSIM_HDR=' + tree_digest([S])[:12]], True, ())]


HARNESS = {'h_json': h_json, 'h_rpa': h_rpa, 'h_rlib': h_rlib, 'h_rex': h_rex, 'h_tools': h_tools}
PROPS = {  # property: (harness, quick seconds, thorough seconds)
    'C01': ('h_rpa', 40, 1500), 'C02': ('h_rpa', 30, 1500), 'C03': ('h_rpa', 30, 1500),
    'C04': ('h_rpa', 30, 1500), 'C05': ('h_rpa', 30, 1500), 'C06': ('h_rpa', 30, 1500), 'C07': ('h_rpa', 30, 1500),
    'C08': ('h_rlib', 25, 1500), 'C09': ('h_rlib', 30, 1500),
    'C10': ('h_rex', 30, 1500), 'C11': ('h_rex', 25, 1500),
    'C12': ('h_tools', 45, 1500), 'C13': ('h_tools', 25, 1500), 'C14': ('h_tools', 30, 1500), 'C15': ('h_tools', 25, 1500),
    'C16': ('h_json', 25, 1500), 'C17': ('h_json', 25, 1500), 'C18': ('h_json', 25, 1500), 'C19': ('h_json', 30, 1500),
}


def build(name):
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        return link(name, HARNESS[name]())


if __name__ == '__main__':
    for n in sys.argv[1:] or HARNESS:
        print(build(n))
