#!/usr/bin/env python3
"""Builds a simulation harness from the working tree of the repository.

Every object is cached in /verif/build (git-ignored) under a key made of the
contents of all files it depends on, so a changed source is always rebuilt."""
import hashlib, json, os, subprocess, sys, threading, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ESL_REPO', '/repo')
BUILD = os.environ.get('ESL_SIM_BUILD', os.path.join(VERIF, 'build'))
CXX = os.environ.get('CXX', 'g++')
COMMON = ['-std=c++17', '-g1', '-fno-omit-frame-pointer', '-include', 'cstdint', '-include', 'functional', '-DESL_RELEASE=1',
          '-DADEPT_RECORDING_PAUSABLE', '-DADEPT_STORAGE_THREAD_SAFE', '-w', '-fno-pie']
SIM = ['-fsanitize=thread', '-O1']

HARNESS_SOURCES = json.load(open(os.path.join(VERIF, 'sim', 'harnesses.json')))


def file_hash(path, memo={}):
    try:
        st = os.stat(path)
        k = (path, st.st_mtime_ns, st.st_size)
        if k not in memo:
            with open(path, 'rb') as f:
                memo[k] = hashlib.sha256(f.read()).hexdigest()
        return memo[k]
    except OSError:
        return 'absent'


def deps_of(depfile):
    try:
        text = open(depfile).read().replace('\\\n', ' ')
    except OSError:
        return None
    return text.split(':', 1)[1].split()


def compile_one(src, flags):
    tag = hashlib.sha256((REPO + '\0' + src + '\0' + ' '.join(flags)).encode()).hexdigest()[:24]
    base = os.path.join(BUILD, tag)
    obj, dep, key = base + '.o', base + '.d', base + '.key'

    def state():
        d = deps_of(dep)
        if d is None:
            return None
        return hashlib.sha256('\n'.join(p + ' ' + file_hash(p) for p in d).encode()).hexdigest()

    if os.path.exists(obj) and os.path.exists(key) and open(key).read() == state():
        return obj
    if os.path.exists(key):
        os.unlink(key)
    cmd = [CXX] + COMMON + flags + ['-I' + REPO, '-I' + os.path.join(VERIF, 'sim', 'rt'), '-I' + os.path.join(VERIF, 'sim', 'harness'), '-MMD', '-MF', dep, '-c', src, '-o', obj]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError('compiling %s failed:\n%s' % (src, p.stdout[-6000:]))
    with open(key, 'w') as f:
        f.write(state())
    return obj


def link(exe, objs, cfg):
    return subprocess.run([CXX, '-no-pie', '-rdynamic'] + objs + ['-o', exe, '-ldl', '-lpthread'] + cfg.get('libs', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def all_sources():
    found = []
    for d, dirs, files in os.walk(os.path.join(REPO, 'esl')):
        dirs.sort()
        found += [os.path.join(d, f) for f in sorted(files) if f.endswith('.cpp') and 'python' not in f and 'mpi' not in f]
    return found


def try_compile(src, extra):
    try:
        return compile_one(src, SIM + extra)
    except RuntimeError:
        return None


def build(name):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    cfg = HARNESS_SOURCES[name]
    rt = os.path.join(VERIF, 'sim', 'rt')
    extra = ['-I' + os.path.join(VERIF, d) for d in cfg.get('include', [])] + cfg.get('flags', [])
    jobs = [(os.path.join(VERIF, 'sim', 'harness', cfg['main']), SIM + extra)]
    # a source that was renamed or merged into another one is found below
    sources = [os.path.join(REPO, s) for s in cfg['sources'] if os.path.exists(os.path.join(REPO, s))]
    jobs += [(s, SIM + extra) for s in sources]
    jobs += [(os.path.join(rt, 'simrt.cpp'), ['-O2']), (os.path.join(rt, 'simmain.cpp'), ['-O1'])]
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    exe = os.path.join(BUILD, 'sim-' + name + '-' + hashlib.sha256(REPO.encode()).hexdigest()[:8])
    stamp = exe + '.key'
    want = hashlib.sha256('\n'.join(o + file_hash(o) for o in objs).encode()).hexdigest()
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want):
        p = link(exe, objs, cfg)
        if p.returncode:
            # symbols moved between the sources of the library: offer all of
            # them to the linker
            others = [s for s in all_sources() if s not in sources]
            with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
                found = [o for o in ex.map(lambda s: try_compile(s, extra), others) if o]
            archive = exe + '.a'
            if os.path.exists(archive):
                os.unlink(archive)
            subprocess.run(['ar', 'rcs', archive] + found, check=True)
            p = link(exe, objs + [archive], cfg)
        if p.returncode:
            raise RuntimeError('linking failed:\n' + p.stdout[-6000:])
        open(stamp, 'w').write(want)
    return exe


if __name__ == '__main__':
    for n in sys.argv[1:]:
        print(build(n))
