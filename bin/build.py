#!/usr/bin/env python3
"""Build drivers against the working tree of the repository in several instrumented variants."""
import hashlib, os, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
SRC = os.path.join(REPO, 'src')
STD = '-std=gnu++14'
WARN = ['-w']
VARIANTS = {
    'plain': dict(cflags=['-O1', '-g1'], ldflags=[], det=False),
    'asan': dict(cflags=['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                         '-fno-sanitize=vptr', '-D_GLIBCXX_ASSERTIONS'],
                 ldflags=['-fsanitize=address,undefined'], det=False),
    'tsan': dict(cflags=['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread'], ldflags=['-fsanitize=thread'], det=False),
    'det': dict(cflags=['-O1', '-g1', '-fsanitize=thread'], ldflags=[], det=True),
    # development only: the controlled scheduler with full debug information
    'detg': dict(cflags=['-O0', '-g', '-fsanitize=thread'], ldflags=[], det=True),
}
CXX = os.environ.get('VERIF_CXX', 'g++')


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-6000:]))


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def repo_files():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(('.cpp', '.hpp', '.ipp', '.h', '.c')):
                out.append(os.path.join(d, f))
    return out


def harness_files():
    out = []
    for sub in ('rt', 'drv'):
        d = os.path.join(VERIF, sub)
        out += [os.path.join(d, f) for f in os.listdir(d) if f.endswith(('.hpp', '.cpp', '.h'))]
    return out


_pool = ThreadPoolExecutor(8)


def build(targets):
    """targets: list of (variant, driver, extra_defs). Returns {(variant, driver): exe path}."""
    rh = tree_hash(repo_files())
    rth = tree_hash([f for f in harness_files() if f.endswith('.hpp') or os.path.dirname(f).endswith('rt')])
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(targets, rh, rth)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(targets, rh, rth):
    jobs, link, result = [], [], {}
    need_lib = {}
    for variant, driver in targets:
        v = VARIANTS[variant]
        d = os.path.join(BUILD, variant)
        os.makedirs(d, exist_ok=True)
        drv = os.path.join(VERIF, 'drv', driver + '.cpp')
        dh = tree_hash([drv])
        key = hashlib.sha256((rh + rth + dh + repr(v) + CXX).encode()).hexdigest()[:16]
        exe = os.path.join(d, '%s-%s' % (driver, key))
        result[(variant, driver)] = exe
        if os.path.exists(exe):
            continue
        lib = os.path.join(d, 'lib-%s' % hashlib.sha256((rh + repr(v) + CXX).encode()).hexdigest()[:16])
        standalone = open(drv).read(200).find('STANDALONE') >= 0
        if not standalone and variant not in need_lib and not os.path.exists(os.path.join(lib, '.done')):
            os.makedirs(lib, exist_ok=True)
            objs = []
            for f in repo_files():
                if f.endswith('.cpp'):
                    o = os.path.join(lib, os.path.relpath(f, SRC).replace('/', '_') + '.o')
                    objs.append(o)
                    jobs.append([CXX, STD, *WARN, *v['cflags'], '-I' + SRC, '-c', f, '-o', o])
            need_lib[variant] = (lib, objs)
        o = os.path.join(d, '%s-%s.o' % (driver, key))
        jobs.insert(0, [CXX, STD, *WARN, *v['cflags'], '-DVERIF_%s' % variant.upper(), '-I' + SRC, '-I' + os.path.join(VERIF, 'rt'), '-c', drv, '-o', o])
        rt = os.path.join(d, 'rt-%s' % key)
        jobs.append([CXX, '-std=c++17', '-O2', '-g1', '-Wall', '-I' + os.path.join(VERIF, 'rt'), '-c', os.path.join(VERIF, 'rt', 'h.cpp'), '-o', rt + '-h.o'])
        detsrc = 'det.cpp' if v['det'] else 'det_stub.cpp'
        jobs.append([CXX, '-std=c++17', '-O2', '-g1', '-Wall', '-I' + os.path.join(VERIF, 'rt'), '-c', os.path.join(VERIF, 'rt', detsrc), '-o', rt + '-det.o'])
        link.append((exe, o, rt, lib, v, standalone))
    list(_pool.map(sh, jobs))
    for lib, objs in need_lib.values():
        open(os.path.join(lib, '.done'), 'w').close()

    def do_link(x):
        exe, o, rt, lib, v, standalone = x
        libobjs = [] if standalone else sorted(os.path.join(lib, f) for f in os.listdir(lib) if f.endswith('.o'))
        sh([CXX, o, rt + '-h.o', rt + '-det.o', *libobjs, *v['ldflags'], '-o', exe + '.tmp', '-pthread', '-ldl'])
        os.rename(exe + '.tmp', exe)
        for f in (o, rt + '-h.o', rt + '-det.o'):
            os.unlink(f)
    list(_pool.map(do_link, link))
    return result


if __name__ == '__main__':
    t = [tuple(a.split(':')) for a in sys.argv[1:]]
    for k, v in build(t).items():
        print(':'.join(k), v)
