#!/usr/bin/env python3
"""Compile /repo's current working tree and the harness into one binary.

Content addressed: an object is keyed by the hash of its source, of every
header of /repo/src and of the harness, and of the flags, so a change in what
the code says is always seen and mtimes are irrelevant.
usage: build.py [--san] GROUP...  ->  prints the path of the binary
A group is the x of harness/p_x.cpp: each check links only its own, so an API
change that breaks one harness file leaves the other checks alone.
"""
import hashlib, os, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
H = os.path.join(VERIF, 'harness')
OUT = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

DIRS = ['Interfaces', 'Interfaces/Ipopt', 'Algorithms', 'Algorithms/Branching',
        'Algorithms/OaGenerators', 'Algorithms/QuadCuts', 'CbcBonmin',
        'CbcBonmin/Heuristics']
SKIP = {'BonCurvBranchingSolver.cpp', 'BonCurvatureEstimator.cpp',
        'BonStdCInterface.cpp', 'BonStdInterfaceTMINLP.cpp'}
LIBS = ('-lipopt -ldmumps_seq -lgfortran -lquadmath -ldl -lCbcSolver -lCbc -lpthread -lrt '
        '-lCgl -lOsiClp -lClpSolver -lClp -lOsi -lCoinUtils -lbz2 -lz -llapack -lblas -lm').split()
INC = [os.path.join(H, 'config')] + [os.path.join(SRC, d) for d in DIRS] + [H, '/usr/include/coin']


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def headers(root):
    r = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(('.hpp', '.h')):
                r.append(os.path.join(d, f))
    return sorted(r)


def build(groups=None, san=False):
    os.makedirs(os.path.join(OUT, 'obj'), exist_ok=True)
    lock = open(os.path.join(OUT, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    cxx = 'g++'
    # -fno-delete-null-pointer-checks etc. are not wanted: plain flags, asserts on
    flags = ['-O1', '-w', '-DHAVE_CONFIG_H', '-DHAVE_CSTDDEF', '-DBONMINLIB_BUILD', '-std=gnu++17']
    if san:
        flags += ['-g1', '-fsanitize=address,bounds,signed-integer-overflow',
                  '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    lflags = ['-fsanitize=address,undefined'] if san else []
    inc = []
    for d in INC:
        inc += ['-I', d]
    rh = sha(*[os.path.relpath(p, SRC) + ':' + sha(rd(p)) for p in headers(SRC)])
    hh = sha(*[os.path.relpath(p, H) + ':' + sha(rd(p)) for p in headers(H)])
    jobs = []
    for d in DIRS:
        dd = os.path.join(SRC, d)
        for f in sorted(os.listdir(dd)):
            if f.endswith('.cpp') and f not in SKIP:
                p = os.path.join(dd, f)
                jobs.append((p, sha(p, rd(p), rh, ' '.join(flags), 'repo')))
    for f in sorted(os.listdir(H)):
        if f.endswith('.cpp'):
            if groups and f.startswith('p_') and f[2:-4] not in groups:
                continue
            p = os.path.join(H, f)
            jobs.append((p, sha(p, rd(p), rh, hh, ' '.join(flags), 'harness')))
    objs, todo = [], []
    for p, k in jobs:
        o = os.path.join(OUT, 'obj', os.path.basename(p)[:-4] + '-' + k + '.o')
        objs.append(o)
        if not os.path.exists(o):
            todo.append((os.path.getsize(p), p, o))
    todo.sort(reverse=True)

    def one(t):
        _, p, o = t
        tmp = o + '.tmp%d.o' % os.getpid()
        r = subprocess.run([cxx] + flags + inc + ['-c', p, '-o', tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return p + '\n' + r.stdout.decode(errors='replace')
        os.rename(tmp, o)
        return None

    if todo:
        with ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))) as ex:
            errs = [e for e in ex.map(one, todo) if e]
        if errs:
            sys.stderr.write('\n'.join(errs) + '\n')
            raise SystemExit(3)
    exe = os.path.join(OUT, 'pbt%s-%s' % ('-san' if san else '', sha(*objs)))
    if not os.path.exists(exe):
        tmp = exe + '.tmp%d' % os.getpid()
        r = subprocess.run([cxx, '-o', tmp] + lflags + objs + LIBS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors='replace')[-6000:])
            raise SystemExit(3)
        os.rename(tmp, exe)
    # keep the cache small: drop objects this build did not use when it grows
    allo = [os.path.join(OUT, 'obj', f) for f in os.listdir(os.path.join(OUT, 'obj'))]
    if len(allo) > 800:
        keep = set(objs)
        for f in sorted(allo, key=os.path.getmtime)[:-400]:
            if f not in keep:
                try:
                    os.remove(f)
                except OSError:
                    pass
        for f in os.listdir(OUT):
            if f.startswith('pbt') and os.path.join(OUT, f) != exe:
                try:
                    if os.path.getmtime(os.path.join(OUT, f)) < os.path.getmtime(exe) - 3600:
                        os.remove(os.path.join(OUT, f))
                except OSError:
                    pass
    return exe


if __name__ == '__main__':
    print(build([a for a in sys.argv[1:] if a[0] != '-'], '--san' in sys.argv))
