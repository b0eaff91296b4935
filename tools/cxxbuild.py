"""Builds the real copc-lib sources (from the current /repo tree) with the laz-perf stand-in and a driver."""
import hashlib, os, subprocess, glob, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SAN = ['-fsanitize=address,undefined', '-fsanitize=float-cast-overflow', '-fno-sanitize=vptr',
       '-fno-sanitize-recover=all']
FLAGS = ['-std=c++17', '-O1', '-g1', '-w', '-include', 'cstdint', '-fno-access-control', '-fno-omit-frame-pointer']

def _digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]

def headers():
    out = glob.glob(REPO + '/cpp/**/*.hpp', recursive=True) + glob.glob(REPO + '/cpp/**/*.h', recursive=True)
    out += glob.glob(VERIF + '/standin/include/**/*.hpp', recursive=True)
    return out

def sources():
    return sorted(glob.glob(REPO + '/cpp/src/**/*.cpp', recursive=True))

def _compile(args):
    cmd, out = args
    if os.path.exists(out):
        return None
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return ' '.join(cmd) + '\n' + r.stdout[:3000]
    os.replace(tmp, out)
    return None

def build(driver, san=True, extra=()):
    """returns (path, None) or (None, error text)"""
    os.makedirs(BUILD, exist_ok=True)
    flags = FLAGS + (SAN if san else []) + list(extra) + ['-I' + VERIF + '/standin/include', '-I' + REPO + '/cpp/include']
    hd = _digest(headers(), ' '.join(flags))
    jobs, objs = [], []
    srcs = sources() + [VERIF + '/standin/lazperf_standin.cpp', VERIF + '/drivers/main.cpp',
                        VERIF + '/drivers/%s.cpp' % driver]
    dh = _digest(glob.glob(VERIF + '/drivers/*.hpp'), '')
    for s in srcs:
        o = os.path.join(BUILD, '%s.%s.o' % (os.path.basename(s), _digest([s], hd + (dh if '/drivers/' in s else ''))))
        objs.append(o)
        jobs.append((['g++'] + flags + ['-c', s], o))
    jobs.sort(key=lambda j: 0 if '/drivers/' in j[0][-1] else 1)
    with cf.ThreadPoolExecutor(max_workers=10) as ex:
        for e in ex.map(_compile, jobs):
            if e:
                return None, e
    exe = os.path.join(BUILD, '%s.%s' % (driver, hashlib.sha256(' '.join(objs).encode()).hexdigest()[:20]))
    e = _compile((['g++'] + (SAN if san else []) + objs, exe))
    return (None, e) if e else (exe, None)

if __name__ == '__main__':
    import sys
    p, e = build(sys.argv[1])
    print(p or e)
    sys.exit(0 if p else 2)
