"""Mechanical extraction: clang AST of every function of the repository's current sources.
Runs the exporter on each /repo/cpp/src/**/*.cpp and merges the results.  Nothing is rewritten; the
exporter's header comment states what the extraction drops."""
import sys, os, json, subprocess, hashlib, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import cxxbuild
BUILD, REPO, VERIF = cxxbuild.BUILD, cxxbuild.REPO, cxxbuild.VERIF
LL = '/usr/lib/llvm-18'

class ExtractError(Exception):
    pass

def exporter():
    src = VERIF + '/exporter/exporter.cpp'
    os.makedirs(BUILD, exist_ok=True)
    with open(src, 'rb') as f:
        out = BUILD + '/exporter.' + hashlib.sha256(f.read()).hexdigest()[:16]
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        cmd = ['g++', '-O1', '-std=c++17', '-fno-rtti', '-w', '-I' + LL + '/include', '-D__STDC_CONSTANT_MACROS',
               '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp, '-Wl,-rpath,' + LL + '/lib',
               LL + '/lib/libclang-cpp.so.18.1', LL + '/lib/libLLVM.so.18.1']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ExtractError('exporter does not build: ' + r.stdout[:2000])
        os.replace(tmp, out)
    return out

class Program:
    def __init__(self):
        self.funs = {}     # fid -> function
        self.recs = {}     # record key -> record
        self.globs = {}    # qualified name -> {t, init}
        self.byname = {}   # qualified name -> [fid]
        self.derived = {}  # record key -> direct subclasses
    def add(self, lines):
        for l in lines:
            o = json.loads(l)
            if 'fun' in o:
                if o['fun'] not in self.funs:
                    self.funs[o['fun']] = o
                    self.byname.setdefault(o['q'], []).append(o['fun'])
            elif 'rec' in o:
                if o['rec'] not in self.recs:
                    self.recs[o['rec']] = o
                    for b in o['bases']:
                        self.derived.setdefault(b[2], []).append(o['rec'])
            elif 'glob' in o:
                self.globs.setdefault(o['glob'], o)

def load():
    exe = exporter()
    flags = ['-std=c++17', '-include', 'cstdint', '-w', '-I' + VERIF + '/standin/include', '-I' + REPO + '/cpp/include',
             '-resource-dir', LL + '/lib/clang/18']
    hd = cxxbuild._digest(cxxbuild.headers(), ' '.join(flags) + exe)
    def one(s, root=REPO + '/cpp'):
        out = os.path.join(BUILD, 'ast.%s.%s.json' % (os.path.basename(s), cxxbuild._digest([s], hd)))
        if not os.path.exists(out):
            r = subprocess.run([exe, root, s] + flags, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode or not r.stdout:
                raise ExtractError('cannot parse %s: %s' % (s, r.stderr[:2000]))
            tmp = out + '.%d' % os.getpid()
            with open(tmp, 'w') as f:
                f.write(r.stdout)
            os.replace(tmp, out)
        with open(out) as f:
            return f.read().split('\n')
    p = Program()
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for lines in ex.map(one, cxxbuild.sources()):
            p.add(l for l in lines if l)
    from .lazmodel import MODELLED
    p.add(l for l in one(VERIF + '/standin/lazperf_standin.cpp', VERIF + '/standin') if l and not (
        l.startswith('{') and '"fun"' in l and (lambda o: 'fun' in o and (not o['q'].startswith('lazperf') or o['q'].startswith(MODELLED)))(json.loads(l))))
    return p

if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print(len(p.funs), 'functions', len(p.recs), 'records', len(p.globs), 'globals', round(time.time() - t, 2), 's')
