"""Creates /verif/seeded/<id>/ from a spec and confirms it in a scratch copy of /repo.
usage: mkseed.py SPECFILE [id ...]   (SPECFILE defines SEEDS: list of dicts id, property, file, edits [(old,new)], demo, needs, breaks)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# builds the library sources of the current directory with the laz-perf stand-in beside this file and runs demo.cpp
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
ls cpp/src/*/*.cpp "$here"/lazperf_standin.cpp "$here"/demo.cpp | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O0 -w -include cstdint -fno-access-control -I"$1"/include -Icpp/include -c "$3" -o "$2"/$(basename "$3" .cpp).o' sh "$here" "$tmp" {} || exit 3
g++ "$tmp"/*.o -o "$tmp"/demo || exit 3
cd "$tmp" && timeout 120 ./demo
'''
HEAD = r'''#include "copc-lib/copc/copc_config.hpp"
#include "copc-lib/hierarchy/internal/hierarchy.hpp"
#include "copc-lib/io/copc_reader.hpp"
#include "copc-lib/io/copc_writer.hpp"
#include "copc-lib/io/laz_reader.hpp"
#include "copc-lib/io/laz_writer.hpp"
#include "copc-lib/laz/compressor.hpp"
#include "copc-lib/laz/decompressor.hpp"
#include <cstdio>
#include <cstring>
#include <sstream>
using namespace copc;
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); return 1; } } while (0)
template <class F> bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
'''

def run(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(s, scratch):
    d = os.path.join(V, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(HEAD + s['demo'])
    shutil.copytree(V + '/standin/include', d + '/include'); shutil.copy(V + '/standin/lazperf_standin.cpp', d)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    run('git checkout -q -- .', scratch)
    r0 = run(d + '/demo.sh', scratch)
    for f, edits in s['edits'].items():
        p = os.path.join(scratch, f)
        t = open(p).read()
        for a, b in edits:
            if t.count(a) != 1:
                import re
                pat = r'\n\s*?'.join(re.escape(l) for l in a.split('\n'))
                m = re.findall(pat, t)
                if len(m) == 1:
                    a = m[0]
            if t.count(a) != 1:
                print(s['id'], 'BAD edit', t.count(a), a[:80]); shutil.rmtree(d); return False
            t = t.replace(a, b)
        open(p, 'w').write(t)
    diff = run('git diff', scratch).stdout
    open(d + '/patch.diff', 'w').write(diff)
    r1 = run(d + '/demo.sh', scratch)
    run('git checkout -q -- .', scratch)
    ok = r0.returncode == 0 and r1.returncode not in (0, 3)
    print(s['id'], 'OK' if ok else 'BAD', r0.returncode, r1.returncode, (r0.stdout[-300:], r1.stdout[-200:]))
    if not ok:
        shutil.rmtree(d)
    return ok

if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    scratch = tempfile.mkdtemp(prefix='seed')
    subprocess.check_call(['git', 'clone', '-q', '/repo', scratch + '/r'])
    for s in ns['SEEDS']:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
            continue
        make(s, scratch + '/r')
    shutil.rmtree(scratch)
