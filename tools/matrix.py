"""Runs the quick check of each planted change's property against a patched clone of /repo; prints caught/missed.
usage: matrix.py [ids...]"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scratch = tempfile.mkdtemp(prefix='mx')
repo = scratch + '/r'
subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    if not os.path.isdir(d):
        continue
    m = json.load(open(d + '/meta.json'))
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=repo)
    subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=repo)
    t = time.time()
    r = subprocess.run(['python3-vt', V + '/check.py', m['property'], 'quick'], env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print('%-28s %s rc=%d %.0fs %s' % (i, m['property'], r.returncode, time.time() - t, (v or [r.stdout[-150:]])[0][:150]), flush=True)
    ev = V + '/evidence/%s.json' % m['property']
    if os.environ.get('MX_PROVER') and os.path.exists(ev):
        e = json.load(open(ev))
        print('      ', str(e.get('failed') or (e.get('coverage') or {}).get('failed_obligations'))[:300], flush=True)
shutil.rmtree(scratch)
