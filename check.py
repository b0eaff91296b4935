#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property of the current /repo tree.  The contracts of the functions the property depends on are
discharged by the verifier in vc/ (every obligation, from the current source); the conformance driver of the property
runs the same sources concretely: it replays failed obligations and stands in, labelled bounded, for whatever the
verifier could not express."""
import json, os, subprocess, sys, time, re, threading
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.setrecursionlimit(100000)
import cxxbuild

pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
DRIVE = {'quick': 12, 'thorough': 150}[tier]
REPLAY = os.path.join(HERE, 'evidence', '%s.replay.txt' % pid)
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)


def run_driver(exe, secs, extra=(), sd=None):
    cmd = [exe, '--seconds', str(secs), '--seed', str(sd if sd is not None else seed)] + list(extra)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs + 120, cwd='/tmp')
    except subprocess.TimeoutExpired:
        return {'rc': 'timeout', 'cmd': cmd, 'out': '', 'err': ''}
    return {'rc': r.returncode, 'cmd': cmd, 'out': r.stdout.decode('utf8', 'replace'),
            'err': r.stderr.decode('utf8', 'replace')}


def driver_failed(res):
    return res is not None and re.search(r'^FAIL kind=', res['out'], re.M) is not None


def fail_key(res):
    m = re.search(r'^FAIL kind=(\S+) case=(\S+)', res['out'], re.M)
    w = re.search(r'^WHAT (.*)$', res['out'], re.M)
    return (m.group(2) if m else '?') + ': ' + (w.group(1) if w else '?')


def known():
    out = []
    for l in open(os.path.join(HERE, 'KNOWN_FINDINGS')):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def write_replay(text):
    with open(REPLAY, 'w') as f:
        f.write(text)
    return os.path.relpath(REPLAY, HERE)


def main():
    drv = {'exe': None, 'err': None, 'runs': []}

    def build_and_run():
        drv['exe'], drv['err'] = cxxbuild.build(pid)
        if drv['exe']:
            n = 1 if tier == 'quick' else 4
            rs = [None] * n

            def one(i):
                rs[i] = run_driver(drv['exe'], DRIVE, sd=seed + 7919 * i)
            th = [threading.Thread(target=one, args=(i,)) for i in range(n)]
            [t.start() for t in th]
            [t.join() for t in th]
            drv['runs'] = rs
    th = threading.Thread(target=build_and_run)
    th.start()
    proof = None
    perr = None
    try:
        pr = subprocess.run([sys.executable, '-m', 'vc.prover', pid, tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                            timeout=420 if tier == 'quick' else 700, start_new_session=True)
        proof = json.loads(pr.stdout.decode())
        if not proof['coverage']['obligations']:
            perr, proof = 'no contract carries this property', None
    except Exception as e:                       # the tool failed, which says nothing about the property
        import traceback
        perr = traceback.format_exc()
        try:
            perr += pr.stderr.decode()[-1500:]
        except NameError:
            pass
    th.join()

    violations, lines = [], []
    bad = [r for r in drv['runs'] if driver_failed(r)]
    failed = proof['failed'] if proof else []
    # refuted: exact counterexample; maybe: the solvers found a model of the negated obligation in which abstracted parts
    # (floating point functions, quantified facts) may be spurious -- the obligation is not discharged either way
    refuted = [o for o in failed if o['status'] in ('refuted', 'maybe', 'failed')]
    # replay search: counterexample values of failed obligations steer the driver
    if failed and not bad and drv['exe']:
        extra = []
        for o in failed[:20]:
            for kind, v in o.get('pool', [])[:12]:
                extra += ['--' + kind, str(v)]
        n, secs = 6, (30 if refuted else 12) if tier == 'quick' else 90
        rs = [None] * n

        def one2(i):
            rs[i] = run_driver(drv['exe'], secs, extra=extra if i % 2 == 0 else (), sd=seed + 104729 * (i + 1))
        ths = [threading.Thread(target=one2, args=(i,)) for i in range(n)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        drv['runs'] += rs
        bad = [r for r in rs if driver_failed(r)]
    kn = known()
    status = 0
    if bad:
        key = fail_key(bad[0])
        if any(k and k in key for k, _ in kn):
            pass
        else:
            txt = 'property %s violated on the real code\n\nreplay: %s\n\n%s\n%s\n' % (
                pid, ' '.join(bad[0]['cmd']), bad[0]['out'], bad[0]['err'][:6000])
            if failed:
                txt += '\nfailed obligations:\n' + json.dumps(failed[:20], indent=1, default=str)
            p = write_replay(txt)
            print('failed: ' + key)
            for o in failed[:8]:
                print('  obligation %s: %s' % (o['status'], o['name']))
            print('VIOLATION property=%s replay=%s' % (pid, p))
            violations.append({'what': key, 'obligations': [o['name'] for o in failed[:20]]})
            status = 1
    elif refuted:
        txt = 'property %s: obligation not discharged by the verifier (model found); the search on the real code found no failing input\n\n%s\n' % (
            pid, json.dumps(refuted[:20], indent=1, default=str))
        p = write_replay(txt)
        for o in refuted[:8]:
            print('  obligation fails: %s' % o['name'])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
        violations.append({'what': refuted[0]['name'], 'no_failing_input': True})
        status = 1
    for k, w in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))

    # driver statistics
    total = sum(int(m) for r in drv['runs'] for m in re.findall(r'^DONE total=(\d+)', r['out'], re.M))
    distinct = sum(int(m) for r in drv['runs'] for m in re.findall(r'^DONE total=\d+ distinct=(\d+)', r['out'], re.M))
    samples = [s for r in drv['runs'] for s in re.findall(r'^SAMPLE (.*)$', r['out'], re.M)][:4]
    cases = {}
    for r in drv['runs']:
        for n, c in re.findall(r'^CASE (\S+) (\d+)', r['out'], re.M):
            cases[n] = cases.get(n, 0) + int(c)
    if drv['err'] and proof is None:
        print('the sources or the driver do not compile and the verifier gave no answer:\n' + drv['err'][:1500])
        if perr:
            print(perr[-1500:])
        sys.exit(2)
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in man['checks'] if c['property'] == pid), 'exploration')
    cov = {'bounded_driver': {'executions': total, 'distinct': distinct, 'cases': cases,
                              'seconds': DRIVE, 'unavailable': (drv['err'] or '')[:600] or None,
                              'note': 'bounded, seeded executions of the real sources under ASan and UBSan with the '
                                      'laz-perf stand-in; never counted as proved'}}
    if proof:
        cov.update(proof['coverage'])
    if level != 'proof' or not proof:
        cov.update({'evaluations': total, 'distinct_nontrivial': distinct,
                    'rule': 'inputs drawn from the seeded generator of drivers/%s.cpp (edge values and random); '
                            'distinct by the printed input trace' % pid,
                    'samples': samples or ['(none)']})
    else:
        cov['bounded_driver']['samples'] = samples
    if perr:
        cov['verifier_error'] = perr[-1500:]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': (proof or {}).get('assumptions', []), 'wall_s': round(time.time() - T0, 2),
          'violations': len(violations)}
    if violations:
        ev['coverage']['violation_details'] = violations
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if status == 0:
        if proof:
            c = proof['coverage']
            print('%s: %d of %d obligations discharged over %d functions; %d executions of the driver (bounded)' % (
                pid, c['discharged'], c['obligations'], len(c['functions_under_contract']), total))
            for o in failed[:10]:
                print('  undecided: %s' % o['name'])
        else:
            print('%s: %d executions of the driver (bounded); verifier: %s' % (pid, total, (perr or '').strip().splitlines()[-1:] ))
    sys.exit(status)


main()
