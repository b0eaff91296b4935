"""Discharges every obligation a property depends on: the contracts labelled with the property, its lemmas, and every
contract those proofs use, transitively.  `python3-vt -m vc.prover <property> <tier>` prints one JSON object."""
import os, sys, json, time, re, threading, queue, multiprocessing as mp
if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(200000)

WORK = {}

def _big(f):
    """run f in a thread with a large stack"""
    out = []
    def g():
        try:
            out.append(f())
        except BaseException as e:
            import traceback
            out.append(e)
            sys.stderr.write(traceback.format_exc()[-1500:])
    threading.stack_size(512 << 20)
    t = threading.Thread(target=g)
    t.start()
    t.join()
    return out[0]

def _job(task):
    from . import contract, smt
    from .spec import short
    kind, key, dyn, scale = task
    before = dict(smt.STATS)
    t0 = time.time()
    prog, cons = WORK['prog'], WORK['cons']
    def run():
        if kind == 'fun':
            return contract.verify(prog, cons, key, dyn=dyn, timeout=WORK['timeout'] * scale)
        return contract.verify_lemma(prog, cons, WORK['lems'][key], timeout=WORK['timeout'] * scale)
    r = _big(run)
    st = {k: smt.STATS[k] - before.get(k, 0) for k in smt.STATS}
    name = short(key) + (' [%s]' % dyn.split('::')[-1] if dyn else '') if kind == 'fun' else 'lemma: ' + WORK['lems'][key].name
    if isinstance(r, BaseException):
        return task, {'name': name, 'limit': 'verifier error: %s: %s' % (type(r).__name__, str(r)[:200]), 'obs': [], 'nsyn': 0,
                      'used': [], 'inlined': [], 'notes': [], 'time': time.time() - t0, 'stats': st}
    return task, {'name': name, 'limit': r.limit, 'obs': [(n, s, i if isinstance(i, (str, dict)) else str(i)) for n, s, i in r.obs],
                  'nsyn': r.nsyn, 'used': sorted(r.used), 'inlined': sorted(short(f) for f in r.inlined), 'notes': sorted(r.notes),
                  'time': time.time() - t0, 'stats': st}

def _main(q, w):
    while True:
        t = q.get()
        if t is None:
            return
        w.put(_job(t))

def pool_of(info):
    out = []
    if isinstance(info, dict):
        for k, v in info.items():
            v = str(v)
            if re.fullmatch(r'-?\d{1,19}', v):
                out.append(('int', int(v)))
            elif re.fullmatch(r'-?\d+\.\d+(e-?\d+)?', v):
                out.append(('double', float(v)))
            else:
                m = re.fullmatch(r'(-?\d+)/(\d+)', v)
                if m and len(v) < 300:
                    out.append(('double', int(m.group(1)) / int(m.group(2))))
                m = re.fullmatch(r'(-?\d+(?:\.\d+)?)\*\(2\*\*(-?\d+)\)', v)
                if m:
                    try:
                        out.append(('double', float(m.group(1)) * 2.0 ** int(m.group(2))))
                    except OverflowError:
                        pass
    return sorted(set(out), key=lambda x: (x[0], abs(x[1])))

BASE_ASSUMPTIONS = [
    'the clang front end (AST of the current sources) and vc/ (symbolic executor, loop summaries, std:: library semantics in vc/stdlib.py) are trusted',
    'z3 and cvc5 are trusted',
    'laz-perf is the stand-in of standin/ (the real dependency is absent here): its chunk codec is abstract in the proofs (decompressing the bytes it produced returns the points in order)',
    'no allocation failure; containers hold fewer than 2^31 elements, loops run fewer than 2^48 times; termination of summarised loops is not proved',
    'smart pointer and reference parameters are not null and do not alias one another',
]

def run_property(pid, tier='quick', only=None):
    from . import extract, spec, smt
    t0 = time.time()
    prog = extract.load()
    t_ext = time.time() - t0
    cons, lems, miss, bs = spec.load(prog)
    WORK.update(prog=prog, cons=cons, lems=lems, timeout=10.0 if tier == 'quick' else 30.0)
    tasks, seen = [], set()
    def push(kind, key, scale=1):
        if kind == 'fun':
            for dyn in cons[key].opts.get('dyns', [None]):
                if (kind, key, dyn) not in seen:
                    seen.add((kind, key, dyn))
                    tasks.append((kind, key, dyn, scale))
        elif (kind, key, None) not in seen:
            seen.add((kind, key, None))
            tasks.append((kind, key, None, scale))
    for f, c in cons.items():
        if pid in c.props:
            push('fun', f)
    for i, l in enumerate(lems):
        if pid in l.props:
            push('lem', i)
    ctx = mp.get_context('fork')
    q, w = ctx.Queue(), ctx.Queue()
    deadline = t0 + (330 if tier == 'quick' else 620)
    ps = [ctx.Process(target=_main, args=(q, w), daemon=True) for _ in range(8)]
    for p in ps:
        p.start()
    results, out, sent, retried = {}, 0, 0, set()
    while True:
        while tasks:
            q.put(tasks.pop(0))
            out += 1
        if not out:
            break
        try:
            task, r = w.get(timeout=max(0.1, deadline - time.time()))
        except queue.Empty:
            for key in seen:
                if key not in results:
                    results[key] = {'name': str(key[1])[:200], 'limit': 'time limit of the check', 'obs': [], 'nsyn': 0, 'used': [],
                                    'inlined': [], 'notes': [], 'time': 0, 'stats': {}}
            break
        out -= 1
        key = task[:3]
        if any(s == 'unknown' for _, s, _ in r['obs']) and key not in retried:
            # solver time ran out: once more with four times the limit
            retried.add(key)
            results[key] = r
            tasks.append(task[:3] + (4,))
            continue
        results[key] = r
        for f in r['used']:
            if f in cons:
                push('fun', f)
    for p in ps:
        p.kill()
    obls = disch = nsyn = 0
    stats, failed, funcs, limits, notes, inl, backends = {}, [], [], [], set(), set(), {}
    for key in sorted(results, key=lambda k: results[k]['name']):
        r = results[key]
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        notes |= set(r['notes'])
        inl |= set(r['inlined'])
        if r['limit']:
            limits.append({'function': r['name'], 'reason': r['limit']})
            obls += 1
            failed.append({'name': '%s: within the verifier\'s reach (%s)' % (r['name'], r['limit']), 'status': 'limit', 'pool': []})
            continue
        funcs.append(r['name'])
        nsyn += r['nsyn']
        obls += r['nsyn'] + len(r['obs'])
        disch += r['nsyn']
        for n, s, i in r['obs']:
            if s == 'proved':
                disch += 1
                backends[i if isinstance(i, str) else '?'] = backends.get(i if isinstance(i, str) else '?', 0) + 1
            else:
                failed.append({'name': '%s :: %s' % (r['name'], n), 'status': s, 'model': i, 'pool': pool_of(i)})
    missing = [n for n, ps_ in miss if pid in ps_]
    for n in missing:
        obls += 1
        failed.append({'name': '%s: no such function in the current sources' % n, 'status': 'limit', 'pool': []})
    backends['symbolic simplifier'] = nsyn
    cov = {'obligations': obls, 'discharged': disch,
           'checker_cmd': 'python3-vt -m vc.prover %s %s' % (pid, tier),
           'trusted_base': BASE_ASSUMPTIONS, 'functions_under_contract': funcs, 'functions_inlined_from_source': sorted(inl),
           'back_ends': backends, 'solver_seconds': round(stats.get('time', 0.0), 2), 'solver_queries': stats.get('queries', 0),
           'extraction_seconds': round(t_ext, 1), 'out_of_reach': limits,
           'failed_obligations': [o['name'] for o in failed][:50]}
    return {'failed': failed, 'coverage': cov, 'assumptions': BASE_ASSUMPTIONS + sorted(notes),
            'seconds': round(time.time() - t0, 2)}

if __name__ == '__main__':
    r = run_property(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick')
    json.dump(r, sys.stdout, indent=1, default=str)
    print()
    sys.stdout.flush()
    os._exit(0)
