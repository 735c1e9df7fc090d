"""Runs the contracts of one property (each in its own process), the bounded harness, and reports."""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

KNOWN = 'known-findings.txt'

TRUSTED = [
    'the generator in /verif/pyvc (Python AST semantics of the subset it accepts, term normal form)',
    'z3 4.x / cvc5 (an obligation is discharged when one of them reports unsat, or by polynomial normal form)',
    'machine arithmetic treated as mathematical: Python int exact, float64/complex128 as reals',
    'dependency contracts of numpy/scipy/numexpr/math operations as modelled in /verif/pyvc/models.py',
]


def _contract_worker(prop, idx, q):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    from . import verify
    try:
        name, fn, opts = verify.REGISTRY[prop][idx]
        res = verify.Result()
        info = verify.run_contract(name, fn, opts, res)
        info.pop('trace', None)
        obs = [{'name': o.name, 'status': o.status, 'backend': o.backend, 'goal': o.detail, 'model': o.model,
                'path': o.path} for o in res.obligations]
        q.put((idx, {'name': name, 'info': info, 'obligations': obs, 'functions': res.functions,
                     'assumed': sorted(res.assumed), 'solver_time': res.solver_time, 'backends': res.backends,
                     'undecided': res.undecided, 'limits': opts.get('note')}))
    except BaseException as e:
        q.put((idx, {'name': str(idx), 'info': {'status': 'undecided'}, 'obligations': [], 'functions': {},
                     'assumed': [], 'solver_time': 0, 'backends': {}, 'limits': None,
                     'undecided': [(str(idx), 'generator error: %s' % (''.join(
                         traceback.format_exception_only(type(e), e)).strip()))]}))


def _harness_worker(prop, tier, seed, scratch, budget, q):
    try:
        os.chdir(scratch)
        os.environ['HOME'] = scratch
        sys.stdout.flush()
        fd = os.open(os.path.join(scratch, 'out.txt'), os.O_WRONLY | os.O_CREAT, 0o600)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        from harness import core
        importlib.import_module('harness.' + prop.lower())
        q.put(core.run(prop, tier, seed, scratch, budget))
    except BaseException as e:
        q.put({'evaluations': 0, 'nontrivial': 0, 'violations': [], 'samples': [], 'per_case': {}, 'wall_s': 0,
               'skipped': [{'case': '*', 'index': 0, 'message': 'harness not loadable: %s' % ''.join(
                   traceback.format_exception_only(type(e), e)).strip()}]})


def known_findings(here, prop):
    """lines:  known: property=<id> match=<obligation or case name> | <what fails>"""
    out = []
    p = os.path.join(here, KNOWN)
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known:') and ('property=%s ' % prop) in l:
                head, _, what = l[len('known:'):].partition('|')
                m = [w[len('match='):] for w in head.split() if w.startswith('match=')]
                out.append((m[0] if m else None, what.strip()))
    return out


def main(argv, here, repo):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in argv:
        tier = 'thorough'
    if '--replay' in argv:
        return replay(prop, argv[argv.index('--replay') + 1], here)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    os.environ['HOME'] = scratch
    try:
        return decide(prop, tier, seed, scratch, here, repo, t0, '-v' in argv)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(prop, path, here):
    d = json.load(open(path))
    from harness import core
    importlib.import_module('harness.' + prop.lower())
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    os.environ['HOME'] = scratch
    rc = 0
    try:
        for v in d.get('failing_inputs', []):
            for name, fn, _, _ in core.HARNESS[prop]:
                if name == v['case']:
                    st, info = core.run_case(prop, name, fn, v['seed'], v['index'], scratch)
                    print('%s seed=%s index=%s: %s %s' % (name, v['seed'], v['index'], st, info))
                    rc = rc or (1 if st == 'violation' else 0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def decide(prop, tier, seed, scratch, here, repo, t0, verbose):
    ctx = mp.get_context('fork')
    hq = ctx.Queue()
    hbudget = 60 if tier == 'quick' else 400
    hs = os.path.join(scratch, 'h')
    os.mkdir(hs)
    hp = ctx.Process(target=_harness_worker, args=(prop, tier, seed, hs, hbudget, hq))
    hp.start()

    from . import verify
    load_error = None
    try:
        importlib.import_module('contracts.' + prop.lower())
    except Exception as e:
        load_error = ''.join(traceback.format_exception_only(type(e), e)).strip()
        if verbose:
            traceback.print_exc()
    specs = verify.REGISTRY.get(prop, [])
    results = {}
    q = ctx.Queue()
    todo = list(range(len(specs)))
    if tier == 'quick':
        todo = [i for i in todo if not specs[i][2].get('thorough')]
    selected = list(todo)
    todo.sort(key=lambda i: -specs[i][2].get('cost', 1))
    running = {}
    har = None
    deadline = t0 + (560 if tier == 'quick' else 3000)
    ncpu = max(2, (os.cpu_count() or 4) - 1)
    while todo or running:
        while todo and len(running) < ncpu:
            i = todo.pop(0)
            p = ctx.Process(target=_contract_worker, args=(prop, i, q))
            p.start()
            running[i] = (p, time.time() + specs[i][2].get('time_limit', 150) * 1.5 + 60)
        try:
            i, r = q.get(timeout=0.2)
            results[i] = r
            p, _ = running.pop(i)
            p.join(5)
            continue
        except Exception:
            pass
        now = time.time()
        if har is None:
            try:
                har = hq.get_nowait()
                if har['violations']:
                    # the verdict is settled by a failing input: no need to exhaust the contracts' time limits
                    deadline = min(deadline, now + (25 if tier == 'quick' else 200))
            except Exception:
                pass
        for i, (p, lim) in list(running.items()):
            if not p.is_alive() and q.empty():
                time.sleep(0.2)
                if q.empty():
                    running.pop(i)
                    results[i] = dead(specs[i][0], 'worker ended (memory?)')
            elif now > lim or now > deadline:
                p.kill()
                running.pop(i)
                results[i] = dead(specs[i][0], 'time limit')
        if now > deadline:
            for i in todo:
                results[i] = dead(specs[i][0], 'time limit')
            todo = []
    hend = time.time() + hbudget * 3 + 120
    while har is None and time.time() < hend:
        try:
            har = hq.get(timeout=0.5)
        except Exception:
            if not hp.is_alive() and hq.empty():
                break
    if hp.is_alive():
        hp.join(2)
        hp.kill()
    if har is None:
        har = {'evaluations': 0, 'nontrivial': 0, 'violations': [], 'samples': [], 'per_case': {}, 'wall_s': 0,
               'skipped': [{'case': '*', 'index': 0, 'message': 'harness process ended without a result'}]}

    obligations = [o for i in sorted(results) for o in results[i]['obligations']]
    failed = [o for o in obligations if o['status'] != 'proved']
    undecided = [u for i in sorted(results) for u in results[i]['undecided']]
    if load_error:
        undecided.append(('*', 'contracts not loadable against this tree: ' + load_error))
    known = known_findings(here, prop)
    used = set()

    def is_known(name):
        for m, what in known:
            if m == name:
                used.add((m, what))
                return True
        return False
    failed_new = [o for o in failed if not is_known(o['name'])]
    viol = [v for v in har['violations'] if not is_known(v['case'])]
    if (failed_new or undecided) and not viol:
        viol = [v for v in hunt(ctx, prop, tier, seed, scratch, har) if not is_known(v['case'])]
    for m, what in sorted(used):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    functions = {}
    backends = {}
    assumed = set()
    stime = 0.0
    for r in results.values():
        for k, v in r['functions'].items():
            functions[k] = functions.get(k, 0) + v
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
        assumed |= set(r['assumed'])
        stime += r['solver_time']
    bad = bool(failed_new or viol)
    rc = 0
    if bad:
        rd = os.path.join(here, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.json' % prop)
        json.dump({'property': prop, 'failed_obligations': failed_new[:40], 'failing_inputs': viol,
                   'undecided': undecided,
                   'replay_cmd': 'cd /verif && ./check.py %s --replay %s' % (prop, path)},
                  open(path, 'w'), indent=1, default=str)
        for o in list({o['name']: o for o in reversed(failed_new)}.values())[::-1][:10]:
            print('failed obligation %s (%s, %s): %s' % (o['name'], o['status'], o['backend'],
                                                         (o['goal'] or '')[:300]))
        for v in viol[:10]:
            print('failing input %s seed=%s index=%s: %s' % (v['case'], v['seed'], v['index'], v['message'][:400]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if viol else ' no-failing-input-found'))
        rc = 1
    for n, why in undecided:
        print('undecided contract %s: %s (bounded harness stands in)' % (n, why[:300]))
    if verbose:
        for i in sorted(results):
            print(results[i]['name'], results[i]['info'])
        print('harness', {k: v for k, v in har.items() if k != 'samples'})
    proved = [o for o in obligations if o['status'] == 'proved']
    per = {results[i]['name']: {'obligations': len(results[i]['obligations']),
                                'discharged': len([o for o in results[i]['obligations'] if o['status'] == 'proved']),
                                'paths': results[i]['info'].get('paths'),
                                'status': results[i]['info']['status'],
                                'time_s': results[i]['info'].get('time')} for i in sorted(results)}
    from contracts import assumptions
    level = 'proof' if obligations and not undecided and not failed_new else ('exploration' if not specs or undecided
                                                                             else 'proof')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {
              'obligations': len(obligations), 'discharged': len(proved),
              'checker_cmd': 'cd /verif && ./check.py %s' % prop,
              'trusted_base': TRUSTED + sorted('assumed contract: ' + a for a in assumed),
              'contracts': per, 'functions_under_contract': sorted(functions),
              'solver_time_s': round(stime, 2), 'discharged_by': backends,
              'undecided': [list(u) for u in undecided],
              'evaluations': har['evaluations'], 'distinct_nontrivial': har['nontrivial'],
              'rule': 'bounded replay harness (never counted as proved): random valid inputs from VERIF_SEED through '
                      'the public entry points of the real code, compared with an independent oracle; distinct by '
                      'input summary',
              'samples': har['samples'] or [o['name'] for o in obligations[:3]],
              'harness_cases': har['per_case'], 'harness_skipped': har['skipped'][:10]},
          'assumptions': sorted(set([r['limits'] for r in results.values() if r['limits']])) + [
              'inputs satisfy the preconditions stated in /verif/contracts/%s.py' % prop.lower()] + assumptions.of(prop),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol) + len(failed_new)}
    ed = os.path.join(here, 'evidence')
    os.makedirs(ed, exist_ok=True)
    json.dump(ev, open(os.path.join(ed, prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d contracts (%d undecided), harness %d cases, %.1f s' % (
        prop, len(obligations), len(proved), len(selected), len(undecided), har['evaluations'], time.time() - t0))
    return rc


def hunt(ctx, prop, tier, seed, scratch, har):
    """an obligation failed or is undecided and the regular cases show nothing: look longer, under other seeds, for a failing input"""
    qs, out = [], []
    for j in range(max(2, (os.cpu_count() or 4) - 1)):
        d = os.path.join(scratch, 'hunt%d' % j)
        os.mkdir(d)
        q = ctx.Queue()
        p = ctx.Process(target=_harness_worker, args=(prop, 'hunt', seed + 1000 * (j + 1), d, 60 if tier == 'quick' else 300, q))
        p.start()
        qs.append((p, q))
    end = time.time() + (100 if tier == 'quick' else 400)
    left = list(qs)
    while left and not out and time.time() < end:
        for x in list(left):
            try:
                r = x[1].get(timeout=.1)
                left.remove(x)
                out += r['violations']
                har['evaluations'] += r['evaluations']
            except Exception:
                if not x[0].is_alive() and x[1].empty():
                    left.remove(x)
    for p, q in qs:
        p.kill()
        p.join(5)
    return out


def dead(name, why):
    return {'name': name, 'info': {'status': 'undecided'}, 'obligations': [], 'functions': {}, 'assumed': [],
            'solver_time': 0, 'backends': {}, 'undecided': [(name, why)], 'limits': None}
