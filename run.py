#!/usr/bin/env python3-vt
"""check PROP            decide one property on /repo's current tree
replay FILE           run again what a replay file records"""
import importlib, json, multiprocessing as mp, os, resource, sys, threading, time, traceback
if os.environ.get('PYTHONHASHSEED') != '0':      # the same run every time
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from cdv import front, contract, native  # noqa: E402
from contracts.registry import PROPS, MODULES, OTHER  # noqa: E402

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'


def worker(prog, con, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:  # noqa
        pass
    sys.stdout = sys.stderr = open(os.devnull, 'w')
    try:
        r = contract.verify(prog, con).pack()
    except BaseException as x:  # noqa
        r = contract.Result(con)
        r.error = 'internal: %s' % x
        r = r.pack()
    q.send(r)
    q.close()


def prove_all(prop, deadline):
    """verify every contract of the property; returns (results, error)"""
    info = PROPS[prop]
    tus = []
    for m in info['modules']:
        for t in MODULES[m]:
            if t not in tus:
                tus.append(t)
    try:
        prog = front.Program().load([front.REPO + '/lib/%s.cpp' % t for t in tus])
    except Exception as x:  # noqa
        return [], 'front end: %s' % x
    for m in info['modules']:
        importlib.import_module('contracts.' + m)
    cons = [c for c in contract.REGISTRY if prop in c.props]
    todo = list(cons)
    running, results = [], []
    ctx = mp.get_context('fork')
    while todo or running:
        while todo and len(running) < 7:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(prog, c, b))
            p.start()
            b.close()
            running.append((p, a, c, time.time()))
        nxt = []
        for p, a, c, t0 in running:
            lim = min(c.budget * 2, max(5, deadline - t0))
            r = None
            if a.poll(0.01):
                try:
                    r = a.recv()
                except EOFError:
                    r = contract.Result(c)
                    r.error = 'unsupported: the verifier ended unexpectedly'
                    r = r.pack()
                p.join()
            elif time.time() - t0 > lim:
                p.kill()
                p.join()
                R = contract.Result(c)
                R.error = 'timeout: no result after %d s' % lim
                r = R.pack()
            if r is None:
                nxt.append((p, a, c, t0))
            else:
                results.append(r)
        running = nxt
        time.sleep(0.01)
    order = {c.name: i for i, c in enumerate(cons)}
    results.sort(key=lambda r: order.get(r['con'], 0))
    return results, '; '.join(prog.errors) if getattr(prog, 'errors', None) else None


def known(prop):
    try:
        with open(os.path.join(ROOT, 'known_findings.json')) as fh:
            return [e for e in json.load(fh) if e.get('property') == prop and e.get('status') == 'known']
    except FileNotFoundError:
        return []


def matches(e, con=None, obl=None, nat=None):
    if con is not None:
        return e.get('contract') == con and e.get('obligation') in (obl, '*')
    return e.get('native') is not None and nat is not None and e['native'] in (nat['what'] + ' @ ' + nat['input'])


def check(prop):
    t0 = time.time()
    info = PROPS[prop]
    secs = info.get('secs', 15) if TIER == 'quick' else 240
    hard = t0 + (600 if TIER == 'quick' else 3000)
    nat = {}

    def nrun():
        if not info.get('harness'):
            nat['r'] = dict(status='none', what='no harness')
            return
        try:
            nat['r'] = native.run(info['harness'], prop, SEED, secs)
        except native.NativeError as x:
            nat['r'] = dict(status='error', what=str(x))
        except Exception as x:  # noqa
            nat['r'] = dict(status='error', what='%s' % x)
    th = threading.Thread(target=nrun)
    th.start()
    try:
        results, err = prove_all(prop, hard - 60)
    except Exception as x:  # noqa
        results, err = [], 'internal: %s' % traceback.format_exc(limit=-4)
    th.join()
    N = nat['r']
    kn = known(prop)
    failed, undecided, disch, total = [], [], 0, 0
    backends = {}
    knownhit = []
    for r in results:
        for o in r['obls']:
            total += 1
            if o[1] == 'discharged':
                disch += 1
            else:
                ks = [e for e in kn if matches(e, r['con'], o[0])]
                if ks:
                    knownhit += ks
                else:
                    failed.append((r, o))
        for b, n in r['backends'].items():
            backends[b] = backends.get(b, 0) + n
        if r['error']:
            undecided.append((r['con'], r['error']))
        total += r['invs']
        disch += r['invs']
        if r['invs']:
            backends['z3, loop invariants'] = backends.get('z3, loop invariants', 0) + r['invs']
    for e in kn:
        if e.get('native') and N.get('known') and e['native'] in str(N['known']):
            knownhit.append(e)
    # a failed obligation with no concrete input yet: search longer, with other seeds
    if failed and N['status'] == 'ok':
        for s in range(1, 4):
            if time.time() > hard - 120:
                break
            try:
                n2 = native.run(info['harness'], prop, SEED + 7919 * s, min(30, secs))
            except Exception:  # noqa
                break
            if n2['status'] == 'fail':
                N = n2
                break
    violations = []
    natfail = N['status'] == 'fail'
    if natfail:
        ks = [e for e in kn if matches(e, nat=N)]
        if ks:
            knownhit += ks
            natfail = False
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    rp = os.path.join('evidence', 'replay', prop + '.json')
    for e in {json.dumps(e, sort_keys=True): e for e in knownhit}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    print('%s: %d contracts, %d obligations, %d discharged (%s), %d undecided; native: %s' % (
        prop, len(results), total, disch, ', '.join('%s %d' % x for x in sorted(backends.items())), len(undecided),
        {k: v for k, v in N.items() if k in ('status', 'evals', 'distinct', 'exhaustive', 'what')}))
    for r, o in failed:
        print('FAILED OBLIGATION %s: %s\n    %s' % (r['con'], o[0], (o[2] or '')[:700]))
    for c, e in undecided:
        print('UNDECIDED %s: %s' % (c, e[:600]))
    if err:
        print('UNDECIDED: %s' % err[:600])
    rc = 0
    if failed or natfail:
        rc = 1
        doc = dict(property=prop, harness=info.get('harness'), tier=TIER,
                   obligations=[dict(contract=r['con'], function=r['function'], obligation=o[0], verdict=o[1], verifier_output=o[2])
                                for r, o in failed],
                   native=N if natfail else None)
        with open(os.path.join(ROOT, rp), 'w') as fh:
            json.dump(doc, fh, indent=1)
        violations.append(rp)
        if natfail:
            print('INPUT %s\nWHAT %s' % (N['input'][:1500], N['what'][:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    assume = set()
    for r in results:
        assume |= set(r['assumes']) | set(r['trusted'])
    libs = sorted(set(x for r in results for x in r['lib']))
    ev = dict(property=prop, tier=TIER, seed=SEED, level='other' if prop in OTHER else 'proof', wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=sorted(assume) + [
                  'the library models in cdv/lib.py describe the standard library and glib calls listed under library_models',
                  'objects of distinct class fields do not overlap in memory; allocation succeeds'],
              coverage=dict(
                  **({'explanation': OTHER[prop]} if prop in OTHER else {}),
                  obligations=total, discharged=disch,
                  checker_cmd='./run.py check %s' % prop,
                  trusted_base=['clang 18 AST of the current /repo sources', 'cdv (verification condition generator, library models)', 'z3', 'cvc5'],
                  functions_under_contract=[dict(
                      function=r['function'], contract=r['con'], obligations=[[o[0], o[1]] for o in r['obls']],
                      paths=r['paths'], loops=r['loops'], loop_invariants_proved=r['invs'], inlined=r['inlined'], interface_contracts=r['used'],
                      statements_without_effect_on_the_property=r['dropped'], seconds=round(r['time'], 2),
                      solver_seconds=round(r['solver_time'], 2), error=r['error']) for r in results],
                  back_ends=backends, solver_s=round(sum(r['solver_time'] for r in results), 2),
                  library_models=libs, undecided=[list(u) for u in undecided] + ([['front end', err]] if err else []),
                  known_findings=[e['what'] for e in knownhit],
                  bounded_replay=dict(harness=info.get('harness'), **{k: v for k, v in N.items() if k in (
                      'status', 'evals', 'distinct', 'exhaustive', 'what', 'samples')}),
                  evaluations=N.get('evals', 0), distinct_nontrivial=N.get('distinct', 0),
                  rule='replay harness (bounded, not counted as proved): random or enumerated scenarios run on the real code and compared with an '
                       'oracle; a scenario counts when it exercised the property and its description is distinct',
                  samples=N.get('samples', []) or ['none']))
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    return rc


def replay(path):
    with open(path) as fh:
        d = json.load(fh)
    for o in d['obligations']:
        print('failed obligation %s: %s\n   %s' % (o['contract'], o['obligation'], o['verifier_output'][:1500]))
    n = d.get('native')
    if n:
        r = native.run(d['harness'], d['property'], n['seed'], 5, case=(n['test'], n['case']))
        print(json.dumps(r, indent=1)[:4000])
        return 1 if r['status'] == 'fail' else 0
    return 1


if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == 'check':
        try:
            rc = check(sys.argv[2])
        except Exception:  # noqa
            traceback.print_exc()
            print('UNDECIDED: internal error of the checker')
            rc = 0
        sys.exit(rc)
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    print(__doc__)
    sys.exit(2)
