"""python3-vt -m pydv.check C01 [--tier quick|thorough]: discharge every obligation of a property's contracts against the
current source of /repo and write /verif/evidence/<id>.json"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYDV_REPO', '/repo')
EVID = os.environ.get('PYDV_EVID', os.path.join(VERIF, 'evidence'))
FIRST = bool(os.environ.get('PYDV_FIRST'))  # stop at the first violation (mutation campaigns)
if sys.path[0] != REPO:
    sys.path[:0] = [REPO, VERIF]

TRUSTED = ['pydv (symbolic interpreter for Python 3.12 in /verif/pydv: its semantics of the language and of the built-ins it models)',
           'z3, cvc5', 'CPython 3.12 on x86-64 Linux (float conversions of NaN bit patterns, native struct layout)']


def load(prop):
    """contracts of a property; raises if the tree under verification cannot even be imported"""
    import contracts.common as common
    importlib.import_module('contracts.' + prop.lower())
    return [c for c in common.ALL if c.prop == prop]


def to_json(a):
    out = {}
    for k, v in (a or {}).items():
        if isinstance(v, (list, tuple)) and len(v) == 2 and isinstance(v[1], dict):
            out[k] = [v[0], {str(i): x for i, x in v[1].items()}]
        else:
            out[k] = v
    return out


class TimeUp(BaseException):
    pass


class Alarm:
    """raises TimeUp in the block after so many seconds"""

    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        def up(*_):
            raise TimeUp()
        signal.signal(signal.SIGALRM, up)
        # again and again, should one be swallowed in a callback
        signal.setitimer(signal.ITIMER_REAL, max(self.secs, 0.01), 0.5)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)


def confirm(ct, assignment, registry=None):
    """replay an assignment against the real code -> failed obligations, or None"""
    from pydv.harness import run_concrete, Reject
    # a large number of unrelated values below the operands only costs time
    small = {k: min(v, 6) if k == 'nstack' and isinstance(v, int) else v for k, v in assignment.items()}
    for a, secs in ((small, 60),) + (((assignment, 25),) if small != assignment else ()):
        try:
            with Alarm(secs):
                fails, used, c = run_concrete(ct, assignment=a, registry=registry)
            if fails:
                return fails, used
        except (Reject, TimeUp, Exception):
            pass
    return None


def falsify(ct, seconds, seed, registry=None, maxn=10**9, hints=()):
    """sample the contract's precondition against the real code -> (samples, failing assignment or None, errors)"""
    from pydv.harness import run_concrete, Reject
    rnd = random.Random(seed)
    t0, n, rej, errs = time.time(), 0, 0, []
    while time.time() - t0 < seconds and n < maxn and rej < 40 * (n + 10):
        try:
            base = None
            if hints and rnd.random() < 0.3:
                h = rnd.choice(hints)
                base = {k: v for k, v in h.items() if k != 'nstack' and rnd.random() < 0.7}
            with Alarm(min(20, seconds + 5)):
                fails, used, c = run_concrete(ct, assignment=base, rnd=rnd, registry=registry)
            n += 1
            if fails:
                return n, (fails, used), errs
        except (Reject, TimeUp):
            rej += 1
        except Exception as e:
            rej += 1
            if len(errs) < 3:
                errs.append(''.join(traceback.format_exception_only(e)).strip() + ' @ ' +
                            ' <- '.join(f'{f.name}:{f.lineno}' for f in traceback.extract_tb(e.__traceback__)[-4:]))
    return n, None, errs


def job(ct, tier, seed, disabled):
    from pydv.harness import Result, run_symbolic
    reg = getattr(ct, 'registry', None)
    if disabled == 'sample':
        # the verifier was stopped: sampling only
        out = dead(ct, '')
        out['notes'] = []
        out['samples'], bad, errs = falsify(ct, 25 if tier == 'quick' else 90, f'{seed}:{ct.id}:2', reg)
        if bad:
            out['status'] = 'failed'
            out['violation'] = {'obligation': bad[0][0], 'input': to_json(bad[1]), 'found_by': 'sampling the contract on the real code'}
        return out
    if ct.direct is not None:
        return ct.direct(tier, seed)
    limit = ct.max_seconds * (1 if tier == 'quick' else 5)
    # the contract on the real code, for a few inputs: cross-checks the verifier, and finds what is plainly wrong at once
    n = ct.samples if ct.samples is not None else (8 if tier == 'quick' else 300)
    k, bad, errs = falsify(ct, 6 if tier == 'quick' else 60, f'{seed}:{ct.id}', reg, maxn=n)
    if bad:
        out = dead(ct, '')
        out.update(status='failed', samples=k, notes=[], violation={'obligation': bad[0][0], 'input': to_json(bad[1]),
                                                                    'found_by': 'sampling the contract on the real code'})
        return out
    try:
        with Alarm(limit + 5):
            r = run_symbolic(ct, tier, registry=reg, disabled=disabled)
    except TimeUp:
        r = Result(ct.id)
        r.status, r.secs = 'unsupported', limit
        r.notes.append(f'time limit after {limit} s')
    out = {'id': ct.id, 'status': r.status, 'obls': r.obls, 'paths': r.paths, 'secs': r.secs, 'solver_secs': r.solver_secs,
           'notes': r.notes, 'inlined': sorted(r.inlined), 'contracts_used': sorted(r.contracts_used),
           'models': sorted(r.models), 'failure': r.failure, 'samples': 0, 'violation': None}
    out['samples'] = k
    if r.status == 'proved':
        if errs:
            out['notes'].append('sampling: ' + errs[0])
        return out
    hints = []
    if r.failure and r.failure.get('assignment'):
        a = r.failure['assignment']
        hints.append(a)
        got = confirm(ct, a, reg)
        if got:
            out['violation'] = {'obligation': got[0][0], 'input': to_json(got[1]), 'found_by': 'counterexample replayed on the real code'}
            return out
        out['notes'].append('the counterexample does not reproduce on the real code')
    k, bad, errs = falsify(ct, 25 if tier == 'quick' else 90, f'{seed}:{ct.id}:2', reg, hints=hints)
    out['samples'] += k
    if errs:
        out['notes'].append('sampling: ' + errs[0])
    if bad:
        out['status'] = 'failed'
        out['violation'] = {'obligation': bad[0][0], 'input': to_json(bad[1]), 'found_by': 'sampling the contract on the real code'}
    return out


def child(ct, tier, seed, disabled, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        out = job(ct, tier, seed, disabled)
    except BaseException as e:
        out = {'id': ct.id, 'status': 'unsupported', 'obls': [], 'paths': 0, 'secs': 0, 'solver_secs': 0, 'inlined': [],
               'contracts_used': [], 'models': [], 'failure': None, 'samples': 0, 'violation': None,
               'notes': ['verifier: ' + ''.join(traceback.format_exception(e))[-1500:]]}
    try:
        conn.send(out)
    except Exception as e:
        out = {'id': ct.id, 'status': 'unsupported', 'obls': [], 'paths': 0, 'secs': 0, 'solver_secs': 0, 'inlined': [],
               'contracts_used': [], 'models': [], 'failure': None, 'samples': 0, 'violation': None,
               'notes': [f'result not transferable: {e}']}
        conn.send(out)
    conn.close()
    os._exit(0)


def run_all(cts, tier, seed, disabled=(), jobs=None, budget=None, verbose=False):
    """every contract in its own process, `jobs` at a time"""
    jobs = jobs or int(os.environ.get('PYDV_JOBS', '8'))
    ctx = mp.get_context('fork')
    queue = sorted(cts, key=lambda c: -c.heavy)
    running, results, slow = [], {}, {}
    t0 = time.time()
    found = None     # when the first violation with an input was found: the others get two more minutes
    while queue or running:
        if found and time.time() - found > 120:
            for ct in queue:
                results[ct.id] = {**dead(ct, 'not run: stopped two minutes after a violation'), 'skipped': True}
            queue = []
        while queue and len(running) < jobs:
            ct = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(ct, tier, seed, disabled, b))
            p.start()
            b.close()
            limit = ct.max_seconds * (1 if tier == 'quick' else 5) + (60 if tier == 'quick' else 240)
            running.append((ct, p, a, time.time(), limit))
        left = []
        for ct, p, a, t, limit in running:
            res = None
            if a.poll():
                try:
                    res = a.recv()
                except EOFError:
                    res = dead(ct, 'the verifier process ended without a result')
            elif not p.is_alive():
                res = dead(ct, 'the verifier process ended without a result (out of memory?)')
            elif time.time() - t > limit or budget and time.time() - t0 > budget:
                p.kill()
                res = dead(ct, f'time limit after {time.time() - t:.0f} s')
                if ct.id not in slow and not (budget and time.time() - t0 > budget):
                    slow[ct.id] = res['notes'][0]
                    a, b = ctx.Pipe(False)
                    p = ctx.Process(target=child, args=(ct, tier, seed, 'sample', b))
                    p.start()
                    b.close()
                    left.append((ct, p, a, time.time(), 60 if tier == 'quick' else 200))
                    continue
            elif found and time.time() - found > 120:
                p.kill()
                res = {**dead(ct, 'stopped two minutes after a violation'), 'skipped': True}
            if res is None:
                left.append((ct, p, a, t, limit))
            else:
                if ct.id in slow:
                    res['notes'].append(slow[ct.id])
                results[ct.id] = res
                p.join(1)
                if res['violation']:
                    found = found or time.time()
                if FIRST and res['violation']:
                    for _, q, _, _, _ in running:
                        q.kill()
                    for c in cts:
                        results.setdefault(c.id, {**dead(c, 'not run'), 'status': 'proved'})
                    return results
                a.close()
                if verbose:
                    print(f"{res['status']:12} {ct.id:40} obls={len(res['obls'])} paths={res['paths']} secs={time.time()-t:.1f} "
                          f"solver={res['solver_secs']:.1f} samples={res['samples']} {res['notes'][:2] if res['notes'] else ''} "
                          f"{res['violation'] or res['failure'] or ''}", flush=True)
        running = left
        if running:
            time.sleep(0.01)
    return results


def dead(ct, why):
    return {'id': ct.id, 'status': 'unknown', 'obls': [], 'paths': 0, 'secs': 0, 'solver_secs': 0, 'inlined': [],
            'contracts_used': [], 'models': [], 'failure': None, 'samples': 0, 'violation': None, 'notes': [why]}


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    viol = []

    def report(contract, rec, note):
        n = len(viol) + 1
        path = os.path.join(EVID, 'replay', f'{a.prop}-{n}.json')
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1, default=str)
        line = f'VIOLATION property={a.prop} replay={path}' + (' no-failing-input-found' if note else '')
        viol.append({'contract': contract, 'obligation': rec.get('obligation'), 'replay': path, 'no_input': bool(note)})
        what = f'  contract {contract}: obligation "{rec.get("obligation")}" fails'
        print(what, flush=True)
        return line

    lines = []
    results, cts = {}, []
    try:
        cts = load(a.prop)
    except BaseException as e:
        rec = {'property': a.prop, 'obligation': 'the code under verification can be loaded',
               'verifier_output': ''.join(traceback.format_exception(e))[-3000:]}
        lines.append(report('(load)', rec, True))
    if a.only:
        cts = [c for c in cts if a.only in c.name]
    if cts:
        now = [c for c in cts if not c.lazy or a.tier != 'quick' or a.only]
        left = 780 if a.tier == 'quick' else None
        results = run_all(now, a.tier, seed, budget=left, verbose=a.v)
        need = {c.standin for c in now if c.standin and results[c.id]['status'] in ('unsupported', 'unknown') and not results[c.id]['violation']}
        more = [c for c in cts if c.name in need and c.id not in results]
        if more:
            results.update(run_all(more, a.tier, seed, budget=left and left - (time.time() - t0), verbose=a.v))
        cts = [c for c in cts if c.id in results]
    for ct in cts:
        r = results[ct.id]
        if r['status'] == 'proved' or r.get('skipped'):
            continue
        v = r['violation']
        if not v and r['status'] in ('unsupported', 'unknown') and ct.standin:
            b = results.get(f'{a.prop}:{ct.standin}')
            if b and b['status'] == 'proved':
                r['notes'].append(f'not decided without bound; decided by the bounded contract {ct.standin}')
                r['stood_in'] = ct.standin
                print(f'  contract {ct.id}: undecided without bound, holds within the bound of {ct.standin}')
                continue
        if v:
            rec = {'property': a.prop, 'contract': ct.id, 'target': ct.target, **v, 'notes': r['notes'],
                   'replay_cmd': 'cd /verif && python3-vt -m pydv.replay <this file>'}
            lines.append(report(ct.id, rec, False))
        else:
            ob = (r['failure'] or {}).get('obligation') or ('undecided: ' + '; '.join(r['notes'])[:300])
            rec = {'property': a.prop, 'contract': ct.id, 'target': ct.target, 'obligation': ob, 'verifier_status': r['status'],
                   'verifier_output': r['notes'], 'counterexample': to_json((r['failure'] or {}).get('assignment')),
                   'samples_tried': r['samples']}
            lines.append(report(ct.id, rec, True))
    for k in known_findings():
        if k['property'] == a.prop and k.get('status') == 'open':
            print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    write_evidence(a.prop, a.tier, seed, cts, results, viol, time.time() - t0)
    ob = sum(len(r['obls']) for r in results.values())
    print(f'{a.prop}: {len(cts)} contracts, {ob} obligations, {len(viol)} violations, {time.time() - t0:.1f} s')
    # a violation with a concrete input is reported first
    for l in sorted(lines, key=lambda l: l.endswith('no-failing-input-found')):
        print(l)
    return 1 if lines else 0


def write_evidence(prop, tier, seed, cts, results, viol, wall):
    import contracts.common as common
    per, back, fns, models, used, notes = [], {}, {}, set(), set(), []
    total = done = samples = 0
    solver = 0.0
    bounded = []
    for ct in cts:
        r = results[ct.id]
        for n, st, be, secs in r['obls']:
            if ct.bounded:
                continue
            total += 1
            if st == 'proved':
                done += 1
                back[be] = back.get(be, 0) + 1
        if r['status'] != 'proved' and not r['obls']:
            total += 1
        if ct.bounded:
            bounded.append({'contract': ct.id, 'bound': ct.bounded, 'checks': len(r['obls']), 'status': r['status']})
        solver += r['solver_secs']
        samples += r['samples']
        models |= set(r['models'])
        used |= set(r['contracts_used'])
        for f in r['inlined']:
            fns.setdefault(f, 0)
            fns[f] += 1
        per.append({'contract': ct.id, 'target': ct.target, 'status': r['status'], 'obligations': len(r['obls']),
                    'stood_in_by': r.get('stood_in'), 'paths': r['paths'], 'secs': round(r['secs'], 2), 'notes': r['notes'][:2]})
    mod = sys.modules.get('contracts.' + prop.lower())
    assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': total, 'discharged': done,
                       'checker_cmd': f'cd /verif && python3-vt -m pydv.check {prop} --tier {tier}',
                       'trusted_base': TRUSTED + [f'models of: {", ".join(sorted(models))}'],
                       'concrete_samples': samples, 'back_ends': back, 'solver_seconds': round(solver, 1),
                       'contracts': len(cts), 'functions_verified': sorted(fns),
                       'callee_contracts_used': sorted(used), 'bounded_checks': bounded,
                       'targets': sorted({c.target for c in cts}), 'per_contract': per},
          'assumptions': assumptions, 'wall_s': round(wall, 1), 'violations': len(viol), 'violation_list': viol}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
