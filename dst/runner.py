"""Search driver: many seeded runs, each in a forked child (pristine library state), then minimise, replay, evidence."""
import argparse
import importlib
import json
import os
import pickle
import signal
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_TAPE = 200000
HANG_CPU_S = 60


def _load(prop):
    return importlib.import_module('dst.props.' + prop.lower())


def execute(mod, seed=None, tape=None):
    """One run in this process.  Returns a plain dict."""
    import numpy as np
    from dst.core import Sim, Violation, Discard, HarnessError
    sim = Sim(seed=seed, tape=tape)
    res = {'violation': None, 'discarded': False}
    np.random.seed(12345)           # the library's only entropy source; scenarios re-seed it from the tape

    def hang(*_):
        raise Violation('hang', f'no result after {HANG_CPU_S} s of CPU time (a run normally takes milliseconds)')
    old = signal.signal(signal.SIGPROF, hang)
    signal.setitimer(signal.ITIMER_PROF, HANG_CPU_S)
    try:
        with np.errstate(all='ignore'):
            mod.run(sim)
    except Violation as v:
        res['violation'] = [v.kind, v.msg]
        sim.log('VIOLATION', v.kind)
    except Discard:
        res['discarded'] = True
    except HarnessError:
        raise
    except Exception as e:          # the code under test returned something no caller could work with
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        res['violation'] = [f'unusable-result:{type(e).__name__}', f'{e} (at {os.path.basename(tb[-1].filename)}:{tb[-1].name})']
        sim.log('VIOLATION', res['violation'][0])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    res.update(digest=sim.digest(), sched=sim.sched_digest(), faults=sim.faults, probes=sim.probes, calls=sim.calls,
               checks=sim.checks, steps=sim.steps, now=sim.now, tape=sim.tape, events=sim.events)
    return res


def forked(mod, seed=None, tape=None, timeout=600):
    """execute() in a forked child: every run starts from the same library state, so a run does not depend on the runs
    before it.  A child that dies or hangs is a harness error (never a pass)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            try:
                out = execute(mod, seed, tape)
            except BaseException as e:  # noqa: BLE001
                import traceback
                out = {'harness_error': f'{type(e).__name__}: {e}\n{traceback.format_exc()}'}
            blob = pickle.dumps(out)
            blob = struct.pack('>Q', len(blob)) + blob
            while blob:
                n = os.write(w, blob)
                blob = blob[n:]
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    while True:
        part = os.read(r, 1 << 20)
        if not part:
            break
        buf += part
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) < 8 + struct.unpack('>Q', bytes(buf[:8]))[0]:
        return {'harness_error': f'run child ended without a result (status {st}, seed {seed})'}
    return pickle.loads(bytes(buf[8:]))


def _same(res, kind):
    return res.get('violation') is not None and res['violation'][0] == kind


def minimise(mod, tape, kind, budget_runs=600, budget_s=60):
    """Generic tape shrinking: drop blocks, zero blocks, lower values, while the same violation class persists."""
    t0 = time.monotonic()
    best = list(tape)
    runs = 0

    def ok(cand):
        nonlocal runs, best
        if runs >= budget_runs or time.monotonic() - t0 > budget_s:
            return False
        runs += 1
        r = forked(mod, tape=cand)
        if _same(r, kind):
            used = r['tape']
            new = used if (len(used), sum(used)) <= (len(cand), sum(cand)) else cand
            while new and new[-1] == 0:
                new = new[:-1]
            best = list(new)
            return True
        return False

    ok(best)
    improved = True
    while improved and runs < budget_runs and time.monotonic() - t0 <= budget_s:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                before = list(best)
                if ok(best[:i] + best[i + size:]):
                    improved = improved or best != before
                    continue
                if any(best[i:i + size]) and ok(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                i += size
            if runs >= budget_runs or time.monotonic() - t0 > budget_s:
                break
            size //= 2
        for i in range(len(best)):
            if i >= len(best):
                break
            while i < len(best) and best[i] > 1:
                if ok(best[:i] + [best[i] // 2] + best[i + 1:]):
                    improved = True
                elif i < len(best) and ok(best[:i] + [best[i] - 1] + best[i + 1:]):
                    improved = True
                else:
                    break
                if runs >= budget_runs or time.monotonic() - t0 > budget_s:
                    break
    return best, runs


def _worker(mod, prop, base_seed, indices, deadline, wfd, rerun_every):
    from dst.core import derive_seed
    agg = {'runs': 0, 'discarded': 0, 'faults': {}, 'probes': {}, 'calls': {}, 'checks': 0, 'steps': 0, 'now': 0,
           'sched': set(), 'digests': {}, 'nondet': [], 'reruns': 0, 'violations': [], 'errors': [], 'samples': [],
           'stopped_early': False, 'nontrivial': set()}
    for n, idx in enumerate(indices):
        if time.monotonic() > deadline:
            agg['stopped_early'] = True
            break
        seed = derive_seed(prop, base_seed, idx)
        res = forked(mod, seed=seed)
        if 'harness_error' in res:
            agg['errors'].append([idx, res['harness_error']])
            if len(agg['errors']) > 3:
                break
            continue
        agg['runs'] += 1
        agg['discarded'] += bool(res['discarded'])
        for k in ('faults', 'probes', 'calls'):
            for name, v in res[k].items():
                agg[k][name] = agg[k].get(name, 0) + v
        agg['checks'] += res['checks']
        agg['steps'] += res['steps']
        agg['now'] += res['now']
        agg['sched'].add(res['sched'])
        if res['checks'] > 0 and not res['discarded'] and (res['faults'] or res['probes']):
            agg['nontrivial'].add(res['sched'])
        if len(agg['samples']) < 1 and not res['discarded'] and res['faults']:
            agg['samples'].append({'run': idx, 'seed': seed, 'events': res['events'][:40],
                                   'events_total': len(res['events']), 'faults': res['faults']})
        if rerun_every and n % rerun_every == 0 and not res['violation']:
            again = forked(mod, seed=seed)
            agg['reruns'] += 1
            if again.get('digest') != res['digest']:
                agg['nondet'].append(idx)
        if res['violation']:
            agg['violations'].append({'run': idx, 'seed': seed, 'violation': res['violation'], 'tape': res['tape'],
                                      'digest': res['digest']})
            if len(agg['violations']) >= 2:
                agg['stopped_early'] = True
                break
    blob = pickle.dumps(agg)
    blob = struct.pack('>Q', len(blob)) + blob
    while blob:
        k = os.write(wfd, blob)
        blob = blob[k:]
    os._exit(0)


def _merge(parts):
    out = None
    for p in parts:
        if out is None:
            out = p
            continue
        for k in ('runs', 'discarded', 'checks', 'steps', 'now', 'reruns'):
            out[k] += p[k]
        for k in ('faults', 'probes', 'calls'):
            for n, v in p[k].items():
                out[k][n] = out[k].get(n, 0) + v
        out['sched'] |= p['sched']
        out['nontrivial'] |= p['nontrivial']
        for k in ('nondet', 'violations', 'errors', 'samples'):
            out[k] += p[k]
        out['stopped_early'] = out['stopped_early'] or p['stopped_early']
    return out


def search(mod, prop, base_seed, runs, wall, workers, rerun_every):
    deadline = time.monotonic() + wall
    procs = []
    for k in range(workers):
        idx = list(range(k, runs, workers))
        if not idx:
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                _worker(mod, prop, base_seed, idx, deadline, w, rerun_every)
            except BaseException:  # noqa: BLE001
                import traceback
                traceback.print_exc()
            finally:
                os._exit(4)
        os.close(w)
        procs.append((pid, r))
    parts = []
    for pid, r in procs:
        buf = bytearray()
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
        os.close(r)
        os.waitpid(pid, 0)
        if len(buf) < 8:
            raise RuntimeError('worker ended without a result')
        parts.append(pickle.loads(bytes(buf[8:])))
    return _merge(parts)


def write_replay(prop, mod, v, res, min_runs, tier, base_seed):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{v["seed"]:016x}.json')
    body = {
        'property': prop, 'violation': res['violation'][0], 'message': res['violation'][1],
        'found_by': {'VERIF_SEED': base_seed, 'tier': tier, 'run': v['run'], 'seed': v['seed'],
                     'original_tape_length': len(v['tape'])},
        'minimised': {'tape_length': len(res['tape']), 'runs_spent': min_runs, 'faults': res['faults']},
        'tape': res['tape'], 'digest': res['digest'],
        'trace': res['events'],
    }
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        body = json.load(f)
    mod = _load(body['property'])
    res = forked(mod, tape=body['tape'])
    if 'harness_error' in res:
        print(res['harness_error'], file=sys.stderr)
        return 2
    for e in res['events']:
        print('  ' + e)
    if res['violation']:
        same = res['violation'][0] == body['violation']
        print(f'{res["violation"][0]}: {res["violation"][1]}')
        print(f'replay: same violation class={same} identical event log={res["digest"] == body["digest"]}')
        print(f'VIOLATION property={body["property"]} replay={path}')
        return 1
    print('replay: the violation does not occur on this tree')
    return 0


def selfcheck(props, runs, base_seed):
    """Determinism: the same seeds in fresh interpreters, different PYTHONHASHSEED and worker counts; diff the digests."""
    bad = 0
    for prop in props:
        outs = []
        for hs, workers in (('0', 8), ('1', 3), ('777', 5)):
            env = dict(os.environ, PYTHONHASHSEED=hs)
            p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'dst.runner', 'digests', prop, '--runs', str(runs),
                                '--seed', str(base_seed), '--workers', str(workers)],
                               cwd=VERIF, env=env, capture_output=True, text=True)
            if p.returncode != 0:
                print(p.stdout[-2000:], p.stderr[-4000:])
                return 2
            outs.append(json.loads(p.stdout))
        diff = [k for k in outs[0] if any(o.get(k) != outs[0][k] for o in outs[1:])]
        bad += len(diff)
        print(f'{prop}: {len(outs[0])} seeds x {len(outs)} interpreters, {len(diff)} diverged {diff[:5]}')
    return 0 if bad == 0 else 2


def digests(prop, runs, base_seed, workers):
    from concurrent.futures import ThreadPoolExecutor
    from dst.core import derive_seed
    mod = _load(prop)

    def one(i):
        return i, forked(mod, seed=derive_seed(prop, base_seed, i)).get('digest', 'error')
    with ThreadPoolExecutor(workers) as ex:
        print(json.dumps({str(i): d for i, d in ex.map(one, range(runs))}))
    return 0


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop and k['status'] == 'known']


def check(prop, tier, base_seed, runs=None, wall=None, workers=None):
    t0 = time.monotonic()
    mod = _load(prop)
    import CommDspy
    repo = os.environ.get('VERIF_REPO', '/repo')
    if not os.path.abspath(CommDspy.__file__).startswith(os.path.abspath(repo) + os.sep):
        print(f'CommDspy was imported from {CommDspy.__file__}, not from {repo}', file=sys.stderr)
        return 2
    budget = mod.BUDGET[tier]
    runs = runs or budget['runs']
    wall = wall or budget['wall']
    workers = workers or min(8, os.cpu_count() or 1)
    print(f'{prop} tier={tier} VERIF_SEED={base_seed} runs={runs} workers={workers}')
    # regression scenarios of defects that were repaired or recorded: fixed inputs, run before the search
    finding_rows = []
    if hasattr(mod, 'findings'):
        known = {k['id']: k for k in known_findings(prop)}
        for fid, ok in mod.findings():
            finding_rows.append({'id': fid, 'holds': bool(ok)})
            if fid in known and not ok:
                print(f'KNOWN-FINDING: property={prop} {known[fid]["what"]}')
    agg = search(mod, prop, base_seed, runs, wall, workers, rerun_every=10)
    status = 0
    # nondeterminism of the code under test itself: a run whose log differs between two identical executions
    if agg['nondet'] and getattr(mod, 'NONDETERMINISM_IS_VIOLATION', False) and not agg['violations']:
        from dst.core import derive_seed
        idx = agg['nondet'][0]
        r = forked(mod, seed=derive_seed(prop, base_seed, idx))
        v = {'run': idx, 'seed': derive_seed(prop, base_seed, idx), 'tape': r['tape']}
        r['violation'] = ['not-reproducible', 'two executions from the same seed differ']
        path = write_replay(prop, mod, v, r, 0, tier, base_seed)
        print(f'VIOLATION property={prop} replay={path}')
        status = 1
    replays = []
    if agg['violations']:
        status = 1
        seen = set()
        for v in sorted(agg['violations'], key=lambda q: q['run']):
            kind = v['violation'][0]
            if kind in seen or len(seen) >= 2:
                continue
            seen.add(kind)
            best, n = minimise(mod, v['tape'][:MAX_TAPE], kind)
            res = forked(mod, tape=best)
            if not _same(res, kind):          # cannot happen for a deterministic run; keep the original
                res = forked(mod, tape=v['tape'])
                if not _same(res, kind):
                    res = dict(res, violation=v['violation'], tape=v['tape'])
            path = write_replay(prop, mod, v, res, n, tier, base_seed)
            replays.append(path)
            print(f'{kind}: {res["violation"][1]}')
            for e in res['events'][:60]:
                print('  ' + e)
            print(f'VIOLATION property={prop} replay={path}')
    if agg['errors'] and status == 0:
        for idx, e in agg['errors'][:3]:
            print(f'HARNESS ERROR in run {idx}: {e}', file=sys.stderr)
        status = 2
    wall_s = time.monotonic() - t0
    missing = [p for p in getattr(mod, 'REQUIRED_PROBES', []) if not agg['probes'].get(p) and not agg['faults'].get(p)]
    ev = {
        'property': prop, 'tier': tier, 'seed': base_seed, 'level': 'exploration',
        'coverage': {
            'evaluations': agg['runs'],
            'distinct_nontrivial': len(agg['nontrivial']),
            'rule': mod.RULE,
            'samples': agg['samples'][:3],
            'oracle_checks': agg['checks'],
            'runs_discarded_outside_domain': agg['discarded'],
            'distinct_interleavings': len(agg['sched']),
            'interleaving_measure': 'distinct SHA-256 of the ordered (simulated time, actor, event, size, fault) log',
            'simulated_steps': agg['steps'], 'simulated_ticks': agg['now'],
            'runs_per_hour': round(agg['runs'] / max(wall_s, 1e-9) * 3600),
            'seeds': f'sha256({prop}/{base_seed}/i), i < {runs}',
            'faults_injected': dict(sorted(agg['faults'].items())),
            'probes_hit': dict(sorted(agg['probes'].items())),
            'probes_never_hit': missing,
            'library_calls': dict(sorted(agg['calls'].items())),
            'determinism_reruns': agg['reruns'], 'determinism_divergences': len(agg['nondet']),
            'stopped_before_all_runs': agg['stopped_early'],
            'regressions_of_findings': finding_rows,
            'real_components': mod.REAL, 'stub_components': mod.STUB,
        },
        'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall_s, 2), 'violations': len(agg['violations']),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', f'.{prop}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', f'{prop}.json'))
    print(f'{prop}: runs={agg["runs"]} discarded={agg["discarded"]} checks={agg["checks"]} '
          f'interleavings={len(agg["sched"])} faults={sum(agg["faults"].values())} reruns={agg["reruns"]} '
          f'diverged={len(agg["nondet"])} wall={wall_s:.1f}s exit={status}')
    if missing:
        print(f'{prop}: probes never hit: {missing}')
    return status


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'selfcheck', 'digests', 'one'])
    ap.add_argument('arg', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--workers', type=int)
    a = ap.parse_args()
    if a.cmd == 'check':
        return check(a.arg[0], a.tier, a.seed, a.runs, a.wall, a.workers)
    if a.cmd == 'replay':
        return replay(a.arg[0])
    if a.cmd == 'selfcheck':
        return selfcheck(a.arg, a.runs or 60, a.seed)
    if a.cmd == 'digests':
        return digests(a.arg[0], a.runs, a.seed, a.workers or 4)
    if a.cmd == 'one':
        from dst.core import derive_seed
        mod = _load(a.arg[0])
        res = forked(mod, seed=derive_seed(a.arg[0], a.seed, int(a.arg[1])))
        print(res.get('harness_error') or '\n'.join(res['events'][-80:] + [str(res['violation']), str(res['faults'])]))
        return 0
    return 2


if __name__ == '__main__':
    sys.exit(main())
