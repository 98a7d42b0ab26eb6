"""C09: calls are independent: any interleaving of caller threads, any interruption, any call history."""
import os
import pickle
import struct
import sys

import numpy as np

import CommDspy as cdsp  # noqa: F401
from dst import catalog
from dst.core import HarnessError, Violation
from dst.sched import Scheduler

BUDGET = {'quick': {'runs': 12000, 'wall': 300}, 'thorough': {'runs': 30000, 'wall': 1500}}
RULE = ('one run = 1-4 caller threads, each with a seeded script of calls over the whole public API, some on shared arrays; the '
        'simulator decides at every traced library line who runs and where a call is interrupted (KeyboardInterrupt, MemoryError); '
        'interrupted calls are retried; non-trivial = at least one oracle check and one fault or probe; distinct = distinct schedule')
REAL = ['the whole public API except functions that draw random numbers (54 entry points)', 'real threads']
STUB = ['thread scheduler and interruptions (simulated, line granularity inside CommDspy; numpy/scipy calls are atomic)']
ASSUMPTIONS = ['stateful objects are used by one thread at a time', 'results equal the same call made alone in a fresh process to 1e-9']
REQUIRED_PROBES = ['switch_inside_call', 'interrupt', 'memory_error', 'shared_arrays', 'result_scribble', 'repeated_op', 'result_held',
                   'three_callers', 'refilled_arrays']

# functions that return the caller's own array when there is nothing to do
KINDS = sorted(catalog.OPS) + ['helpers'] * 3


def quiet(*_):
    """numpy error callback of the simulated callers: floating-point events are theirs to ignore."""


MARK = {'divide': 'call', 'over': 'call', 'under': 'call', 'invalid': 'call'}   # unlike anything a library would set


def surroundings():
    """Settings of the process that belong to the caller."""
    return {'error settings': np.geterr(), 'print options': str(sorted(np.get_printoptions().items(), key=str)), 'cwd': os.getcwd(),
            'environment': dict(os.environ), 'buffer size': np.getbufsize(), 'recursion limit': sys.getrecursionlimit()}


def refill(o, how):
    """The caller puts other samples into the arrays it used before: each chosen array reversed along one axis, in place."""
    changed = False
    for (name, a), (use, axis) in zip(sorted(o.arrays.items()), how):
        if use and a.ndim and a.flags.writeable and a.size > 1:
            b = np.flip(a, axis % a.ndim).copy()
            changed = changed or b.tobytes() != a.tobytes()
            a[...] = b
    return changed


def alone(ops, before=None):
    """Every op once, each in a process that has made no other call."""
    out = []
    for o in ops:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    with np.errstate(all='ignore'):
                        if before is not None:
                            before(o)
                        res = ('ok', o.run())
                except BaseException as e:      # noqa: BLE001
                    res = ('raised', f'{type(e).__name__}: {e}')
                blob = pickle.dumps(res)
                blob = struct.pack('>Q', len(blob)) + blob
                while blob:
                    blob = blob[os.write(w, blob):]
            finally:
                os._exit(0)
        os.close(w)
        buf = b''
        while True:
            part = os.read(r, 1 << 20)
            if not part:
                break
            buf += part
        os.close(r)
        os.waitpid(pid, 0)
        if len(buf) < 8:
            raise HarnessError(f'no result of {o.name} alone')
        out.append(pickle.loads(buf[8:]))
    return out


def run(sim):
    n_thr = sim.integer(1, 4)
    if n_thr > 2:
        sim.probe('three_callers')
    # a run concentrates on few kinds of operation so that hidden shared state of one function meets itself
    pool = [sim.pick(KINDS) for _ in range(sim.wpick([(5, 1), (3, 2), (1, 3), (1, 4)]))]
    ops = [catalog.OPS[sim.pick(pool)](sim) for _ in range(sim.wpick([(1, 1), (3, 2), (3, 3), (2, 4), (1, 5)]))]
    want = alone(ops)
    for o, (st, v) in zip(ops, want):
        sim.calls[o.name] = sim.calls.get(o.name, 0) + 1
        sim.check(st == 'ok', f'exception:{o.name}', f'{o.name} alone: {v}')
    again = None
    if sim.flip(0.5):
        again = sim.draw(len(ops))
        how = [(sim.flip(0.6), sim.draw(2)) for _ in ops[again].arrays]
        again_want = alone([ops[again]], lambda o: refill(o, how))[0]
    rnd = np.random.get_state()
    place = surroundings()
    sch = Scheduler(sim, settings=lambda: np.errstate(all='call', call=quiet))
    inside = {}
    used = {}
    held = []

    def script_for(name, plan):
        def script(me):
            for k, fault, hold in plan:
                o = ops[k]
                tries = 0
                while True:
                    tries += 1
                    inside[name] = o.name
                    if fault and tries == 1:
                        exc = KeyboardInterrupt if fault[1] else MemoryError
                        try:
                            res = me.call(o.run, interrupt=(fault[0], exc))
                            if me.fired:
                                res = None          # swallowed: nothing promised about this result
                        except (KeyboardInterrupt, MemoryError):
                            if not me.fired:
                                raise
                            res = None
                        except Exception as e:      # noqa: BLE001
                            if not me.fired:
                                raise Violation(f'exception:{o.name}', f'{type(e).__name__}: {e}') from e
                            res = None
                        if me.fired:
                            sim.fault('interrupt' if fault[1] else 'memory_error', name, o.name, fault[0])
                            m = o.modified()
                            sim.check(m is None, 'input-modified', f'{o.name}: argument {m} changed by an interrupted call')
                            continue
                    else:
                        try:
                            res = me.call(o.run)
                        except Exception as e:      # noqa: BLE001
                            raise Violation(f'exception:{o.name}', f'{type(e).__name__}: {e} (works alone)') from e
                    break
                inside.pop(name, None)
                used[k] = used.get(k, 0) + 1
                sim.log('done', name, o.name)
                m = o.modified()
                sim.check(m is None, 'input-modified', f'{o.name}: argument {m} changed')
                sim.check(np.geterr() == MARK and np.geterrcall() is quiet, 'global-state',
                          f'{o.name}: the caller\'s numpy error settings changed to {np.geterr()}')
                d = catalog.same(res, want[k][1])
                sim.check(d is None, 'differs-from-alone', f'{name} {o.name} call {k}: {d}')
                if hold:
                    held.append((name, k, res))     # must not change under later calls
                    sim.probe('result_held')
                    continue
                for a in res:                       # the caller owns the result
                    if isinstance(a, np.ndarray) and a.size and a.flags.writeable \
                            and not any(np.shares_memory(a, q) for q in o.arrays.values()):
                        a[...] = 1 if a.dtype == bool else 77
                        sim.probe('result_scribble')
        return script

    total = 0
    for t in range(n_thr):
        plan = []
        for _ in range(sim.integer(1, 4)):
            k = sim.draw(len(ops))
            total += 1
            fault = None
            if sim.flip(0.3):
                fault = (sim.size(1, 400, 25), sim.draw(2))
            plan.append((k, fault, sim.flip(0.5)))
        sch.add(f'T{t}', script_for(f'T{t}', plan))
    sch.run()
    if sch.count > n_thr:
        sim.probe('switch_inside_call')
    if any(v > 1 for v in used.values()):
        sim.probe('repeated_op')
        if n_thr > 1:
            sim.probe('shared_arrays')
    for name, k, res in held:
        d = catalog.same(res, want[k][1])
        sim.check(d is None, 'result-changed-later', f'{name} {ops[k].name} call {k}: {d}')
    if again is not None and again_want[0] == 'ok':
        o = ops[again]
        with np.errstate(all='ignore'):
            first = o.run()
            d = catalog.same(first, want[again][1])
            sim.check(d is None, 'differs-from-alone', f'{o.name} once more: {d}')
            if refill(o, how):
                sim.probe('refilled_arrays')
            try:
                res = o.run()
            except Exception as e:                  # noqa: BLE001
                raise Violation(f'exception:{o.name}', f'{type(e).__name__}: {e} (works alone)') from e
        d = catalog.same(res, again_want[1])
        sim.check(d is None, 'stale-result', f'{o.name} with other samples in the same arrays: {d}')
        sim.log('refilled', o.name)
    now = np.random.get_state()
    if not any('lasso' in o.name for o in ops):     # scikit-learn's lasso solver draws from the global generator
        sim.check(rnd[0] == now[0] and np.array_equal(rnd[1], now[1]) and rnd[2:] == now[2:], 'random-state',
                  lambda: f'{[o.name for o in ops]}: the global random generator was used or reseeded')
    now = surroundings()
    sim.check(now == place, 'global-state', lambda: f'{[o.name for o in ops]}: process settings changed: '
                                                    f'{[k for k in now if now[k] != place[k]]}')
