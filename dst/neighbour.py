"""The noisy neighbour: another user of the library in the same process calls the same function, with other arguments of the same
kind, just before or just after the observed call.  Its results are dropped and its errors ignored; whatever it does, the observed
call must give what its own arguments imply.  (Caches with too small a key, shared scratch buffers and the like are what it finds.)"""
import enum
import signal

import numpy as np

GIVE_UP_CPU_S = 3               # invalid arguments may keep an implementation busy for ever: the neighbour then gives up
SLOW_PRBS = 11                  # the neighbour never generates a longer PRBS than this


class GiveUp(BaseException):
    pass


def _give_up(*_):
    raise GiveUp


def is_library_function(fn):
    return type(fn).__name__ == 'function' and str(getattr(fn, '__module__', '')).startswith('CommDspy')


def _array(sim, a):
    if a.size == 0 or a.dtype.kind not in 'biuf':
        return a.copy()
    k = sim.draw(4)
    if k == 0:
        return np.roll(a, 1)
    if k == 1:
        return a[::-1].copy()
    if k == 2:
        return np.array(a.max() - a + a.min() if a.dtype.kind != 'b' else ~a).astype(a.dtype)
    b = a.copy()
    i = sim.draw(a.size)
    b.reshape(-1)[i] = a.reshape(-1)[(i + 1) % a.size] if a.dtype.kind != 'f' else a.reshape(-1)[i] * 0.5 + 0.25
    return b


def change(sim, v):
    if isinstance(v, np.ndarray):
        return _array(sim, v)
    if isinstance(v, enum.Enum):
        other = [m for m in type(v) if isinstance(m.value, int) and (m.value <= SLOW_PRBS or not m.name.startswith('PRBS'))]
        return other[sim.draw(len(other))] if other else v
    if isinstance(v, (bool, np.bool_)):
        return not v
    if isinstance(v, (int, np.integer)):
        return v + 1 if sim.draw(2) == 0 or v < 2 else v - 1
    if isinstance(v, (float, np.floating)):
        return v * 0.5 if sim.draw(2) == 0 else v + 0.125
    if isinstance(v, dict) and v:
        keys = sorted(v, key=str)
        k = keys[sim.draw(len(keys))]
        return {q: (change(sim, w) if q == k else copy(w)) for q, w in v.items()}
    if isinstance(v, (list, tuple)) and v:
        i = sim.draw(len(v))
        return type(v)(change(sim, w) if j == i else copy(w) for j, w in enumerate(v))
    return v


def copy(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: copy(w) for k, w in v.items()}
    if type(v) in (list, tuple):
        return type(v)(copy(w) for w in v)
    return v


def slow(args, kw):
    for v in list(args) + list(kw.values()):
        if isinstance(v, enum.Enum) and v.name.startswith('PRBS') and v.value > SLOW_PRBS:
            return True
        if isinstance(v, np.ndarray) and v.size > 20000:
            return True
    return False


def call(sim, name, fn, args, kw):
    """One call by the neighbour; the random generator is put back, the neighbour draws from its own."""
    slots = list(range(len(args))) + sorted(kw)
    pick = {slots[sim.draw(len(slots))]} if slots else set()
    more = sim.draw(3)
    if slots and more == 1:
        pick.add(slots[sim.draw(len(slots))])
    elif more == 2:
        pick = {s for s in slots if isinstance(args[s] if isinstance(s, int) else kw[s], (np.ndarray, dict))}
    a = [change(sim, v) if i in pick else copy(v) for i, v in enumerate(args)]
    k = {q: (change(sim, v) if q in pick else copy(v)) for q, v in kw.items()}
    sim.fault('neighbour_call', name)
    state = np.random.get_state()
    handler = signal.signal(signal.SIGPROF, _give_up)
    left = signal.setitimer(signal.ITIMER_PROF, GIVE_UP_CPU_S)[0]
    try:
        fn(*a, **k)
    except (Exception, GiveUp):  # noqa: BLE001 - the neighbour's arguments need not be valid
        pass
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, handler)
        signal.setitimer(signal.ITIMER_PROF, left)
        np.random.set_state(state)


def frozen(res):
    """The bytes of every array in a result, to see later whether it was overwritten."""
    if isinstance(res, np.ndarray):
        return res.tobytes() if res.dtype.kind in 'biufc' else None
    if isinstance(res, (list, tuple)):
        return tuple(frozen(r) for r in res)
    return None
