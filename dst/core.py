"""Deterministic simulation core: one integer decides a run.

A run is a pure function of (scenario code, tree under test, tape).  The tape is the list of integers handed out by
Sim.draw(); in search mode every integer comes from a PRNG seeded with the run's seed and is recorded, in replay mode it
is read back (an exhausted or out-of-range tape yields 0 / the clamped value, and 0 is by convention the simplest,
fault-free choice).  That single rule gives seeding, exact replay and generic minimisation.

Nothing here reads a clock, the environment or unordered containers; logging never draws.
"""
import hashlib
import heapq
import random

import numpy as np

from dst import neighbour
from dst.defaults import omittable


class Violation(Exception):
    """The property is broken.  `kind` is the violation class that minimisation must preserve."""

    def __init__(self, kind, msg):
        super().__init__(f'{kind}: {msg}')
        self.kind = kind
        self.msg = msg


class Discard(Exception):
    """The generated scenario is outside the property's stated domain; the run counts as discarded, not as evidence."""


class HarnessError(Exception):
    pass


def derive_seed(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Sim:
    LOG_CAP = 4000

    def __init__(self, seed=None, tape=None):
        self.replaying = tape is not None
        self._in = list(tape) if tape is not None else None
        self._pos = 0
        self._rng = random.Random(seed) if tape is None else None
        self.tape = []
        self.now = 0                 # simulated time (ticks)
        self._seq = 0
        self._heap = []
        self.steps = 0
        self.events = []             # human readable log, capped
        self._full = hashlib.sha256()   # everything: schedule + data
        self._sched = hashlib.sha256()  # schedule/fault sequence only (distinct-interleaving measure)
        self.faults = {}             # fault kind -> times it actually fired
        self.probes = {}             # rare-condition probes
        self.calls = {}              # library entry point -> calls
        self.checks = 0              # oracle evaluations
        self.np_rng = None

    # ------------------------------------------------------------------ choices
    def draw(self, n):
        """An integer in [0, n); 0 is the simplest choice."""
        n = int(n)
        if n <= 1:
            return 0
        if self._in is not None:
            v = self._in[self._pos] if self._pos < len(self._in) else 0
            self._pos += 1
            v = min(max(int(v), 0), n - 1)
        else:
            v = self._rng.randrange(n)
        self.tape.append(v)
        return v

    def flip(self, p):
        """True with probability p (recorded as 0/1)."""
        if self._in is not None:
            return self.draw(2) == 1
        v = 1 if self._rng.random() < p else 0
        self.tape.append(v)
        return v == 1

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def wpick(self, pairs):
        """Weighted choice among [(weight, value), ...]; tape records the index."""
        if self._in is not None:
            return pairs[self.draw(len(pairs))][1]
        tot = sum(w for w, _ in pairs)
        x = self._rng.random() * tot
        idx = len(pairs) - 1
        for i, (w, _) in enumerate(pairs):
            x -= w
            if x < 0:
                idx = i
                break
        self.tape.append(idx)
        return pairs[idx][1]

    def integer(self, lo, hi):
        """Uniform in [lo, hi]."""
        return lo + self.draw(hi - lo + 1)

    def size(self, lo, hi, small=None):
        """Skewed to small values: half of the draws fall in [lo, small]."""
        if small is None or small >= hi:
            return self.integer(lo, hi)
        if self._in is not None:
            return lo + self.draw(hi - lo + 1)
        v = self._rng.randrange(lo, small + 1) if self._rng.random() < 0.5 else self._rng.randrange(lo, hi + 1)
        self.tape.append(v - lo)
        return v

    def unit(self):
        """A float in [0, 1) on a 1e-4 grid."""
        return self.draw(10000) / 10000.0

    def uniform(self, lo, hi):
        return lo + (hi - lo) * self.unit()

    def data_rng(self):
        """A numpy generator for bulk payload data, decided by one tape entry (legacy generator: stable stream)."""
        return np.random.RandomState(self.draw(1 << 20))

    def shuffled(self, seq):
        out = list(seq)
        for i in range(len(out) - 1, 0, -1):
            j = self.draw(i + 1)
            j = i - j                       # 0 = leave in place
            out[i], out[j] = out[j], out[i]
        return out

    # ------------------------------------------------------------------ log
    def log(self, what, *fields, data=None):
        s = f'{self.now}|{what}|' + ','.join(str(f) for f in fields)
        self._full.update(s.encode())
        self._sched.update(s.encode())
        if data is not None:
            a = np.ascontiguousarray(data)
            self._full.update(str(a.dtype).encode() + str(a.shape).encode() + a.tobytes())
        if len(self.events) < self.LOG_CAP:
            self.events.append(s)

    def fault(self, kind, *fields):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log('FAULT:' + kind, *fields)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def digest(self):
        return self._full.hexdigest()

    def sched_digest(self):
        return self._sched.hexdigest()[:16]

    # ------------------------------------------------------------------ discrete events
    def after(self, delay, fn, *args):
        self._seq += 1
        heapq.heappush(self._heap, (self.now + max(int(delay), 0), self._seq, fn, args))

    def step(self):
        if not self._heap:
            return False
        t, _, fn, args = heapq.heappop(self._heap)
        self.now = max(self.now, t)
        self.steps += 1
        fn(*args)
        return True

    def pending(self):
        return len(self._heap)

    # ------------------------------------------------------------------ library seam and oracles
    def call(self, name, fn, *args, **kw):
        """Call the code under test on an in-domain input: an exception is a violation, not a harness error."""
        self.calls[name] = self.calls.get(name, 0) + 1
        pos, names = omittable(fn, args, kw)
        if (pos or names) and self.flip(0.3):       # what equals its documented default may as well be left out
            args = args[:len(args) - pos]
            kw = {k: v for k, v in kw.items() if k not in names}
            self.probe('defaults_left_out')
        when = 0
        if neighbour.is_library_function(fn) and self.flip(0.25 if self.calls[name] == 1 else 0.07) and not neighbour.slow(args, kw):
            when = 1 + self.draw(3)
        if when in (1, 2):
            neighbour.call(self, name, fn, args, kw)
        try:
            res = fn(*args, **kw)
        except (Violation, Discard, HarnessError):
            raise
        except Exception as e:  # noqa: BLE001 - whatever the library raises
            raise Violation(f'exception:{name}', f'{type(e).__name__}: {e}') from e
        if when in (2, 3):
            before = neighbour.frozen(res)
            neighbour.call(self, name, fn, args, kw)
            self.check(neighbour.frozen(res) == before, f'result-overwritten:{name}', 'a later call changed a result already returned')
        return res

    def check(self, cond, kind, msg):
        self.checks += 1
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    def equal(self, got, want, kind, where=''):
        """Exact equality of integer-like arrays (values, not dtype)."""
        self.checks += 1
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            raise Violation(kind, f'{where}: shape {g.shape} instead of {w.shape}')
        bad = np.flatnonzero(~(g.reshape(-1) == w.reshape(-1)))
        if bad.size:
            i = int(bad[0])
            raise Violation(kind, f'{where}: {bad.size} of {g.size} differ, first at {i}: got {g.reshape(-1)[i]!r}, '
                                  f'expected {w.reshape(-1)[i]!r}')

    def close(self, got, want, kind, where='', tol=1e-8, scale=None):
        """Equality up to rounding: tol is relative to the magnitude of the expected data."""
        self.checks += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation(kind, f'{where}: shape {g.shape} instead of {w.shape}')
        if g.size == 0:
            return
        s = max(1e-12, float(np.max(np.abs(w)))) if scale is None else scale
        d = np.abs(g - w).reshape(-1)
        bad = np.flatnonzero(~(d <= tol * s))
        if bad.size:
            i = int(bad[0])
            raise Violation(kind, f'{where}: {bad.size} of {g.size} differ, first at {i}: got {g.reshape(-1)[i]!r}, '
                                  f'expected {w.reshape(-1)[i]!r} (tolerance {tol * s:g})')
