"""C16: results depend on the samples, not on how the caller's memory holds them."""
import numpy as np

from dst import catalog
from dst.core import Violation

BUDGET = {'quick': {'runs': 10000, 'wall': 240}, 'thorough': {'runs': 150000, 'wall': 1500}}
RULE = ('one run = 1-3 capture channels; a simulated capture engine lays the inputs of seeded calls out in caller memory (lanes, packets, '
        'rings, mapped, byte-swapped, narrow words), keeps writing around them while the call waits, refills slots and repeats calls; '
        'non-trivial = at least one oracle check and one fault or probe; distinct = distinct event log')
REAL = ['every deterministic operation of the public API (dst/catalog.py)']
STUB = ['the capture engine, its memory and the scheduler (simulated)']
ASSUMPTIONS = ['symbols, bits and samples fit the word that holds them', 'tap index vectors and unsigned custom levels are not narrowed',
               'no floating point words below 64 bits']
LAYOUTS = ['segment', 'lanes', 'reversed', 'mapped', 'swapped', 'fortran', 'unaligned', 'packet']
REQUIRED_PROBES = LAYOUTS + ['int8', 'uint8', 'int16', 'uint16', 'int32', 'converter_words', 'neighbour_write', 'slot_refill', 'repeated_call',
                             'extreme_words', 'fetch_late', 'converted_to_float', 'memory_reused']
KINDS = sorted(catalog.OPS) + ['helpers'] * 3
WORDS = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'int64']
SAMPLED = {'w', 's', 'rx', 'p', 'y', 'x', 'r', 'rv', 'lv', 'levels'}      # what a converter delivers as words
NOT_NARROW = {'fi', 'di'}
NOT_UNSIGNED = {'lv', 'levels', 'poly'}


def words(sim, a, f):
    """Samples as a converter delivers them: the same numbers, rounded to words."""
    q = np.clip(np.round(a * f), -127, 127).astype(int)
    return q


class Slot:
    """One array in caller memory: `view` is what the library gets, `mem` what the engine writes."""

    def __init__(self, sim, name, a):
        self.name = name
        lay = sim.pick(LAYOUTS)
        if lay == 'fortran' and a.ndim < 2:
            lay = 'segment'
        sim.probe(lay)
        self.layout = lay
        shape, n = a.shape, a.size
        dt = a.dtype.newbyteorder('>') if lay == 'swapped' else a.dtype
        lead, tail = sim.draw(4), sim.draw(4)
        if lay == 'lanes':
            k = sim.integer(2, 4)
            self.mem = np.zeros(n * k, dt)
            view = self.mem[sim.draw(k)::k].reshape(shape) if a.ndim == 1 else \
                np.lib.stride_tricks.as_strided(self.mem[sim.draw(k):], shape, [s * k for s in np.zeros(shape, dt).strides])
        elif lay == 'reversed':
            self.mem = np.zeros(n + lead + tail, dt)
            view = self.mem[lead:lead + n].reshape(shape)[..., ::-1]
        elif lay == 'fortran':
            self.mem = np.zeros(n + lead + tail, dt)
            view = self.mem[lead:lead + n].reshape(shape[::-1]).transpose()
        elif lay == 'unaligned':
            raw = np.zeros((n + lead + tail) * dt.itemsize + 1, np.uint8)
            self.mem = raw[1:].view(dt)
            view = self.mem[lead:lead + n].reshape(shape)
        elif lay == 'packet':
            hdr = sim.integer(1, 7)
            rec = np.dtype({'names': ['h', 'v'], 'formats': [(np.uint8, hdr), dt], 'offsets': [0, hdr], 'itemsize': hdr + dt.itemsize})
            self.rec = np.zeros(n, rec)
            self.mem = None
            view = self.rec['v'].reshape(shape)
        else:
            self.mem = np.zeros(n + lead + tail, dt)
            view = self.mem[lead:lead + n].reshape(shape)
        self.rw = view
        self.fill(sim, a)
        self.view = view
        if lay == 'mapped':
            self.view = view.view()
            self.view.flags.writeable = False
        self.a = a
        self.around = self.snapshot()

    def memory(self):
        return self.rec if self.mem is None else self.mem

    def fill(self, sim, a):
        """The engine writes the samples; everything else holds whatever was there."""
        m, r = self.memory(), sim.data_rng()
        raw = r.randint(0, 256, m.nbytes).astype(np.uint8)
        if self.mem is not None and m.dtype.kind == 'f':
            m[:] = np.where(r.randint(0, 3, m.size) == 0, np.nan, r.uniform(-1e3, 1e3, m.size))
        elif self.mem is None:
            m['h'] = raw[:m['h'].size].reshape(m['h'].shape)
        else:
            m[:] = raw[:m.size].astype(m.dtype) if m.dtype.itemsize > 1 else raw[:m.size].view(m.dtype)
        self.rw[...] = a

    def snapshot(self):
        return self.memory().tobytes()

    def neighbour(self, sim):
        """The engine writes the next samples around the slot while the call waits."""
        self.fill(sim, self.a)
        self.around = self.snapshot()


def hold(sim, name, a, sampled):
    """The same numbers in the words of the caller."""
    if name in NOT_NARROW or a.dtype.kind not in 'iu' or not a.size:
        return a
    if sampled and sim.flip(0.2):
        sim.probe('converted_to_float')
        return a.astype(float)
    fit = [w for w in WORDS if np.iinfo(w).min <= a.min() and a.max() <= np.iinfo(w).max]
    if name in NOT_UNSIGNED:
        fit = [w for w in fit if w[0] != 'u']
    w = sim.pick(fit)
    if w != 'int64':
        sim.probe(w)
    return a.astype(w)


class Channel:
    def __init__(self, sim, label):
        self.sim, self.label = sim, label
        self.pool = [sim.pick(KINDS) for _ in range(sim.integer(1, 3))]
        self.left = sim.integer(1, 5)

    def capture(self):
        sim = self.sim
        o = catalog.OPS[sim.pick(self.pool)](sim)
        base = dict(o.arrays)
        conv = []
        if o.name != 'rx.demapping' and sim.flip(0.5):
            f = sim.pick([30.0, 40.0, 127.0, 1.0])
            for n in base:
                if n in SAMPLED and base[n].dtype.kind == 'f':
                    base[n] = words(sim, base[n], f)
                    conv.append(n)
                    if np.any(np.abs(base[n]) == 127):
                        sim.probe('extreme_words')
            if conv:
                sim.probe('converter_words')
        o.arrays = {n: np.ascontiguousarray(a).copy() for n, a in base.items()}
        with np.errstate(all='ignore'):
            want = sim.call(o.name, o.run)
        want = [None if w is None else np.array(w) for w in want]
        o.second = None
        if sim.flip(0.35):                              # what the same request gives for the next samples in the same memory
            o.arrays = {n: np.roll(np.ascontiguousarray(a), 1, axis=-1) for n, a in base.items()}
            try:
                with np.errstate(all='ignore'):
                    o.second = [None if w is None else np.array(w) for w in o.run()]
            except Exception:                           # rolled taps or levels need not be a valid request
                o.second = None
        o.slots = {n: Slot(sim, n, hold(sim, n, a, n in conv)) for n, a in sorted(base.items())}
        sim.log('capture', self.label, o.name, ','.join(f'{n}:{s.layout}:{s.a.dtype}' for n, s in o.slots.items()))
        if sim.flip(0.5) and o.slots:
            sim.after(sim.draw(6), self.engine, o)
        d = sim.draw(9)
        if d > 4:
            sim.probe('fetch_late')
        sim.after(d, self.process, o, want, 1)
        self.left -= 1
        if self.left:
            sim.after(1 + sim.draw(9), self.capture)

    def engine(self, o):
        s = o.slots[self.sim.pick(sorted(o.slots))]
        s.neighbour(self.sim)
        self.sim.probe('neighbour_write')
        self.sim.fault('neighbour_write', self.label, o.name, s.name)

    def process(self, o, want, turn):
        sim = self.sim
        o.arrays = {n: s.view for n, s in o.slots.items()}
        where = f'{self.label} {o.name} with ' + ', '.join(f'{n} {s.layout} {s.a.dtype}' for n, s in o.slots.items())
        with np.errstate(all='ignore'):
            got = sim.call(o.name, o.run)
        for n, s in o.slots.items():
            sim.check(s.snapshot() == s.around, 'memory-written', lambda: f'{where}: memory of {n} changed by the call')
        sim.checks += 1
        d = catalog.same(got, want)
        if d:
            raise Violation('held-differently', f'{where}: {d}')
        for g in got:
            if g is not None:
                sim.log('result', self.label, np.shape(g))
        if o.slots and o.second is not None:
            for s in o.slots.values():
                s.a = np.roll(s.a, 1, axis=-1)
                s.neighbour(sim)
            sim.probe('next_samples')
            sim.fault('next_samples', self.label, o.name)
            want, o.second = o.second, None
            with np.errstate(all='ignore'):
                got = sim.call(o.name, o.run)
            sim.checks += 1
            d = catalog.same(got, want)
            if d:
                raise Violation('stale-samples', f'{where}, new samples in the same memory: {d}')
        if o.slots and sim.flip(0.4):
            for n in sorted(o.slots):                   # the engine reuses the memory: results already returned stay put
                s = o.slots[n]
                s.fill(sim, np.roll(s.a, 1) if sim.flip(0.5) else s.a[..., ::-1])
            sim.probe('memory_reused')
            sim.fault('memory_reused', self.label, o.name)
            d = catalog.same(got, want)
            sim.check(d is None, 'result-follows-memory', lambda: f'{where}: {d}')
            for n in sorted(o.slots):
                o.slots[n].neighbour(sim)
        if turn < 3 and sim.flip(0.3):
            if o.slots and sim.flip(0.5):
                n = sim.pick(sorted(o.slots))           # the slot is given back; the data comes again elsewhere
                o.slots[n] = Slot(sim, n, o.slots[n].a)
                sim.probe('slot_refill')
                sim.fault('slot_refill', self.label, n)
            sim.probe('repeated_call')
            sim.after(sim.draw(9), self.process, o, want, turn + 1)


def run(sim):
    for k in range(sim.integer(1, 3)):
        sim.after(sim.draw(5), Channel(sim, f'K{k}').capture)
    while sim.step():
        if sim.steps > 2000:
            raise Violation('no-progress', 'captures pending')
