"""C15: an eye monitor counts every sample of the line once, whatever the captures."""
import pickle

import numpy as np

import CommDspy as cdsp
from dst.core import Violation
from dst.rates import interpolated

BUDGET = {'quick': {'runs': 9000, 'wall': 240}, 'thorough': {'runs': 60000, 'wall': 1500}}
RULE = ('one run = 1-3 monitors of an oversampled line; captures of whole symbols are cut at seeded instants, lost, repeated, reordered, '
        'interrupted by crashes and restarts of the monitor; non-trivial = at least one oracle check and one fault or probe; '
        'distinct = distinct event log')
REAL = ['eye_diagram', 'digital_oversample', 'channel.pulse_shape (line)', 'power', 'rms']
STUB = ['the line, the capture transport, the store of the accumulated eye, the scheduler (simulated)']
ASSUMPTIONS = ['captures hold whole symbols', 'the oversampling of the diagram is a multiple of that of the line',
               'samples lie off the inner bin edges by more than rounding, or on them where the edges are exact numbers']
REQUIRED_PROBES = ['capture_loss', 'capture_dup', 'capture_reorder', 'crash', 'over_range', 'interpolated_eye', 'log_eye', 'merged',
                   'one_symbol_capture', 'range_edge', 'gain_step', 'defaults_left_out', 'integer_line', 'long_capture', 'huge_capture', 'near_bin_edge',
                   'fine_diagram']


def bins(x, fs, q):
    """Amplitude bin of every sample, -1 outside the range; the upper end belongs to the last bin."""
    v = (np.asarray(x, dtype=float) + fs) / (2.0 * fs) * q
    k = np.floor(v + 0.0).astype(int)
    k[np.asarray(x) == fs] = q - 1
    k[(np.asarray(x) < -fs) | (np.asarray(x) > fs)] = -1
    return k


def exact(fs, q):
    """Bin edges and the position of a sample among them are free of rounding."""
    return fs in (1, 4) and q in (1, 2, 16, 64, 256)


def off_edges(x, fs, q, margin):
    """True when no sample is within rounding of an inner bin edge."""
    v = (np.asarray(x, dtype=float) + fs) / (2.0 * fs) * q
    near = np.abs(v - np.round(v)) < margin
    if margin < 1e-8 and exact(fs, q):
        near &= v != np.round(v)                # on the edge: the bin above it
    ends = (np.asarray(x) == fs) | (np.asarray(x) == -fs)
    return not bool(np.any(near & ~ends & (v > -1) & (v < q + 1)))


def counts(x, width, fs, q):
    out = np.zeros((q, width))
    k = bins(x, fs, q)
    i = np.flatnonzero(k >= 0)
    np.add.at(out, (k[i], i % width), 1)
    return out


class Monitor:
    def __init__(self, sim, label):
        self.sim, self.label = sim, label
        self.osr = sim.pick([1, 2, 3, 4, 5, 8])
        self.up = sim.pick([1, 1, 1, 2, 3, 4])
        if sim.flip(0.05):
            self.up = sim.pick([8, 16, 20, 32])
            sim.probe('fine_diagram')
        self.fs = sim.pick([1, 1.0, 3, 0.75, 2.5, 4.0])
        self.q = sim.pick([256, 16, 7, 2, 1, 64])
        self.logscale = sim.flip(0.3)
        n = sim.size(3, 40, 12)
        self.most = 12
        if sim.draw(40) == 39:
            n, self.most = sim.integer(400, 4000), 3000
            sim.probe('long_capture')
            if self.osr == 1 and sim.flip(0.5):         # more of one level than a 16 bit counter holds
                n, self.most = sim.integer(70000, 300000), 300000
                self.q = sim.pick([1, 2, 7])
                sim.probe('huge_capture')
        r = sim.data_rng()
        if sim.flip(0.25):
            # integer samples, as they come from a converter; odd bin counts and ranges keep them off the edges
            sim.probe('integer_line')
            self.line = r.randint(-4, 5, n * self.osr)
        else:
            lv = np.array(sim.pick([[-1.0, 1.0], [-3.0, -1.0, 1.0, 3.0], [0.0, 1.0], [-1.0, 0.0, 1.0]]))
            sym = lv[r.randint(0, len(lv), n)]
            kind, span, beta = sim.pick(['rect', 'rcos', 'sinc']), sim.pick([1, 3]), sim.pick([0.5, 0.25])
            w, _ = sim.call('pulse_shape', cdsp.channel.pulse_shape, sym, osr=self.osr, span=span, pulse=kind, beta=beta)
            self.line = np.asarray(w) * sim.pick([1.0, 0.33, 0.9]) + r.uniform(-0.04, 0.04, n * self.osr)
            if sim.flip(0.3):
                at = sim.draw(n) * self.osr
                self.line[at:] = self.line[at:] * sim.pick([2.0, -1.0, 0.3])
                sim.fault('gain_step', label, at)
            if sim.flip(0.3):
                self.line[sim.draw(len(self.line))] = sim.pick([-1, 1]) * self.fs
                sim.probe('range_edge')
            if self.up == 1 and sim.flip(0.4):          # levels close to a bin edge; on it where edges are exact numbers
                k = r.randint(0, len(self.line), max(1, len(self.line) // 3))
                e = r.randint(0, self.q + 1, len(k))
                off = r.choice([-1, 1], len(k)) * 10.0 ** r.uniform(-8, -4, len(k))
                if exact(self.fs, self.q):
                    off = np.where(r.rand(len(k)) < 0.3, 0.0, off)
                self.line[k] = -self.fs + (e + off) * (2.0 * self.fs / self.q)
                sim.probe('near_bin_edge')
        self.n = n
        # captures: whole symbols, any cut
        self.caps, pos = [], 0
        while pos < n:
            k = min(n - pos, sim.size(1, 12, 3) if self.most == 12 else sim.integer(self.most // 2, self.most))
            self.caps.append((pos, pos + k))
            pos += k
        if sim.flip(0.3) and len(self.caps) > 1:
            self.caps = sim.shuffled(self.caps)
            sim.fault('capture_reorder', label)
        self.todo = list(self.caps)
        self.acc = np.zeros((self.q, 2 * self.osr * self.up))
        self.seen = []                          # captures in self.acc
        self.durable = pickle.dumps((self.acc, self.seen, self.todo))
        self.losses = 3

    def step(self):
        sim = self.sim
        if not self.todo:
            return
        a, b = self.todo.pop(0)
        again = 1
        if self.losses and sim.flip(0.1):
            self.losses -= 1
            sim.fault('capture_loss', self.label, a)
            again = 0
        elif sim.flip(0.1):
            sim.fault('capture_dup', self.label, a)
            again = 2
        if b - a == 1:
            sim.probe('one_symbol_capture')
        for _ in range(again):
            seg = self.line[a * self.osr:b * self.osr].copy()
            eye = self.measure(seg)
            if eye is not None:
                self.acc = self.acc + eye
                self.seen = self.seen + [(a, b)]
        if sim.flip(0.3):
            self.durable = pickle.dumps((self.acc, self.seen, self.todo))
            sim.log('store', self.label, len(self.seen))
        if sim.flip(0.08) and self.losses:
            self.losses -= 1
            sim.fault('crash', self.label)
            self.acc, self.seen, self.todo = pickle.loads(self.durable)
        if self.todo:
            sim.after(1 + sim.draw(9), self.step)

    def measure(self, seg, merged=False):
        """One real diagram, checked against the reference; returns its counts (None: outside the stated domain)."""
        sim, up, width = self.sim, self.up, self.osr * self.up
        if up > 1:
            if len(seg) <= self.osr:
                return None                     # nothing is left after the interpolation's trim
            want_x = interpolated(seg, up, self.osr, 'sinc', 0)
            sim.probe('interpolated_eye')
        else:
            want_x = np.asarray(seg)
        if not off_edges(want_x, self.fs, self.q, 1e-6 if up > 1 else 1e-9):
            return None
        keep = seg.copy()
        log = self.logscale and not merged
        eye, amp = sim.call('eye_diagram', cdsp.eye_diagram, seg, self.osr, width, self.fs, self.q, log)
        where = f'{self.label} osr={self.osr} diagram={width} fs={self.fs} bins={self.q} capture of {len(seg)}'
        sim.equal(seg, keep, 'input-modified', where)
        sim.close(amp, [-self.fs + 2.0 * self.fs * k / max(1, self.q - 1) for k in range(self.q)], 'amplitude-axis', where, tol=1e-9)
        want = counts(want_x, width, self.fs, self.q)
        want = np.hstack([want, want])          # two symbols wide
        eye = np.asarray(eye)
        sim.log('eye', self.label, len(seg), int(want.sum()), data=eye)
        sim.check(eye.shape == want.shape, 'shape', f'{where}: {eye.shape}')
        if log:
            sim.probe('log_eye')
            sim.close(eye, np.log10(want + 0.1), 'log-counts', where, tol=1e-9)
            eye = want
        sim.equal(eye, want, 'counts', where)
        inside = int(np.sum(np.abs(want_x) <= self.fs))
        if inside < len(want_x):
            sim.probe('over_range')
        if not log:
            sim.check(int(np.sum(eye)) == 2 * inside, 'conservation', lambda: f'{where}: {int(np.sum(eye))} counts for {inside} samples')
        p = float(sim.call('power', cdsp.power, seg))
        sim.close([p], [float(np.mean(np.asarray(seg, dtype=float) ** 2))], 'power', where, tol=1e-9)
        sim.close([float(sim.call('rms', cdsp.rms, seg))], [p ** 0.5], 'power', where, tol=1e-9)
        return np.asarray(eye, dtype=float)

    def finish(self):
        """Merged captures are the diagram of everything captured: nothing lost, nothing counted twice."""
        sim = self.sim
        if self.up > 1 or not self.seen:
            return
        order = sim.shuffled(self.seen)
        whole = np.concatenate([self.line[a * self.osr:b * self.osr] for a, b in order])
        eye = self.measure(whole, merged=True)
        if eye is not None:
            sim.probe('merged')
            sim.equal(self.acc, eye, 'merge', f'{self.label}: sum of {len(order)} diagrams against the diagram of all captures')


def run(sim):
    ms = [Monitor(sim, f'M{k}') for k in range(sim.integer(1, 3))]
    for m in ms:
        sim.after(sim.draw(9), m.step)
    while sim.step():
        if sim.steps > 5000:
            raise Violation('no-progress', 'captures pending')
    for m in ms:
        m.finish()
