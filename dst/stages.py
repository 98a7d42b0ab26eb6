"""Stage adapters: real CommDspy streaming stages with their independent references."""
import copy

import numpy as np

import CommDspy as cdsp
from CommDspy.misc.help_classes import FfeDfeFilterTII, Filter, FilterTII
from dst import ref
from dst.pipeline import Stage


def _hist(v, n):
    """Last n samples, most recent first, zero before the beginning."""
    v = [float(q) for q in v[-n:]][::-1] if n else []
    return v + [0.0] * (n - len(v))


def hand(stage, z):
    """A memory handed to a filter object; it stays the caller's and must not change."""
    z = np.asarray(z, dtype=float)
    stage.handed = list(stage.handed) + [(z, z.copy())]
    return z


def twin(sim, stage):
    """A second stage that differs from `stage` in one parameter: hidden state shared by nearly equal set-ups shows here."""
    sim.probe('twin_stage')
    other = copy.copy(stage)
    other.handed = ()
    other.vary(sim)
    return other


def tap_count(sim, lo, hi, small, grand):
    """Mostly short; one set-up in twelve is as long as real cables and equalisers need."""
    if sim.flip(1 / 12):
        sim.probe('long_taps')
        return sim.integer(hi, grand)
    return sim.size(lo, hi, small)


def rand_fir(sim, lo=1, hi=9):
    n = tap_count(sim, lo, hi, min(4, hi), 120)
    r = sim.data_rng()
    b = np.round(r.uniform(-1, 1, n), 3)
    if sim.draw(4) == 3:                # sparse, with zeros at the ends
        b[r.randint(0, n)] = 0.0
    if sim.draw(6) == 5:
        b = np.round(b * 3).astype(int)
    if not np.any(b):
        b = b + 1
    return b


def rand_iir(sim, hi=4, a0=True):
    """Stable denominator from poles inside the unit circle."""
    n = sim.draw(hi + 1)
    r = sim.data_rng()
    if sim.flip(0.05):                  # a comb: the recursion reaches far back
        a = np.zeros(sim.integer(8, 80))
        k = r.randint(1, len(a), 3)
        a[k] = np.round(r.uniform(-0.3, 0.3, 3), 3)
        a[0], a[-1] = 1.0, a[-1] or 0.05
        sim.probe('long_recursion')
        return a
    a = np.array([1.0])
    k = n
    while k > 0:
        if k >= 2 and r.rand() < 0.5:
            m, th = r.uniform(0.1, 0.85), r.uniform(0, np.pi)
            a = np.convolve(a, [1, -2 * m * np.cos(th), m * m])
            k -= 2
        else:
            a = np.convolve(a, [1, -r.uniform(-0.85, 0.85)])
            k -= 1
    if a0 and sim.draw(3) == 2:
        a = a * sim.pick([2.0, 0.5, -1.5, 4.0])
    return a


BETAS = [0.5, 0.25, 0.35, 0.1, 0.2, 0.7, 1.0, 0.22, 0.3]


class PulseStage(Stage):
    functional = True

    def __init__(self, sim):
        self.kind = sim.pick(['rect', 'sinc', 'rcos', 'rrc', 'imp'])
        self.osr = sim.pick([1, 2, 3, 4, 5, 8])
        self.span = sim.pick([1, 2, 3, 4, 8])
        self.beta = sim.pick(BETAS)
        if sim.flip(0.12):
            sim.probe('grand_pulse')
            if sim.flip(0.5):
                self.osr = sim.pick([10, 16, 32, 33, 50, 64, 100, 128])
            else:
                self.span = sim.pick([9, 10, 12, 16, 24, 40])
        elif self.kind in ('rcos', 'rrc') and sim.flip(0.2):
            if self.kind == 'rcos' and sim.flip(0.7):               # the removable singularity 2 * beta * t = 1 falls on the sampling grid
                self.osr, self.beta = sim.pick([(7, 0.14), (9, 0.18), (14, 0.28), (9, 0.09), (7, 0.07)])
                self.span = sim.pick([4, 8])
            else:
                self.beta = 0.0             # no roll-off: a sinc
            sim.probe('rcos_edge')
        self.explicit = sim.flip(0.5)
        self.finish()

    def finish(self):
        self.name = f'pulse_shape[{self.kind},osr={self.osr},span={self.span},beta={self.beta}]'
        self.rate = self.osr
        self.memory = max(1, self.span * 2 - 1)
        self.tol = 1e-6
        self.h = ref.pulse(self.kind, self.osr, self.span, self.beta)

    def vary(self, sim):
        k = sim.draw(4)
        if k <= 1:
            self.beta = sim.pick([q for q in BETAS if q != self.beta])
        elif k == 2:
            self.span = sim.pick([q for q in (1, 2, 3, 4, 8) if q != self.span])
        else:
            self.kind = sim.pick([q for q in ('rect', 'sinc', 'rcos', 'rrc', 'imp') if q != self.kind])
        self.finish()

    def start(self):
        return np.zeros(len(self.h) - 1) if self.explicit else None

    def process(self, sim, state, chunk):
        return sim.call('pulse_shape', cdsp.channel.pulse_shape, chunk, osr=self.osr, span=self.span, pulse=self.kind,
                        beta=self.beta, zi=state)

    def reference(self, x):
        return np.convolve(ref.upsampled(np.asarray(x, dtype=float), self.osr), self.h)[:len(x) * self.osr]

    def rebuild(self, xs, ys):
        up = ref.upsampled(np.asarray(xs, dtype=float), self.osr)
        n = len(self.h) - 1
        return ref.transposed_state(self.h, [1.0], _hist(up, n), [0.0] * n, n)


def vary_taps(stage, sim):
    """Same lengths and mostly the same taps: one feedforward tap differs, or the feedback part is negated at odd lags."""
    if len(getattr(stage, 'av', stage.a)) > 1 and sim.draw(2):
        v = getattr(stage, 'av', stage.a) * (-1.0) ** np.arange(len(getattr(stage, 'av', stage.a)))
        stage.a = [float(q) for q in v] if isinstance(stage.a, list) else v.copy()
        if hasattr(stage, 'av'):
            stage.av = v
    else:
        stage.b = np.array(stage.b)
        k = sim.draw(len(stage.b))
        stage.b[k] = stage.b[k] + 1


class ChannelStage(Stage):
    functional = True

    def __init__(self, sim):
        self.b = rand_fir(sim, 1, 12)
        kind = sim.draw(4)
        if kind == 0:
            self.a = sim.pick([1, 1.0, 1, 1.0, 2, 0.5, -4, 1.6])
            self.av = np.array([float(self.a)])
        elif kind == 1:
            self.a = [1]
            self.av = np.array([1.0])
        elif kind == 2 and sim.flip(0.5):
            self.av = rand_iir(sim)
            self.a = [float(v) for v in self.av]
        else:
            self.av = rand_iir(sim)
            self.a = self.av.copy()
        self.explicit = sim.flip(0.5)
        self.finish()

    def finish(self):
        self.order = max(len(self.b), len(self.av)) - 1
        self.name = f'awgn_channel[b={len(self.b)},a={np.size(self.a)}]'
        self.memory = max(1, self.order)

    def vary(self, sim):
        vary_taps(self, sim)
        self.finish()

    def start(self):
        return np.zeros(self.order) if self.explicit else None

    def process(self, sim, state, chunk):
        return sim.call('awgn_channel', cdsp.channel.awgn_channel, chunk, self.b, self.a, zi=state)

    def reference(self, x):
        return ref.diffeq(self.b, self.av, x)

    def rebuild(self, xs, ys):
        n = self.order
        return ref.transposed_state(self.b / self.av[0], self.av / self.av[0], _hist(xs, n), _hist(ys, n), n)

    def describe(self):
        return f'{self.name} b={list(self.b)} a={self.a}'


class CtleStage(Stage):
    functional = True

    def __init__(self, sim):
        r = sim.data_rng()
        self.osr = sim.pick([1, 2, 4, 16, 32])
        self.fs = sim.pick([53.125e9, 1e9, 1.0])
        nz, npol = sim.integer(1, 2), sim.integer(1, 3)
        sgn = lambda: -1 if r.rand() < 0.3 else 1   # noqa: E731  (sign is documented to be irrelevant)
        self.zeros = [float(sgn() * r.uniform(0.02, 0.8) * self.fs) for _ in range(nz)]
        self.poles = [float(sgn() * r.uniform(0.05, 1.5) * self.fs) for _ in range(npol)]
        if npol > 1 and sim.flip(0.2):              # double (or triple) pole, given with any sign
            self.poles[1] = self.poles[0] * sgn()
            sim.probe('double_pole')
        if nz > 1 and sim.flip(0.2):
            self.zeros[1] = self.zeros[0] * sgn()
        self.gain = sim.pick([0, -10, -3, 6])
        if sim.flip(0.1):
            self.gain = sim.pick([-24, -45.5, 14, 30])
            sim.probe('extreme_gain')
        self.finish()

    def vary(self, sim):
        k = sim.draw(4)
        if k == 0:
            self.gain = sim.pick([q for q in (0, -10, -3, 6) if q != self.gain])
        elif k == 1:
            self.zeros = [q * 1.25 for q in self.zeros]
        elif k == 2:
            self.poles = [q * 0.8 for q in self.poles]
        else:
            self.osr = sim.pick([q for q in (1, 2, 4, 16, 32) if q != self.osr])
        self.finish()

    def finish(self):
        nz, npol = len(self.zeros), len(self.poles)
        self.b, self.a = ref.ctle_coeffs(self.zeros, self.poles, self.gain, self.fs * self.osr)
        self.order = len(self.b) - 1
        self.name = f'ctle[z={nz},p={npol},osr={self.osr}]'
        self.memory = self.order
        self.tol = 1e-6

    def start(self):
        return np.zeros(self.order)

    def process(self, sim, state, chunk):
        return sim.call('ctle', cdsp.rx.ctle, chunk, self.zeros, self.poles, self.gain, self.fs, self.osr, zi=state)

    def reference(self, x):
        return ref.diffeq(self.b, self.a, x)

    def rebuild(self, xs, ys):
        n = self.order
        return ref.transposed_state(self.b, self.a, _hist(xs, n), _hist(ys, n), n)


class FilterStage(Stage):
    """Direct-form filter object: state is the object."""

    def __init__(self, sim):
        self.b = rand_fir(sim, 1, 8)
        self.a = rand_iir(sim)
        self.name = f'Filter[b={len(self.b)},a={len(self.a)}]'
        self.memory = max(len(self.b), len(self.a))
        self.explicit = sim.flip(0.5)

    def vary(self, sim):
        vary_taps(self, sim)

    def start(self):
        if self.explicit:
            return Filter(self.b, self.a, z_fir=hand(self, np.zeros(len(self.b))), z_iir=hand(self, np.zeros(len(self.a) - 1)))
        return Filter(self.b, self.a)

    def process(self, sim, state, chunk):
        return sim.call('Filter', state, chunk), state

    def reference(self, x):
        return ref.diffeq(self.b, self.a, x)

    def rebuild(self, xs, ys):
        return Filter(self.b, self.a, z_fir=hand(self, _hist(xs, len(self.b))), z_iir=hand(self, _hist(ys, len(self.a) - 1)))

    def describe(self):
        return f'{self.name} b={list(self.b)} a={list(self.a)}'


class FilterTIIStage(Stage):
    def __init__(self, sim):
        self.a = rand_iir(sim)
        self.b = rand_fir(sim, 1 if len(self.a) > 1 else 2, 8)
        self.order = max(len(self.b), len(self.a)) - 1
        self.name = f'FilterTII[b={len(self.b)},a={len(self.a)}]'
        self.memory = self.order
        self.explicit = sim.flip(0.5)

    def vary(self, sim):
        vary_taps(self, sim)

    def start(self):
        return FilterTII(self.b, self.a, z=hand(self, np.zeros(self.order))) if self.explicit else FilterTII(self.b, self.a)

    def process(self, sim, state, chunk):
        return sim.call('FilterTII', state, chunk), state

    def reference(self, x):
        return ref.diffeq(self.b, self.a, x)

    def rebuild(self, xs, ys):
        n = self.order
        return FilterTII(self.b, self.a, z=hand(self, ref.transposed_state(self.b, self.a, _hist(xs, n), _hist(ys, n), n)))

    def describe(self):
        return f'{self.name} b={list(self.b)} a={list(self.a)}'


LINEAR = [PulseStage, ChannelStage, CtleStage, FilterStage, FilterTIIStage]


# ------------------------------------------------------------------------------------------------------ equalisers
LEVEL_SETS = [None, [-1.0, 1.0], [-3.0, -1.0, 1.0, 3.0], [-1.0, 0.0, 1.0], [0.0, 1.0], [-0.9, -0.31, 0.28, 1.1], [-3.0, -1.4, 1.4, 3.0],
              [-7.0, -5.0, -3.0, -1.0, 1.0, 3.0, 5.0, 7.0]]


class EqualiserStage(Stage):
    """cdsp.rx.ffe_dfe as a chunked stream: FFE only, DFE only, or both."""
    functional = True

    def __init__(self, sim, mode=None):
        self.mode = mode or sim.wpick([(5, 'ffe'), (5, 'dfe'), (5, 'both'), (1, 'gain')])
        r = sim.data_rng()
        nf = 1 if self.mode in ('dfe', 'gain') else tap_count(sim, 2, 12, 4, 70)
        nd = 0 if self.mode in ('ffe', 'gain') else tap_count(sim, 1, 6, 2, 30)
        self.levels = sim.pick(LEVEL_SETS)
        self.ffe = np.round(r.uniform(-0.4, 0.4, nf), 3)
        self.ffe[r.randint(0, nf)] = 1.0
        self.default_ffe = self.mode == 'dfe' and sim.flip(0.5)
        if self.mode in ('dfe', 'gain'):
            self.ffe = np.array([1.0]) if self.default_ffe else np.array([float(np.round(r.uniform(0.5, 1.5), 3))])
        self.dfe = np.round(r.uniform(-0.5, 0.5, nd), 3)
        self.osr = sim.pick([1, 1, 1, 2, 3, 4, 5, 8]) if nd else 1
        self.phase = sim.draw(max(1, self.osr - self.osr // 2)) if self.osr > 1 else 0
        self.grain = self.osr
        self.memory = max(nf, nd * self.osr)
        self.zero_mem = sim.flip(0.5)       # explicit zero memories from the first chunk on
        self.int_mem = sim.flip(0.2)
        self.short_ffe_memory = sim.flip(0.3)
        self.name = f'ffe_dfe[{self.mode},ffe={nf},dfe={nd},osr={self.osr},phase={self.phase}]'
        self.margin = None

    def vary(self, sim):
        k = sim.draw(3)
        if k == 0:
            self.levels = sim.pick([q for q in LEVEL_SETS if q != self.levels])
        elif k == 1 and len(self.dfe):
            self.dfe = -self.dfe
        else:
            self.ffe = self.ffe if self.default_ffe else np.round(self.ffe * 1.25, 4)
        self.margin = None

    def start(self):
        if self.zero_mem:
            t = int if self.int_mem else float
            return (np.zeros(len(self.ffe), t) if len(self.ffe) > 1 else None, np.zeros(len(self.dfe), t) if len(self.dfe) else None)
        return (None, None)

    def process(self, sim, state, chunk):
        zf, zd = state
        kw = {}
        if not self.default_ffe:
            kw['ffe_taps'] = self.ffe
        if len(self.dfe):
            kw['dfe_taps'] = self.dfe
            kw['levels'] = None if self.levels is None else np.array(self.levels)
            kw['osr'] = self.osr
            kw['phase'] = self.phase
            if zd is not None:
                kw['zi_dfe'] = zd
        if zf is not None:
            kw['zi_ffe'] = zf[1:] if self.short_ffe_memory and len(zf) == len(self.ffe) else zf
        res = sim.call('ffe_dfe', cdsp.rx.ffe_dfe, chunk, **kw)
        if self.mode == 'gain':             # one tap, no feedback: no memory
            out = res
        elif self.mode == 'ffe':
            out, zf = res
        elif self.mode == 'dfe':
            out, zd = res
        else:
            out, zf, zd = res
        return out, (zf, zd)

    def reference(self, x):
        lv = self.levels if self.levels is not None else [-3.0, -1.0, 1.0, 3.0]
        out, dec, self.margin = ref.ffe_dfe(x, self.ffe, self.dfe, lv, self.osr, self.phase)
        self.dec = dec
        return out

    def rebuild(self, xs, ys):
        n = len(self.ffe)
        zf = np.array(_hist(xs, n)[::-1]) if n > 1 else None
        zd = None
        if len(self.dfe):
            d = self.dec[:len(xs)][self.phase::self.osr]
            zd = np.array(_hist(d, len(self.dfe)))
        return (zf, zd)

    def describe(self):
        return f'{self.name} ffe={list(self.ffe)} dfe={list(self.dfe)} levels={self.levels}'


class FfeDfeTIIStage(Stage):
    """FfeDfeFilterTII object: d[0] scales the slicer input, decisions feed back through d[1:]."""

    def __init__(self, sim):
        r = sim.data_rng()
        nf, nd = tap_count(sim, 2, 10, 4, 70), tap_count(sim, 1, 5, 2, 30)
        self.ffe = np.round(r.uniform(-0.4, 0.4, nf), 3)
        self.ffe[r.randint(0, nf)] = 1.0
        self.dfe = np.concatenate([[1.0], np.round(r.uniform(-0.5, 0.5, nd), 3)])
        if sim.draw(4) == 3:
            self.dfe[0] = sim.pick([2.0, 0.5])
        self.levels = sim.pick([q for q in LEVEL_SETS if q is not None])
        self.memory = max(nf, nd + 1) - 1
        self.name = f'FfeDfeFilterTII[ffe={nf},dfe={nd}]'
        self.explicit = sim.flip(0.5)
        self.margin = None

    def vary(self, sim):
        if sim.draw(2):
            self.levels = sim.pick([q for q in LEVEL_SETS if q is not None and q != self.levels])
        else:
            self.dfe = np.concatenate([self.dfe[:1], -self.dfe[1:]])
        self.margin = None

    def start(self):
        z = hand(self, np.zeros(self.memory)) if self.explicit else None
        return FfeDfeFilterTII(self.ffe, self.dfe, np.array(self.levels), z)

    def process(self, sim, state, chunk):
        return sim.call('FfeDfeFilterTII', state, chunk), state

    def reference(self, x):
        d0 = self.dfe[0]
        out, self.dec, self.margin = ref.ffe_dfe(x, self.ffe / d0, self.dfe[1:] / d0, self.levels)
        return out

    def rebuild(self, xs, ys):
        n = self.memory
        d = self.dec[:len(xs)]
        z = ref.transposed_state(self.ffe, self.dfe, _hist(xs, n), _hist(d, n), n)
        return FfeDfeFilterTII(self.ffe, self.dfe, np.array(self.levels), hand(self, z))

    def describe(self):
        return f'{self.name} ffe={list(self.ffe)} dfe={list(self.dfe)} levels={self.levels}'
