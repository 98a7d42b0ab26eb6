"""C10: randomness: one seed is one execution, noise is calibrated, white and fresh, and never enters the memories."""
import numpy as np
from scipy.special import ndtri
from scipy.interpolate import CubicSpline

import CommDspy as cdsp
from dst import ref

BUDGET = {'quick': {'runs': 1300, 'wall': 240}, 'thorough': {'runs': 16000, 'wall': 1500}}
RULE = ('one run = 1-3 interleaved noisy/jittered streams in a seeded chunk schedule with crashes restored from (generator state, '
        'memories) checkpoints, executed twice from the same generator seed; non-trivial = at least one oracle check and one fault '
        'or probe; distinct = distinct event log')
REAL = ['channel.awgn', 'channel.awgn_channel', 'channel.pulse_shape (random jitter)']
STUB = ['consumers, scheduler, checkpoint store; numpy\'s global generator is real and seeded by the simulator']
ASSUMPTIONS = ['entropy comes from numpy\'s global generator', 'statistics are judged at 6.5 standard deviations plus the bias of the '
               'power estimate of a chunk']
REQUIRED_PROBES = ['crash', 'awgn', 'channel_noise', 'jitter', 'dc_signal', 'framed_2d', 'noiseless_chunk', 'statistics',
                   'jitter_statistics', 'int_signal', 'short_noisy_chunks', 'long_jitter', 'power_step', 'extreme_snr']
Z = 6.5


class Noisy:
    """A stream through awgn() or awgn_channel(snr)."""

    def __init__(self, sim, sid):
        self.sim, self.id = sim, sid
        self.kind = sim.pick(['awgn', 'channel'])
        r = sim.data_rng()
        self.snr = sim.pick([10, 0, 20, 33, -5, 6.5])
        if sim.flip(0.15):
            self.snr = sim.pick([75, 95, 50, -15, -28.5])
            sim.probe('extreme_snr')
        self.dc = sim.pick([0.0, 0.0, 2.0, -1.5])
        self.amp = sim.pick([1.0, 3.0, 0.05])
        self.intsig = sim.flip(0.2)
        if self.dc:
            sim.probe('dc_signal')
        self.b = np.round(r.uniform(-1, 1, sim.size(1, 14, 5)), 3)
        self.b[0] += 1.5
        self.a = np.concatenate([[1.0], np.round(r.uniform(-0.3, 0.3, sim.draw(3)), 3)])
        if sim.flip(0.3):
            self.a = self.a * 2
        self.x = []
        self.sent = []
        self.noise, self.last = [], None
        self.chunks = []
        self.short = sim.flip(0.35)         # many small chunks: shorter than a frame, often shorter than the channel memory
        if self.short:
            sim.probe('short_noisy_chunks')
        for _ in range(sim.integer(20, 160) if self.short else sim.integer(2, 5)):
            n = sim.pick([60, 3, 5, 8, 2, 64, 32, 17, 1]) if self.short else sim.pick([200, 1000, 2000, 4000])
            if self.intsig:
                c = r.choice([-3, -1, 1, 3], n) + int(self.dc)
                sim.probe('int_signal')
            else:
                c = self.amp * (r.choice([-3.0, -1.0, 1.0, 3.0], n) + self.dc)
                if not self.short and sim.flip(0.35):       # the line swells or fades within the chunk
                    m = sim.pick([n // 2, n // 4, 3 * n // 4])
                    c[:m] = c[:m] * sim.pick([4.0, 0.2, 10.0])
                    sim.probe('power_step')
            if n == 1 and c[0] == 0:
                c[0] = 1
            if n > 1 and np.all(c == c[0]):
                c[-1] = c[-1] + (2 if self.intsig else 2 * self.amp)    # a constant zero chunk has no power to be noisy against
            self.chunks.append((c, sim.flip(0.15), sim.flip(0.2) and not self.short))
        self.pos = 0
        self.zi = None
        self.out = []

    def state(self):
        return (self.pos, None if self.zi is None else np.array(self.zi), len(self.out), len(self.noise))

    def restore(self, s):
        self.pos, self.zi = s[0], None if s[1] is None else np.array(s[1])
        del self.out[s[2]:]
        del self.noise[s[3]:]

    def done(self):
        return self.pos >= len(self.chunks)

    def step(self):
        sim = self.sim
        c, quiet, framed = self.chunks[self.pos]
        keep = c.copy()
        if self.kind == 'awgn':
            clean = c.astype(float)
            arg = c
            if framed:
                arg = c.reshape(-1, 50)
                sim.probe('framed_2d')
            y = sim.call('awgn', cdsp.channel.awgn, arg, self.snr)
            sim.check(np.shape(y) == np.shape(arg), 'shape', f'awgn: {np.shape(y)} for {np.shape(arg)}')
            y = np.reshape(y, -1)
            sim.probe('awgn')
        else:
            past = np.concatenate([q[0] for q in self.chunks[:self.pos + 1]]).astype(float)
            clean = ref.diffeq(self.b, self.a, past)[-len(c):]
            kw = {} if self.zi is None else {'zi': self.zi}
            before = np.random.get_state()
            if not quiet:
                kw['snr'] = self.snr
                sim.probe('channel_noise')
            y, self.zi = sim.call('awgn_channel', cdsp.channel.awgn_channel, c, self.b, self.a, **kw)
            if quiet:
                sim.probe('noiseless_chunk')
                after = np.random.get_state()
                sim.check(np.array_equal(before[1], after[1]) and before[2:] == after[2:], 'needless-draw',
                          'a noiseless channel consumed random numbers')
                sim.close(y, clean, 'memory-disturbed', f'stream {self.id}: noiseless chunk {self.pos} after noisy ones')
        sim.equal(c, keep, 'input-modified', f'stream {self.id}')
        if not (self.kind == 'channel' and quiet):
            p = float(np.mean(clean ** 2))
            if p > 1e-12:                   # a silent chunk has no power to be noisy against
                e = (np.asarray(y, dtype=float) - clean) / np.sqrt(p / 10 ** (self.snr / 10))
                self.noise.append(e)
            if not self.short:
                self.power(e, len(c))
                self.stationary(e, clean)
        self.out.append(np.array(y))
        self.pos += 1
        sim.log('noisy', self.id, self.kind, len(c), data=np.asarray(y))

    def power(self, e, n):
        """Noise power of one chunk relative to what the SNR asks for."""
        sim = self.sim
        p = float(np.mean(e ** 2))
        tol = Z * np.sqrt(2.0 / n) + 1.5 / n
        sim.check(abs(p - 1) <= tol, 'snr', f'stream {self.id} {self.kind}: noise power is {10 * np.log10(max(p, 1e-30)):.2f} dB off '
                                            f'the requested {self.snr} dB SNR over {n} samples')
        sim.check(abs(np.mean(e)) <= Z / np.sqrt(n), 'noise-mean', f'stream {self.id}: noise mean {np.mean(e):.4f} sigma over {n}')

    def stationary(self, e, clean):
        """The noise of a chunk has one power and does not follow the signal."""
        sim = self.sim
        n = len(e)
        for k, q in enumerate((e[:n // 2], e[n // 2:])):
            p = float(np.mean(q ** 2))
            sim.check(abs(p - 1) <= Z * np.sqrt(2.0 / len(q)) + 20.0 / len(q), 'not-stationary',
                      lambda: f'stream {self.id} {self.kind}: noise power of half {k} is {p:.3f} of the requested over {len(q)} samples')
        c = clean / np.sqrt(np.mean(clean ** 2))
        rho = float(np.mean(e * c))
        sim.check(abs(rho) <= Z / np.sqrt(n), 'noise-follows-signal', f'stream {self.id} {self.kind}: correlation {rho:.3f} over {n}')

    def finish(self, others):
        sim = self.sim
        if not self.noise:
            return
        e = np.concatenate(self.noise)
        n = len(e)
        sim.probe('statistics')
        if self.short:
            # the power of a chunk of m samples is estimated with a relative bias of up to 1/(m-1)
            for group in ([q for q in self.noise if len(q) >= 32], [q for q in self.noise if len(q) < 32]):
                if not group:
                    continue
                g = np.concatenate(group)
                bias = 1.0 / max(1, min(len(q) for q in group) - 1)
                tol = (Z + 1) * np.sqrt(2.0 / len(g)) * (1 + bias)
                p = float(np.mean(g ** 2))
                sim.check(1 - tol <= p <= 1 + bias + tol, 'snr',
                          lambda: f'stream {self.id} {self.kind}: noise power is {10 * np.log10(max(p, 1e-30)):.2f} dB off the requested '
                                  f'{self.snr} dB SNR over {len(group)} chunks of {[len(q) for q in group][:4]}... samples')
            odd = 0
            for i, p in enumerate(self.noise):
                for q in self.noise[max(0, i - 8):i]:
                    m = min(len(p), len(q))
                    if m >= 3:
                        c = abs(float(p[:m] @ q[:m])) / max(1e-300, float(np.linalg.norm(p[:m]) * np.linalg.norm(q[:m])))
                        odd += c >= 1 - 1e-8 and m < 5      # one coincidence of 3 samples proves nothing, three do
                        sim.check(odd < 3 and (c < 1 - 1e-7 or m < 5), 'repeated-noise', f'stream {self.id} {self.kind}: two chunks got the same {m} noise samples')
            return
        self.power(e, n)
        tails(sim, e, 'not-gaussian', f'stream {self.id} {self.kind}: noise')
        for lag in (1, 2, 3, 7):
            rho = float(np.mean(e[lag:] * e[:-lag]))
            sim.check(abs(rho) <= Z / np.sqrt(n - lag), 'coloured', f'stream {self.id}: noise correlation {rho:.3f} at lag {lag}')
        k = float(np.mean(e ** 4)) / float(np.mean(e ** 2)) ** 2 - 3
        lim = Z * np.sqrt(24.0 / n) + 0.02
        if n >= 2000:                               # the sample kurtosis is skewed to the right
            sim.check(-lim <= k <= 2 * lim, 'not-gaussian', f'stream {self.id}: excess kurtosis {k:.3f} over {n}')
        for i, p in enumerate(self.noise):
            for q in self.noise[:i]:
                self.fresh(p, q)
            for o in others:
                for q in ([] if o.short else o.noise):
                    self.fresh(p, q)

    def fresh(self, p, q):
        m = min(len(p), len(q))
        rho = float(np.mean(p[:m] * q[:m]))
        self.sim.check(abs(rho) <= Z / np.sqrt(m), 'repeated-noise', f'noise of two chunks is correlated: {rho:.3f} over {m}')


def tails(sim, e, kind, where):
    """Among n Gaussian values some are large: a cut below the level that n of them miss with probability 1e-10 is a violation."""
    q = float(ndtri((1 + 1e-10 ** (1.0 / len(e))) / 2))
    big = float(np.max(np.abs(e)))
    sim.check(big >= q, kind, lambda: f'{where}: largest of {len(e)} values is {big:.2f} sigma, expected beyond {q:.2f}')


class Jittered:
    """A stream through pulse_shape with random jitter; jitter moves a symbol's samples, never the memory."""

    def __init__(self, sim, sid):
        self.sim, self.id = sim, sid
        self.osr = sim.pick([4, 8, 16])
        self.span = sim.pick([1, 2, 4])
        self.pulse = sim.pick(['sinc', 'rcos', 'rrc'])
        self.beta = sim.pick([0.5, 0.3])
        self.sigma = sim.pick([0.02, 0.05, 0.1])
        r = sim.data_rng()
        self.chunks = []
        for k in range(sim.integer(1, 4)):
            n = sim.size(4, 120, 30)
            if k == 0 and sim.flip(0.1):
                n = sim.pick([600, 700, 2200])
                sim.probe('long_jitter')
            self.chunks.append((r.choice([-3.0, -1.0, 1.0, 3.0], n), sim.flip(0.25)))
        self.h = ref.pulse(self.pulse, self.osr, self.span, self.beta)
        self.pos, self.zi, self.out, self.tau = 0, None, [], []
        self.noise = []

    def state(self):
        return (self.pos, None if self.zi is None else np.array(self.zi), len(self.out), len(self.tau))

    def restore(self, s):
        self.pos, self.zi = s[0], None if s[1] is None else np.array(s[1])
        del self.out[s[2]:]
        del self.tau[s[3]:]

    def done(self):
        return self.pos >= len(self.chunks)

    def step(self):
        sim = self.sim
        c, quiet = self.chunks[self.pos]
        past = np.concatenate([q[0] for q in self.chunks[:self.pos + 1]])
        clean = ref.diffeq(self.h, [1.0], ref.upsampled(past, self.osr))[-len(c) * self.osr:]
        before = np.random.get_state()
        kw = {} if quiet else {'rj_sigma': self.sigma}
        y, self.zi = sim.call('pulse_shape', cdsp.channel.pulse_shape, c, osr=self.osr, span=self.span, pulse=self.pulse,
                              beta=self.beta, zi=self.zi, **kw)
        y = np.asarray(y, dtype=float)
        sim.check(y.shape == clean.shape, 'shape', f'{y.shape} instead of {clean.shape}')
        if quiet:
            after = np.random.get_state()
            sim.check(np.array_equal(before[1], after[1]) and before[2:] == after[2:], 'needless-draw',
                      'pulse shaping without jitter consumed random numbers')
            sim.close(y, clean, 'memory-disturbed', f'stream {self.id}: clean chunk {self.pos} after jittered ones', tol=1e-6)
            sim.probe('noiseless_chunk')
        else:
            sim.probe('jitter')
            self.tau.append(self.offsets(c, clean, y))
        self.out.append(y)
        self.pos += 1
        sim.log('jitter', self.id, len(c), data=y)

    def offsets(self, c, clean, y):
        """One time offset per symbol must explain all of its samples."""
        sim = self.sim
        t = np.arange(len(clean)) / self.osr
        s = CubicSpline(t, clean, bc_type='not-a-knot', extrapolate=True)
        d = s.derivative()
        tau = []
        for k in range(len(c)):
            tt = t[k * self.osr:(k + 1) * self.osr]
            yy = y[k * self.osr:(k + 1) * self.osr]
            best, val = None, None
            grid = np.linspace(-6.5, 6.5, 105) * self.sigma
            cost = np.sum((s(tt[None, :] + grid[:, None]) - yy) ** 2, axis=1)
            for g in np.argsort(cost)[:3]:
                u = float(grid[g])
                for _ in range(12):
                    j = d(tt + u)
                    den = float(j @ j)
                    if den < 1e-12:
                        break
                    u -= float(j @ (s(tt + u) - yy)) / den
                if not abs(u) <= 8 * self.sigma:
                    continue
                e = float(np.max(np.abs(s(tt + u) - yy)))
                if best is None or e < val:
                    best, val = u, e
            if best is None:
                best, val = 0.0, float(np.max(np.abs(s(tt) - yy)))
            sim.check(val <= 1e-5 * max(1.0, float(np.max(np.abs(clean)))), 'jitter-shape',
                      f'stream {self.id}: no single time offset within 8 sigma explains symbol {k} (residual {val:.2e})')
            tau.append(best)
        return np.array(tau)

    def finish(self, others):
        sim = self.sim
        if not self.tau:
            return
        t = np.concatenate(self.tau) / self.sigma
        n = len(t)
        if n >= 40:
            sim.probe('jitter_statistics')
            v = float(np.mean(t ** 2))
            sim.check(abs(v - 1) <= Z * np.sqrt(2.0 / n), 'jitter-sigma', f'jitter variance is {v:.3f} of the requested over {n} symbols')
            sim.check(abs(np.mean(t)) <= Z / np.sqrt(n), 'jitter-mean', f'jitter mean {np.mean(t):.3f} sigma over {n} symbols')
            tails(sim, t, 'jitter-tails', f'stream {self.id}: jitter')
            rho = float(np.mean(t[1:] * t[:-1]))
            sim.check(abs(rho) <= Z / np.sqrt(n - 1), 'jitter-coloured', f'jitter correlation {rho:.3f}')
        for i, p in enumerate(self.tau):
            for q in self.tau[:i]:
                m = min(len(p), len(q))
                if m >= 8:
                    sim.check(not np.allclose(p[:m], q[:m], atol=1e-6 * self.sigma), 'repeated-noise', 'jitter repeats between chunks')


def run(sim):
    streams = [sim.wpick([(3, Noisy), (1, Jittered)])(sim, k) for k in range(sim.integer(1, 3))]
    seed = sim.draw(1 << 30)
    order = []
    # first execution: seeded schedule with crashes; the generator state is part of every checkpoint
    np.random.seed(seed)
    ck = (np.random.get_state(), [s.state() for s in streams])
    crashes = sim.draw(3)
    while True:
        live = [s for s in streams if not s.done()]
        if not live:
            break
        s = live[sim.draw(len(live))]
        order.append(s.id)
        sim.steps += 1
        sim.now += 1 + sim.draw(4)
        s.step()
        if sim.flip(0.3):
            ck = (np.random.get_state(), [q.state() for q in streams])
            mark = len(order)
            sim.log('checkpoint', mark)
        elif crashes and sim.flip(0.2):
            crashes -= 1
            sim.fault('crash', len(order))
            np.random.seed(sim.draw(1 << 20))       # the restarted process starts with an unrelated generator
            lost = [[np.array(o) for o in q.out] for q in streams]
            np.random.set_state(ck[0])
            for q, st in zip(streams, ck[1]):
                q.restore(st)
            redo = []
            for sid in order[_mark(order, ck, streams):]:
                redo.append(sid)
                streams[sid].step()
            for q, was in zip(streams, lost):
                for i, o in enumerate(was):
                    sim.check(np.array_equal(q.out[i], o), 'not-reproducible',
                              f'stream {q.id} chunk {i} differs after resuming from the saved generator state and memories')
    for i, s in enumerate(streams):
        s.finish([o for o in streams[:i] if isinstance(o, Noisy)] if isinstance(s, Noisy) else [])
    # second execution from the same seed and order: bit-identical
    first = [[np.array(o) for o in s.out] for s in streams]
    for s in streams:
        s.restore((0, None, 0, 0))
    np.random.seed(seed)
    for sid in order:
        streams[sid].step()
    for s, was in zip(streams, first):
        for i, o in enumerate(was):
            sim.check(np.array_equal(s.out[i], o), 'not-reproducible', f'stream {s.id} chunk {i}: same seed, different output')
    # another seed: different noise
    for s in streams:
        s.restore((0, None, 0, 0))
    np.random.seed((seed + 1) % (1 << 30))
    for sid in order:
        streams[sid].step()
    for s, was in zip(streams, first):
        noisy = [not c[1] or (isinstance(s, Noisy) and s.kind == 'awgn') for c in s.chunks]
        for i, o in enumerate(was):
            if noisy[i] and np.any(o):      # a silent chunk stays silent
                sim.check(not np.array_equal(s.out[i], o), 'seed-ignored', f'stream {s.id} chunk {i} does not depend on the seed')


def _mark(order, ck, streams):
    """How many steps of `order` the checkpoint covers."""
    return sum(st[0] for st in ck[1])
