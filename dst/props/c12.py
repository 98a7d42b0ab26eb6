"""C12: clock recovery: every step is the documented one and the loop pulls in and stays after phase faults."""
import numpy as np

import CommDspy as cdsp
from dst import ref

BUDGET = {'quick': {'runs': 4000, 'wall': 240}, 'thorough': {'runs': 60000, 'wall': 1500}}
RULE = ('one run = 1-3 clock recovery loops on continuously shaped streams with phase jumps, drift, noise, amplitude changes, polarity '
        'swaps, glitches, lost chunks and stalls, then a quiet tail; non-trivial = at least one oracle check and one fault or probe; '
        'distinct = distinct event log')
REAL = ['rx.mueller_muller_step', 'channel.pulse_shape', 'tx.prbs_gen', 'tx.bin2symbol', 'tx.mapping']
STUB = ['sampler, phase accumulator, line and faults (simulated)']
ASSUMPTIONS = ['pull-in is required for symmetric pulses, chunks of at least 500 symbols, noise up to 5% of the level distance and phase '
               'errors up to half a symbol', 'a step is not judged when the difference equals the tolerance up to rounding and the numbers are not '
               'exact']
REQUIRED_PROBES = ['phase_jump', 'drift', 'noise', 'amplitude', 'polarity_swap', 'glitch', 'chunk_lost', 'stall', 'weights', 'equal_weights', 'dead_zone',
                   'late', 'early', 'locked', 'short_chunk', 'random_chunk', 'int_chunk', 'quantised_lock', 'long_chunk', 'odd_levels',
                   'at_tolerance', 'scaled_line']


def coefs(sig, rf):
    n = len(rf)
    pre = sum(float(rf[t + 1]) * float(sig[t]) for t in range(n - 1)) / (n - 1)
    post = sum(float(rf[t]) * float(sig[t + 1]) for t in range(n - 1)) / (n - 1)
    return pre, post


def ask(sim, sig, rf, pw=None, qw=None, tol=None, where=''):
    kw = {}
    if pw is not None:
        kw['pre_weight'] = pw
    if qw is not None:
        kw['post_weight'] = qw
    if tol is not None:
        kw['tol'] = tol
    a, b = np.array(sig), np.array(rf)
    got = sim.call('mueller_muller_step', cdsp.rx.mueller_muller_step, sig, rf, **kw)
    sim.equal(sig, a, 'input-modified', where)
    sim.equal(rf, b, 'input-modified', where)
    pre, post = coefs(sig, rf)
    d = post * (1 if qw is None else qw) - pre * (1 if pw is None else pw)
    t = 1e-3 if tol is None else tol
    sim.check(np.ndim(got) == 0 and got in (-1, 0, 1), 'step-range', f'{where}: step {got!r}')
    if abs(abs(d) - t) > 1e-9 * max(min(1.0, 10 * float(np.max(np.abs(sig)) * np.max(np.abs(rf)))), abs(d), t):
        want = 0 if abs(d) < t else (1 if d > 0 else -1)
        sim.check(int(got) == want, 'step', f'{where}: step {int(got)} instead of {want} (pre {pre:.5f}, post {post:.5f}, tol {t})')
        if want == 0:
            sim.probe('dead_zone')
    return int(got)


def bare(sim):
    """Steps on arbitrary chunks, no loop: the detector has no memory between calls."""
    r = sim.data_rng()
    for _ in range(sim.integer(1, 6)):
        n = sim.pick([2, 3, 5, 17, 60, 60, 3, 3000])
        if n > 1000:
            n += sim.draw(6000)
            sim.probe('long_chunk')
        sim.probe('short_chunk' if n < 10 else 'random_chunk')
        if sim.flip(0.4):
            sig, rf = r.randint(-3, 4, n), r.choice([-3, -1, 1, 3], n)
            sim.probe('int_chunk')
        else:
            lv = sim.pick([[-1.0, 1.0], [-1.34, -0.45, 0.45, 1.34], [0.0, 1.0], [-0.3, 0.3], [-2.6, -0.7, 0.9, 2.4]])
            sig, rf = r.uniform(-2, 2, n), r.choice(lv, n)
            if len(lv) == 4 or lv[0] == -0.3:
                sim.probe('odd_levels')
        pw, qw, tol = sim.pick([None, 1, 0.5, 2, 0]), sim.pick([None, 1, 0.25, 3]), sim.pick([None, 1e-3, 0.3, 1.0, 0])
        if sim.flip(0.12):                  # a weak line and a tolerance to match, or a strong one
            g = sim.pick([1e-3, 1e-6, 1e-8, 1e4])
            sig, tol = sig * g, sim.pick([1e-3, 0.3, 0]) * g
            sim.probe('scaled_line')
        if sim.flip(0.15):
            pw = qw = sim.pick([0.5, 2, 0.1, 10])
            sim.probe('equal_weights')
        if pw is not None or qw is not None:
            sim.probe('weights')
        s = ask(sim, sig, rf, pw, qw, tol, f'chunk of {n}')
        if sim.flip(0.5):
            # a step does not depend on the calls before it, and swaps sign with the signal: the oracle of the negated chunk says so
            # wherever the difference is not within rounding of the tolerance
            ask(sim, -sig, rf, pw, qw, tol, f'negated chunk of {n}')
        sim.now += 1
        sim.log('bare', n, s, data=sig)
    if sim.flip(0.3):
        edge(sim, r)


def edge(sim, r):
    """Exact numbers, a difference exactly at the tolerance: not below it, so the loop has to step."""
    n = sim.pick([2, 3, 5, 9, 17])
    rf = r.choice([-3, -1, 1, 3], n).astype(sim.pick([int, float]))
    sig = r.randint(-64, 65, n) / 16.0
    pre, post = coefs(sig, rf)
    if pre == post:
        return
    got = sim.call('mueller_muller_step', cdsp.rx.mueller_muller_step, sig, rf, tol=abs(post - pre))
    sim.check(int(got) == (1 if post > pre else -1), 'step', f'step {int(got)} for a difference of {post - pre} and tolerance {abs(post - pre)}')
    sim.probe('at_tolerance')


class Loop:
    def __init__(self, sim, lid):
        self.sim, self.id = sim, lid
        r = self.r = sim.data_rng()
        con = sim.pick(['NRZ', 'PAM4'])
        self.osr = sim.pick([16, 8, 32])
        kind = sim.pick(['sinc', 'rcos', 'rrc'])
        span, beta = sim.pick([8, 4]), sim.pick([0.5, 0.35, 0.8])
        deg = 9
        self.n = 511
        poly = np.zeros(deg)
        poly[[4, 8]] = 1
        bits, _ = sim.call('prbs_gen', cdsp.tx.prbs_gen, poly, np.ones(deg), self.n * (1 if con == 'NRZ' else 2))
        lv = {'NRZ': np.array([-1.0, 1.0]), 'PAM4': np.array([-3.0, -1.0, 1.0, 3.0])}[con]
        if con == 'NRZ':
            sym = np.asarray(bits).astype(int)
        else:
            sym = np.asarray(bits).astype(int).reshape(-1, 2).dot([2, 1])
        one = lv[sym]
        self.period = one
        self.scale = float(np.mean(one ** 2))
        shaped = self.shape(np.tile(one, 3), span, kind, beta)
        h = ref.pulse(kind, self.osr, span, beta)
        d = int(np.argmax(np.abs(h)))
        # steady-state middle period, sampled at any phase: wave[k*osr + off] with k over one period, cyclic
        mid = shaped[self.n * self.osr + d - 2 * self.osr: 2 * self.n * self.osr + d + 2 * self.osr]
        self.mid = mid                          # index 2*osr + k*osr + off
        self.off = 0                            # receiver phase minus line phase, in samples
        self.gain, self.pol, self.noise = 1.0, 1, 0.0
        self.tol = sim.pick([None, 1e-3, 5e-3])
        sim.log('loop', lid, con, self.osr, kind, span)

    def shape(self, x, span, kind, beta):
        sim = self.sim
        f = cdsp.channel.pulse_shape
        out, mem, pos = [], None, 0
        while pos < len(x):
            n = min(len(x) - pos, sim.pick([len(x), 100, 511, 37]))
            kw = {} if mem is None else {'zi': mem}
            y, mem = sim.call('pulse_shape', f, x[pos:pos + n], osr=self.osr, span=span, pulse=kind, beta=beta, **kw)
            out.append(y)
            pos += n
        return np.concatenate(out)

    def sample(self, glitch=False):
        idx = 2 * self.osr + np.arange(self.n) * self.osr + self.off
        s = self.mid[idx] * self.gain * self.pol
        if self.noise:
            s = s + self.noise * self.r.uniform(-1, 1, len(s))
        if glitch:
            i = self.r.randint(0, len(s) - 5)
            s[i:i + 5] = self.r.uniform(-8, 8, 5)
        return s

    def chunk(self, k, faulty):
        sim = self.sim
        lim = self.osr // 2
        glitch = False
        if faulty:
            if sim.flip(0.15):
                self.off = sim.integer(0, 2 * lim) - lim
                sim.fault('phase_jump', self.id, k, self.off)
            if sim.flip(0.15):
                self.off = int(np.clip(self.off + sim.pick([-1, 1, 2]), -lim, lim))
                sim.fault('drift', self.id, k, self.off)
            if sim.flip(0.08):
                self.noise = sim.pick([0.0, 0.05, 0.5])
                sim.fault('noise', self.id, k, self.noise)
            if sim.flip(0.06):
                self.gain = sim.pick([1.0, 0.5, 1.7])
                sim.fault('amplitude', self.id, k)
            if sim.flip(0.05):
                self.pol = -self.pol
                sim.fault('polarity_swap', self.id, k)
            if sim.flip(0.05):
                glitch = True
                sim.fault('glitch', self.id, k)
            if sim.flip(0.05):
                sim.fault('chunk_lost', self.id, k)
                return
        s = self.sample(glitch)
        if sim.flip(0.2) and not glitch:
            sim.probe('quantised_lock')
            s = np.round(s * 64) / 64
        w = f'loop {self.id} chunk {k} offset {self.off}/{self.osr}'
        st = ask(sim, s, self.period, tol=self.tol, where=w)
        if self.off:
            sim.probe('late' if self.off > 0 else 'early')
        calm = self.pol == 1 and self.noise <= 0.05 and not glitch
        if calm and abs(self.off) > 2 * max(1, self.osr // 16):
            sim.check(st == (-1 if self.off > 0 else 1), 'wrong-way', f'{w}: step {st} moves away from the symmetric sampling point')
        if faulty and sim.flip(0.06):
            sim.fault('stall', self.id, k)
        else:
            # the polarity of the line is resolved by the data path, not by the loop
            self.off = int(np.clip(self.off + st * self.pol, -lim, lim))
        sim.log('step', self.id, k, st, self.off)

    def run(self):
        sim = self.sim
        faulty = sim.integer(2, 14)
        for k in range(faulty):
            sim.now += 1
            self.chunk(k, True)
        if sim.flip(0.6):
            self.pol, self.noise, self.gain = 1, min(self.noise, 0.05), 1.0
            need = abs(self.off) + 2
            worst = 0
            for k in range(need + 6):
                sim.now += 1
                self.chunk(faulty + k, False)
                if k >= need:
                    worst = max(worst, abs(self.off))
            sim.check(worst <= 2 * max(1, self.osr // 16), 'no-lock', f'loop {self.id}: {worst} of {self.osr} samples off {need} chunks after '
                                                                      f'the last fault')
            sim.probe('locked')


def run(sim):
    for i in range(sim.integer(1, 3)):
        if sim.flip(0.6):
            Loop(sim, i).run()
        else:
            bare(sim)
