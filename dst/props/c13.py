"""C13: channel and equaliser estimation from captures that start at any instant of a running PRBS line."""
import numpy as np

import CommDspy as cdsp
from dst import ref

BUDGET = {'quick': {'runs': 5000, 'wall': 240}, 'thorough': {'runs': 60000, 'wall': 1500}}
RULE = ('one run = a lab session on 1-2 running PRBS lines: captures triggered at random instants and lengths, with gain and polarity '
        'changes, noise, channel changes, garbage captures and reused buffers between them; the estimated equaliser then runs on the live '
        'line; non-trivial = at least one oracle check and one fault or probe; distinct = distinct event log')
REAL = ['channel_estimation_prbs', 'equalization_estimation_prbs', 'equalization_estimation', 'rx.lock_pattern_to_signal', 'rx.ffe_dfe', 'rx.slicer',
        'channel.awgn_channel', 'misc.least_squares']
STUB = ['transmitter pattern (reference model), trigger, capture memory, noise (simulated)']
ASSUMPTIONS = ['the capture correlates best with the pattern at its true phase (checked by the reference, otherwise discarded)',
               'the channel estimate is claimed up to one positive gain', 'captures hold at least one pattern period for the channel '
               'estimate; equaliser estimates from shorter captures are claimed for channels the equaliser inverts exactly']
REQUIRED_PROBES = ['trigger', 'gain_change', 'polarity_swap', 'noise', 'channel_change', 'garbage_capture', 'buffer_reuse',
                   'channel_estimate', 'channel_normalized', 'equalizer_ffe', 'equalizer_dfe', 'dfe_longer_than_ffe', 'dfe_only',
                   'equalizer_normalized', 'short_capture', 'long_capture', 'live_line', 'gray', 'bit_order_inv', 'pn_inv_precoding',
                   'ridge', 'lasso', 'full_scale', 'ook', 'exact_inverse', 'window_mismatch',
                   'long_pattern', 'many_periods', 'default_channel_window', 'default_equalizer_taps', 'known_reference', 'regularised_ook',
                   'far_echo', 'many_feedback_taps']

PRBS = {7: cdsp.PrbsEnum.PRBS7, 9: cdsp.PrbsEnum.PRBS9, 11: cdsp.PrbsEnum.PRBS11}
CYC = {d: ref.prbs_cycle(d) for d in PRBS}


class Line:
    def __init__(self, sim, lid):
        self.sim, self.id = sim, lid
        self.r = sim.data_rng()
        self.deg = sim.wpick([(20, 7), (20, 9), (3, 11)])
        if self.deg == 11:
            sim.probe('long_pattern')
        self.P = (1 << self.deg) - 1
        self.con = sim.pick(['NRZ', 'PAM4', 'NRZ', 'PAM4', 'OOK'])
        self.m = 4 if self.con == 'PAM4' else 2
        f = lambda p, name: bool(sim.flip(p)) and (sim.probe(name) or True)     # noqa: E731
        self.gray = f(0.4, 'gray')
        self.bo = f(0.3, 'bit_order_inv')
        self.pre_inv = f(0.3, 'pn_inv_precoding')
        self.fs = f(0.4, 'full_scale')
        if self.con == 'OOK':
            sim.probe('ook')
        self.pol = 1
        self.levels = ref.levels(self.con, self.fs)
        bits = np.tile(CYC[self.deg], 2)
        out = []
        if self.m == 2:
            sym = [int(b) ^ int(self.pre_inv) for b in CYC[self.deg]]
        else:
            sym = []
            for k in range(self.P):
                g = [int(bits[2 * k]), int(bits[2 * k + 1])]
                if self.bo:
                    g = g[::-1]
                if self.pre_inv:
                    g = [1 - b for b in g]
                sym.append(g[0] + 2 * g[1])
        for s in sym:
            out.append(self.levels[ref.gray(s) if self.gray else s])
        self.pattern = np.array(out)            # one period, non inverted polarity
        self.phase = sim.draw(self.P)
        self.gain, self.noise = 1.0, 0.0
        self.zi = None
        self.new_channel()
        self.advance(40)
        sim.log('line', lid, self.con, self.deg, self.gray, self.fs)

    def new_channel(self):
        room = 0.35 if self.con == 'PAM4' else 0.6
        self.pre = self.sim.integer(0, 2)
        post = self.sim.integer(0, 4)
        far = self.sim.flip(0.1)
        if far:                                 # a reflection far behind the cursor
            post = self.sim.integer(8, 18)
            self.sim.probe('far_echo')
        h = self.r.uniform(-1, 1, self.pre + post)
        if far:
            h[self.pre + 2:-1] *= 0.05
        if len(h):
            h = h / max(1e-3, np.sum(np.abs(h))) * room * self.r.uniform(0.1, 1)
        self.h = np.concatenate([h[:self.pre], [1.0], h[self.pre:]])
        self.zi = None                          # a new cable: start from rest, then let it settle

    def advance(self, n, noise=0.0):
        """n received samples of the running line."""
        idx = (self.phase + np.arange(n)) % self.P
        x = self.pol * self.pattern[idx]
        self.phase = (self.phase + n) % self.P
        kw = {} if self.zi is None else {'zi': self.zi}
        y, self.zi = self.sim.call('awgn_channel', cdsp.channel.awgn_channel, x, self.h, np.array([1.0]), **kw)
        y = self.gain * np.asarray(y, float)
        if noise:
            y = y + noise * self.r.uniform(-1, 1, n)
        return y

    def truth(self):
        """Symbol whose main cursor is the next sample: x(n - pre); a periodic sequence from the current instant."""
        return self.pol * self.pattern[(self.phase - self.pre + np.arange(self.P)) % self.P]

    def locks(self, y, X):
        """True when the pattern's best correlation with the capture is at the true phase, with margin."""
        full = 2 * self.P if self.m == 2 else self.P
        k = min(full, len(y))
        w = np.zeros(self.P)
        for i in range(0, k, self.P):
            s = y[i:min(i + self.P, k)]
            w[:len(s)] += s
        c = np.real(np.fft.ifft(np.fft.fft(X) * np.conj(np.fft.fft(w))))
        rest = np.max(c[1:])
        return c[0] > 0 and c[0] - rest > 0.02 * abs(c[0])


def cols(v, lags):
    return np.stack([np.roll(v, k) for k in lags], axis=1)


def channel(sim, L, y, X, where):
    npre, npost = sim.integer(0, 4), sim.integer(0, 8)
    if L.deg == 11 and sim.flip(0.15):
        npre, npost = 19, 500                           # the documented defaults: a long channel
        sim.probe('default_channel_window')
    if npre != L.pre or npost != len(L.h) - L.pre - 1:
        sim.probe('window_mismatch')
    reps = len(y) // L.P
    ym = np.mean(y[:reps * L.P].reshape(-1, L.P), axis=0)
    A = cols(X, range(-npre, npost + 1))
    h, _, rank, sv = np.linalg.lstsq(A, ym, rcond=None)
    if rank < A.shape[1] or sv[-1] < 1e-6 * sv[0] or np.argmax(h) != npre and np.max(h) <= 0:
        return
    keep = y.copy()
    args = dict(prbs_full_scale=L.fs, channel_postcursor=npost, channel_precursor=npre, bit_order_inv=L.bo,
                pn_inv_precoding=L.pre_inv, gray_coding=L.gray, pn_inv_postcoding=L.pol < 0)
    est, err = sim.call('channel_estimation_prbs', cdsp.channel_estimation_prbs, PRBS[L.deg], y, cdsp.ConstellationEnum[L.con], **args)
    sim.equal(y, keep, 'input-modified', where)
    est = np.asarray(est, float)
    sim.probe('channel_estimate')
    what = f'{where}: channel estimate, {npre} pre- and {npost} postcursors'
    sim.check(est.shape == h.shape, 'shape', f'{what}: shape {est.shape}')
    g = float(np.dot(est, h) / np.dot(h, h))
    sim.check(g > 0, 'channel-sign', f'{what}: inverted or zero ({np.round(est[:8], 3)} for {np.round(h[:8], 3)})')
    sim.close(est / g, h, 'channel-taps', what, tol=1e-6)
    res = float(np.sum((A @ h - ym) ** 2)) * g * g
    sim.check(np.size(err) == 1, 'residual', f'{what}: residual {err!r}')
    sim.close(np.reshape(err, -1)[0], res, 'residual', f'{what}: sum of squared residuals', tol=1e-6, scale=max(res, 1e-6 * g * g))
    nrm, _ = sim.call('channel_estimation_prbs', cdsp.channel_estimation_prbs, PRBS[L.deg], y, cdsp.ConstellationEnum[L.con],
                      normalize=True, **args)
    sim.probe('channel_normalized')
    sim.close(nrm, h / np.max(h), 'channel-normalized', what, tol=1e-6)


def equaliser(sim, L, y, X, where, noisy):
    post, pre, nd = sim.integer(0, 6), sim.integer(0, 3), sim.pick([0, 2, 1, 4, 6])
    if sim.flip(0.5 if len(L.h) > 8 else 0.05):
        nd = sim.integer(9, 20)
        sim.probe('many_feedback_taps')
    if L.deg > 7 and sim.flip(0.08):
        post, pre = 23, 4                               # the documented defaults
        sim.probe('default_equalizer_taps')
    sim.probe('equalizer_dfe' if nd else 'equalizer_ffe')
    if nd > post:
        sim.probe('dfe_longer_than_ffe')
    if nd and post + pre == 0:
        sim.probe('dfe_only')
    kw = dict(ffe_postcursor=post, ffe_precursor=pre, dfe_taps=nd, prbs_full_scale=L.fs, bit_order_inv=L.bo, pn_inv_precoding=L.pre_inv,
              gray_coded=L.gray, pn_inv_postmapping=L.pol < 0)
    reg, lam = sim.wpick([(8, None), (2, 'ridge'), (1, 'lasso')]), 1e-5
    if reg == 'lasso' and L.gain < 1:
        reg = None                                      # it weighs large taps
    if reg:
        if reg == 'ridge':
            lam = sim.pick([1e-5, 1.0, 30.0])
        kw.update(regularization=reg, reg_lambda=lam)
        sim.probe(reg)
        if L.con == 'OOK':
            sim.probe('regularised_ook')
    keep = y.copy()
    con = cdsp.ConstellationEnum[L.con]
    call = lambda **k: sim.call('equalization_estimation_prbs', cdsp.equalization_estimation_prbs, PRBS[L.deg], y, con, **kw, **k)  # noqa
    if len(y) >= L.P and sim.flip(0.15):                # training on a known sequence instead of locking to a PRBS
        sim.probe('known_reference')
        kn = {k: v for k, v in kw.items() if k in ('ffe_postcursor', 'ffe_precursor', 'dfe_taps', 'regularization', 'reg_lambda')}
        known, mean = np.roll(X, -post), np.mean(y[:len(y) // L.P * L.P].reshape(-1, L.P), axis=0)
        call = lambda **k: sim.call('equalization_estimation', cdsp.equalization_estimation, known, mean, **kn, **k)  # noqa
    ffe, dfe, gain, err, mse = call()
    sim.equal(y, keep, 'input-modified', where)
    what = f'{where}: equaliser, {post} post- and {pre} precursors, {nd} feedback taps{", " + reg if reg else ""}'
    ffe = np.asarray(ffe, float)
    sim.check(ffe.shape == (pre + 1 + post,), 'shape', f'{what}: FFE shape {ffe.shape}')
    sim.check((dfe is None) if nd == 0 else np.shape(dfe) == (nd,), 'shape', f'{what}: DFE {np.shape(dfe)}')
    sim.check(gain == 1, 'gain', f'{what}: gain {gain} without normalisation')
    d = np.zeros(0) if nd == 0 else np.asarray(dfe, float)
    if sim.flip(0.4) and float(np.max(ffe)) > 1e-3:
        f2, d2, g2, _, _ = call(normalize=True)
        sim.probe('equalizer_normalized')
        sim.close(np.max(f2), 1.0, 'normalized', f'{what}: peak of the normalised FFE', tol=1e-9)
        sim.close(np.asarray(f2) * g2, ffe, 'normalized', f'{what}: FFE', tol=1e-6)
        if nd:
            sim.close(np.asarray(d2) * g2, d, 'normalized', f'{what}: DFE', tol=1e-6, scale=max(1.0, float(np.max(np.abs(d)))))
    # quality over one whole period
    power = float(np.mean(X ** 2))
    exact = not noisy and L.pre == 0 and L.gain == 1.0 and nd >= len(L.h) - 1 and not reg
    out = None
    if len(y) >= L.P:
        reps = len(y) // L.P
        ym = np.mean(y[:reps * L.P].reshape(-1, L.P), axis=0)
        A = np.concatenate([cols(ym, range(-pre, post + 1)), -cols(X, range(1, nd + 1))] if nd else [cols(ym, range(-pre, post + 1))], axis=1)
        best, _, rank, sv = np.linalg.lstsq(A, X, rcond=None)
        opt = float(np.mean((A @ best - X) ** 2))
        got = float(np.mean((A @ np.concatenate([ffe, d]) - X) ** 2))
        if reg == 'ridge':                              # residual plus penalty, over the period
            w = np.linalg.solve(A.T @ A + lam * np.eye(A.shape[1]), A.T @ X)
            cost = lambda v: float(np.sum((A @ v - X) ** 2) + lam * np.sum(v ** 2))  # noqa: E731
            now, low = cost(np.concatenate([ffe, d])), cost(w)
            sim.check(now <= 1.2 * low + 1e-6 * power * L.P, 'equalizer-quality', f'{what}: penalised cost {now:.4g}, {low:.4g} is possible')
        else:
            lim = 2 * opt + (1e-9 if not reg else 2e-2) * power
            sim.check(got <= lim, 'equalizer-quality', f'{what}: MSE {got:.3g} over a period, {opt:.3g} is possible')
        if got > 1e-8 * power and got < 0.1 * power and not reg and L.P >= 4 * (post + pre + nd + 1):
            db = 10 * np.log10(got / power)
            sim.check(abs(float(mse) - db) < 3.0, 'equalizer-mse', f'{what}: reports {float(mse):.2f} dB, measured {db:.2f} dB')
        if rank == A.shape[1] and sv[-1] > 1e-4 * sv[0] and opt < 1e-22 * power and not reg:
            sim.probe('exact_inverse')
            sim.close(np.concatenate([ffe, d]), best, 'equalizer-taps', what, tol=1e-6, scale=max(1.0, float(np.max(np.abs(best)))))
        worst = float(np.max(np.abs(A @ best - X)))
        half = min(q - p for p, q in zip(L.levels, L.levels[1:])) / 2
        if worst < 0.3 * half and opt * 2 < (0.25 * half) ** 2 / 4:
            out = half
    elif exact and len(y) > 6 * (post + pre + nd + 4):
        out = min(q - p for p, q in zip(L.levels, L.levels[1:])) / 2
        sim.probe('short_capture')
    if out is None or L.pol < 0 or reg:
        return
    live(sim, L, ffe, d, post, pre, nd, out, what)


def live(sim, L, ffe, d, post, pre, nd, half, what):
    """The estimated equaliser on the running line, chunk by chunk."""
    sim.probe('live_line')
    zf, zd = np.zeros(len(ffe)), np.zeros(nd)
    if nd:                                              # start the feedback with the true past decisions, as after training
        t = L.truth()
        zd = np.array([t[(-pre - 1 - j) % L.P] for j in range(nd)])
    past = []
    for k in range(sim.integer(1, 3)):
        n = sim.pick([30, 7, 80])
        X = L.truth()
        y = L.advance(n)
        kw = dict(levels=np.array(L.levels))
        if nd:
            kw.update(dfe_taps=d, zi_dfe=zd)
        if len(ffe) > 1:
            kw['zi_ffe'] = zf
        else:
            kw.pop('zi_ffe', None)
        if k == 0 and len(ffe) > 1:
            # memory from the samples the receiver saw before
            hist = np.convolve(np.tile(L.pol * L.pattern, 3), L.h)[:3 * L.P] * L.gain
            p0 = (L.phase - n) % L.P + 2 * L.P
            kw['zi_ffe'] = hist[p0 - len(ffe):p0]
        res = sim.call('ffe_dfe', cdsp.rx.ffe_dfe, y, ffe, **kw)
        if len(ffe) == 1 and not nd:
            s = res
        elif not nd:
            s, zf = res
        elif len(ffe) == 1:
            s, zd = res
        else:
            s, zf, zd = res
        want = np.array([X[(i - pre) % L.P] for i in range(n)])
        dec = sim.call('slicer', cdsp.rx.slicer, np.asarray(s), np.array(L.levels))
        bad = np.flatnonzero(np.abs(np.asarray(dec) - want) > 1e-6)
        sim.check(len(bad) == 0, 'equalizer-live', f'{what}: {len(bad)} of {n} wrong decisions on the live line')
        sim.now += n
        sim.log('live', L.id, n, data=np.round(np.asarray(s, float), 6))


def run(sim):
    lines = [Line(sim, i) for i in range(sim.integer(1, 2))]
    buf = np.zeros(10000)
    reuse = sim.flip(0.4)
    for step in range(sim.integer(1, 5)):
        L = sim.pick(lines)
        if sim.flip(0.25):
            L.gain = sim.pick([1.0, 0.5, 2.0, 0.03])
            sim.fault('gain_change', L.id, L.gain)
        if sim.flip(0.2) and L.con != 'OOK':
            L.pol = -L.pol
            L.zi = None
            sim.fault('polarity_swap', L.id)
        if sim.flip(0.2):
            L.new_channel()
            sim.fault('channel_change', L.id)
        noise = 0.0
        if sim.flip(0.3):
            noise = sim.pick([0.01, 0.05]) * L.gain
            sim.fault('noise', L.id)
        if sim.flip(0.15):
            junk = L.r.uniform(-1, 1, L.P + sim.draw(20))
            try:                                        # nothing to lock to: any answer or refusal, but no after-effects
                cdsp.channel_estimation_prbs(PRBS[L.deg], junk, cdsp.ConstellationEnum[L.con], channel_postcursor=3, channel_precursor=1)
                cdsp.equalization_estimation_prbs(PRBS[L.deg], junk, cdsp.ConstellationEnum[L.con], ffe_postcursor=3, ffe_precursor=1)
            except Exception:                           # noqa: BLE001
                pass
            sim.fault('garbage_capture', L.id)
        L.advance(len(L.h) + 12)                        # settle
        wait = sim.draw(2 * L.P)
        if wait:
            L.advance(wait)
        sim.fault('trigger', L.id, wait)
        short = sim.flip(0.2)
        n = sim.integer(L.P // 2, L.P - 1) if short else L.P * sim.pick([1, 2, 3]) + sim.draw(L.P)
        if L.deg == 7 and not short and sim.draw(12) == 11:
            n += L.P * sim.integer(8, 40)
            sim.probe('many_periods')
        if n >= 3 * L.P:
            sim.probe('long_capture')
        X = L.truth()
        y = L.advance(n, noise)
        sim.now += wait + n
        if not L.locks(y, X):
            sim.log('ambiguous-phase', L.id)
            continue
        if reuse:
            buf[:] = 7.0
            buf[:n] = y
            y = buf[:n]
            sim.probe('buffer_reuse')
        where = f'line {L.id} {L.con} PRBS{L.deg} capture {step} ({n} samples)'
        if not short and sim.flip(0.6):
            channel(sim, L, y, X, where)
        else:
            equaliser(sim, L, y, X, where, noise > 0)
        sim.log('capture', L.id, n, data=np.round(y, 9))
