"""C11: the adaptive receiver: every gradient is the documented one, and the loop recovers once faults stop."""
import numpy as np

import CommDspy as cdsp
from dst import ref

BUDGET = {'quick': {'runs': 3000, 'wall': 240}, 'thorough': {'runs': 40000, 'wall': 1500}}
RULE = ('one run = 1-2 adaptive receivers fed chunk by chunk over channels that step, lose gain, glitch, drop and repeat chunks '
        'while the receiver stalls, crashes and restarts from checkpoints, then a quiet tail; non-trivial = at least one oracle '
        'check and one fault or probe; distinct = distinct event log')
REAL = ['rx.ddlms_grad', 'rx.soft_ddlms_grad', 'rx.ffe_dfe', 'rx.slicer']
STUB = ['channel, chunk transport, tap update rule and checkpoint store (simulated)']
ASSUMPTIONS = ['tap offsets are smaller than the chunk', 'progress is required of runs in which the same loop driven by the reference '
               'gradients converges', 'soft decisions are judged while the mixture density does not underflow']
REQUIRED_PROBES = ['channel_step', 'gain_drop', 'glitch', 'chunk_lost', 'chunk_dup', 'crash', 'stall', 'training', 'decision_directed',
                   'soft', 'ffe_only', 'dfe_only', 'both', 'precursor_idx', 'loss_only', 'unordered_taps', 'converged', 'int_samples', 'long_chunk',
                   'wide_taps']

LEVELS = {'NRZ': [-1.0, 1.0], 'PAM4': [-3.0, -1.0, 1.0, 3.0], 'PAM4FS': [-1.3416407864998738, -0.4472135954999579, 0.4472135954999579,
                                                                          1.3416407864998738], 'OOK': [0.0, 1.0]}


def grads(kind, x, y, levels, ffe_idx, dfe_idx, given, sigma):
    """The documented loss and derivatives, term by term."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    r = np.array([ref.nearest(v, sorted(levels)) for v in y]) if given is None else np.asarray(given, float)
    n = len(y)
    if kind == 'hard':
        e = y - r
        loss = float(np.mean(e * e))
    else:
        e, ll = np.zeros(n), 0.0
        for t in range(n):
            w = [np.exp(-(y[t] - m) ** 2 / (2 * sigma ** 2)) for m in levels]
            f = sum(w) / len(levels) / np.sqrt(2 * np.pi * sigma ** 2)
            e[t] = sum((y[t] - m) / sigma ** 2 * q for m, q in zip(levels, w)) / f
            ll -= np.log(f)
        loss = ll / n
    gf = [0.5 * np.mean([e[t] * x[t - i] for t in range(n) if 0 <= t - i < n]) for i in ffe_idx]
    gd = [-0.5 * np.mean([e[t] * r[t - j] for t in range(n) if t - j >= 0]) for j in dfe_idx]
    return loss, np.array(gf), np.array(gd), e


def ask(sim, kind, x, y, levels, ffe_idx, dfe_idx, given, sigma, where):
    """One real gradient call, compared with the documented one; returns the real result in canonical form."""
    levels = np.asarray(levels, float)
    kw = {}
    if len(ffe_idx):
        kw['ffe_tap_idx'] = np.asarray(ffe_idx)
    if len(dfe_idx):
        kw['dfe_tap_idx'] = np.asarray(dfe_idx)
    if given is not None:
        kw['reference_vec'] = given
    keep = [np.array(v) for v in (x, y, levels)]
    if kind == 'hard':
        out = sim.call('ddlms_grad', cdsp.rx.ddlms_grad, x, y, levels, **kw)
    else:
        if sigma != 1:
            kw['sigma'] = sigma
        out = sim.call('soft_ddlms_grad', cdsp.rx.soft_ddlms_grad, x, y, levels, **kw)
        sim.probe('soft')
    for a, b in zip((x, y, levels), keep):
        sim.equal(a, b, 'input-modified', where)
    want_n = 1 + (len(ffe_idx) > 0) + (len(dfe_idx) > 0)
    got = (out,) if want_n == 1 else out
    sim.check(isinstance(got, tuple) and len(got) == want_n, 'result-layout',
              f'{where}: {type(out).__name__} for {len(ffe_idx)} FFE and {len(dfe_idx)} DFE taps')
    loss, gf, gd, e = grads(kind, x, y, levels, ffe_idx, dfe_idx, given, sigma)
    scale = max(1e-9, float(np.max(np.abs(e))) * max(1.0, float(np.max(np.abs(x))), float(np.max(np.abs(y)))))
    sim.close(got[0], loss, 'loss', f'{where}: loss', tol=1e-8, scale=max(abs(loss), 1e-9))
    rest = list(got[1:])
    rf = rest.pop(0) if len(ffe_idx) else np.zeros(0)
    rd = rest.pop(0) if len(dfe_idx) else np.zeros(0)
    sim.close(rf, gf, 'ffe-gradient', f'{where}: FFE gradient, taps {list(ffe_idx)}, chunk {len(y)}', tol=1e-8, scale=scale)
    sim.close(rd, gd, 'dfe-gradient', f'{where}: DFE gradient, taps {list(dfe_idx)}, chunk {len(y)}', tol=1e-8, scale=scale)
    return np.asarray(rf, float), np.asarray(rd, float), float(got[0]), gf, gd


class Receiver:
    """Taps, memories and the update rule; `real` chooses library calls or the reference."""

    def __init__(self, sim, cfg):
        self.sim, self.c = sim, cfg
        self.ffe = np.zeros(cfg['nf'])
        self.ffe[cfg['pre']] = 1.0
        self.dfe = np.zeros(cfg['nd'])
        self.hist = np.zeros(cfg['nf'] - 1)          # past samples (reference view of the memories)
        self.dec = np.zeros(cfg['nd'])
        self.zf = np.zeros(cfg['nf'])
        self.zd = np.zeros(cfg['nd'])

    def snap(self):
        return [np.array(v) for v in (self.ffe, self.dfe, self.hist, self.dec, self.zf, self.zd)]

    def load(self, s):
        self.ffe, self.dfe, self.hist, self.dec, self.zf, self.zd = [np.array(v) for v in s]

    def equalise_ref(self, x):
        buf = np.concatenate([self.hist, np.asarray(x, float)])
        n0 = len(self.hist)
        out = np.zeros(len(x))
        dec = list(self.dec)
        lv = sorted(self.c['levels'])
        for t in range(len(x)):
            a = float(np.dot(self.ffe, buf[n0 + t::-1][:len(self.ffe)]))
            a -= float(np.dot(self.dfe, dec[:len(self.dfe)])) if len(self.dfe) else 0.0
            out[t] = a
            if len(self.dfe):
                dec = [ref.nearest(a, lv)] + dec[:-1]
        self.hist = buf[len(buf) - n0:] if n0 else buf[:0]
        self.dec = np.array(dec)
        return out

    def equalise_real(self, x):
        c, sim = self.c, self.sim
        kw = dict(levels=np.asarray(c['levels'], float))
        if c['nd']:
            kw['dfe_taps'], kw['zi_dfe'] = self.dfe, self.zd
        if c['nf'] > 1:
            kw['zi_ffe'] = self.zf
        res = sim.call('ffe_dfe', cdsp.rx.ffe_dfe, x, self.ffe, **kw)
        if c['nf'] == 1 and not c['nd']:
            y = res
        elif not c['nd']:
            y, self.zf = res
        elif c['nf'] == 1:
            y, self.zd = res
        else:
            y, self.zf, self.zd = res
        return np.asarray(y)


def session(sim, sid):
    r = sim.data_rng()
    con = sim.pick(['NRZ', 'PAM4', 'PAM4FS', 'OOK'])
    lv = LEVELS[con]
    pre, post, nd = sim.integer(0, 2), sim.integer(0, 4), sim.pick([0, 1, 2, 4])
    cfg = dict(levels=lv, pre=pre, nf=pre + 1 + post, nd=nd)
    adapt_f = nd == 0 or sim.flip(0.7)
    kind = sim.pick(['hard', 'hard', 'soft'])
    sigma = sim.pick([1, 0.5, 0.7])
    training = sim.flip(0.6)
    sim.probe('training' if training else 'decision_directed')
    sim.probe('both' if nd and adapt_f else 'dfe_only' if nd else 'ffe_only')
    ffe_idx, dfe_idx = list(range(cfg['nf'])) if adapt_f else [], list(range(1, nd + 1))
    perm_f, perm_d = sim.shuffled(ffe_idx), sim.shuffled(dfe_idx)
    if perm_f != ffe_idx or perm_d != dfe_idx:
        sim.probe('unordered_taps')
    # channel: main tap 1, mild dispersion
    h = np.concatenate([np.round(r.uniform(-.08, .08, pre), 3), [1.0], np.round(r.uniform(-.15, .15, sim.integer(0, 3)), 3)])
    noise = sim.pick([0.0, 0.01, 0.03])
    nchunks = sim.integer(4, 10)
    chunk = sim.pick([64, 20, 100, 160])
    if sim.draw(25) == 24:
        chunk, nchunks = sim.integer(500, 3000), sim.integer(2, 4)
        sim.probe('long_chunk')
    power = float(np.mean(np.square(lv)))
    mu = 0.25 / (max(power, 1.0) * 2) * (1.0 if kind == 'hard' else 0.02)
    real, model = Receiver(sim, cfg), Receiver(sim, cfg)
    faults_until = nchunks
    tail = sim.pick([6, 0, 15]) if sim.flip(0.5) else 0
    saved = (real.snap(), model.snap())
    past = np.zeros(len(h) + 2 * pre + 2)
    gain = 1.0
    sim.log('session', sid, con, cfg['nf'], nd, kind, training, chunk)
    mse_real = mse_model = None
    for k in range(nchunks + tail):
        sim.now += 1
        quiet = k >= faults_until
        data = r.choice(lv, chunk)
        if not quiet and sim.flip(0.1):
            h = np.concatenate([h[:1] * 0 + np.round(r.uniform(-.08, .08, 1), 3) if pre else h[:0],
                                np.round(r.uniform(-.08, .08, max(pre - 1, 0)), 3), [1.0],
                                np.round(r.uniform(-.15, .15, len(h) - pre - 1), 3)])
            sim.fault('channel_step', sid, k)
        if not quiet and sim.flip(0.07):
            gain = sim.pick([0.85, 1.0, 1.1])
            sim.fault('gain_drop', sid, k)
        if quiet:
            gain = 1.0
        full = np.concatenate([past, data])
        x = gain * np.convolve(full, h)[len(past):len(past) + chunk] + noise * r.uniform(-1, 1, chunk)
        # x[t] carries data[t - pre] as its main term; output of the FFE is delayed by another `pre`
        refseq = np.concatenate([past, data])
        given = refseq[len(past) - 2 * pre:len(past) - 2 * pre + chunk]
        past = full[-(len(h) + 2 * pre + 2):] if len(full) >= len(h) + 2 * pre + 2 else full
        if not quiet:
            if sim.flip(0.08):
                i = sim.draw(chunk)
                x[i:i + 1 + sim.draw(4)] += sim.pick([2.0, -3.0, 6.0])
                sim.fault('glitch', sid, k, i)
            if sim.flip(0.06):
                sim.fault('chunk_lost', sid, k)
                continue
            if sim.flip(0.08):
                sim.fault('crash', sid, k)
                real, model = Receiver(sim, cfg), Receiver(sim, cfg)
                real.load(saved[0])
                model.load(saved[1])
        if sim.flip(0.1):
            x = np.round(x * 4).astype(int)
            sim.probe('int_samples')
            # integer samples of another converter: gradients only, the loop is not touched
            y = r.uniform(-3, 3, chunk)
            if kind == 'hard' or np.max(np.min(np.abs(y[:, None] - np.array(lv)[None]), axis=1)) < 20 * sigma:
                ask(sim, kind, x, y, lv, perm_f, perm_d, None, sigma, f'receiver {sid} chunk {k} (integer samples)')
            sim.log('int', sid, k)
            continue
        y = real.equalise_real(x)
        ym = model.equalise_ref(x)
        thr = [(p + q) / 2 for p, q in zip(sorted(lv), sorted(lv)[1:])]
        margin = min(float(np.min(np.abs(ym - t))) for t in thr)
        if margin < 1e-6:
            sim.log('tie', sid, k)
            return
        sim.check(y.shape == (chunk,), 'shape', f'receiver {sid}: {y.shape}')
        sim.close(y, ym, 'equaliser', f'receiver {sid} chunk {k}: slicer input', tol=1e-6, scale=max(1.0, float(np.max(np.abs(ym)))))
        if np.max(np.abs(ym)) > 50:
            sim.probe('diverged')
            return
        dist = float(np.max(np.min(np.abs(ym[:, None] - np.array(lv)[None]), axis=1)))
        g = given if training else None
        if kind == 'soft' and dist > 15 * sigma:
            sim.log('underflow', sid, k)
            return
        where = f'receiver {sid} chunk {k}'
        gf, gd, loss, mf, md = ask(sim, kind, x, y, lv, perm_f, perm_d, g, sigma, where)
        if sim.flip(0.15):
            ask(sim, kind, x, y, lv, [], [], g, sigma, where + ' loss only')
            sim.probe('loss_only')
        if sim.flip(0.25):
            # aligned view: the caller compensates the FFE delay, precursors are negative offsets
            lo = sim.integer(1, 3)
            ask(sim, kind, x[:chunk - lo], y[lo:], lv, [i - lo for i in range(cfg['nf'])], perm_d, None if g is None else g[lo:], sigma,
                where + ' aligned')
            sim.probe('precursor_idx')
        stall = not quiet and sim.flip(0.08)
        if stall:
            sim.fault('stall', sid, k)
        else:
            for rcv, a, b in ((real, gf, gd), (model, mf, md)):
                if len(perm_f):
                    rcv.ffe[perm_f] -= mu * a
                if len(perm_d):
                    rcv.dfe[np.array(perm_d) - 1] -= mu * b
        sim.close(real.ffe, model.ffe, 'taps', f'{where}: FFE taps after the update', tol=1e-6, scale=1.0)
        sim.close(real.dfe, model.dfe, 'taps', f'{where}: DFE taps after the update', tol=1e-6, scale=1.0)
        if not quiet and sim.flip(0.08):
            # the transport repeats the chunk; the receiver sees the same samples twice
            y2, ym2 = real.equalise_real(x), model.equalise_ref(x)
            sim.close(y2, ym2, 'equaliser', f'{where} repeated', tol=1e-6, scale=max(1.0, float(np.max(np.abs(ym2)))))
            sim.fault('chunk_dup', sid, k)
        if sim.flip(0.3):
            saved = (real.snap(), model.snap())
        mse_real = float(np.mean((y - given) ** 2))
        mse_model = float(np.mean((ym - given) ** 2))
        sim.log('chunk', sid, k, data=np.round(y, 9))
    if tail and mse_model is not None and mse_model < 0.02 * max(power, 0.5):
        sim.probe('converged')
        sim.check(mse_real < 0.03 * max(power, 0.5), 'no-progress', f'receiver {sid}: MSE {mse_real:.3g} {tail} chunks after the last fault '
                                                                   f'(the documented gradients reach {mse_model:.3g})')


def wide_taps(sim):
    """One gradient call with taps anywhere within the chunk and any levels."""
    r = sim.data_rng()
    n = sim.size(3, 200, 60)
    lv = sim.pick([[-1.0, 1.0], [-7.0, -5.0, -3.0, -1.0, 1.0, 3.0, 5.0, 7.0], [-1.0, 0.0, 1.0], [-0.9, -0.31, 0.28, 1.1], LEVELS['PAM4FS']])
    x = r.uniform(-2, 2, n)
    y = r.choice(lv, n) + r.uniform(-0.6, 0.6, n)
    fi = [int(v) for v in r.randint(1 - n, n, sim.draw(5))]
    di = [int(v) for v in r.randint(1, n, sim.draw(5))]
    kind, sigma = sim.pick(['hard', 'soft']), sim.pick([1, 0.5, 2.0])
    given = r.choice(lv, n) if sim.flip(0.5) else None
    if given is None:
        thr = (np.array(lv[1:]) + np.array(lv[:-1])) / 2
        if np.min(np.abs(y[:, None] - thr[None])) < 1e-6:
            return
    ask(sim, kind, x, y, lv, fi, di, given, sigma, f'taps {fi} {di}')
    sim.log('wide', n, len(fi), len(di))
    sim.probe('wide_taps')


def run(sim):
    while sim.flip(0.25):
        wide_taps(sim)
    for s in range(sim.integer(1, 2)):
        session(sim, s)
