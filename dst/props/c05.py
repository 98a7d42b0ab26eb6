"""C05: lock and error accounting of the PRBS checkers and the pattern lock under flips, bursts and slips."""
import numpy as np

import CommDspy as cdsp
from dst import ref
from dst.core import Violation

BUDGET = {'quick': {'runs': 6000, 'wall': 240}, 'thorough': {'runs': 60000, 'wall': 1500}}
RULE = ('one run = 1-3 interleaved monitors of a PRBS line (lock, window-by-window checking, loss, relock; economy checker; '
        'analog pattern lock) with seeded start phase, bit flips, bursts, slips and window sizes; non-trivial = at least one '
        'oracle check and one fault or probe; distinct = distinct event log')
REAL = ['rx.prbs_checker', 'rx.prbs_checker_econ', 'rx.lock_pattern_to_signal', 'rx.lock_pattern_to_signal_binary',
        'tx.prbs_gen', 'get_polynomial']
STUB = ['the line (phase, flips, bursts, slips), window scheduler (simulated)']
ASSUMPTIONS = ['lock windows hold at least as many bits as the register',
               'exactness of the economy checker is required where any wrong register start gives at least loss_th errors']
REQUIRED_PROBES = ['flip', 'burst', 'slip_lost', 'slip_extra', 'lost_lock', 'relocked', 'econ_dirty_start', 'econ_no_start',
                   'short_window', 'window_longer_than_period', 'threshold_exact', 'errors_at_threshold', 'long_pattern', 'repeating_pattern', 'other_words', 'long_stream']

CYC = {d: ref.prbs_cycle(d) for d in (7, 9, 11, 13)}


def rotations_corr(pattern, sig):
    """Correlation of every rotation of `pattern` with the first min(P, D) samples of `sig` (circular, via FFT)."""
    p = np.asarray(pattern, dtype=float)
    P = len(p)
    s = np.zeros(P)
    k = min(P, len(sig))
    s[:k] = sig[:k]
    return np.real(np.fft.ifft(np.fft.fft(p) * np.conj(np.fft.fft(s)))), k


class Line:
    """A PRBS line: phase, flips, bursts and slips.  take(n) returns n received bits and the positions that were flipped."""

    def __init__(self, sim, deg, label):
        self.sim, self.deg, self.label = sim, deg, label
        self.cyc = CYC[deg]
        self.phase = sim.draw(len(self.cyc))
        self.pflip = sim.pick([0.0, 0.002, 0.01, 0.03])
        self.pburst = sim.pick([0.0, 0.0, 0.15])
        self.pslip = sim.pick([0.0, 0.0, 0.2])
        self.slips = 3

    def take(self, n):
        sim = self.sim
        P = len(self.cyc)
        r = sim.data_rng()
        out, mask = [], []
        slip_at, kind = None, None
        if self.slips > 0 and n > 2 and sim.flip(self.pslip):
            self.slips -= 1
            slip_at = sim.draw(n)
            kind = sim.pick(['slip_lost', 'slip_extra'])
            sim.fault(kind, self.label, slip_at)
        ph = self.phase
        for k in range(n):
            if k == slip_at:
                ph += (1 + sim.draw(5)) if kind == 'slip_lost' else -(1 + sim.draw(5))
            out.append(int(self.cyc[ph % P]))
            ph += 1
        self.phase = ph % P
        mask = r.rand(n) < self.pflip
        if mask.any():
            sim.fault('flip', self.label, int(mask.sum()))
        if sim.flip(self.pburst):
            b = sim.size(1, 40, 8)
            at = sim.draw(n)
            mask[at:at + b] ^= r.rand(len(mask[at:at + b])) < 0.5
            sim.fault('burst', self.label, at, b)
        bits = np.array(out, dtype=int) ^ mask.astype(int)
        return bits, mask, slip_at


class Monitor:
    """Full checker: locks, then follows the line window by window with its own reference, relocks after loss."""

    def __init__(self, sim, label):
        self.sim, self.label = sim, label
        self.deg = sim.wpick([(6, 7), (3, 9), (2, 11), (0.5, 13)])
        self.line = Line(sim, self.deg, label)
        self.P = len(self.line.cyc)
        self.locked = False
        self.refseq = None
        self.left = sim.integer(2, 7)
        self.own_ref = sim.flip(0.5) or self.deg == 13
        self.clean_streak = 0

    def window(self):
        sim = self.sim
        d, P = self.deg, self.P
        opts = [d, d + 1, 2 * d + 3, P // 2, P - 1, P, P + 1, 2 * P, 3 * P + 7]
        k = sim.draw(len(opts) + 2)
        n = opts[k] if k < len(opts) else sim.integer(d, min(4 * P, 3000))
        return n if d < 11 or n <= 2 * P else P + 3

    def step(self):
        sim = self.sim
        n = self.window()
        bits, mask, slip = self.line.take(n)
        th = sim.pick([1, 2, 5, max(1, n // 4), 100])
        exact = int(mask.sum())
        if slip is None and exact > 0 and sim.flip(0.3):
            th = exact
            sim.probe('threshold_exact')
        kw = {}
        if not (th == 100 and sim.flip(0.5)):
            kw['loss_th'] = th
        keep = bits.copy()
        if n < self.P:
            sim.probe('short_window')
        if n > self.P:
            sim.probe('window_longer_than_period')
        prbs = cdsp.PrbsEnum['PRBS%d' % self.deg]
        if not self.locked:
            if self.own_ref:
                base = np.roll(self.line.cyc, sim.draw(self.P)).copy()
                bkeep = base.copy()
                res = sim.call('prbs_checker', cdsp.rx.prbs_checker, prbs, bits, False, prbs_seq=base, **kw)
                sim.equal(base, bkeep, 'input-modified', 'prbs_seq')
            else:
                res = sim.call('prbs_checker', cdsp.rx.prbs_checker, prbs, bits, False, **kw)
            corr, used = rotations_corr(2 * self.line.cyc - 1, 2 * bits - 1)
            best = np.flatnonzero(corr > corr.max() - 0.5)
            cands = [int(r) for r in best[:40]]
        else:
            if self.own_ref or self.refseq is not None:
                base = self.refseq.copy()
                res = sim.call('prbs_checker', cdsp.rx.prbs_checker, prbs, bits, True, prbs_seq=base, **kw)
                sim.equal(base, self.refseq, 'input-modified', 'prbs_seq')
            cands = [self.rot]
        sim.equal(bits, keep, 'input-modified', 'data_in')
        lost, good, err = res
        err = np.asarray(err)
        where = f'{self.label} PRBS{self.deg} window {n} locked={self.locked} th={th}'
        sim.check(err.shape == (n,), 'error-shape', f'{where}: {err.shape}')
        ok = None
        for r in cands:
            e = bits != np.resize(np.roll(self.line.cyc, -r), n)
            if np.array_equal(err.astype(bool), e):
                ok = r
                break
        sim.log('window', self.label, n, int(self.locked), int(np.sum(err)), data=err.astype(np.int8))
        sim.check(ok is not None, 'error-positions', f'{where}: the reported error mask matches no best alignment')
        ne = int(np.sum(err))
        sim.check(int(good) == n - ne, 'correct-count', f'{where}: {good} correct of {n} with {ne} errors')
        sim.check(bool(lost) == (ne >= th), 'lost-lock', f'{where}: lost={lost} with {ne} errors')
        if slip is None and not self.locked and n >= self.P and int(mask[:self.P].sum()) < (self.P + 1) / 4:
            sim.equal(err.astype(int), mask.astype(int), 'exact-errors', where)        # unique alignment: exact accounting
            sim.probe('relocked' if self.clean_streak < 0 else 'exact_lock')
        if slip is None and self.locked and self.aligned:
            sim.equal(err.astype(int), mask.astype(int), 'exact-errors', where)
        if lost:
            sim.probe('lost_lock')
            self.locked = False
            self.clean_streak = -1
        else:
            self.locked = True
            self.clean_streak = 0
            self.rot = (ok + n) % self.P
            self.refseq = np.roll(self.line.cyc, -self.rot)
            self.aligned = slip is None and self.rot == self.line.phase
        self.left -= 1
        if self.left > 0:
            sim.after(1 + sim.draw(5), self.step)


def near_threshold(sim, n, lo, th):
    """A mask with one error less than the threshold, exactly as many, or one more."""
    k = th + sim.pick([-1, 0, 1])
    mask = np.zeros(n, dtype=int)
    mask[lo + sim.data_rng().permutation(n - lo)[:k]] = 1
    sim.fault('errors_at_threshold', k, th)
    return mask


class InitLocked:
    """Checker told that the data starts at the all-ones seed."""

    def __init__(self, sim, label):
        self.sim, self.label, self.left = sim, label, sim.integer(1, 3)

    def step(self):
        sim = self.sim
        deg = sim.wpick([(5, 7), (3, 9), (1, 11)])
        line = Line(sim, deg, self.label)
        line.phase, line.pslip = 0, 0.0
        n = sim.pick([1, deg, len(line.cyc) - 1, len(line.cyc), len(line.cyc) + 1, 2 * len(line.cyc) + 5]) if sim.flip(0.5) \
            else sim.integer(1, 1200)
        bits, mask, _ = line.take(n)
        th = sim.pick([1, 3, 100])
        if n >= 150 and sim.flip(0.4):          # errors right at the threshold
            th = sim.pick([100, 100, 40])
            bits = bits ^ mask
            mask = near_threshold(sim, n, 0, th)
            bits = bits ^ mask
        lost, good, err = sim.call('prbs_checker', cdsp.rx.prbs_checker, cdsp.PrbsEnum['PRBS%d' % deg], bits, True, th)
        where = f'{self.label} init-locked PRBS{deg} n={n}'
        sim.log('initlocked', self.label, deg, n)
        sim.equal(np.asarray(err).astype(int), mask.astype(int), 'exact-errors', where)
        sim.check(int(good) == n - int(mask.sum()), 'correct-count', where)
        sim.check(bool(lost) == (mask.sum() >= th), 'lost-lock', where)
        self.left -= 1
        if self.left:
            sim.after(1 + sim.draw(5), self.step)


class Econ:
    """Economy checker: register started from the received bits themselves."""

    def __init__(self, sim, label):
        self.sim, self.label, self.left = sim, label, sim.integer(1, 4)

    def step(self):
        sim = self.sim
        deg = sim.wpick([(4, 7), (3, 9), (2, 11), (1, 13), (1, 15), (1, 31)])
        taps = ref.PRBS_TAPS[deg]
        n = sim.size(3 * deg, 1500, 400)
        if sim.draw(24) == 23:
            n = sim.integer(5000, 20000)
            sim.probe('long_stream')
        seed = [int(v) for v in sim.data_rng().randint(0, 2, deg)]
        if not any(seed):
            seed[0] = 1
        clean, _ = ref.lfsr(taps, seed, n)
        mask = np.zeros(n, dtype=int)
        for _ in range(sim.draw(6)):
            at = sim.draw(n) if sim.flip(0.5) else sim.draw(3 * deg)
            mask[at] = 1
        if sim.flip(0.15):
            mask[:2 * deg:max(1, deg // 2)] = 1
            sim.fault('burst', self.label)
        if mask.any():
            sim.fault('flip', self.label, int(mask.sum()))
        th = sim.pick([100, 1, 5, 12, n // 8 + 1])
        th = max(1, th)
        if n >= 300 and sim.flip(0.15):         # errors right at the threshold
            th = sim.pick([100, 100, 40])
            mask = near_threshold(sim, n, 2 * deg, th)
        bits = clean ^ mask
        # what each register start predicts, independently
        good_starts, counts, ambiguous = [], {}, False
        for s in range(deg):
            if mask[s:s + deg].any():
                pred, _ = ref.lfsr(taps, list(bits[s:s + deg][::-1]), n - s - deg)
                if int(np.sum(pred != bits[s + deg:])) < th:
                    ambiguous = True        # a wrong start happens to fit this short window: no claim
            else:
                counts[s] = int(mask[s:].sum())
                if counts[s] < th:
                    good_starts.append(s)
        keep = bits.copy()
        kw = {} if th == 100 and sim.flip(0.5) else {'loss_th': th}
        lost, good, err = sim.call('prbs_checker_econ', cdsp.rx.prbs_checker_econ, cdsp.PrbsEnum['PRBS%d' % deg], bits, **kw)
        sim.equal(bits, keep, 'input-modified', 'data_in')
        where = f'{self.label} economy PRBS{deg} n={n} th={th} flips={np.flatnonzero(mask).tolist()[:12]}'
        err = np.asarray(err).astype(int)
        sim.log('econ', self.label, deg, n, th, int(bool(lost)), data=err.astype(np.int8))
        sim.check(int(good) == n - int(err.sum()), 'correct-count', where)
        sim.check(bool(lost) == (int(err.sum()) >= th), 'lost-lock', where)
        if mask[:deg].any():
            sim.probe('econ_dirty_start')
        if not ambiguous:
            if good_starts:
                sim.check(not lost, 'lost-lock', f'{where}: a clean start exists')
                s = n - len(err)
                sim.check(s in good_starts, 'error-positions', f'{where}: reported from start {s}, clean starts {good_starts[:4]}')
                sim.equal(err, mask[s:], 'exact-errors', where)
            else:
                sim.probe('econ_no_start')
                sim.check(bool(lost), 'lost-lock', f'{where}: no start gives fewer than {th} errors')
        self.left -= 1
        if self.left:
            sim.after(1 + sim.draw(5), self.step)


class Analog:
    """Pattern lock on sampled waveforms and on arbitrary binary frame patterns."""

    def __init__(self, sim, label):
        self.sim, self.label, self.left = sim, label, sim.integer(1, 4)

    def step(self):
        sim = self.sim
        r = sim.data_rng()
        P = sim.pick([127, 31, 16, 50, 200, 7])
        if sim.draw(24) == 23:
            P = sim.pick([1000, 2047, 1024])
            sim.probe('long_pattern')
        binary = sim.flip(0.5)
        if binary:
            pat = r.randint(0, 2, P)
        else:
            pat = r.choice([-3.0, -1.0, 1.0, 3.0], P) if sim.flip(0.5) else np.round(r.uniform(-1, 1, P), 3)
        rot = sim.draw(P)
        n = sim.pick([P, P + 1, 2 * P + 3, P - 1, max(3, P // 2), 5 * P])
        if sim.draw(10) == 9 and P % 2 == 0:
            pat = np.resize(pat[:P // 2], P)        # the frame repeats inside the pattern: two rotations agree best
            sim.probe('repeating_pattern')
        if binary and sim.flip(0.3):
            pat = pat.astype(sim.pick([float, np.int8, np.uint8, np.int32]))
            sim.probe('other_words')
        sig = np.resize(np.roll(pat, -rot), n)
        flips = 0
        if binary:
            m = r.rand(n) < sim.pick([0.0, 0.02, 0.1])
            flips = int(m.sum())
            sig = np.where(m, 1 - sig.astype(int), sig).astype(pat.dtype)
            if flips:
                sim.fault('flip', self.label, flips)
            keep = (pat.copy(), sig.copy())
            out, xc = sim.call('lock_binary', cdsp.rx.lock_pattern_to_signal_binary, pat, sig)
            corr, k = rotations_corr(2 * pat.astype(int) - 1, 2 * sig.astype(int) - 1)
        else:
            sig = sig * sim.pick([1.0, 0.3, 2.5]) + r.uniform(-1, 1, n) * sim.pick([0.0, 0.05, 0.3])
            sim.fault('noise', self.label)
            keep = (pat.copy(), sig.copy())
            out, xc = sim.call('lock', cdsp.rx.lock_pattern_to_signal, pat, sig)
            corr, k = rotations_corr(pat, sig)
        sim.equal(pat, keep[0], 'input-modified', 'pattern')
        sim.equal(sig, keep[1], 'input-modified', 'signal')
        out = np.asarray(out)
        where = f'{self.label} pattern {P} signal {n} rotation {rot}'
        sim.log('lock', self.label, P, n, data=out)
        sim.check(out.shape == (P,), 'lock-shape', where)
        tol = 1e-6 * max(1.0, float(np.max(np.abs(corr))))
        sim.check(len(xc) >= P, 'correlation', f'{where}: correlation of length {len(xc)}')
        sim.close(np.asarray(xc)[:P], corr, 'correlation', where, tol=1.0, scale=tol)
        best = [q for q in range(P) if corr[q] >= corr.max() - tol]
        sim.check(any(np.array_equal(np.roll(pat, -q), out) for q in best), 'alignment',
                  f'{where}: the returned pattern is not the rotation that agrees best with the signal')
        if flips == 0 and binary:
            sim.check(np.array_equal(out[:k], sig[:k]), 'alignment', f'{where}: clean signal not matched')
        self.left -= 1
        if self.left:
            sim.after(1 + sim.draw(5), self.step)


def run(sim):
    for k in range(sim.integer(1, 3)):
        kind = sim.wpick([(5, Monitor), (1, InitLocked), (3, Econ), (2, Analog)])
        sim.after(sim.draw(5), kind(sim, f'{kind.__name__}{k}').step)
    while sim.step():
        if sim.steps > 2000:
            raise Violation('no-progress', 'step cap')
