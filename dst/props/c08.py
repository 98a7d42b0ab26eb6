"""C08: line decoders: errors flagged and contained, resynchronisation after joining, losing symbols and polarity swaps."""
import numpy as np

import CommDspy as cdsp
from dst import ref
from dst.core import Violation
from dst.props.c04 import line_code_ref

BUDGET = {'quick': {'runs': 12000, 'wall': 240}, 'thorough': {'runs': 120000, 'wall': 1500}}
RULE = ('one run = 1-3 line-coded streams; the receiver joins at a random bit, the line flips levels, loses symbols, swaps '
        'polarity, and the receiver decodes in a seeded series of windows; non-trivial = at least one oracle check and one fault or '
        'probe; distinct = distinct event log')
REAL = ['tx.coding_manchester', 'tx.coding_bipolar', 'tx.coding_mlt3', 'tx.coding_differential_manchester', 'tx.coding_differential',
        'tx.coding_gray', 'rx.decoding_manchester', 'rx.decoding_bipolar', 'rx.decoding_mlt3',
        'rx.decoding_differential_manchester', 'rx.decoding_differential', 'rx.decoding_gray']
STUB = ['the line (level errors, lost symbols, polarity), receiver windows (simulated)']
ASSUMPTIONS = ['two-symbol-per-bit codes are received with known bit boundaries']
REQUIRED_PROBES = ['level_error', 'babble', 'symbol_loss', 'polarity_swap', 'late_join', 'manchester_flag', 'bipolar_flag', 'mlt3_jump',
                   'contained', 'framed_2d', 'single_symbol', 'all_spaces', 'detected_single', 'bulk_stream']

ENC = {'manchester': cdsp.tx.coding_manchester, 'bipolar': cdsp.tx.coding_bipolar, 'mlt3': cdsp.tx.coding_mlt3,
       'diff_manchester': cdsp.tx.coding_differential_manchester}
DEC = {'manchester': cdsp.rx.decoding_manchester, 'bipolar': cdsp.rx.decoding_bipolar, 'mlt3': cdsp.rx.decoding_mlt3,
       'diff_manchester': cdsp.rx.decoding_differential_manchester}
PER = {'manchester': 2, 'diff_manchester': 2, 'bipolar': 1, 'mlt3': 1, 'differential': 1}
M = {'manchester': 2, 'diff_manchester': 2, 'bipolar': 3, 'mlt3': 3}


def decode_ref(code, sym, m=None):
    """What the documented decoder makes of any received level sequence."""
    s = [int(v) for v in sym]
    if code == 'manchester':
        return [0.5 if a == b else float(a) for a, b in zip(s[::2], s[1::2])]
    if code == 'diff_manchester':
        return [1 if a == b else 0 for a, b in zip(s[::2], s[1::2])]
    if code == 'bipolar':
        return [0 if v == 1 else 1 for v in s]
    if code == 'mlt3':
        return [1 if s[0] == 1 else 0] + [abs(q - p) for p, q in zip(s, s[1:])]
    return list(ref.undifferential(s, m))


def bipolar_flags(sym):
    marks = [(i, v - 1) for i, v in enumerate(int(q) for q in sym) if v != 1]
    out = [0.0 if int(v) == 1 else 1.0 for v in sym]
    for (i, a), (j, b) in zip(marks, marks[1:]):
        if a == b:
            out[i] = out[j] = 0.5 * a
    return out


class Stream:
    def __init__(self, sim, sid):
        self.sim, self.id = sim, sid
        self.code = sim.pick(['manchester', 'bipolar', 'mlt3', 'diff_manchester', 'differential'])
        r = sim.data_rng()
        n = sim.size(1, 400, 60)
        if sim.draw(20) == 19:
            n = sim.integer(1000, 5000)
            sim.probe('bulk_stream')
        if n == 1:
            sim.probe('single_symbol')
        self.con = None
        if self.code == 'differential':
            self.con = sim.pick(['NRZ', 'OOK', 'PAM4', 'PAM3'])
            self.m = len(ref.LEVELS[self.con])
            self.data = r.randint(0, self.m, n)
            self.sym = np.asarray(sim.call('coding_differential', cdsp.tx.coding_differential, self.data.copy(),
                                           cdsp.ConstellationEnum[self.con]))
            sim.equal(self.sym, ref.differential(self.data, self.m), 'encoder', f'differential {self.con}')
        else:
            p = sim.pick([0.5, 0.5, 0.1, 0.9, 0.0, 1.0])
            self.data = (r.rand(n) < p).astype(int)
            if not self.data.any():
                sim.probe('all_spaces')
            self.m = M[self.code]
            self.sym = np.asarray(sim.call(f'coding_{self.code}', ENC[self.code], self.data.copy()))
            want = line_code_ref(self.code, self.data)
            if self.code == 'diff_manchester' and len(self.sym) and self.sym[0] != want[0]:
                want = 1 - want
            sim.equal(self.sym, want, 'encoder', self.code)
        self.per = PER[self.code]
        # the medium
        self.rx = np.array(self.sym)
        self.truth = list(range(n))             # which sent bit every received bit position stands for
        self.err = np.zeros(len(self.rx), dtype=bool)
        if sim.flip(0.3):
            sim.fault('polarity_swap', sid)
            self.rx = self.m - 1 - self.rx
            self.swapped = True
        else:
            self.swapped = False
        self.join = 0
        if n > 1 and sim.flip(0.4):
            self.join = sim.integer(1, n - 1)
            sim.fault('late_join', sid, self.join)
        self.rx = self.rx[self.join * self.per:]
        self.err = self.err[self.join * self.per:]
        self.truth = self.truth[self.join:]
        if sim.flip(0.3) and len(self.truth) > 3:
            a = sim.draw(len(self.truth) - 1)
            k = min(sim.integer(1, 4), len(self.truth) - 1 - a)
            if k > 0:
                sim.fault('symbol_loss', sid, a, k)
                self.rx = np.delete(self.rx, slice(a * self.per, (a + k) * self.per))
                self.err = np.delete(self.err, slice(a * self.per, (a + k) * self.per))
                del self.truth[a:a + k]
        good = self.rx.copy()
        for _ in range(sim.wpick([(3, 0), (4, 1), (2, 2), (1, 6)])):
            q = sim.draw(len(self.rx))
            v = sim.draw(self.m - 1)
            v = v if v < self.rx[q] else v + 1
            sim.fault('level_error', sid, q)
            self.rx[q] = v
        if sim.flip(0.15):                      # the line babbles for a while: any level
            q = sim.draw(len(self.rx))
            k = min(sim.pick([len(self.rx), 8, 40, 300]), len(self.rx) - q)
            sim.fault('babble', sid, q, k)
            self.rx[q:q + k] = r.randint(0, self.m, k)
        self.err = self.rx != good
        self.pos = 0
        sim.log('stream', sid, self.code, n, data=self.rx)

    def step(self):
        """Decode the next window of whole bits."""
        sim = self.sim
        left = len(self.truth) - self.pos
        w = left if sim.flip(0.4) else sim.size(1, left, min(left, 12))
        a, b = self.pos, self.pos + w
        sym = self.rx[a * self.per:b * self.per]
        shape = None
        if sim.flip(0.3):
            rows = sim.pick([2, 3, 4, 1])
            if w % rows == 0:
                shape = (rows, w // rows)
                sim.probe('framed_2d')
        arr = sym.reshape(shape[0], -1).copy() if shape else sym.copy()
        keep = arr.copy()
        where = f'stream {self.id} {self.code} window {a}..{b} levels {sym.tolist()[:40]}'
        if self.code == 'differential':
            got = sim.call('decoding_differential', cdsp.rx.decoding_differential, arr, cdsp.ConstellationEnum[self.con])
        else:
            got = sim.call(f'decoding_{self.code}', DEC[self.code], arr)
        sim.equal(arr, keep, 'input-modified', where)
        if shape:
            sim.check(np.shape(got) == shape, 'shape', f'{where}: {np.shape(got)}')
        got = np.reshape(got, -1)
        sim.log('window', self.id, a, w, data=np.asarray(got, dtype=float))
        sim.equal(got, decode_ref(self.code, sym, self.m), 'decoder', where)
        self.meaning(a, b, got, where)
        if self.code == 'bipolar':
            flags = np.asarray(sim.call('decoding_bipolar_detect', cdsp.rx.decoding_bipolar, arr, True))
            sim.equal(arr, keep, 'input-modified', where)
            sim.check(flags.shape == arr.shape, 'shape', f'{where}: flags {flags.shape} for {arr.shape}')
            flags = flags.reshape(-1)
            sim.equal(flags, bipolar_flags(sym), 'bipolar-flags', where)
            self.bipolar_guarantee(a, b, flags, where)
        self.pos = b
        if self.pos < len(self.truth):
            sim.after(1 + sim.draw(5), self.step)

    def meaning(self, a, b, got, where):
        """The receiver's view: which decoded values must equal what was sent, whatever happened elsewhere on the line."""
        sim = self.sim
        for k in range(a, b):
            e = self.err[k * self.per:(k + 1) * self.per]
            sent = int(self.data[self.truth[k]])
            if self.code == 'manchester':
                if self.swapped:
                    sent = 1 - sent
                if e.sum() == 1:
                    sim.probe('manchester_flag')
                    sim.check(got[k - a] == 0.5, 'undetected', f'{where}: bit {k - a} has one level error and is not flagged')
                elif not e.any():
                    sim.check(got[k - a] == sent, 'not-contained', f'{where}: bit {k - a} is {got[k - a]}, sent {sent}')
            elif self.code in ('diff_manchester', 'bipolar'):
                if not e.any():
                    sim.check(got[k - a] == sent, 'not-contained', f'{where}: bit {k - a} is {got[k - a]}, sent {sent}')
                    if self.err.any():
                        sim.probe('contained')
            else:
                if k == a:
                    continue                        # the window's first value has no predecessor
                if self.truth[k] != self.truth[k - 1] + 1 or self.err[k] or self.err[k - 1]:
                    if self.code == 'mlt3' and got[k - a] == 2:
                        sim.probe('mlt3_jump')
                    continue
                if self.swapped and self.code == 'differential' and self.m > 2:
                    sent = (-sent) % self.m
                sim.check(got[k - a] == sent, 'not-contained', f'{where}: value {k - a} is {got[k - a]}, sent {sent}')
                if self.err.any():
                    sim.probe('contained')

    def bipolar_guarantee(self, a, b, flags, where):
        sim = self.sim
        if np.any(np.abs(flags) == 0.5):
            sim.probe('bipolar_flag')
        whole = all(self.truth[k] == self.truth[k - 1] + 1 for k in range(a + 1, b))
        bad = np.flatnonzero(self.err[a:b])
        if not whole:
            return
        if len(bad) == 0:
            sim.check(not np.any(np.abs(flags) == 0.5), 'false-flag', f'{where}: flagged without an error')
        elif len(bad) == 1:
            sent = self.data[self.truth[a]:self.truth[a] + (b - a)]
            q = int(bad[0])
            if sent[:q].any() and sent[q + 1:].any():
                sim.probe('detected_single')
                sim.check(np.any(np.abs(flags) == 0.5), 'undetected', f'{where}: single error at {q} between marks not flagged')


def run(sim):
    for k in range(sim.integer(1, 3)):
        sim.after(sim.draw(4), Stream(sim, k).step)
    while sim.step():
        if sim.steps > 3000:
            raise Violation('no-progress', 'step cap')
