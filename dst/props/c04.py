"""C04: the modem link delivers its payload exactly under bounded disturbance and contains symbol errors."""
import numpy as np

import CommDspy as cdsp
from dst import ref
from dst.core import Violation

BUDGET = {'quick': {'runs': 7500, 'wall': 240}, 'thorough': {'runs': 80000, 'wall': 1500}}
RULE = ('one run = 1-3 interleaved links with random constellation, flags, coding, pulse, ISI and converter; frames of random '
        'shape cross the line in a seeded chunk schedule with bounded noise, level glitches, bursts, polarity swaps and frame '
        'loss/duplication/reordering; non-trivial = at least one oracle check and one fault or probe; distinct = distinct log')
REAL = ['tx.prbs_gen', 'tx.bin2symbol', 'tx.coding_gray', 'tx.coding_differential', 'tx.coding_manchester', 'tx.coding_bipolar',
        'tx.coding_mlt3', 'tx.coding_differential_manchester', 'tx.mapping', 'channel.pulse_shape', 'channel.awgn_channel',
        'rx.quantize', 'rx.ffe_dfe', 'rx.slicer', 'rx.demapping', 'rx.decoding_* (line codes)', 'rx.symbol2bin']
STUB = ['the medium (noise, glitches, polarity), frame transport and scheduler (simulated)']
ASSUMPTIONS = ['gray coding is used with constellations of 2^n points', 'total disturbance stays below half the level distance '
               'except for injected glitches, which move a sample exactly onto an adjacent level']
REQUIRED_PROBES = ['noise', 'glitch', 'polarity_swap', 'frame_loss', 'frame_dup', 'frame_reorder', 'gray_single_bit',
                   'differential_two_symbols', 'single_symbol_frame', 'framed_2d', 'dfe_link', 'quantised', 'line_code', 'overload', 'over_range',
                   'long_frame', 'long_haul', 'unequal_levels', 'stand_alone_slicer', 'single_precision', 'wide_symbols', 'defaults_left_out',
                   'fine_converter']

ENUM = {k: cdsp.ConstellationEnum[k] for k in ('NRZ', 'OOK', 'PAM3', 'PAM4')}


class Link:
    def __init__(self, sim, lid):
        self.sim, self.id = sim, lid
        self.code = sim.wpick([(8, 'none'), (1, 'manchester'), (1, 'bipolar'), (1, 'mlt3'), (1, 'diff_manchester')])
        if self.code in ('manchester', 'diff_manchester'):
            self.con = sim.pick(['NRZ', 'OOK'])
        elif self.code in ('bipolar', 'mlt3'):
            self.con = 'PAM3'
        else:
            self.con = sim.pick(['NRZ', 'OOK', 'PAM4', 'PAM4', 'PAM3'])
        self.m = len(ref.LEVELS[self.con])
        self.bps = {2: 1, 4: 2, 3: 0}[self.m]
        f = lambda: sim.flip(0.4)   # noqa: E731
        self.flags = dict(bit_order_inv=f(), inv_msb=f(), inv_lsb=f(), pn_inv=f()) if self.code == 'none' else {}
        self.gray = self.code == 'none' and self.bps > 0 and sim.flip(0.5)
        self.diff = self.code == 'none' and sim.flip(0.4)
        self.fs = sim.flip(0.5)
        self.tx_inv = sim.flip(0.3)
        self.medium_inv = False
        if sim.flip(0.2):
            self.medium_inv = True
            sim.fault('polarity_swap', lid)
        self.gain = sim.pick([1.0, 1.0, 1.0, 0.5, 0.75])        # custom transmit levels, undone by the receiver's AGC
        self.levels = [v * self.gain for v in ref.levels(self.con, self.fs)]
        self.nominal = [float(v) for v in ref.levels(self.con, self.fs)]
        self.table = False
        if self.code == 'none' and sim.flip(0.2):                # unequal custom levels, undone by a table in the receiver
            self.table = True
            self.levels = odd_levels(sim, self.m)
            sim.probe('unequal_levels')
        self.dist = min(q - p for p, q in zip(self.levels, self.levels[1:]))
        # what the line looks like after the inversions
        self.line_levels = [-v for v in self.levels][::-1] if self.tx_inv != self.medium_inv else list(self.levels)
        self.line_nominal = [-v for v in self.nominal][::-1] if self.tx_inv != self.medium_inv else list(self.nominal)
        # physical layer
        self.osr = sim.pick([1, 2, 4, 8])
        self.span = sim.pick([1, 2, 4])
        self.pulse = sim.pick([None, 'rect', 'sinc', 'rcos'])
        self.beta = sim.pick([0.5, 0.25, 0.7])
        self.zi = None
        r = sim.data_rng()
        self.isi = None
        if sim.flip(0.35):
            self.isi = np.concatenate([[1.0], np.round(r.uniform(-0.4, 0.4, sim.integer(1, 3)), 3)])
            sim.probe('dfe_link')
        self.ch_zi = None
        self.dfe_mem = None
        self.quant = None
        if sim.flip(0.3):
            fr = sim.integer(5, 7)
            unsigned = self.con == 'OOK' and not self.table and self.isi is None and self.tx_inv == self.medium_inv and sim.flip(0.5)
            self.quant = (fr + 4 + sim.draw(2), fr, 'u' if unsigned else sim.pick(['s', 'ss']))
            sim.probe('quantised')
        self.noise = sim.pick([0.0, 0.1, 0.3, 0.39 if self.quant or self.isi is not None else 0.47]) * self.dist
        self.frames = []
        self.line = []              # level indices waiting to be sent (line order)
        self.rxbuf = []             # sliced line samples not yet assigned to a frame
        self.fill = 0
        self.delay = 0 if self.pulse is None else self.span * self.osr
        self.sent = 0
        self.wave = np.zeros(0)
        self.sampled = 0
        self.total = None

    # ------------------------------------------------------------------ logical transmit
    def make_frame(self):
        sim = self.sim
        n = sim.size(1, 48, 6)
        if sim.flip(0.02):
            n = sim.integer(300, 2500)
            sim.probe('long_frame')
        if n == 1:
            sim.probe('single_symbol_frame')
        r = sim.data_rng()
        rows = 1
        shape = None
        if sim.flip(0.25):
            rows = sim.integer(1, 4)
            shape = (rows, n)
            sim.probe('framed_2d')
        cnt = n * rows
        if self.code != 'none':
            sim.probe('line_code')
            bits = r.randint(0, 2, cnt)
            arr = bits.reshape(shape) if shape else bits
            fn = {'manchester': cdsp.tx.coding_manchester, 'bipolar': cdsp.tx.coding_bipolar, 'mlt3': cdsp.tx.coding_mlt3,
                  'diff_manchester': cdsp.tx.coding_differential_manchester}[self.code]
            keep = arr.copy()
            sym = sim.call(f'coding_{self.code}', fn, arr)
            sim.equal(arr, keep, 'input-modified', f'coding_{self.code}')
            want = line_code_ref(self.code, bits)
            if self.code == 'diff_manchester' and np.size(sym) and np.reshape(sym, -1)[0] != want[0]:
                want = 1 - want             # the starting polarity carries no information
            sim.equal(np.reshape(sym, -1), want, 'line-code', f'{self.code} of {bits.tolist()}')
            payload = bits
        else:
            if self.bps:
                extra = sim.draw(self.bps) if self.bps > 1 else 0
                bits = r.randint(0, 2, cnt * self.bps + extra)
                arr = bits.reshape(rows, -1) if shape and extra == 0 else bits
                keep = arr.copy()
                sym = sim.call('bin2symbol', cdsp.tx.bin2symbol, arr, self.m, **self.flags)
                sim.equal(arr, keep, 'input-modified', 'bin2symbol')
                payload = bits[:cnt * self.bps]
                if extra:
                    sim.probe('redundant_bits')
                want = self.symbols_ref(payload)
                sim.equal(sym, want, 'bit-to-symbol', f'{self.flags} of {payload.tolist()}')
            else:
                sym = r.randint(0, self.m, cnt)
                payload = sym.copy()
                want = np.array(sym)
            if shape:
                sym = np.reshape(sym, shape)
            con = ENUM[self.con]
            if self.gray:
                sym = sim.call('coding_gray', cdsp.tx.coding_gray, sym, con)
                want = np.array([ref.gray(int(v)) for v in want]) if self.m > 2 else want
                sim.equal(np.reshape(sym, -1), want, 'gray', f'{self.con}')
            if self.diff:
                sym = sim.call('coding_differential', cdsp.tx.coding_differential, sym, con)
                want = ref.differential(want, self.m)
                sim.equal(np.reshape(sym, -1), want, 'differential', f'{self.con}')
        kw = {}
        if self.gain != 1.0 or self.table:
            kw['levels'] = np.array(self.levels)
            sim.probe('custom_levels')
        lv = sim.call('mapping', cdsp.tx.mapping, sym, ENUM[self.con], full_scale=self.fs, pn_inv=self.tx_inv, **kw)
        if kw:
            sim.equal(kw['levels'], self.levels, 'input-modified', 'mapping levels')
        lv = np.asarray(lv)
        sgn = -1.0 if self.tx_inv else 1.0
        sim.close(np.reshape(lv, -1), [sgn * self.levels[int(v)] for v in want], 'mapping', f'{self.con} fs={self.fs}', tol=1e-9)
        f = dict(no=len(self.frames), n=len(want), shape=None if shape is None else tuple(np.shape(sym)), payload=payload,
                 sym=np.array(want, dtype=int), tx=np.reshape(lv, -1).astype(float))
        self.frames.append(f)
        sim.log('frame', self.id, f['no'], f['n'])
        return f

    def symbols_ref(self, bits):
        out = []
        fl = self.flags
        for k in range(0, len(bits), self.bps):
            g = [int(b) for b in bits[k:k + self.bps]]      # first bit is the least significant
            if self.bps > 1:
                if fl['bit_order_inv']:
                    g = g[::-1]
                if fl['inv_msb']:
                    g[-1] ^= 1
                if fl['inv_lsb']:
                    g[0] ^= 1
            if fl['pn_inv']:
                g = [1 - b for b in g]
            out.append(sum(b << i for i, b in enumerate(g)))
        return np.array(out, dtype=int)

    def bits_ref(self, syms):
        inv = {tuple([int(s)]): None for s in ()}
        del inv
        table = {}
        for v in range(1 << self.bps):
            bits = [(v >> i) & 1 for i in range(self.bps)]
            table[int(self.symbols_ref(bits)[0])] = bits
        return np.array([b for s in syms for b in table[int(s)]], dtype=int)

    # ------------------------------------------------------------------ physical layer, in chunks
    def transmit_chunk(self, tx, last):
        """tx: levels of a chunk of symbols; returns the received samples at symbol rate that became available."""
        sim = self.sim
        x = np.array(tx)
        if last and self.pulse is not None:
            x = np.concatenate([x, np.zeros(self.span)])        # flush the pulse tail
        if self.pulse is not None:
            if len(x) == 0:
                return np.zeros(0)
            y, self.zi = sim.call('pulse_shape', cdsp.channel.pulse_shape, x, osr=self.osr, span=self.span, pulse=self.pulse,
                                  beta=self.beta, zi=self.zi)
            self.wave = np.concatenate([self.wave, y])
            out = []
            while self.sampled * self.osr + self.delay < len(self.wave) and self.sampled < self.sent:
                out.append(self.wave[self.sampled * self.osr + self.delay])
                self.sampled += 1
            x = np.array(out)
        if self.medium_inv:
            x = -x
        return x

    def receive_chunk(self, x, glitch):
        """Noise, ISI, converter, equaliser and slicer over symbol-rate samples; returns line decisions."""
        sim = self.sim
        if len(x) == 0:
            return np.zeros(0)
        if self.isi is not None:
            x, self.ch_zi = sim.call('awgn_channel', cdsp.channel.awgn_channel, x, self.isi, np.array([1.0]), zi=self.ch_zi)
        if self.noise > 0:
            x = x + sim.data_rng().uniform(-self.noise, self.noise, len(x))
            sim.fault('noise', self.id, len(x))
        if glitch:
            x = np.array(x)
            for k, target in glitch.items():
                x[k] = target
        if self.quant is not None:
            b, fr, kind = self.quant
            args = (b, fr) if kind == 'u' and sim.flip(0.5) else (b, fr, kind)
            q = sim.call('quantize', cdsp.rx.quantize, x, *args)
            sim.close(q, convert(x, b, fr, kind), 'quantisation', f'{self.quant} of {np.round(x[:6], 4).tolist()}', tol=1.0,
                      scale=2.0 ** -40)
            x = np.asarray(q, dtype=float)
        lv = np.array(self.line_levels)
        if self.isi is not None:
            kw = {} if self.dfe_mem is None else {'zi_dfe': self.dfe_mem}
            x, self.dfe_mem = sim.call('ffe_dfe', cdsp.rx.ffe_dfe, x, dfe_taps=self.isi[1:], levels=lv, **kw)
        default = self.con == 'PAM4' and not self.fs and self.gain == 1.0 and not self.table
        dec = sim.call('slicer', cdsp.rx.slicer, x) if default and sim.flip(0.5) else sim.call('slicer', cdsp.rx.slicer, x, lv)
        return np.asarray(dec, dtype=float)

    # ------------------------------------------------------------------ logical receive
    def decode_frame(self, f, dec, rx_sym):
        """dec: line decisions of the frame; rx_sym: the level indices they stand for (reference)."""
        sim = self.sim
        sig = np.array(dec) / self.gain
        if self.table:
            sig = np.array([self.line_nominal[int(np.argmin(abs(np.array(self.line_levels) - v)))] for v in dec])
        elif sim.flip(0.15):
            sig = sig.astype(np.float32)
            sim.probe('single_precision')
        if f['shape'] is not None:
            sig = np.reshape(sig, f['shape'])
        keep = sig.copy()
        idx = sim.call('demapping', cdsp.rx.demapping, sig, ENUM[self.con], full_scale=self.fs,
                       pn_inv=self.tx_inv != self.medium_inv)
        sim.equal(sig, keep, 'input-modified', 'demapping')
        sim.equal(np.reshape(idx, -1), rx_sym, 'demapping', f'{self.con} fs={self.fs} frame {f["no"]}')
        want = np.array(rx_sym)
        con = ENUM[self.con]
        errs = int(np.sum(rx_sym != f['sym']))
        if self.code != 'none':
            fn = {'manchester': cdsp.rx.decoding_manchester, 'bipolar': cdsp.rx.decoding_bipolar,
                  'mlt3': cdsp.rx.decoding_mlt3, 'diff_manchester': cdsp.rx.decoding_differential_manchester}[self.code]
            out = sim.call(f'decoding_{self.code}', fn, idx)
            sim.equal(np.reshape(out, -1), f['payload'], 'payload', f'{self.code} frame {f["no"]}')
            return
        if self.diff:
            idx = sim.call('decoding_differential', cdsp.rx.decoding_differential, idx, con)
            want = ref.undifferential(want, self.m)
            sim.equal(np.reshape(idx, -1), want, 'decode-differential', f'{self.con} frame {f["no"]}')
        if self.gray:
            idx = sim.call('decoding_gray', cdsp.rx.decoding_gray, idx, con)
            want = np.array([ref.ungray(int(v)) for v in want]) if self.m > 2 else want
            sim.equal(np.reshape(idx, -1), want, 'decode-gray', f'{self.con} frame {f["no"]}')
        if self.bps:
            out = sim.call('symbol2bin', cdsp.rx.symbol2bin, idx, self.m, **self.flags)
            sim.equal(out, self.bits_ref(want), 'symbol-to-bit', f'{self.flags} frame {f["no"]}')
        else:
            out = np.reshape(idx, -1)
        wrong = int(np.sum(np.asarray(out) != f['payload']))
        if errs == 0:
            sim.check(wrong == 0, 'payload', lambda: f'frame {f["no"]}: {wrong} wrong values on a clean line')
        else:
            if self.gray and not self.diff and self.bps:
                sim.probe('gray_single_bit')
                sim.check(wrong == errs, 'gray-containment', lambda: f'{errs} adjacent-level errors gave {wrong} bit errors')
            if self.diff and not self.gray and self.bps != 2:
                sim.probe('differential_two_symbols')
                sim.check(wrong <= 2 * errs, 'differential-containment', lambda: f'{errs} errors gave {wrong} wrong values')


def line_code_ref(code, bits):
    out = []
    if code == 'manchester':
        for b in bits:
            out += [1, 0] if b else [0, 1]
    elif code == 'bipolar':
        sign = -1
        for b in bits:
            if b:
                out.append(1 + sign)
                sign = -sign
            else:
                out.append(1)
    elif code == 'mlt3':
        cyc = [0, 1, 2, 1]
        k = 0
        for b in bits:
            k = (k + int(b)) % 4
            out.append(cyc[k])
    elif code == 'diff_manchester':
        last = 0
        for b in bits:
            first = 1 - last                    # always a transition between bits (the line idles low)
            second = first if b else 1 - first
            out += [first, second]
            last = second
    return np.array(out, dtype=int)


def convert(x, bits, frac, kind):
    """The converter's representable value nearest to every sample; samples half way are judged against the library's choice of
    either neighbour by the caller's tolerance, so the reference avoids them."""
    lsb = 2.0 ** -frac
    lo, hi = {'u': (0, 2 ** bits - 1), 's': (-2 ** (bits - 1), 2 ** (bits - 1) - 1), 'ss': (1 - 2 ** (bits - 1), 2 ** (bits - 1) - 1)}[kind]
    v = np.asarray(x, dtype=float) / lsb
    return np.clip(np.ceil(v - 0.5), lo, hi) * lsb


def converter(sim, r):
    """A stand-alone converter: any format, over-range samples, frames, integer samples."""
    bits, frac, kind = sim.size(2, 14, 9), sim.integer(0, 18) - 4, sim.pick(['u', 's', 'ss'])
    if bits > 10:
        sim.probe('fine_converter')
    lsb = 2.0 ** -frac
    n = sim.pick([1, 5, 24])
    x = r.uniform(-1.5, 1.5, n) * 2 ** bits * lsb
    if sim.flip(0.3):
        x = np.round(x).astype(int)
    v = x / lsb
    x = x[np.abs(v - np.floor(v) - 0.5) > 1e-6]             # half way between two levels either is nearest
    if len(x) == 0:
        return
    if np.max(x) > 2 ** bits * lsb:
        sim.probe('over_range')
    shaped = x.reshape(1, -1) if sim.flip(0.2) else x
    keep = np.array(shaped)
    q = sim.call('quantize', cdsp.rx.quantize, shaped, bits, frac, kind)
    sim.equal(shaped, keep, 'input-modified', 'quantize')
    sim.check(np.shape(q) == np.shape(shaped), 'shape', f'quantize: {np.shape(q)} for {np.shape(shaped)}')
    sim.close(np.reshape(q, -1), convert(x, bits, frac, kind), 'quantisation', f'({bits}, {frac}, {kind}) of {x[:6].tolist()}', tol=1.0,
              scale=lsb * 1e-9)


def odd_levels(sim, m):
    """Increasing, unequally spaced levels; sometimes symmetric, sometimes with equal outer distances."""
    r = sim.data_rng()
    d = np.round(r.uniform(0.5, 2.0, max(1, m - 1)), 2)
    if sim.flip(0.5):
        d = np.where(np.arange(len(d)) < len(d) / 2, d, d[::-1])
    lv = np.concatenate([[0.0], np.cumsum(d)])
    return [float(v) for v in np.round(lv - (lv[-1] / 2 if sim.flip(0.7) else float(np.round(r.uniform(0, 2), 2))), 4)]


def decisions(sim, r):
    """A stand-alone slicer: any increasing levels, any samples, frames; every decision is a nearest level."""
    lv = np.array(odd_levels(sim, sim.size(2, 300, 8) if sim.flip(0.2) else sim.integer(2, 8)))
    if sim.flip(0.2):
        lv = np.sort(np.round(lv * 4)).astype(int)
        if len(set(lv.tolist())) < len(lv):
            return
    n = sim.pick([1, 6, 40])
    x = r.uniform(lv[0] - 2, lv[-1] + 2, n)
    mids = (lv[1:] + lv[:-1]) / 2
    k = r.randint(0, len(mids), n)
    x = np.where(r.rand(n) < 0.4, mids[k] + r.choice([-1, 1], n) * r.uniform(0.001, 0.05, n), x)
    if sim.flip(0.2):
        x = np.round(x).astype(int)
    if sim.flip(0.1):
        x = x.reshape(1, -1) if sim.flip(0.5) else x.reshape(-1, 1)
    elif n % 2 == 0 and sim.flip(0.2):
        x = x.reshape(2, -1)
    keep, klv = x.copy(), lv.copy()
    d = np.asarray(sim.call('slicer', cdsp.rx.slicer, x, lv))
    sim.probe('stand_alone_slicer')
    sim.equal(x, keep, 'input-modified', 'slicer')
    sim.equal(lv, klv, 'input-modified', 'slicer levels')
    sim.check(d.shape == x.shape, 'shape', f'slicer: {d.shape} for {x.shape}')
    best = np.min(abs(x.reshape(-1, 1) - lv[None, :]), axis=1)
    got = abs(x.reshape(-1) - d.reshape(-1))
    sim.check(bool(np.all(np.isin(d.reshape(-1), lv))), 'slicer', lambda: f'decisions {d.tolist()} outside the levels {lv.tolist()}')
    sim.check(bool(np.all(got <= best + 1e-9)), 'slicer', lambda: f'levels {lv.tolist()} samples {x.reshape(-1)[got > best + 1e-9][:3].tolist()}: decided '
              f'{d.reshape(-1)[got > best + 1e-9][:3].tolist()}')


def long_haul(sim, r):
    """Codes over tens of thousands of symbols, in one call, against closed forms."""
    n = sim.integer(15000, 70000)
    con = sim.pick(['PAM3', 'PAM4', 'NRZ', 'OOK'])
    m = len(ref.LEVELS[con])
    x = r.randint(0, m, n) if sim.flip(0.5) else np.where(r.rand(n) < 0.9, m - 1, 0)
    sim.probe('long_haul')
    sim.log('long', con, n, data=x)
    y = sim.call('coding_differential', cdsp.tx.coding_differential, x, ENUM[con])
    sim.equal(y, np.cumsum(x) % m, 'differential', f'{con}, {n} symbols')
    sim.equal(sim.call('decoding_differential', cdsp.rx.decoding_differential, y, ENUM[con]), x, 'decode-differential', f'{con}, {n} symbols')
    bits = r.randint(0, 2, n) if sim.flip(0.5) else np.ones(n, dtype=int)
    ones = np.cumsum(bits)
    c = sim.call('coding_bipolar', cdsp.tx.coding_bipolar, bits)
    sim.equal(c, np.where(bits == 1, np.where(ones % 2 == 1, 0, 2), 1), 'line-code', f'bipolar of {n} bits')
    sim.equal(sim.call('decoding_bipolar', cdsp.rx.decoding_bipolar, c), bits, 'payload', f'bipolar, {n} bits')
    c = sim.call('coding_mlt3', cdsp.tx.coding_mlt3, bits)
    sim.equal(c, np.array([0, 1, 2, 1])[ones % 4], 'line-code', f'mlt3 of {n} bits')
    c = sim.call('coding_differential_manchester', cdsp.tx.coding_differential_manchester, bits)
    sim.equal(sim.call('decoding_differential_manchester', cdsp.rx.decoding_differential_manchester, c), bits, 'payload', f'diff_manchester, {n} bits')
    edge = np.diff(c)[1::2]
    sim.check(bool(np.all(edge != 0)), 'line-code', lambda: f'differential Manchester: no transition between bits at {np.flatnonzero(edge == 0)[:3].tolist()}')


def wide_symbols(sim, r):
    """Bits to symbols of any power-of-two alphabet and back, all flags, frames, redundant bits."""
    bps = sim.size(1, 16, 8)
    f = dict(bit_order_inv=sim.flip(0.4), inv_msb=sim.flip(0.4), inv_lsb=sim.flip(0.4), pn_inv=sim.flip(0.4))
    n = sim.pick([1, 4, 30])
    bits = r.randint(0, 2, n * bps)
    extra = sim.draw(bps)
    arr = np.concatenate([bits, r.randint(0, 2, extra)])
    if extra == 0 and n % 2 == 0 and sim.flip(0.3):
        arr = arr.reshape(2, -1)
    if sim.flip(0.2):
        arr = arr.astype(sim.pick([np.int8, np.int32, np.float64]))
    want = []
    for k in range(n):
        w = [int(v) for v in bits[k * bps:(k + 1) * bps]]      # first bit is the least significant
        if bps > 1:
            if f['bit_order_inv']:
                w.reverse()
            if f['inv_msb']:
                w[-1] ^= 1
            if f['inv_lsb']:
                w[0] ^= 1
        if f['pn_inv']:
            w = [1 - v for v in w]
        want.append(sum(v << i for i, v in enumerate(w)))
    keep = arr.copy()
    sym = sim.call('bin2symbol', cdsp.tx.bin2symbol, arr, 2 ** bps, **f)
    sim.equal(arr, keep, 'input-modified', 'bin2symbol')
    sim.probe('wide_symbols')
    sim.equal(sym, want, 'bit-to-symbol', f'{2 ** bps} symbols, {f} of {bits[:12].tolist()}')
    sym = np.array(sym)
    sym2 = sym.reshape(2, -1) if n % 2 == 0 and sim.flip(0.3) else sym
    back = sim.call('symbol2bin', cdsp.rx.symbol2bin, sym2, 2 ** bps, **f)
    sim.equal(sym, want, 'input-modified', 'symbol2bin')
    sim.equal(back, bits, 'payload', f'{2 ** bps} symbols, {f} of {want[:8]}')


class Session:
    """Frames of one link: sent in order over the line, losses repaired by retransmission."""

    def __init__(self, sim, link):
        self.sim, self.l = sim, link
        self.todo = [link.make_frame()['no'] for _ in range(sim.integer(1, 4))]
        self.got = set()
        self.onair = []            # frames whose symbols are on the line, in order
        self.txq = np.zeros(0)
        self.rxq = np.zeros(0)
        self.rxsym = np.zeros(0, dtype=int)
        self.attempts = 0
        if len(self.todo) > 1 and sim.flip(0.3):
            sim.fault('frame_reorder', link.id)
            self.todo = sim.shuffled(self.todo)
        if sim.flip(0.2):
            sim.fault('frame_dup', link.id, self.todo[0])
            self.todo.append(self.todo[0])

    def step(self):
        sim, l = self.sim, self.l
        if self.todo and (len(self.txq) == 0 or sim.flip(0.5)):
            no = self.todo.pop(0)
            f = l.frames[no]
            self.onair.append(no)
            self.txq = np.concatenate([self.txq, f['tx']])
            sim.log('send', l.id, no)
        n = min(len(self.txq), sim.size(1, 64, 8) if len(self.txq) < 300 else sim.integer(200, 3000)) if len(self.txq) else 0
        last = not self.todo and n == len(self.txq)
        chunk, self.txq = self.txq[:n], self.txq[n:]
        l.sent += n
        x = l.transmit_chunk(chunk, last)
        true = x / 1.0
        lv = np.array(l.line_levels)
        idx = np.array([int(np.argmin(abs(lv - v))) for v in true], dtype=int)
        glitch = {}
        if l.isi is None and l.code == 'none' and len(x) and sim.flip(0.3):
            for k in range(min(len(x), sim.integer(1, 2))):
                p = sim.draw(len(x))
                d = -1 if (idx[p] > 0 and (idx[p] == len(lv) - 1 or sim.flip(0.5))) else 1
                if p in glitch:
                    continue
                idx[p] += d
                glitch[p] = lv[idx[p]]
                sim.fault('glitch', l.id, p, d)
        if l.isi is None and len(x) and sim.flip(0.2):
            p = sim.draw(len(x))
            if p not in glitch and idx[p] in (0, len(lv) - 1):
                glitch[p] = lv[idx[p]] + (1 if idx[p] else -1) * sim.pick([3, 40, 1000]) * l.dist       # overload: outermost stays outermost
                sim.fault('overload', l.id, p)
        if sim.flip(0.15):
            decisions(sim, sim.data_rng())
        if sim.flip(0.004):
            long_haul(sim, sim.data_rng())
        if sim.flip(0.1):
            wide_symbols(sim, sim.data_rng())
        if sim.flip(0.15):
            converter(sim, sim.data_rng())
        dec = l.receive_chunk(np.array(x), glitch)
        sim.log('line', l.id, n, len(x), data=dec)
        sim.close(dec, lv[idx], 'slicer', f'link {l.id} {l.con} fs={l.fs} noise={l.noise:.3f}', tol=1e-9)
        if l.tx_inv != l.medium_inv:
            idx = len(lv) - 1 - idx
        self.rxq = np.concatenate([self.rxq, dec])
        self.rxsym = np.concatenate([self.rxsym, idx])
        while self.onair and len(self.rxq) >= l.frames[self.onair[0]]['n']:
            no = self.onair.pop(0)
            f = l.frames[no]
            d, self.rxq = self.rxq[:f['n']], self.rxq[f['n']:]
            s, self.rxsym = self.rxsym[:f['n']], self.rxsym[f['n']:]
            if self.attempts < 3 and sim.flip(0.1):
                self.attempts += 1
                sim.fault('frame_loss', l.id, no)
                self.todo.append(no)
                if last and l.pulse is not None:
                    # the line was flushed: a new transmission burst starts
                    l.zi, l.wave, l.sampled, l.sent = None, np.zeros(0), 0, 0
                continue
            l.decode_frame(f, d, s)
            self.got.add(no)
        if last and l.pulse is not None and self.todo and l.sent:
            l.zi, l.wave, l.sampled, l.sent = None, np.zeros(0), 0, 0
        if self.todo or len(self.txq) or self.onair:
            sim.after(1 + sim.draw(5), self.step)


def run(sim):
    ss = [Session(sim, Link(sim, k)) for k in range(sim.integer(1, 3))]
    for s in ss:
        sim.after(sim.draw(5), s.step)
    while sim.step():
        if sim.steps > 4000:
            raise Violation('no-progress', 'frames undelivered')
    for s in ss:
        sim.check(s.got == set(range(len(s.l.frames))), 'undelivered', lambda: f'delivered {sorted(s.got)}')
