"""Every deterministic public operation of CommDspy with in-domain argument generators.

An Op has named private arrays and a body that performs one or more library calls on exactly those arrays and returns a list
of results.  The body never touches the arrays itself, so any change of them is the library's doing."""
import numpy as np

import CommDspy as cdsp
from CommDspy.misc.help_classes import FfeDfeFilterTII, Filter, FilterTII
from CommDspy.misc.least_squares import least_squares

CON = [cdsp.ConstellationEnum[k] for k in ('NRZ', 'OOK', 'PAM3', 'PAM4')]
BIN = [cdsp.ConstellationEnum.NRZ, cdsp.ConstellationEnum.OOK]
BITCON = [cdsp.ConstellationEnum[k] for k in ('NRZ', 'OOK', 'PAM4')]
NLEV = {cdsp.ConstellationEnum.NRZ: 2, cdsp.ConstellationEnum.OOK: 2, cdsp.ConstellationEnum.PAM3: 3,
        cdsp.ConstellationEnum.PAM4: 4}


class Op:
    def __init__(self, name, arrays, body):
        self.name, self.arrays, self.body = name, arrays, body
        self.keep = {k: v.copy() for k, v in arrays.items()}
        self.write = {k: v.flags.writeable for k, v in arrays.items()}

    def run(self):
        out = self.body(**self.arrays)
        return out if isinstance(out, list) else [out]

    def modified(self):
        for k, v in self.arrays.items():
            w = self.keep[k]
            if v.dtype != w.dtype or v.shape != w.shape or v.tobytes() != w.tobytes() or v.flags.writeable != self.write[k]:
                return k
        return None


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def _flags(sim):
    return dict(bit_order_inv=sim.flip(0.4), inv_msb=sim.flip(0.4), inv_lsb=sim.flip(0.4), pn_inv=sim.flip(0.4))


def _bits(sim, lo=1, hi=300, small=20):
    return sim.data_rng().randint(0, 2, sim.size(lo, hi, small))


def _prbs(sim):
    return sim.pick([cdsp.PrbsEnum.PRBS7, cdsp.PrbsEnum.PRBS9])


def _seed(sim, deg):
    s = sim.data_rng().randint(0, 2, deg)
    if not s.any():
        s[0] = 1
    return s


def _levels(sim):
    return np.array(sim.pick([[-1.0, 1.0], [-3.0, -1.0, 1.0, 3.0], [0.0, 1.0], [-1.0, 0.0, 1.0], [-0.9, -0.3, 0.3, 0.9]]))


def _fir(sim, lo=1, hi=6):
    b = np.round(sim.data_rng().uniform(-1, 1, sim.integer(lo, hi)), 3)
    b[0] += 1.5
    return b


def _iir(sim):
    return np.concatenate([[1.0], np.round(sim.data_rng().uniform(-0.3, 0.3, sim.integer(0, 3)), 3)])


def _wave(sim, lo=2, hi=150, small=30, levels=None):
    n = sim.size(lo, hi, small)
    r = sim.data_rng()
    lv = np.array([-3.0, -1, 1, 3]) if levels is None else levels
    w = np.round(lv[r.randint(0, len(lv), n)] + r.uniform(-0.3, 0.3, n), 4)
    if sim.flip(0.2):                   # an outlier far beyond every level
        sim.probe('outlier')
        w[r.randint(0, n)] = sim.pick([80.0, -250.0, 12.5])
    return w


@op
def prbs_gen(sim):
    t = sim.pick(list(cdsp.PrbsEnum)) if sim.flip(0.3) else _prbs(sim)
    if t.value not in (7, 9, 11, 13, 15, 31):
        t = cdsp.PrbsEnum.PRBS7
    n = sim.size(1, 300, 30)
    return Op('tx.prbs_gen', dict(seed=_seed(sim, t.value), poly=cdsp.get_polynomial(t)),
              lambda seed, poly: list(cdsp.tx.prbs_gen(poly, seed, n)))


@op
def prbs_iterator(sim):
    t = _prbs(sim)
    n = sim.size(1, 40, 10)

    def body(seed, poly):
        it = iter(cdsp.tx.PrbsIterator(poly, seed))
        return [np.array([next(it) for _ in range(n)])]
    return Op('tx.PrbsIterator', dict(seed=_seed(sim, t.value), poly=cdsp.get_polynomial(t)), body)


@op
def bin2symbol(sim):
    f, m = _flags(sim), sim.pick([2, 4])
    return Op('tx.bin2symbol', dict(bits=_bits(sim, 2)), lambda bits: cdsp.tx.bin2symbol(bits, m, **f))


@op
def symbol2bin(sim):
    f, m = _flags(sim), sim.pick([2, 4])
    s = sim.data_rng().randint(0, m, sim.size(1, 60, 8))
    return Op('rx.symbol2bin', dict(s=s), lambda s: cdsp.rx.symbol2bin(s, m, **f))


def _sym(sim, con):
    s = sim.data_rng().randint(0, NLEV[con], sim.size(1, 200, 8))
    if len(s) % 2 == 0 and sim.flip(0.3):
        s = s.reshape(2, -1)
    return s


@op
def gray(sim):
    con, enc = sim.pick(BITCON), sim.flip(0.5)
    fn = cdsp.tx.coding_gray if enc else cdsp.rx.decoding_gray
    return Op('coding_gray' if enc else 'decoding_gray', dict(s=_sym(sim, con)), lambda s: fn(s, con))


@op
def differential(sim):
    con, enc = sim.pick(CON), sim.flip(0.5)
    fn = cdsp.tx.coding_differential if enc else cdsp.rx.decoding_differential
    return Op('coding_differential' if enc else 'decoding_differential', dict(s=_sym(sim, con)), lambda s: fn(s, con))


@op
def line_encoder(sim):
    name = sim.pick(['coding_manchester', 'coding_bipolar', 'coding_mlt3', 'coding_differential_manchester'])
    fn = getattr(cdsp.tx, name)
    return Op(name, dict(bits=_bits(sim)), lambda bits: fn(bits))


@op
def line_decoder(sim):
    name = sim.pick(['decoding_manchester', 'decoding_differential_manchester', 'decoding_bipolar', 'decoding_mlt3'])
    fn = getattr(cdsp.rx, name)
    r = sim.data_rng()
    if 'manchester' in name:
        s = r.randint(0, 2, 2 * sim.size(1, 100, 8))
    else:
        s = r.randint(0, 3, sim.size(1, 200, 10))
    kw = {'error_detection': True} if name == 'decoding_bipolar' and sim.flip(0.6) else {}
    return Op(name, dict(s=s), lambda s: fn(s, **kw))


@op
def linear_code(sim):
    r = sim.data_rng()
    k = sim.integer(1, 4)
    G = r.randint(0, 2, (k, k + sim.integer(1, 4)))
    G[:, :k] = np.eye(k, dtype=int)
    if sim.flip(0.4):
        return Op('tx.coding_linear', dict(bits=_bits(sim), G=G), lambda bits, G: cdsp.tx.coding_linear(bits, G))
    p = sim.flip(0.5)
    bits = r.randint(0, 2, G.shape[1] * sim.integer(1, 8) + sim.draw(3))
    return Op('rx.decoding_linear', dict(bits=bits, G=G),
              lambda bits, G: list(cdsp.rx.decoding_linear(bits, G, True)) if p else cdsp.rx.decoding_linear(bits, G))


@op
def conv_code(sim):
    r = sim.data_rng()
    n_in, n_out = sim.pick([(1, 2), (2, 3)])
    m = [sim.integer(1, 2) for _ in range(n_in)]
    arrays = {f'G{i}': r.randint(0, 2, (n_out, m[i] + 1)) for i in range(n_in)}
    fb = sim.flip(0.4)
    if fb:
        uf = np.zeros((n_in, n_out), dtype=int)
        uf[0] = 1
        arrays['uf'] = uf
        arrays['fb'] = np.concatenate([[1], r.randint(0, 2, m[0])])
    kind = sim.pick(['enc', 'viterbi', 'ml'])
    chunks = sim.integer(1, 4)
    tb = n_out * chunks
    p = sim.flip(0.5)
    arrays['bits'] = r.randint(0, 2, sim.size(1, 60, 12)) if kind == 'enc' else r.randint(0, 2, tb * sim.integer(1, 5) + sim.draw(2))

    def body(bits, uf=None, fb=None, **g):
        G = {i: g[f'G{i}'] for i in range(n_in)}
        kw = {} if fb is None else dict(feedback={0: fb}, use_feedback=uf)
        if kind == 'enc':
            return cdsp.tx.coding_conv(bits, G, **kw)
        fn = cdsp.rx.decoding_conv_viterbi if kind == 'viterbi' else cdsp.rx.decoding_conv_ml
        out = fn(bits, G, tb, error_prob=p, **kw)
        return list(out) if isinstance(out, tuple) else out
    return Op({'enc': 'tx.coding_conv', 'viterbi': 'rx.decoding_conv_viterbi', 'ml': 'rx.decoding_conv_ml'}[kind], arrays, body)


@op
def mapping(sim):
    con, fs, inv = sim.pick(CON), sim.flip(0.5), sim.flip(0.4)
    arrays = dict(s=_sym(sim, con))
    if sim.flip(0.3):
        arrays['levels'] = np.sort(np.round(sim.data_rng().uniform(-2, 2, NLEV[con]), 3))
    return Op('tx.mapping', arrays, lambda s, levels=None: cdsp.tx.mapping(s, con, fs, levels, inv))


@op
def demapping(sim):
    con, fs, inv = sim.pick(CON), sim.flip(0.5), sim.flip(0.4)
    s = _sym(sim, con)
    lv = cdsp.get_levels(con, fs)
    return Op('rx.demapping', dict(s=lv[s] * (-1 if inv else 1)), lambda s: cdsp.rx.demapping(s, con, fs, inv))


@op
def slicer(sim):
    lv = _levels(sim)
    w = _wave(sim, levels=lv)
    if len(w) % 2 == 0 and sim.flip(0.4):
        w = w.reshape(2, -1)
    if sim.flip(0.2):
        return Op('rx.slicer', dict(w=w), lambda w: cdsp.rx.slicer(w))
    return Op('rx.slicer', dict(w=w, lv=lv), lambda w, lv: cdsp.rx.slicer(w, lv))


@op
def quantize(sim):
    b, fr, k = sim.integer(2, 8), sim.integer(-1, 4), sim.pick(['u', 's', 'ss'])
    return Op('rx.quantize', dict(w=_wave(sim)), lambda w: cdsp.rx.quantize(w, b, fr, k))


@op
def lock(sim):
    r = sim.data_rng()
    n = sim.integer(5, 60)
    if sim.flip(0.5):
        p = r.randint(0, 2, n)
        return Op('rx.lock_pattern_to_signal_binary', dict(p=p, s=np.roll(p, sim.draw(n))),
                  lambda p, s: list(cdsp.rx.lock_pattern_to_signal_binary(p, s)))
    p = np.round(r.uniform(-1, 1, n), 3)
    return Op('rx.lock_pattern_to_signal', dict(p=p, s=np.resize(np.roll(p, sim.draw(n)), n + sim.draw(20))),
              lambda p, s: list(cdsp.rx.lock_pattern_to_signal(p, s)))


@op
def checker(sim):
    t = cdsp.PrbsEnum.PRBS7
    from dst import ref
    cyc = ref.prbs_cycle(7)
    n = sim.integer(140, 300)
    bits = np.resize(np.roll(cyc, -sim.draw(127)), n)
    bits[sim.data_rng().randint(0, n, sim.draw(4))] ^= 1
    th = sim.pick([100, 5, 1])
    if sim.flip(0.5):
        lock_ = sim.flip(0.3)
        arrays = dict(bits=bits)
        if sim.flip(0.5):
            arrays['seq'] = cyc.copy()
        return Op('rx.prbs_checker', arrays, lambda bits, seq=None: list(cdsp.rx.prbs_checker(t, bits, lock_, th, seq)))
    return Op('rx.prbs_checker_econ', dict(bits=bits), lambda bits: list(cdsp.rx.prbs_checker_econ(t, bits, th)))


@op
def ctle(sim):
    r = sim.data_rng()
    z = -np.sort(r.uniform(0.2e9, 3e9, sim.integer(1, 2)))
    p = -np.sort(r.uniform(3e9, 30e9, sim.integer(2, 3)))
    g, fs, osr = sim.pick([-6.0, 0.0, -3.0]), 10e9, sim.pick([2, 4, 8])
    if sim.flip(0.3):
        return Op('rx.get_ctle_filter', dict(z=z, p=p), lambda z, p: list(cdsp.rx.get_ctle_filter(z, p, g, fs, osr)))
    w = _wave(sim)
    k = sim.draw(len(w))

    def body(w, z, p):
        a, m = cdsp.rx.ctle(w[:k + 1], z, p, g, fs, osr, np.zeros(max(len(z), len(p))))
        if k + 1 < len(w):
            b, m = cdsp.rx.ctle(w[k + 1:], z, p, g, fs, osr, m)
            return [a, b, m]
        return [a, m]
    return Op('rx.ctle', dict(w=w, z=z, p=p), body)


@op
def ffe_dfe(sim):
    lv = _levels(sim)
    w = _wave(sim, 4, levels=lv)
    arrays = dict(w=w, lv=lv)
    if sim.flip(0.7):
        arrays['ffe'] = _fir(sim, 2)
    if sim.flip(0.7):
        arrays['dfe'] = np.round(sim.data_rng().uniform(-0.3, 0.3, sim.integer(1, 3)), 3)
    if 'ffe' in arrays and sim.flip(0.4):
        arrays['zf'] = np.round(sim.data_rng().uniform(-1, 1, len(arrays['ffe']) - sim.draw(2)), 3)
    if 'dfe' in arrays and sim.flip(0.4):
        arrays['zd'] = lv[sim.data_rng().randint(0, len(lv), len(arrays['dfe']))]

    def body(w, lv, ffe=None, dfe=None, zf=None, zd=None):
        kw = dict(levels=lv)
        if ffe is not None:
            kw['ffe_taps'] = ffe
        if dfe is not None:
            kw['dfe_taps'] = dfe
        if zf is not None:
            kw['zi_ffe'] = zf
        if zd is not None:
            kw['zi_dfe'] = zd
        out = cdsp.rx.ffe_dfe(w, **kw)
        return list(out) if isinstance(out, tuple) else out
    return Op('rx.ffe_dfe', arrays, body)


@op
def lms(sim):
    lv = _levels(sim)
    y = _wave(sim, 8, levels=lv)
    soft = sim.flip(0.5)
    sg = sim.pick([1.0, 0.3])
    arrays = dict(x=np.roll(y, 1) * 0.3 + y, y=y, lv=lv)
    if sim.flip(0.7):
        arrays['fi'] = np.arange(-sim.draw(3), sim.integer(1, 3))
    if sim.flip(0.7):
        arrays['di'] = np.arange(1, sim.integer(2, 4))
    if sim.flip(0.5):
        arrays['rv'] = lv[sim.data_rng().randint(0, len(lv), len(y))]

    def body(x, y, lv, fi=None, di=None, rv=None):
        kw = {}
        if fi is not None:
            kw['ffe_tap_idx'] = fi
        if di is not None:
            kw['dfe_tap_idx'] = di
        if rv is not None:
            kw['reference_vec'] = rv
        out = cdsp.rx.soft_ddlms_grad(x, y, lv, sg, **kw) if soft else cdsp.rx.ddlms_grad(x, y, lv, **kw)
        return list(out) if isinstance(out, tuple) else out
    return Op('rx.soft_ddlms_grad' if soft else 'rx.ddlms_grad', arrays, body)


@op
def cdr(sim):
    lv = _levels(sim)
    y = _wave(sim, 4, levels=lv)
    tol = sim.pick([1e-3, 0.05])
    return Op('rx.mueller_muller_step', dict(y=y, r=np.roll(y, sim.draw(3))),
              lambda y, r: cdsp.rx.mueller_muller_step(y, r, 1, 0.8, tol))


@op
def pulse_shape(sim):
    kind, osr, span = sim.pick(['rect', 'sinc', 'rcos', 'rrc', 'imp']), sim.integer(1, 6), sim.integer(1, 4)
    beta = sim.pick([0.5, 0.25, 0.9])
    arrays = dict(s=np.array([-3.0, -1, 1, 3])[sim.data_rng().randint(0, 4, sim.size(1, 40, 8))])
    if sim.flip(0.4) and kind != 'imp':
        arrays['zi'] = np.round(sim.data_rng().uniform(-1, 1, 2 * osr * span - 1), 3)
    return Op('channel.pulse_shape', arrays,
              lambda s, zi=None: list(cdsp.channel.pulse_shape(s, osr, span, kind, beta, zi=zi)))


@op
def pulses(sim):
    kind, osr, span = sim.pick(['rect', 'sinc', 'rcos', 'rrc']), sim.integer(1, 8), sim.integer(1, 4)
    beta = sim.pick([0.5, 0.25, 0.9])
    a = (osr, span) + ((beta,) if kind in ('rcos', 'rrc') else ())
    fn = getattr(cdsp.channel, kind + '_pulse')
    arrays = {}
    if sim.flip(0.3):
        arrays['t'] = np.round(sim.data_rng().uniform(-3, 3, 12), 3)
    return Op(f'channel.{kind}_pulse', arrays, lambda t=None: fn(*a, t=t))


@op
def awgn_channel(sim):
    b, a = _fir(sim), _iir(sim)
    arrays = dict(w=_wave(sim), b=b, a=a)
    if sim.flip(0.5):
        arrays['zi'] = np.round(sim.data_rng().uniform(-1, 1, max(len(a), len(b)) - 1), 3)
    return Op('channel.awgn_channel', arrays, lambda w, b, a, zi=None: list(cdsp.channel.awgn_channel(w, b, a, zi=zi)))


@op
def helpers(sim):
    r = sim.data_rng()
    k = sim.draw(13)
    con, fs = sim.pick(CON), sim.flip(0.5)
    t = sim.pick([q for q in cdsp.PrbsEnum if q.value in (7, 9, 11, 13, 15, 31)])
    n = sim.integer(1, 6)
    wide = sim.size(1, 24, 6)
    rate = sim.integer(1, 5)
    w = _wave(sim)
    if k == 0:
        return Op('get_polynomial', {}, lambda: cdsp.get_polynomial(t))
    if k == 1:
        return Op('get_levels', {}, lambda: cdsp.get_levels(con, fs))
    if k == 2:
        return Op('power', dict(w=w), lambda w: cdsp.power(w))
    if k == 3:
        return Op('rms', dict(w=w), lambda w: cdsp.rms(w))
    if k == 4:
        L = sim.integer(2, 8)
        ov = sim.integer(0, L - 1)
        d = sim.draw(3)
        return Op('buffer', dict(w=np.concatenate([w, np.arange(20.0)])), lambda w: cdsp.buffer(w, L, ov, d))
    if k == 5:
        return Op('upsample', dict(w=w), lambda w: cdsp.upsample(w, rate))
    if k == 6:
        return Op('zoh', dict(w=w), lambda w: cdsp.zoh(w, rate))
    if k == 7:
        q = sim.pick([2, 4, 8, 16])
        return Op('get_gray_level_vec', {}, lambda: cdsp.get_gray_level_vec(q))
    if k == 8:
        return Op('get_bin_perm', {}, lambda: cdsp.get_bin_perm(n))
    if k == 9:
        return Op('hamming', dict(p=r.randint(0, 2, (3, n)), c=r.randint(0, 2, (5, n))), lambda p, c: list(cdsp.hamming(p, c)))
    if k == 10:
        return Op('bin2uint', dict(b=r.randint(0, 2, (4, wide))), lambda b: cdsp.bin2uint(b))
    if k == 11:
        return Op('uint2bin', dict(v=r.randint(0, 2 ** wide, 7)), lambda v: cdsp.uint2bin(v, wide))
    m = _flags(sim)
    del m
    return Op('least_squares', dict(A=r.uniform(-1, 1, (20, 3)), b=r.uniform(-1, 1, 20)),
              lambda A, b: [least_squares(A, b, 'ridge', 0.1)[0] if fs else least_squares(A, b)[0]])


@op
def interpolation(sim):
    n, al, fw = sim.integer(1, 7), sim.uniform(0.05, 0.95), sim.flip(0.5)
    k = sim.draw(4)
    if k == 3:
        return Op('dig_delay_rcos_coeffs', {}, lambda: cdsp.dig_delay_rcos_coeffs(n, al, fw, 0.3))
    if k == 0:
        return Op('dig_delay_lagrange_coeffs', {}, lambda: cdsp.dig_delay_lagrange_coeffs(n, al, fw))
    if k == 1:
        return Op('dig_delay_sinc_coeffs', {}, lambda: cdsp.dig_delay_sinc_coeffs(n, al, fw))
    osr, meth = sim.integer(1, 5), sim.pick(['sinc', 'lagrange', 'rcos'])
    return Op('digital_oversample', dict(w=_wave(sim, 12)), lambda w: list(cdsp.digital_oversample(w, osr, n, meth, 0.3)))


@op
def eye(sim):
    osr = sim.pick([4, 8])
    up, log = sim.pick([1, 2]), sim.flip(0.5)
    w = sim.data_rng().uniform(-1, 1, osr * sim.integer(4, 10))
    if up > 1:
        w = np.concatenate([w, w[:osr]])
    return Op('eye_diagram', dict(w=w), lambda w: list(cdsp.eye_diagram(w, osr, osr * up, 1, 16, log)))


@op
def estimation(sim):
    from dst import ref
    t = cdsp.PrbsEnum.PRBS7
    cyc = 2.0 * ref.prbs_cycle(7) - 1
    h = np.concatenate([[1.0], np.round(sim.data_rng().uniform(-0.3, 0.3, 2), 3)])
    rx = np.convolve(np.tile(cyc, 3), h)[127:381] + 0.0
    rx = np.roll(rx, sim.draw(100)) + np.round(sim.data_rng().uniform(-0.02, 0.02, 254), 4)
    nrz = cdsp.ConstellationEnum.NRZ
    k = sim.draw(3)
    norm = sim.flip(0.5)
    if k == 0:
        return Op('channel_estimation_prbs', dict(rx=rx),
                  lambda rx: list(cdsp.channel_estimation_prbs(t, rx, nrz, channel_postcursor=6, channel_precursor=2, normalize=norm)))
    if k == 1:
        reg = sim.pick(['None', 'ridge', 'lasso'])
        return Op('equalization_estimation_prbs' + ('[lasso]' if reg == 'lasso' else ''), dict(rx=rx),
                  lambda rx: list(cdsp.equalization_estimation_prbs(t, rx, nrz, 6, 2, 2, norm, reg, 0.01, gray_coded=False)))
    return Op('equalization_estimation', dict(rx=rx[:120], s=np.sign(rx[:120])),
              lambda rx, s: list(cdsp.equalization_estimation(s, rx, 5, 2, 2, norm)))


@op
def filter_object(sim):
    b, a = _fir(sim, 2), _iir(sim)
    kind = sim.draw(2)
    w = _wave(sim, 3)
    k = sim.integer(1, len(w) - 1)
    arrays = dict(w=w, b=b, a=a)
    if sim.flip(0.4):
        if kind:
            arrays['z1'] = np.round(sim.data_rng().uniform(-1, 1, max(len(a), len(b)) - 1), 3)
        else:
            arrays['z1'] = np.round(sim.data_rng().uniform(-1, 1, len(b)), 3)
            arrays['z2'] = np.round(sim.data_rng().uniform(-1, 1, len(a) - 1), 3)

    def body(w, b, a, z1=None, z2=None):
        f = FilterTII(b, a, z1) if kind else Filter(b, a, z1, z2)
        return [f(w[:k]), f(w[k:])]
    return Op('FilterTII' if kind else 'Filter', arrays, body)


@op
def equaliser_object(sim):
    lv = _levels(sim)
    w = _wave(sim, 3, levels=lv)
    k = sim.integer(1, len(w) - 1)
    ffe, dfe = _fir(sim, 2, 4), np.round(sim.data_rng().uniform(-0.3, 0.3, sim.integer(1, 3)), 3)

    def body(w, ffe, dfe, lv):
        f = FfeDfeFilterTII(ffe, dfe, lv)
        return [f(w[:k]), f(w[k:])]
    return Op('FfeDfeFilterTII', dict(w=w, ffe=ffe, dfe=dfe, lv=lv), body)


def same(got, want, tol=1e-9):
    """None when both result lists agree; else a description."""
    if len(got) != len(want):
        return f'{len(got)} results instead of {len(want)}'
    for i, (g, w) in enumerate(zip(got, want)):
        if g is None or w is None:
            if g is not w:
                return f'result {i}: {g!r} instead of {w!r}'
            continue
        ga, wa = np.asarray(g), np.asarray(w)
        if ga.shape != wa.shape:
            return f'result {i}: shape {ga.shape} instead of {wa.shape}'
        if ga.size == 0:
            continue
        gf, wf = ga.astype(float).reshape(-1), wa.astype(float).reshape(-1)
        fin = np.isfinite(wf)
        s = max(1.0, float(np.max(np.abs(wf[fin])))) if fin.any() else 1.0
        with np.errstate(all='ignore'):
            ok = (np.abs(gf - wf) <= tol * s) | (gf == wf) | (np.isnan(gf) & np.isnan(wf))
        bad = np.flatnonzero(~ok)
        if bad.size:
            return f'result {i}: {bad.size} of {ga.size} differ, first at {int(bad[0])}: {gf[bad[0]]!r} instead of {wf[bad[0]]!r}'
    return None
