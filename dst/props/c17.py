"""C17: a request that cannot be carried out is refused, and a refusal leaves arguments, objects and running streams untouched."""
import numpy as np

import CommDspy as cdsp
from CommDspy.misc.help_classes import FfeDfeFilterTII, Filter, FilterTII
from CommDspy.misc.least_squares import least_squares
from dst.core import Violation
from dst.neighbour import copy
from dst.stages import (ChannelStage, CtleStage, EqualiserStage, FfeDfeTIIStage, FilterStage, FilterTIIStage, PulseStage)

BUDGET = {'quick': {'runs': 6000, 'wall': 240}, 'thorough': {'runs': 100000, 'wall': 1500}}
RULE = ('one run = 1-3 live streams (pulse shaping, channel, CTLE, filter and equaliser objects) and a control plane that delivers corrupted '
        'requests between chunks: memories of the wrong length, garbage symbols, inconsistent codes, unknown names; non-trivial = at '
        'least one refusal demanded; distinct = distinct event log')
REAL = ['channel.pulse_shape', 'channel.awgn_channel', 'rx.ctle', 'rx.ffe_dfe', 'Filter', 'FilterTII', 'FfeDfeFilterTII', 'tx.coding_*',
        'rx.decoding_*', 'tx.bin2symbol', 'tx.mapping', 'rx.quantize', 'rx.ddlms_grad', 'rx.soft_ddlms_grad', 'digital_oversample', 'least_squares',
        'equalization_estimation', 'get_levels']
STUB = ['the control plane and the transport of the streams (simulated)']
ASSUMPTIONS = ['only requests the code or its documentation declares invalid are demanded to be refused']
REQUIRED_PROBES = ['wrong_memory', 'wrong_object_memory', 'garbage_symbol', 'two_valued_garbage', 'single_valued_garbage', 'long_garbage', 'bad_code', 'bad_feedback',
                   'unknown_name', 'wrong_count', 'wrong_length', 'stream_after_refusal', 'good_after_refusal']
STAGES = [PulseStage, ChannelStage, CtleStage, FilterStage, FilterTIIStage, EqualiserStage, FfeDfeTIIStage]


def flat(v, out):
    if isinstance(v, np.ndarray):
        out.append(v)
    elif isinstance(v, dict):
        for k in sorted(v, key=str):
            flat(v[k], out)
    elif isinstance(v, (list, tuple)):
        for w in v:
            flat(w, out)
    return out


def refuse(sim, name, fn, args=(), kw=None, allowed=(ValueError,)):
    """The call must raise, and must leave what it was given as it was."""
    kw = kw or {}
    arrays = flat([list(args), kw], [])
    keep = [a.copy() for a in arrays]
    sim.calls[name] = sim.calls.get(name, 0) + 1
    try:
        got = fn(*args, **kw)
    except allowed as e:
        sim.log('refused', name, type(e).__name__)
    except Exception as e:  # noqa: BLE001
        raise Violation(f'wrong-refusal:{name}', f'{type(e).__name__} instead of {allowed[0].__name__}: {e} for {text(args, kw)}') from e
    else:
        raise Violation(f'not-refused:{name}', f'returned {type(got).__name__} for {text(args, kw)}')
    for a, b in zip(arrays, keep):
        sim.check(a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes(), f'input-modified:{name}', text(args, kw))
    sim.checks += 1


def text(args, kw):
    return ', '.join([repr(a)[:120] for a in args] + [f'{k}={v!r}'[:120] for k, v in sorted(kw.items())])


def bad_length(sim, good):
    """A memory length that is none of `good`."""
    n = max(good)
    opts = [q for q in [n + 1, n - 1, n + 2, 2 * n, 0, 1, n - 2, n // 2, n + 7] if q >= 0 and q not in good]
    return sim.pick(opts)


def memory(sim, good):
    n = bad_length(sim, good)
    r = sim.data_rng()
    return r.randint(0, 2, n) if sim.flip(0.3) else np.round(r.uniform(-1, 1, n), 3)


# ------------------------------------------------------------------------------------------------------ streams
class Stream:
    def __init__(self, sim, sid):
        self.sim, self.id = sim, sid
        self.st = sim.pick(STAGES)(sim)
        self.state = self.st.start()
        r = sim.data_rng()
        g = self.st.grain
        self.x = np.round(r.uniform(-2, 2, g * sim.size(2, 60, 12)), 3)
        self.pos, self.out = 0, []
        self.refused = 0
        sim.log('stream', sid, self.st.name)

    def step(self):
        sim, st = self.sim, self.st
        if sim.flip(0.4):
            sim.fault('corrupt_request', self.id)
            self.corrupt()
        n = min(len(self.x) - self.pos, st.grain * sim.size(1, 12, 3))
        chunk = self.x[self.pos:self.pos + n].copy()
        y, self.state = st.process(sim, self.state, chunk)
        self.out.append(np.asarray(y, dtype=float))
        self.pos += n
        sim.log('chunk', self.id, self.pos, data=self.out[-1])
        if self.pos < len(self.x):
            sim.after(1 + sim.draw(4), self.step)
        else:
            self.finish()

    def finish(self):
        want = self.st.reference(self.x)
        if getattr(self.st, 'margin', None) is not None and self.st.margin < 1e-6:
            return
        if self.refused:
            self.sim.probe('stream_after_refusal')
        self.sim.close(np.concatenate(self.out), want, 'stream', f'{self.st.describe()} after {self.refused} refused requests', tol=self.st.tol)

    def corrupt(self):
        sim, st = self.sim, self.st
        n = st.grain * sim.integer(1, 4)
        chunk = np.round(sim.data_rng().uniform(-2, 2, n), 3)
        obj = None
        if isinstance(st, PulseStage):
            z = memory(sim, [len(st.h) - 1])
            refuse(sim, 'pulse_shape', cdsp.channel.pulse_shape, (chunk,), dict(osr=st.osr, span=st.span, pulse=st.kind, beta=st.beta, zi=z))
        elif isinstance(st, ChannelStage):
            refuse(sim, 'awgn_channel', cdsp.channel.awgn_channel, (chunk, st.b, st.a), dict(zi=memory(sim, [st.order])), (Exception,))
        elif isinstance(st, CtleStage):
            refuse(sim, 'ctle', cdsp.rx.ctle, (chunk, st.zeros, st.poles, st.gain, st.fs, st.osr), dict(zi=memory(sim, [st.order])), (Exception,))
        elif isinstance(st, EqualiserStage):
            if st.mode == 'gain':
                return
            kw = dict(ffe_taps=st.ffe)
            if len(st.dfe):
                kw.update(dfe_taps=st.dfe, osr=st.osr, phase=st.phase)
                if st.levels is not None:
                    kw['levels'] = np.array(st.levels)
            if len(st.dfe) and sim.flip(0.5):
                kw['zi_dfe'] = memory(sim, [len(st.dfe)])
                if sim.flip(0.5):
                    kw['zi_ffe'] = np.zeros(len(st.ffe))
            else:
                kw['zi_ffe'] = memory(sim, [len(st.ffe), len(st.ffe) - 1])
                if len(st.dfe) and sim.flip(0.5):
                    kw['zi_dfe'] = np.zeros(len(st.dfe))
            refuse(sim, 'ffe_dfe', cdsp.rx.ffe_dfe, (chunk,), kw)
        else:
            obj = self.state
        if obj is None:
            sim.probe('wrong_memory')
        else:
            sim.probe('wrong_object_memory')
            new = sim.flip(0.3)             # a new object, or the live one
            if isinstance(st, FilterStage):
                if sim.flip(0.5):
                    z = memory(sim, [len(st.b)])
                    refuse(sim, 'Filter', *((Filter, (st.b, st.a), dict(z_fir=z)) if new else (obj.set_z_fir, (z,))))
                else:
                    z = memory(sim, [len(st.a) - 1])
                    refuse(sim, 'Filter', *((Filter, (st.b, st.a), dict(z_iir=z)) if new else (obj.set_z_iir, (z,))))
            elif isinstance(st, FilterTIIStage):
                z = memory(sim, [st.order])
                refuse(sim, 'FilterTII', *((FilterTII, (st.b, st.a), dict(z=z)) if new else (obj.set_z, (z,))))
            else:
                z = memory(sim, [st.memory])
                refuse(sim, 'FfeDfeFilterTII', *((FfeDfeFilterTII, (st.ffe, st.dfe, np.array(st.levels)), dict(z=z)) if new else (obj.set_z, (z,))))
        self.refused += 1


# ------------------------------------------------------------------------------------------------------ one-shot requests
def bits(sim, even=True):
    n = sim.size(1, 60, 10)
    return sim.data_rng().randint(0, 2, 2 * n if even else n)


def garbage(sim, even=True):
    """Symbols that are not bits: all of one value, two values, or a good pattern with one symbol hit."""
    k = sim.draw(3)
    v = sim.pick([2, 3, 7, -1, -3, 4, 255, 0.5, -0.25, 1.0000001, float('nan')])
    p = bits(sim, even)
    if sim.flip(0.06):
        sim.probe('long_garbage')
        p = sim.data_rng().randint(0, 2, 2 * sim.pick([150, 600, 2100, 9000, 35000]))
    p = p.astype(type(v))
    if k == 0:
        sim.probe('garbage_symbol')
        p = np.concatenate([[0, 1], p])
        p[sim.draw(len(p) - 2) + 2 if sim.flip(0.7) else -1] = v
        if len(p) % 2:
            p = np.append(p, 0)
        return p
    if k == 1:
        sim.probe('two_valued_garbage')
        low = sim.pick([0, 1, 5])
        p = np.where(p == 0, low, v if v != low else 9)
        p[0], p[-1] = low, (v if v != low else 9)
        return p
    sim.probe('single_valued_garbage')
    return np.full(len(p), v)


CODERS = ['manchester', 'bipolar', 'mlt3', 'differential_manchester']


def line_code(sim):
    name = sim.pick([f'coding_{c}' for c in CODERS] + ['decoding_manchester', 'decoding_differential_manchester'])
    fn = getattr(cdsp.tx if name.startswith('coding') else cdsp.rx, name)
    p = bits(sim)
    if name.startswith('decoding_m') or name.startswith('decoding_d'):
        p = np.repeat(p, 2)
        p[1::2] = 1 - p[1::2]
    return name, fn, (garbage(sim),), {}, (p,), {}


def block_code(sim):
    k = sim.integer(1, 3)
    n = k + sim.integer(1, 3)
    G = np.concatenate([np.eye(k, dtype=int), sim.data_rng().randint(0, 2, (k, n - k))], axis=1)
    dec = sim.flip(0.5)
    fn = cdsp.rx.decoding_linear if dec else cdsp.tx.coding_linear
    p = sim.data_rng().randint(0, 2, (n if dec else k) * sim.integer(1, 5))
    if sim.flip(0.4):
        B = G.copy()
        B[sim.draw(k), sim.draw(n)] = sim.pick([2, 3, -1])
        sim.probe('bad_code')
        return fn.__name__, fn, (p, B), {}, (p, G), {}
    return fn.__name__, fn, (garbage(sim), G), {}, (p, G), {}


def conv_code(sim):
    r = sim.data_rng()
    n_in = sim.integer(1, 2)
    n_out = n_in + sim.integer(0, 2)
    mem = [sim.integer(1, 2) for _ in range(n_in)]
    G = {i: r.randint(0, 2, (n_out, mem[i] + 1)) for i in range(n_in)}
    fb = {i: np.concatenate([[1], r.randint(0, 2, mem[i])]) for i in range(n_in)}
    uf = np.ones((n_in, n_out), dtype=int)
    which = sim.pick(['coding_conv', 'decoding_conv_viterbi', 'decoding_conv_ml'])
    fn = getattr(cdsp.tx if which == 'coding_conv' else cdsp.rx, which)
    tb = n_out * sim.integer(1, 3)
    p = r.randint(0, 2, n_in * 6 if which == 'coding_conv' else tb * 2)
    tail = () if which == 'coding_conv' else (tb,)
    good = ((p, G) + tail, dict(feedback=fb, use_feedback=uf))
    k = sim.draw(7)
    if k == 0:
        return which, fn, (garbage(sim), G) + tail, {}, *good
    i, j = sim.draw(n_in), sim.draw(n_out)
    if k == 1:
        B = copy(G)
        B[i][j, sim.draw(mem[i] + 1)] = sim.pick([2, 3, -1])
        sim.probe('bad_code')
        return which, fn, (p, B) + tail, {}, *good
    sim.probe('bad_feedback')
    if k == 2:
        return which, fn, (p, G) + tail, dict(feedback=fb), *good
    if k == 3:
        shape = sim.pick([(n_in + 1, n_out), (n_in, n_out + 1), (n_out + 2, n_in + 3)]
                         + ([(n_out, n_in), (1, n_in * n_out)] if n_in > 1 and n_out > n_in else []))
        return which, fn, (p, G) + tail, dict(feedback=fb, use_feedback=np.ones(shape, dtype=int)), *good
    if k == 4:                      # told to use a feedback that is not there
        part = {q: v for q, v in fb.items() if q != i}
        return which, fn, (p, G) + tail, dict(feedback=part, use_feedback=uf), *good
    if k == 5:                      # a recursive input with a plain output that is not systematic
        B, u = copy(G), uf.copy()
        B[i][j, 1 + sim.draw(mem[i])] = 1
        u[i, j] = 0
        return which, fn, (p, B) + tail, dict(feedback=fb, use_feedback=u), *good
    bad = copy(fb)
    bad[i][sim.draw(len(bad[i]))] = sim.pick([2, 3, -1])
    return which, fn, (p, G) + tail, dict(feedback=bad, use_feedback=uf), *good


def names(sim):
    sim.probe('unknown_name')
    r = sim.data_rng()
    k = sim.draw(6)
    x = np.round(r.uniform(-1, 1, 40), 3)
    if k == 0:
        return 'pulse_shape', cdsp.channel.pulse_shape, (x,), dict(osr=2, span=2, pulse=sim.pick(['gauss', 'RCOS', '', 'rect ', 'triangle'])), (x,), dict(osr=2, span=2, pulse='rcos')
    if k == 1:
        return 'quantize', cdsp.rx.quantize, (x, 4), dict(fix_point_type=sim.pick(['x', 'S', '', 'us'])), (x, 4), dict(fix_point_type='s')
    if k == 2:
        return ('digital_oversample', cdsp.digital_oversample, (x,), dict(osr=2, order=4, method=sim.pick(['spline', 'Sinc', '', 'linear'])),
                (x,), dict(osr=2, order=4, method='sinc'))
    if k == 3:
        A, b = r.uniform(-1, 1, (12, 3)), r.uniform(-1, 1, 12)
        return 'least_squares', least_squares, (A, b, sim.pick(['l2', 'Ridge', '', 'elastic']), 0.5), {}, (A, b), {}
    if k == 4:
        return 'get_levels', cdsp.get_levels, (sim.pick(['PAM4', None, 4, 'nrz']),), {}, (cdsp.ConstellationEnum.PAM4,), {}
    s = r.choice([-1.0, 1.0], 40)
    bad = dict(ffe_postcursor=2, ffe_precursor=1, regularization=sim.pick(['l2', 'Ridge', 'tikhonov']), reg_lambda=0.1)
    return 'equalization_estimation', cdsp.equalization_estimation, (s, s + 0.1 * x), bad, (s, s + 0.1 * x), dict(ffe_postcursor=2, ffe_precursor=1)


def counts(sim):
    sim.probe('wrong_count')
    r = sim.data_rng()
    if sim.flip(0.5):
        b = r.randint(0, 2, 12)
        return 'bin2symbol', cdsp.tx.bin2symbol, (b, sim.pick([3, 5, 6, 7, 12, 9, 24, 1, 255, 257, 1023, 1025, 16385])), {}, (b, 4), {}
    con, n = sim.pick([(cdsp.ConstellationEnum.NRZ, 2), (cdsp.ConstellationEnum.OOK, 2), (cdsp.ConstellationEnum.PAM3, 3), (cdsp.ConstellationEnum.PAM4, 4)])
    sym = r.randint(0, n, 10)
    m = sim.pick([q for q in (1, 2, 3, 4, 5, 8) if q != n])
    lv = np.sort(r.uniform(-2, 2, m))
    return ('mapping', cdsp.tx.mapping, (sym, con), dict(levels=lv, pn_inv=sim.flip(0.5), full_scale=sim.flip(0.3)),
            (sym, con), dict(levels=np.sort(r.uniform(-2, 2, n))))


def lengths(sim):
    sim.probe('wrong_length')
    r = sim.data_rng()
    n = sim.integer(4, 30)
    x, y = r.uniform(-2, 2, n), r.uniform(-2, 2, n)
    m = sim.pick([q for q in (n - 1, n + 1, 1, 2 * n, n // 2, 0) if q != n])
    lv = np.array([-3.0, -1.0, 1.0, 3.0])
    kw = dict(ffe_tap_idx=np.array([0, 1, -1]), dfe_tap_idx=np.array([1]) if sim.flip(0.5) else np.array([]))
    name, fn = sim.pick([('ddlms_grad', cdsp.rx.ddlms_grad), ('soft_ddlms_grad', cdsp.rx.soft_ddlms_grad)])
    return name, fn, (x, y, lv), dict(reference_vec=r.choice(lv, m), **kw), (x, y, lv), dict(reference_vec=r.choice(lv, n), **kw)


KINDS = [line_code, line_code, block_code, conv_code, conv_code, names, counts, lengths]


def request(sim):
    name, fn, bad, bkw, good, gkw = sim.pick(KINDS)(sim)
    sim.fault('corrupt_request', name)
    allowed = (ValueError, AttributeError) if name == 'digital_oversample' else (ValueError,)
    before = None
    if sim.flip(0.5):
        before = flat(sim.call(name, fn, *copy(good), **copy(gkw)), [])
        before = [a.copy() for a in before]
    refuse(sim, name, fn, bad, bkw, allowed)
    if before is not None:
        after = flat(sim.call(name, fn, *copy(good), **copy(gkw)), [])
        sim.probe('good_after_refusal')
        sim.check(len(after) == len(before), f'after-refusal:{name}', text(good, gkw))
        for a, b in zip(after, before):
            sim.check(a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'), f'after-refusal:{name}', text(good, gkw))
    sim.now += 1


def run(sim):
    for k in range(sim.integer(0, 2)):
        sim.after(sim.draw(4), Stream(sim, k).step)
    for _ in range(sim.integer(1, 5)):
        sim.after(sim.draw(20), request, sim)
    while sim.step():
        if sim.steps > 2000:
            raise Violation('no-progress', 'step cap')
