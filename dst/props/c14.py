"""C14: framing, packing and rate conversion of a stream do not depend on block boundaries."""
import numpy as np

import CommDspy as cdsp
from dst.pipeline import Config, FAULTS, World
from dst.rates import Framer, STAGES, frames, support, taps
from dst.stages import twin

BUDGET = {'quick': {'runs': 11000, 'wall': 240}, 'thorough': {'runs': 80000, 'wall': 1500}}
RULE = ('one run = 1-3 interleaved pipelines of framing and rate conversion stages with random parameters; block sizes, interleaving, '
        'message loss/duplication/delay, crash/restart, rollback and buffer reuse decided by the seed; stand-alone frames, delay filters '
        'and bit packing between them; non-trivial = at least one oracle check and one fault or probe; distinct = distinct event log')
REAL = ['buffer', 'upsample', 'zoh', 'digital_oversample', 'dig_delay_lagrange_coeffs', 'dig_delay_sinc_coeffs', 'dig_delay_rcos_coeffs', 'bin2uint', 'uint2bin',
        'get_bin_perm', 'get_gray_level_vec']
STUB = ['links, durable logs, checkpoint store, node lifecycle (simulated)']
ASSUMPTIONS = ['signals are 1-D and longer than the overlap or the interpolation order',
               'agreement to 1e-8 of full scale']
REQUIRED_PROBES = ['one_sample_chunk', 'chunk_shorter_than_memory', 're_execution', 'crash', 'rebuild_from_log', 'migrate', 'rollback',
                   'msg_loss', 'msg_dup', 'msg_delay', 'stall', 'buffer_reuse', 'twin_stage', 'framed', 'clipped_frame', 'delay_filter',
                   'packed', 'integer_samples', 'bulk_stream', 'high_order', 'order_zero', 'wide_words', 'high_rate']


def source(sim, n):
    r = sim.data_rng()
    k = sim.draw(4)
    if k == 0:
        sim.probe('integer_samples')
        return r.randint(-3, 4, n)
    if k == 1:
        return np.polyval(np.round(r.uniform(-1, 1, 3), 2), np.linspace(-1, 1, n))
    x = np.round(r.uniform(-1, 1, n), 4)
    if k == 2:
        x[r.rand(n) < 0.4] = 0.0
    return x


def frame_alone(sim):
    """Frames of a whole signal with delay, overlap or underlap, padded or clipped."""
    r = sim.data_rng()
    length = sim.size(1, 12, 5)
    overlap = sim.integer(-4, length - 1)
    delay = sim.pick([0, 0, 1, 2, 5])
    n = sim.size(1, 60, 12)
    if n + delay <= max(overlap, 0):
        n += overlap
    x = r.randint(0, 3, n) if sim.flip(0.5) else np.round(r.uniform(-1, 1, n), 2)
    clip = sim.flip(0.5)
    keep = x.copy()
    got = np.asarray(sim.call('buffer', cdsp.buffer, x, length, overlap, delay, clip))
    want = frames(x.tolist(), length, overlap, delay, clip)
    sim.probe('framed')
    if clip and len(want) < len(frames(x.tolist(), length, overlap, delay, False)):
        sim.probe('clipped_frame')
    sim.equal(x, keep, 'input-modified', 'buffer')
    sim.equal(got, want, 'frames', f'buffer({x.tolist()[:20]}, {length}, {overlap}, {delay}, {clip})')


def delay_filter(sim):
    """A fractional delay filter and what it does to a signal it represents exactly."""
    n = 0 if sim.flip(0.05) else sim.size(1, 32, 9)
    if n == 0:
        sim.probe('order_zero')
    if n > 20:
        sim.probe('high_order')
    alpha, fw = sim.pick([0.0, 0.25, 0.5, 0.9, sim.unit()]), sim.flip(0.6)
    sim.probe('delay_filter')
    if sim.flip(0.25):
        beta = sim.pick([0.5, 1.0, 0.25, 0.3, 0.0])
        c = np.asarray(sim.call('dig_delay_rcos_coeffs', cdsp.dig_delay_rcos_coeffs, n, alpha, fw, beta))
        sim.close(c, taps('rcos', n, alpha, fw, beta), 'delay-taps', f'rcos n={n} alpha={alpha} forward={fw} beta={beta}', tol=1e-6)
    elif sim.flip(0.6):
        c = np.asarray(sim.call('dig_delay_lagrange_coeffs', cdsp.dig_delay_lagrange_coeffs, n, alpha, fw))
        sim.close(c, taps('lagrange', n, alpha, fw), 'delay-taps', f'lagrange n={n} alpha={alpha} forward={fw}', tol=1e-8)
        p = sim.draw(n + 1)                 # polynomials up to the order are delayed exactly
        sim.close([float(np.dot(c, np.array(support(n, fw), dtype=float) ** p))], [alpha ** p], 'polynomial', f'degree {p} of order {n}',
                  tol=1e-6, scale=max(1.0, float(max(abs(v) for v in support(n, fw)) ** p)))
    else:
        c = np.asarray(sim.call('dig_delay_sinc_coeffs', cdsp.dig_delay_sinc_coeffs, n, alpha, fw))
        sim.close(c, taps('sinc', n, alpha, fw), 'delay-taps', f'sinc n={n} alpha={alpha} forward={fw}', tol=1e-8)


def packing(sim):
    """Words to bits, most significant first, and back, in any shape."""
    r = sim.data_rng()
    bits = sim.size(1, 48, 8)
    if bits > 32:
        sim.probe('wide_words')
    shape = sim.pick([(1,), (5,), (3, 4), (1, 1), (2, 1, 3)])
    v = r.randint(0, 2 ** bits, shape, dtype=np.int64)
    keep = v.copy()
    b = np.asarray(sim.call('uint2bin', cdsp.uint2bin, v, bits))
    want = np.array([[(int(q) >> (bits - 1 - k)) & 1 for k in range(bits)] for q in v.reshape(-1)]).reshape(shape + (bits,))
    sim.probe('packed')
    sim.equal(v, keep, 'input-modified', 'uint2bin')
    sim.equal(b, want, 'packing', f'uint2bin of {v.reshape(-1)[:6].tolist()} in {bits} bits')
    w = sim.call('bin2uint', cdsp.bin2uint, want.copy())
    sim.equal(w, v, 'packing', f'bin2uint of {bits} bits')
    k = sim.integer(1, 8)
    perm = np.asarray(sim.call('get_bin_perm', cdsp.get_bin_perm, k))
    sim.equal(perm, [[(q >> (k - 1 - j)) & 1 for j in range(k)] for q in range(2 ** k)], 'packing', f'get_bin_perm({k})')
    m = 2 ** sim.integer(1, 6)
    g = np.asarray(sim.call('get_gray_level_vec', cdsp.get_gray_level_vec, m))
    sim.equal(g, [q ^ (q >> 1) for q in range(m)], 'gray-levels', f'{m} levels')


ALONE = [frame_alone, frame_alone, delay_filter, packing]


def run(sim):
    cfg = Config(sim, FAULTS)
    w = World(sim, cfg)
    seen = []
    for k in range(sim.integer(1, 3)):
        stages, rate, grain = [], 1, 1
        for _ in range(sim.integer(1, 3)):
            st = twin(sim, sim.pick(seen)) if seen and sim.flip(0.35) else sim.pick(STAGES)(sim)
            if isinstance(st, Framer):
                if stages:                  # frames are cut from the raw stream
                    continue
                grain = st.grain
            if stages and rate * st.rate > 16:
                continue
            seen.append(st)
            rate *= st.rate
            stages.append(st)
        if not stages:
            continue
        n = -(-w.length(sim.size(1, 200 // rate + 10, 40), rate) // grain) * grain
        for st in stages:
            sim.log('stage', k, st.name)
        w.add_chain(f'p{k}', source(sim, n), stages)

    def alone(left):
        sim.pick(ALONE)(sim)
        if left:
            sim.after(1 + sim.draw(9), alone, left - 1)
    alone(sim.integer(0, 3))
    w.run()
    while sim.step():
        pass
