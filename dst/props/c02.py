"""C02: linear streaming stages: chunk-by-chunk with carried memory equals the one-shot difference equation."""
import numpy as np

import CommDspy as cdsp
from dst import ref
from dst.pipeline import Config, FAULTS, World
from dst.stages import BETAS, LINEAR, twin

BUDGET = {'quick': {'runs': 7000, 'wall': 240}, 'thorough': {'runs': 80000, 'wall': 1500}}
RULE = ('one run = 1-3 interleaved pipelines of 1-3 linear stages with random parameters; chunk sizes, interleaving, '
        'message loss/duplication/delay, crash/restart and buffer reuse decided by the seed; non-trivial = at least one '
        'oracle check and one fault or probe; distinct = distinct event log')
REAL = ['CommDspy.channel.pulse_shape', 'CommDspy.channel.awgn_channel (snr=None)', 'CommDspy.rx.ctle / get_ctle_filter',
        'CommDspy.misc.help_classes.Filter', 'CommDspy.misc.help_classes.FilterTII']
STUB = ['links, durable logs, checkpoint store, node lifecycle (simulated)']
ASSUMPTIONS = ['chunks hold at least one symbol', 'filters are stable', 'agreement to 1e-6..1e-8 of full scale']
REQUIRED_PROBES = ['one_sample_chunk', 'chunk_shorter_than_memory', 're_execution', 'crash', 'rebuild_from_log', 'migrate', 'rollback',
                   'msg_loss', 'msg_dup', 'msg_delay', 'stall', 'buffer_reuse', 'integer_symbols', 'twin_stage', 'pulse_at', 'rcos_edge', 'no_roll_off', 'integer_grid', 'defaults_left_out',
                   'bulk_stream', 'double_pole', 'grand_pulse', 'long_taps', 'long_recursion', 'extreme_gain']


def source(sim, n):
    r = sim.data_rng()
    kind = sim.draw(4)
    if kind == 0:
        sim.probe('integer_symbols')
        return 2 * r.randint(0, 2, n) - 1
    if kind == 1:
        sim.probe('integer_symbols')
        return 2 * r.randint(0, 4, n) - 3
    if kind == 2:
        return r.uniform(-1, 1, n)
    x = r.uniform(-1, 1, n)
    x[r.rand(n) < 0.5] = 0.0
    return x


def pulse_values(sim):
    """The pulse functions at any instants a caller asks for, and on their own grid."""
    r = sim.data_rng()
    kind, beta = sim.pick(['rect', 'sinc', 'rcos', 'rrc']), sim.pick(BETAS)
    if kind in ('rcos', 'rrc') and sim.flip(0.1):
        beta = 0.0                          # no roll-off: a sinc
        sim.probe('no_roll_off')
    osr, span = sim.size(1, 200, 13), sim.size(1, 40, 4)
    fn = getattr(cdsp.channel, kind + '_pulse')
    args = (osr, span) + ((beta,) if kind in ('rcos', 'rrc') else ())
    if sim.flip(0.7):
        far = sim.pick([4, 4, 4, 15, 60])
        t = np.round(r.uniform(-far, far, sim.integer(1, 12)), 3)
        t = t[np.abs(np.abs(t) - 0.5) > 1e-9]
        if sim.flip(0.4):
            t = np.concatenate([t, [0.0, 1.0, -2.0]])
        if sim.flip(0.3):
            t = np.concatenate([t, [0.54, -0.54, 0.46, -0.46]])
        if sim.flip(0.4) and beta:
            t = np.concatenate([t, np.array([1.0, -1.0]) / (2 * beta if kind == 'rcos' else 4 * beta)])
        if sim.flip(0.15):
            t = np.arange(-sim.integer(1, 6), sim.integer(1, 6))        # symbol instants, as integers
            sim.probe('integer_grid')
        keep = t.copy()
        got = sim.call(kind + '_pulse', fn, *args, t=t)
        sim.equal(t, keep, 'input-modified', kind)
        want = ref.pulse_at(kind, t.tolist(), beta)
        sim.probe('pulse_at')
    else:
        got = sim.call(kind + '_pulse', fn, *args)
        want = ref.pulse(kind, osr, span, beta)
    sim.close(got, want, 'pulse', f'{kind} osr={osr} span={span} beta={beta}', tol=1e-6, scale=1.0)


def run(sim):
    while sim.flip(0.2):
        pulse_values(sim)
    cfg = Config(sim, FAULTS)
    w = World(sim, cfg)
    seen = []
    for k in range(sim.integer(1, 3)):
        depth = sim.integer(1, 3)
        stages = []
        rate = 1
        for _ in range(depth):
            st = twin(sim, sim.pick(seen)) if seen and sim.flip(0.35) else sim.pick(LINEAR)(sim)
            seen.append(st)
            if rate * st.rate > 16 and stages:
                continue
            rate *= st.rate
            stages.append(st)
        if not stages:
            continue
        n = w.length(sim.size(1, 240 // rate + 10, 40), rate)
        if any(st.memory > 12 for st in stages):
            n += sim.pick([0, 1, 2]) * max(st.memory for st in stages) // max(1, min(rate, 8))
        for st in stages:
            sim.log('stage', k, st.name)
        w.add_chain(f'p{k}', source(sim, n), stages)
    w.run()
