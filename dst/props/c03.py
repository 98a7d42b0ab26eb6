"""C03: the FFE/DFE equaliser as a stream."""
import numpy as np

import CommDspy as cdsp
from dst.core import Discard
from dst.pipeline import Config, FAULTS, World
from dst.stages import EqualiserStage, FfeDfeTIIStage, FilterTIIStage, twin

BUDGET = {'quick': {'runs': 9000, 'wall': 240}, 'thorough': {'runs': 80000, 'wall': 1500}}
RULE = ('one run = 1-3 interleaved equaliser streams (FFE, DFE, FFE+DFE, filter object) with random taps, levels, osr and '
        'phase under a seeded schedule of chunk sizes, link faults, crash/restart, memory rebuilt from logs and buffer '
        'reuse; non-trivial = at least one oracle check and one fault or probe; distinct = distinct event log')
REAL = ['CommDspy.rx.ffe_dfe', 'CommDspy.rx.slicer', 'CommDspy.buffer', 'CommDspy.misc.help_classes.FfeDfeFilterTII']
STUB = ['links, durable logs, checkpoint store, node lifecycle (simulated)']
ASSUMPTIONS = ['decision points keep a margin of 1e-6 from the thresholds (other runs are discarded)',
               'with osr > 1 chunks hold whole symbols and phase + osr//2 < osr (see known findings)']
REQUIRED_PROBES = ['one_sample_chunk', 'chunk_shorter_than_memory', 're_execution', 'crash', 'rebuild_from_log', 'migrate', 'rollback',
                   'oversampled_dfe', 'buffer_reuse', 'twin_stage', 'bulk_stream', 'long_taps']


def run(sim):
    cfg = Config(sim, FAULTS)
    w = World(sim, cfg)
    seen = []
    for k in range(sim.integer(1, 3)):
        st = twin(sim, sim.pick(seen)) if seen and sim.flip(0.35) else FfeDfeTIIStage(sim) if sim.draw(4) == 3 else EqualiserStage(sim)
        seen.append(st)
        osr = getattr(st, 'osr', 1)
        if osr > 1:
            sim.probe('oversampled_dfe')
        n = w.length(sim.size(1, 60, 20) + (sim.pick([0, 1, 2]) * st.memory // osr if st.memory > 12 * osr else 0), osr) * osr
        r = sim.data_rng()
        if sim.draw(2) == 0:
            x = np.round(r.uniform(-4, 4, n), 4)
        else:
            x = np.asarray(r.choice([-3.0, -1.0, 1.0, 3.0], n)) + np.round(r.uniform(-0.6, 0.6, n), 4)
        if sim.draw(8) == 7:
            x = np.round(x).astype(int)
        stages = [st]
        if sim.draw(4) == 3:
            stages = [FilterTIIStage(sim), st]
        sim.log('stage', k, st.name)
        w.add_chain(f'p{k}', x, stages)
        if st.margin is not None and st.margin < 1e-6:
            raise Discard()
    w.run()


def findings():
    """Known finding, checked on its own fixed history (see known_findings.json)."""
    x = np.array([3.0, 3.0, 3.0, 3.0])          # two symbols of osr 2, sampled at phase 1
    kw = dict(dfe_taps=np.array([0.5]), osr=2, phase=1)
    whole, _ = cdsp.rx.ffe_dfe(x, **kw)
    first, mem = cdsp.rx.ffe_dfe(x[:2], **kw)
    second, _ = cdsp.rx.ffe_dfe(x[2:], zi_dfe=mem, **kw)
    yield 'dfe-late-phase', np.allclose(np.concatenate([first, second]), whole)
