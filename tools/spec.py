"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py  rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: '
P = []      # claimed properties
NA = []     # properties not claimed


def prop(id, title, statement, over, text, why, files, state, mechanism, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state, mechanism=mechanism, observe_at=observe, hook_needed=None)))
    P[-1]['_tech'] = TECH + technique
    P[-1]['_note'] = note


def na(id, title, statement, over, text, why, files, mechanism, reason):
    NA.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=mechanism, hook_needed=None)))
    NA[-1]['_reason'] = reason


def m(name, where):
    return dict(name=name, where=where)


def s(name, meaning, where):
    return dict(name=name, meaning=meaning, where=where)


prop('C01', 'A PRBS stream is one sequence however it is pulled and resumed',
     'For every supported PRBS type and every maximal-length polynomial, the bits obtained by any sequence of block pulls '
     '(any length, including shorter than the register and longer than a period) and bit-iterator steps, each continued from '
     'the seed the previous one left, form exactly the one LFSR sequence of that polynomial from the first seed. The seed '
     'returned or reported is the register content at that point, so that saving it, losing the process, moving between the '
     'block generator and the iterator, stepping back to the previous seed, or rebuilding it from the last received bits resumes the '
     'sequence without loss or repetition. Pulling never changes the polynomial or seed passed in, and in-place edits of '
     'bits and seeds already returned, or of the seed an iterator was started from, never change later bits.',
     ['schedules', 'crash_points', 'histories', 'configurations'],
     'every polynomial, initial seed, sequence of pull sizes, interleaving of streams, handover and crash point',
     'tests generate one sequence per polynomial in one call or bit by bit and compare a few lengths; they do not explore '
     'sequences of pulls of different sizes, resumption, or several consumers',
     ['CommDspy/tx/prbs_generator.py', 'CommDspy/tx/prbs_iterator.py', 'CommDspy/auxiliary.py'],
     [s('seed', 'delay line, most recent bit first', 'CommDspy/tx/prbs_generator.py')],
     [m('final seed from the last bits or the shifted register', 'CommDspy/tx/prbs_generator.py'),
      m('register shift per step', 'CommDspy/tx/prbs_iterator.py')],
     ['bits and seeds returned by the block generator and the iterator'],
     'seeded pull/handover/crash schedules over concurrent streams against a reference LFSR',
     'Sampled schedules, not all. Real generator and iterator; consumers and the seed store are simulated. Trusts the '
     'reference LFSR (tap positions from the PRBS standards).')

prop('C02', 'Linear stages streamed in chunks equal the one-shot difference equation',
     'Pulse shaping without jitter, the noiseless channel filter, the CTLE and the two linear filter objects give, for any '
     'division of a symbol stream into chunks of one or more symbols with the returned memory (or the object) carried from chunk to chunk, '
     'exactly the output of their documented difference equation over the whole stream with zero history, whether the '
     'symbols are integers or floats. This holds with several streams interleaved in one process, after restoring a saved '
     'memory or rebuilding it from past samples, and when the caller reuses its chunk buffers; a memory passed in or kept from an earlier '
     'chunk is never modified, so a stream can be rolled back to it. Equality is up to rounding.',
     ['schedules', 'crash_points', 'fault_sequences', 'configurations'],
     'every pulse kind, rate, span, roll-off, coefficient set, chunking, interleaving of streams, crash and restart point',
     'tests filter one complete vector; none passes a memory on to a second call, restores one, or interleaves streams',
     ['CommDspy/channel/pulse_shaping.py', 'CommDspy/channel/additive_noise_functions.py', 'CommDspy/rx/ctle_model.py',
      'CommDspy/misc/help_classes.py', 'CommDspy/auxiliary.py'],
     [s('zi/zo', 'filter memory carried between chunks', 'CommDspy/channel/pulse_shaping.py'),
      s('filter object memory', 'past inputs/outputs or transposed state', 'CommDspy/misc/help_classes.py')],
     [m('filter memory returned with every chunk', 'CommDspy/channel/additive_noise_functions.py'),
      m('per-sample recursion', 'CommDspy/misc/help_classes.py')],
     ['every output chunk', 'outputs after restart'],
     'seeded chunk/link/crash schedules over pipelines of real stages against difference-equation references',
     'Sampled schedules and parameters. Real stages; links, logs and checkpoints simulated. Agreement to 1e-8 (1e-6 for '
     'pulse shapes and CTLE) of full scale.')

prop('C03', 'The FFE/DFE equaliser is one stream across chunks, restarts and memories',
     'Feeding a received signal to the FFE/DFE equaliser in chunks of any size, passing the returned feed-forward and '
     'decision-feedback memories to the next call, gives exactly the slicer inputs of the documented structure over the whole '
     'signal, for feed-forward only, feedback only or both, any levels, and (in whole-symbol chunks) oversampled signals; the '
     'equaliser filter object does the same. Saved memories, memories of full or one-shorter feed-forward length, and '
     'memories rebuilt from past samples and decisions continue the stream, memories passed in or kept are never modified, and '
     'reusing chunk buffers does not disturb it.',
     ['schedules', 'crash_points', 'fault_sequences', 'configurations'],
     'every tap set, level set, chunking, interleaving and restart point with decisions off the thresholds',
     'tests use the equaliser on one complete capture; no test carries its memories to a second chunk',
     ['CommDspy/rx/ffe_dfe_model.py', 'CommDspy/misc/help_classes.py', 'CommDspy/rx/slicer.py', 'CommDspy/auxiliary.py'],
     [s('FFE memory', 'last input samples', 'CommDspy/rx/ffe_dfe_model.py'),
      s('DFE memory', 'last decisions, most recent first', 'CommDspy/rx/ffe_dfe_model.py')],
     [m('memories prepended to the chunk and returned', 'CommDspy/rx/ffe_dfe_model.py')],
     ['slicer inputs of every chunk', 'slicer inputs after restart'],
     'seeded chunk/link/crash schedules over equaliser streams against a sample-by-sample reference',
     'Sampled schedules. Oversampled feedback is claimed for phases with phase + osr//2 < osr and whole-symbol chunks; the '
     'other phases are the known finding dfe-late-phase.')

exec(open(os.path.join(HERE, 'tools', 'spec_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'spec_more.py')) else None


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P + NA:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    man = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python -c "import numpy, scipy, sklearn"',
        'checks': [{'property': p['id'], 'quick_cmd': f'./check.sh {p["id"]} quick',
                    'thorough_cmd': f'./check.sh {p["id"]} thorough', 'evidence_file': f'evidence/{p["id"]}.json',
                    'technique': p['_tech'], 'level': 'exploration', 'level_note': p['_note']} for p in P],
        'not_applicable': [{'property': p['id'], 'reason': p['_reason']} for p in NA],
        'notes': 'No hooks in /repo: every seam needed (memories, seeds, filter objects, the global numpy generator, '
                 'allocation and interrupt points through sys.settrace) is reachable from outside. See DESIGN.md.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    for p in P + NA:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))


main()
