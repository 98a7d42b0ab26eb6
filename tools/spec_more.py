prop('C04', 'The modem link delivers its payload under bounded disturbance, contains errors',
     'For NRZ, OOK, PAM3 and PAM4, with or without Gray, differential or line coding, any bit-order and inversion flags, full '
     'scale or custom levels, frames of any length or shape, pulse shaping, a causal channel undone by the decision feedback, and a '
     'converter: bits pushed through the transmit chain, the line and the mirrored receive chain come back identical whenever the '
     'disturbance at the slicer stays below half the level distance, whatever the chunking, retransmission or reordering of '
     'frames. Every intermediate stage gives its documented value (symbol, code, level, converter output with clipping, decision). An error '
     'of one adjacent level costs exactly one bit with Gray coding and at most two symbols with differential coding; '
     'an overload of an outermost level changes nothing.',
     ['inputs', 'schedules', 'fault_sequences', 'configurations'],
     'every constellation, flag set, code, frame shape, chunk schedule and disturbance within the stated bounds',
     'tests check each stage separately on one or two random vectors and mostly without disturbance or frames',
     ['CommDspy/tx/bin2symbol.py', 'CommDspy/tx/coding.py', 'CommDspy/tx/mapping.py', 'CommDspy/rx/slicer.py', 'CommDspy/rx/demapping.py',
      'CommDspy/rx/decoding.py', 'CommDspy/rx/symbol2bin.py', 'CommDspy/rx/quantiztion.py', 'CommDspy/auxiliary.py'],
     [s('line', 'pulse, channel and feedback memories across chunks', 'CommDspy/channel/pulse_shaping.py')],
     [m('stage and inverse stage', 'CommDspy/rx/demapping.py'), m('nearest level decision', 'CommDspy/rx/slicer.py'),
      m('converter levels', 'CommDspy/rx/quantiztion.py')],
     ['every stage output', 'decoded payload'],
     'seeded chunk, frame-loss/duplication/reordering, noise, glitch, overload and polarity schedules against reference stages',
     'Sampled. Real stages, simulated medium and frame transport. Gray containment is claimed for 2^n-point constellations.')

prop('C05', 'PRBS checkers and pattern lock account for every error, loss and relock',
     'A checker that is told to lock finds the alignment that agrees best with the data (the true one when a full period has '
     'fewer errors than a quarter of it) and then reports exactly the wrong bits, their number, and loss of lock exactly when they reach the threshold; '
     'with a given reference or from the all-ones start it reports exactly the injected errors; this holds window by window over any '
     'window sizes (below, at and above a period), bit errors, bursts, slips and relocks. The economy checker starts its '
     'register from received bits: whenever one of its starts is clean it keeps lock and reports exactly the injected errors from there on, '
     'otherwise it reports loss; pattern lock, binary or analog, returns the cyclic rotation with the best correlation.',
     ['histories', 'fault_sequences', 'schedules'],
     'every start phase, window size, error pattern, slip and threshold',
     'tests feed error-free data or a fixed number of errors into one full-length window',
     ['CommDspy/rx/checker.py', 'CommDspy/rx/lock_pattern.py', 'CommDspy/tx/prbs_generator.py'],
     [s('lock', 'alignment of the reference between windows', 'CommDspy/rx/checker.py')],
     [m('correlation peak over the doubled pattern', 'CommDspy/rx/lock_pattern.py'),
      m('register started from the received bits', 'CommDspy/rx/checker.py')],
     ['lost-lock flag, correct count and error mask of every window', 'returned pattern'],
     'seeded line phases, flips, bursts, slips and window schedules against a reference line',
     'Sampled. Economy exactness is not claimed where a wrong register start happens to fit the window. PRBS7-13 (economy: all).')

prop('C06', 'Linear block codes: closest codeword, guaranteed correction, exact framing',
     'The encoder maps every message, in blocks of k bits with the last block zero padded, to its codewords under the generator '
     'matrix, and for any received bits the decoder returns, for every complete block, a message whose codeword is at minimum Hamming distance; when '
     'at most floor((dmin-1)/2) bits of a block are wrong this is the sent message. The reported probability is 0 for a block that is a '
     'codeword and 1 over the number of equally close codewords otherwise. Blocks do not influence each other: losing, '
     'repeating, regrouping or truncating blocks changes only those blocks.',
     ['inputs', 'fault_sequences', 'schedules'],
     'every generator matrix, message, error pattern and grouping of blocks',
     'tests use two small codes with at most a single error placed in a fixed way',
     ['CommDspy/tx/coding.py', 'CommDspy/rx/decoding.py', 'CommDspy/misc/ml_decoding.py', 'CommDspy/auxiliary.py'],
     [s('received blocks', 'grouping and truncation by the transport', 'CommDspy/rx/decoding.py')],
     [m('codebook and minimum distance', 'CommDspy/misc/ml_decoding.py')],
     ['codewords', 'decoded bits', 'error probabilities'],
     'seeded write/read schedules over channels with flips, bursts, stuck runs, loss, duplication and truncation against a codebook search',
     'Sampled; mostly k <= 6, n <= 14, with samples up to k = 11 or n = 70 and long batches of blocks.')

prop('C07', 'Convolutional codes: the encoder machine and maximum-likelihood decoding',
     'For any generators (several inputs, unequal memories, with or without recursive feedback) the encoder emits exactly the '
     'outputs of the shift-register machine over F2 started from zero, however long the message. For any received bits and any trace-back length, the '
     'Viterbi decoder and the block maximum-likelihood decoder return for every trace-back block a message whose code path is at minimum Hamming '
     'distance among all paths from any register state, each block decoded on its own, hence the '
     'sent message when errors leave it the unique closest path, with the documented error probability (Viterbi: one over the number of equally good '
     'end states, 0 if only one; block decoder: 0 on a code path, else one over the number of closest paths) and, for Viterbi, a best end state of the last block; '
     'incomplete blocks at the end, the grouping of blocks and the key order of the generator dictionary never change the result.',
     ['inputs', 'fault_sequences', 'schedules', 'configurations'],
     'every code, message, error pattern, trace-back length and grouping',
     'tests decode a few fixed codes with no errors or single errors',
     ['CommDspy/tx/coding.py', 'CommDspy/rx/decoding.py', 'CommDspy/misc/ml_decoding.py'],
     [s('register', 'delay elements of every input', 'CommDspy/tx/coding.py'), s('survivors', 'best metric per state', 'CommDspy/misc/ml_decoding.py')],
     [m('trellis construction', 'CommDspy/misc/ml_decoding.py'), m('add-compare-select and trace back', 'CommDspy/misc/ml_decoding.py')],
     ['encoded bits', 'decoded bits', 'error probability', 'last state'],
     'seeded channels with flips, bursts, slips and truncation and seeded block groupings against a dynamic-programming reference',
     'Sampled; at most 5 memory bits.')

prop('C08', 'Line decoders flag errors, contain them and resynchronise',
     'Manchester, differential Manchester, bipolar (AMI), MLT-3 and differential decoding of any received level sequence give the documented '
     'values, and with level errors, lost symbols, a late join or a swapped polarity every value whose own symbols (and, '
     'where the code has memory, the symbol before) are intact equals what was sent. A Manchester bit with one wrong level is flagged '
     'as 0.5; bipolar error detection flags with +-0.5 exactly the pairs of consecutive equal-polarity marks, never on an intact stream, and '
     'always for a single error between two marks. Decoding window by window, as a vector or as rows of a matrix read row by row, gives the same values.',
     ['inputs', 'fault_sequences', 'schedules'],
     'every data sequence, error pattern, join point, loss and window schedule',
     'tests decode what the encoder produced, intact and from its first symbol',
     ['CommDspy/rx/decoding.py', 'CommDspy/tx/coding.py'],
     [s('previous symbol / last mark', 'memory of the line code', 'CommDspy/rx/decoding.py')],
     [m('error detection', 'CommDspy/rx/decoding.py'), m('transition decoding', 'CommDspy/rx/decoding.py')],
     ['decoded values and flags'],
     'seeded line faults and window schedules against reference decoders and the sent data',
     'Sampled. Two-symbol codes are received with known bit boundaries; bipolar detection on vectors.')

prop('C09', 'Calls are independent: any interleaving, interruption or call history',
     'Every function of the public API that draws no random numbers returns what the same call returns alone in a fresh process, whatever calls were '
     'made before, whatever other threads of the process are inside the library, and whether earlier calls were interrupted by an '
     'asynchronous exception or a failed allocation at any point. It does not modify arrays passed in, its results are not changed by '
     'later calls nor later calls by edits of its results, and it leaves numpy\'s global random generator and error settings, the working directory and environment as they '
     'were. Stateful objects interrupted between calls or used side by side do not share state.',
     ['schedules', 'crash_points', 'histories'],
     'every script of calls, thread interleaving at line granularity and interruption point',
     'tests make each call once, single threaded and uninterrupted, and never look at inputs or earlier results afterwards',
     ['CommDspy/'],
     [s('module level and default-argument objects', 'shared by all calls', 'CommDspy/')],
     [m('arguments are copied or only read', 'CommDspy/')],
     ['results, inputs and earlier results after every call'],
     'a cooperative thread scheduler (sys.settrace) decides every interleaving and injected KeyboardInterrupt/MemoryError; oracle is the call '
     'alone in a fresh process',
     'Sampled schedules at source-line granularity inside CommDspy; numpy and scipy calls are atomic.')

prop('C10', 'Randomness: one seed is one run; noise is calibrated, white, fresh',
     'With numpy\'s global generator seeded or restored to a saved state, noise, noisy channels and jitter repeat bit for bit, also when several streams interleave and after a crash. '
     'The noise added is zero-mean, white, Gaussian and independent between chunks and streams, with power equal to the power of the (filtered) signal, DC '
     'included, divided by the requested SNR. They never enter the filter memories: noiseless chunks after noisy ones are exact, jitter moves each symbol by '
     'one Gaussian offset of the requested deviation, and functions draw nothing when noise and jitter are off.',
     ['schedules', 'crash_points', 'histories', 'configurations'],
     'every seed, SNR, signal, chunk schedule and restart point',
     'tests cannot see reproducibility, independence or calibration: they compare one noisy output with a loose tolerance',
     ['CommDspy/channel/additive_noise_functions.py', 'CommDspy/channel/pulse_shaping.py', 'CommDspy/auxiliary.py'],
     [s('global generator', 'the only entropy source', 'CommDspy/channel/additive_noise_functions.py')],
     [m('noise scaled from the measured power', 'CommDspy/channel/additive_noise_functions.py'), m('per-symbol jitter', 'CommDspy/channel/pulse_shaping.py')],
     ['outputs of twin executions', 'noise = output minus exact clean output', 'memories'],
     'the generator is the simulator\'s seeded entropy; every run executes twice and restarts from (generator state, memories) checkpoints',
     'Statistics are judged at 6.5 standard deviations over 200-4000 samples, or over 20-160 chunks of 1-64 samples.')

prop('C11', 'LMS gradients are the documented ones and adaptation recovers after faults',
     'For every chunk of equaliser inputs and outputs, the hard and the soft decision-directed LMS functions return the documented loss and, for each requested '
     'feed-forward offset (negative for precursors) and feedback delay, half the mean over the chunk of error times delayed input, respectively minus half '
     'the mean of error times delayed reference, in the order requested, with the given reference or the sliced outputs, and the result '
     'layout that matches the requested taps. A receiver that runs the real equaliser and updates its taps with them follows the reference receiver through channel steps, gain '
     'changes, glitches, lost and repeated chunks, stalls and restarts, and converges after the faults stop whenever the documented gradients do.',
     ['histories', 'fault_sequences', 'crash_points'],
     'every chunk, level set, tap subset and order, fault history and restart point',
     'tests check convergence of one noiseless scenario, where wrong scale, order or boundary terms still converge',
     ['CommDspy/rx/least_mean_squares.py', 'CommDspy/rx/ffe_dfe_model.py', 'CommDspy/rx/slicer.py'],
     [s('taps and memories', 'state of the adaptive receiver', 'CommDspy/rx/ffe_dfe_model.py')],
     [m('derivative per tap over the overlap', 'CommDspy/rx/least_mean_squares.py')],
     ['loss and gradients of every chunk', 'taps after every update', 'MSE after the quiet tail'],
     'seeded fault histories of an adaptive receiver in lock step with a term-by-term reference receiver; bounded liveness',
     'Sampled. Soft decisions while the mixture density does not underflow; progress relative to the reference loop.')

prop('C12', 'Clock recovery steps towards the symmetric sampling point and holds it',
     'For every chunk, the Mueller-Muller detector returns 1, 0 or -1: 0 when the weighted first post- and precursor estimates differ by less '
     'than the tolerance, otherwise the sign of post minus pre, independent of earlier calls and odd in the signal. A loop that adds the step to its sampling phase, on a '
     'symmetric pulse, therefore moves towards the symmetric point from either side and, after phase jumps, drift, noise, glitches, gain or '
     'polarity changes, lost chunks and stalls stop, locks within as many chunks as it is samples away and stays within an eighth of a symbol.',
     ['histories', 'fault_sequences', 'schedules'],
     'every chunk, weight, tolerance, phase error up to half a symbol and fault history',
     'the test runs one loop from one phase on one pulse and accepts a wide final window',
     ['CommDspy/rx/clock_data_recovery.py', 'CommDspy/channel/pulse_shaping.py'],
     [s('sampling phase', 'phase accumulator of the loop', 'CommDspy/rx/clock_data_recovery.py')],
     [m('pre/post cursor correlation', 'CommDspy/rx/clock_data_recovery.py')],
     ['every step', 'phase after faults stop'],
     'seeded phase/line fault histories over real pulse shaping; step oracle and bounded lock time',
     'Sampled. Lock is claimed for sinc, raised cosine and root raised cosine pulses and chunks of 511 symbols.')

prop('C13', 'Channel and equaliser estimates do not depend on when the capture started',
     'From a capture of a running PRBS line that starts at any instant and holds any number of periods (averaged), the channel estimate '
     'is, up to one positive gain, the least-squares channel at the main cursor for the requested numbers of pre- and postcursors, with its residual; '
     'normalised, its peak is 1; the equaliser estimate has the requested numbers of feed-forward pre- and postcursors and feedback taps in any proportion, reaches the least-squares '
     'quality over the period (with ridge regularisation, the least penalised cost), equals the exact inverse when one exists, reports its normalised MSE, and run by the real equaliser decides the live line without errors when the '
     'least-squares equaliser would; normalising only moves the gain. This holds for NRZ, OOK and PAM4, every bit-order, inversion and Gray flag set that matches the '
     'line, under gain, polarity and channel changes, noise and garbage captures in between.',
     ['histories', 'fault_sequences', 'configurations'],
     'every capture instant and length, channel, tap count, flag set and sequence of captures',
     'tests estimate one channel from one capture whose start and flags are fixed and never use feedback taps in the estimate',
     ['CommDspy/channel_estimation.py', 'CommDspy/equalization_estimation.py', 'CommDspy/rx/lock_pattern.py', 'CommDspy/misc/least_squares.py'],
     [s('pattern alignment', 'rotation of the reference found by the lock', 'CommDspy/channel_estimation.py')],
     [m('averaging, cyclic shift and Hankel matrix', 'CommDspy/equalization_estimation.py')],
     ['taps, residual, MSE, decisions on the live line'],
     'seeded trigger instants, capture lengths and line changes against cyclic least squares with known alignment, then the live line',
     'Sampled; PRBS7 and PRBS9; channels whose lock is unambiguous. Captures below one period are claimed for exactly invertible channels.')

prop('C14', 'Framing, packing and rate conversion do not depend on block boundaries',
     'A stream processed block by block, with as many past samples kept as the operation spans, gives what the whole stream gives: buffer cuts the documented frames '
     '(any length, overlap or skip, delay; each sample in every frame that covers it, the last frame zero padded or, when clipping, dropped exactly if incomplete), upsample '
     'inserts rate-1 zeros after and zoh repeats every sample, and digital_oversample returns for every kept sample the sample itself followed by its Lagrange, sinc or raised cosine '
     'interpolations at multiples of 1/osr over the order+1 samples around it, with the matching time axis. Delay filters of order n have the documented taps (Lagrange ones delay '
     'polynomials up to degree n exactly); packing words into bits, most significant first, and back is exact in any shape. This holds for any block sizes, interleaved streams, restarts from '
     'kept samples and reused buffers; inputs are never modified.',
     ['schedules', 'crash_points', 'fault_sequences', 'configurations'],
     'every block schedule, restart point, frame geometry, interpolation order, method and rate',
     'tests cut a handful of frames of one vector and plot one interpolation; none joins two blocks',
     ['CommDspy/auxiliary.py', 'CommDspy/digital_delay.py', 'CommDspy/channel/pulse_shaping.py'],
     [s('kept samples', 'overlap or interpolation history carried by the caller', 'CommDspy/digital_delay.py')],
     [m('frame matrix rows', 'CommDspy/auxiliary.py'), m('delay filter bank', 'CommDspy/digital_delay.py')],
     ['frames, interpolated samples and time axis of every block', 'output after restart'],
     'seeded block/link/crash schedules over framing and rate conversion stages against sample-by-sample references',
     'Sampled schedules; interpolation orders 1 to 24 (delay filters to 32), rates to 6 per stage.')

prop('C15', 'An eye monitor counts every sample of the line exactly once',
     'For a line of any oversampling and captures of whole symbols cut anywhere, each eye diagram holds in every phase column and amplitude bin exactly the number of samples of that phase '
     'in that bin of [-fs, fs] (the upper end in the last bin, samples beyond the range left out), shown over two equal symbols, with the documented amplitude axis; with a finer diagram the '
     'samples are those of the sinc interpolation, and the log display is the log10 of the same counts plus 0.1. Hence the sum of the diagrams of all captures, in any order, with '
     'losses, repeats and restarts of the monitor, is the diagram of everything captured, and no count appears or disappears.',
     ['histories', 'schedules', 'crash_points', 'fault_sequences'],
     'every capture schedule, line, range, number of bins and oversampling',
     'the examples only plot a diagram; no test looks at a count',
     ['CommDspy/eye_diagram.py', 'CommDspy/digital_delay.py', 'CommDspy/auxiliary.py'],
     [s('accumulated diagram', 'sum kept by the monitor', 'CommDspy/eye_diagram.py')],
     [m('histogram per phase', 'CommDspy/eye_diagram.py')],
     ['counts of every diagram and of their sum'],
     'seeded capture schedules with loss, repetition, reordering and crash/restart; conservation and merge oracles',
     'Sampled; samples within rounding of an inner bin edge are excluded.')

prop('C16', 'Results depend on the samples, not on how caller memory holds them',
     'Every deterministic function of the public API returns, to rounding, the same numbers for the same samples however the caller holds them: contiguous or strided (interleaved lanes, packet fields, '
     'reversed or transposed views, unaligned or read-only memory), in either byte order, and for bits, symbols and converter samples in signed or unsigned words of any width that holds them, or as '
     'doubles. It writes nothing into that memory, nothing around the samples influences the result, whenever the capture engine writes there, and a result already returned does not change '
     'when the memory is reused.',
     ['schedules', 'histories', 'fault_sequences', 'configurations'],
     'every call, memory layout, word width and schedule of memory reuse',
     'tests hold everything in fresh contiguous 64 bit arrays',
     ['CommDspy/rx/lock_pattern.py', 'CommDspy/rx/decoding.py', 'CommDspy/misc/help_functions.py', 'CommDspy/rx/least_mean_squares.py', 'CommDspy/rx/clock_data_recovery.py',
      'CommDspy/rx/demapping.py', 'CommDspy/auxiliary.py', 'CommDspy/tx/coding.py'],
     [s('capture memory', 'ring, lanes and packets owned by the caller', 'CommDspy/auxiliary.py')],
     [m('arithmetic on caller arrays', 'CommDspy/misc/help_functions.py'), m('bit and level differences', 'CommDspy/rx/decoding.py')],
     ['result of every call', 'caller memory after every call', 'held results after memory reuse'],
     'seeded capture engine (layouts, word widths, neighbour writes, slot reuse, late and repeated calls) against the same call on private 64 bit memory',
     'Sampled. Not claimed: booleans, floating point below 64 bits, narrow tap index vectors, unsigned custom levels or polynomials.')

prop('C17', 'Requests that cannot be carried out are refused and leave no trace',
     'A request the library declares invalid raises ValueError (AttributeError for an unknown interpolation) instead of returning wrong data, at any point of a running system: a carried memory whose '
     'length does not fit the pulse, filter or equaliser; data, generators or feedback polynomials that are not bits for the binary line, block and convolutional coders and decoders, whichever values '
     'they mix; feedback definitions that contradict the generators; unknown pulses, interpolations, regularisations, fixed point types or constellations; custom levels or symbol counts that '
     'do not fit; an LMS reference of another length. A refused request modifies nothing it was given, a filter object keeps the memory it had, every running stream goes on as if '
     'the request had never been made, and the same function afterwards serves valid requests as before.',
     ['fault_sequences', 'histories', 'configurations'],
     'every invalid request of these kinds, at every point of every stream',
     'tests send no invalid request',
     ['CommDspy/misc/help_functions.py', 'CommDspy/misc/help_classes.py', 'CommDspy/channel/pulse_shaping.py', 'CommDspy/rx/ffe_dfe_model.py', 'CommDspy/tx/bin2symbol.py', 'CommDspy/tx/mapping.py',
      'CommDspy/rx/quantiztion.py', 'CommDspy/rx/least_mean_squares.py', 'CommDspy/digital_delay.py', 'CommDspy/misc/least_squares.py', 'CommDspy/auxiliary.py'],
     [s('filter memory', 'delay lines of the filter objects, carried memories', 'CommDspy/misc/help_classes.py')],
     [m('binary and code validation', 'CommDspy/misc/help_functions.py'), m('memory length checks', 'CommDspy/misc/help_classes.py')],
     ['exception of the refused call', 'its arguments afterwards', 'outputs of the streams around it'],
     'seeded control plane that delivers corrupted requests between the chunks of live streams, refusal demanded, streams checked against the difference equation',
     'Sampled. Only requests the code or README declares invalid; other misuse is not claimed.')

PURE = 'pure function of one call: no schedule, clock, I/O, randomness, fault or state carried between calls for a simulator to decide; '
na('N01', 'The power spectrum analyser is calibrated', 'psa returns the Welch estimate of the spectrum of a signal in the requested unit and resolution bandwidth.',
   ['inputs'], 'every signal and parameter set', 'no test covers it', ['CommDspy/psa.py'], [m('Welch estimate and normalisation', 'CommDspy/psa.py')],
   PURE + 'not exported by the package')
na('N03', 'Regularised least squares minimise their documented objective', 'least_squares with lasso, and its manual variants, return the minimiser of the penalised residual.', ['inputs'],
   'every matrix, right hand side and lambda', 'tests use one matrix', ['CommDspy/misc/least_squares.py'], [m('scikit-learn models', 'CommDspy/misc/least_squares.py')],
   PURE + 'a numerical optimality question')
