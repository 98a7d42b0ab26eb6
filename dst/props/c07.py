"""C07: convolutional codes over a faulty channel: encoder equals the F2 machine, both decoders are maximum likelihood."""
import numpy as np

import CommDspy as cdsp
from dst import ref
from dst.core import Violation

BUDGET = {'quick': {'runs': 3200, 'wall': 240}, 'thorough': {'runs': 40000, 'wall': 1500}}
RULE = ('one run = 1-2 convolutionally coded links with random generators, feedback and trace-back length; encoded streams cross '
        'a channel with flips, bursts, slips and truncation and are decoded by Viterbi and block ML in a seeded grouping of '
        'blocks; non-trivial = at least one oracle check and one fault or probe; distinct = distinct event log')
REAL = ['tx.coding_conv', 'rx.decoding_conv_viterbi', 'rx.decoding_conv_ml', 'misc.Trellis', 'misc.ml_decoding']
STUB = ['the channel and the transport (simulated)']
ASSUMPTIONS = ['at most 7 memory bits for decoding; feedback polynomials as long as the register']
REQUIRED_PROBES = ['flip', 'burst', 'slip', 'truncated', 'feedback', 'mixed_feedback', 'systematic', 'two_inputs', 'padded',
                   'ambiguous', 'unique_path', 'long_message', 'grouped', 'memoryless_input', 'uneven_memory', 'ml', 'viterbi', 'keys_out_of_order',
                   'long_trace_back', 'many_blocks', 'encode_only', 'many_registers']


class Code:
    def __init__(self, sim, lid):
        self.sim, self.id = sim, lid
        r = sim.data_rng()
        self.n_in = sim.wpick([(6, 1), (4, 2), (0.6, 3)])
        self.n_out = sim.integer(1, 4) if self.n_in == 1 else sim.integer(2, 4)
        cap = 5 if sim.flip(0.1) else 4
        self.mem = []
        for i in range(self.n_in):
            room = cap - sum(self.mem) - (self.n_in - 1 - i)
            self.mem.append(sim.integer(1, max(1, min(3 if self.n_in > 1 else 4, room))))
        if self.n_in > 1 and sim.flip(0.15):
            self.mem[sim.draw(self.n_in)] = 0
            sim.probe('memoryless_input')
        if sum(self.mem) == 0:
            self.mem[0] = 1
        if len(set(self.mem)) > 1:
            sim.probe('uneven_memory')
        self.deep = sim.flip(0.03)
        if self.deep:                                   # dozens of states
            self.n_in, self.n_out = 1, sim.integer(2, 3)
            self.mem = [sim.integer(5, 7)]
            sim.probe('many_registers')
        G = {i: r.randint(0, 2, (self.n_out, self.mem[i] + 1)) for i in range(self.n_in)}
        if not self.deep and sim.flip(0.15):
            G, self.n_in, self.n_out, self.mem = self.classic(sim)
        if self.n_in > 1:
            sim.probe('two_inputs')
        for i in range(self.n_in):                     # some outputs purely systematic or unused
            for j in range(self.n_out):
                if sim.flip(0.2):
                    G[i][j] = 0
                    G[i][j][0] = sim.draw(2)
                    sim.probe('systematic')
        self.fb = self.uf = None
        if sim.flip(0.45):
            fb, uf = {}, np.zeros((self.n_in, self.n_out), dtype=int)
            for i in range(self.n_in):
                if self.mem[i] and sim.flip(0.7):
                    fb[i] = np.concatenate([[1], r.randint(0, 2, self.mem[i])])
                    for j in range(self.n_out):
                        uf[i, j] = 1 if G[i][j][1:].any() or sim.flip(0.5) else 0
            if fb:
                self.fb, self.uf = fb, uf
                sim.probe('feedback')
                if len(fb) < self.n_in:
                    sim.probe('mixed_feedback')
        self.G = G
        if self.n_in > 1 and sim.flip(0.3):             # the keys name the inputs, their order in the dictionary means nothing
            self.G = {i: G[i] for i in reversed(sorted(G))}
            self.fb = self.fb if self.fb is None else {i: self.fb[i] for i in reversed(sorted(self.fb))}
            sim.probe('keys_out_of_order')
        self.lists = [g.tolist() for _, g in sorted(G.items())]
        self.fbl = None if self.fb is None else {i: v.tolist() for i, v in self.fb.items()}
        self.ufl = None if self.uf is None else self.uf.tolist()
        # trace-back length in chunks of n_out
        lim = 7 // self.n_in if sum(self.mem) > 2 else 8 // self.n_in
        self.ml = not self.deep and sim.flip(0.4)
        self.chunks = sim.integer(1, max(1, lim)) if self.ml else sim.integer(1, 14)
        self.long = not self.ml and sum(self.mem) <= 3 and sim.flip(0.06)
        if self.long:                                   # path metrics beyond any small counter
            self.chunks = sim.integer(60, 300)
            sim.probe('long_trace_back')
        self.many = not self.long and not self.deep and sim.flip(0.05)
        self.tb = self.chunks * self.n_out
        self.rate = sim.pick([0.0, 0.02, 0.08, 0.25]) if not self.long else sim.pick([0.25, 0.02, 0.5])

    @staticmethod
    def classic(sim):
        k = sim.draw(4)
        if k == 0:
            return {0: np.array([[1, 1, 1], [1, 0, 1]])}, 1, 2, [2]
        if k == 1:
            return {0: np.array([[1, 0], [0, 0], [1, 1]]), 1: np.array([[0, 0, 0], [1, 0, 0], [0, 0, 1]])}, 2, 3, [1, 2]
        if k == 2:
            return {0: np.array([[1, 1, 1, 1], [1, 1, 0, 1]])}, 1, 2, [3]
        return {0: np.array([[1, 0, 0, 1, 1], [1, 1, 1, 0, 1]])}, 1, 2, [4]

    def kw(self):
        return {} if self.fb is None else dict(feedback={k: v.copy() for k, v in self.fb.items()}, use_feedback=self.uf.copy())

    def text(self):
        return f'G={self.lists} feedback={self.fbl} use={self.ufl}'


class Link:
    def __init__(self, sim, lid):
        self.sim, self.id = sim, lid
        self.c = Code(sim, lid)
        self.rx = []
        self.left = sim.integer(1, 3)

    def write(self):
        sim, c = self.sim, self.c
        r = sim.data_rng()
        L = sim.size(1, 60, 12)
        if c.long or c.many or sim.flip(0.08):
            L = sim.integer(200, 1500)
            sim.probe('long_message')
        msg = r.randint(0, 2, L)
        if L % c.n_in:
            sim.probe('padded')
        keep, gk = msg.copy(), {i: g.copy() for i, g in c.G.items()}
        kw = c.kw()
        out = np.asarray(sim.call('coding_conv', cdsp.tx.coding_conv, msg, c.G, **kw))
        sim.equal(msg, keep, 'input-modified', 'message')
        for i in gk:
            sim.equal(c.G[i], gk[i], 'input-modified', f'G[{i}]')
        if kw:
            sim.equal(kw['use_feedback'], c.uf, 'input-modified', 'use_feedback')
            for i in c.fb:
                sim.equal(kw['feedback'][i], c.fb[i], 'input-modified', f'feedback[{i}]')
        want = ref.conv_encode(msg, c.lists, c.fbl, c.ufl)
        sim.log('write', self.id, L, len(want), data=out)
        sim.equal(out, want, 'encoder', f'link {self.id} {c.text()} message of {L} bits')
        rx = np.array(want)
        e = r.rand(len(rx)) < c.rate
        if e.any():
            sim.fault('flip', self.id, int(e.sum()))
            rx = rx ^ e
        if sim.flip(0.2):
            a = sim.draw(len(rx))
            rx[a:a + sim.integer(1, 6)] ^= 1
            sim.fault('burst', self.id, a)
        if sim.flip(0.1):
            a = sim.draw(len(rx))
            rx = np.delete(rx, a) if sim.flip(0.5) else np.insert(rx, a, sim.draw(2))
            sim.fault('slip', self.id, a)
        self.rx += [int(v) for v in rx[:(2 if c.long else 80 if c.many else 12) * c.tb]]
        self.left -= 1
        sim.after(1 + sim.draw(6), self.write if self.left and sim.flip(0.4) else self.read)

    def read(self):
        sim, c = self.sim, self.c
        avail = len(self.rx) // c.tb
        if avail:
            m = min(avail, sim.integer(20, 80) if c.many else sim.size(1, 8, 2))
            if m >= 20:
                sim.probe('many_blocks')
            if m > 1:
                sim.probe('grouped')
            tail = 0
            if sim.flip(0.3):
                tail = min(len(self.rx) - m * c.tb, sim.draw(c.tb))
            bits = np.array(self.rx[:m * c.tb + tail])
            del self.rx[:m * c.tb]
            if tail:
                sim.fault('truncated', self.id, tail)
            self.decode(bits, m)
        if len(self.rx) >= c.tb:
            sim.after(1 + sim.draw(6), self.read)
        elif self.left:
            sim.after(1 + sim.draw(6), self.write)

    def decode(self, bits, m):
        sim, c = self.sim, self.c
        kinds = ['viterbi', 'ml'] if c.ml else ['viterbi']
        refs = [ref.conv_viterbi_min([int(v) for v in bits[b * c.tb:(b + 1) * c.tb]], c.lists, c.fbl, c.ufl,
                                     2 if c.long or c.many else 64) for b in range(m)]
        for kind in kinds:
            sim.probe(kind)
            keep, gk = bits.copy(), {i: g.copy() for i, g in c.G.items()}
            probs = sim.flip(0.5)
            fn = cdsp.rx.decoding_conv_viterbi if kind == 'viterbi' else cdsp.rx.decoding_conv_ml
            kw = c.kw()
            if probs:
                kw['error_prob'] = True
            res = sim.call(f'decoding_conv_{kind}', fn, bits, c.G, c.tb, **kw)
            sim.equal(bits, keep, 'input-modified', 'received')
            for i in gk:
                sim.equal(c.G[i], gk[i], 'input-modified', f'G[{i}]')
            last = p = None
            if kind == 'viterbi':
                got, last = res[0], res[1]
                p = res[2] if probs else None
            else:
                got, p = (res if probs else (res, None))
            got = np.asarray(got)
            sim.log('read', self.id, kind, m, len(bits), data=got)
            w = c.chunks * c.n_in
            sim.check(got.shape == (m * w,), 'length', f'{kind}: {m} blocks, {got.shape} decoded values')
            if probs:
                sim.check(np.shape(p) == (m,), 'length', f'{kind}: probabilities {np.shape(p)}')
            for b in range(m):
                blk = [int(v) for v in bits[b * c.tb:(b + 1) * c.tb]]
                best, dist, words = refs[b]
                word = tuple(int(v) for v in got[b * w:(b + 1) * w])
                where = f'link {self.id} {kind} {c.text()} tb_len={c.tb} block {b} of {m}: received {blk}'
                sim.check(all(v in (0, 1) for v in word), 'not-binary', where)
                d = ref.conv_word_distance(word, blk, c.lists, c.fbl, c.ufl)
                sim.check(d == best, f'{kind}-not-closest', f'{where}: decoded {word} at distance {d}, closest path at {best}')
                if len(words) == 1:
                    sim.probe('unique_path')
                    sim.check(word in words, f'{kind}-word', f'{where}: {word} instead of {sorted(words)[0]}')
                else:
                    sim.probe('ambiguous')
                if kind == 'viterbi':
                    if b == m - 1:
                        sim.check(dist[int(last)] == best, 'last-state', f'{where}: last state {last} has metric {dist[int(last)]}')
                    if probs:
                        cnt = sum(1 for q in dist if q == best)
                        want = 1.0 / cnt if cnt > 1 else 0.0
                        sim.check(abs(float(p[b]) - want) < 1e-12, 'error-probability', f'{where}: {p[b]} instead of {want}')
                elif probs:
                    if best == 0:
                        sim.check(float(p[b]) == 0, 'error-probability', f'{where}: {p[b]} for a codeword')
                    else:
                        cnt = count_paths(blk, c, best)
                        sim.check(abs(float(p[b]) - 1.0 / cnt) < 1e-12, 'error-probability', f'{where}: {p[b]} instead of 1/{cnt}')


def count_paths(blk, c, best):
    """Number of (start state, input word) pairs whose codeword is at distance `best`: dynamic programming over counts."""
    from collections import defaultdict
    ins = [[(u >> (c.n_in - 1 - k)) & 1 for k in range(c.n_in)] for u in range(1 << c.n_in)]
    cur = defaultdict(int)
    for _, st in ref.conv_all_states(c.lists):
        cur[(tuple(map(tuple, st)), 0)] += 1
    for t in range(0, len(blk), c.n_out):
        nxt = defaultdict(int)
        for (st, d), n in cur.items():
            for u in ins:
                o, ns = ref.conv_step(u, [list(q) for q in st], c.lists, c.fbl, c.ufl)
                dd = d + sum(p != q for p, q in zip(o, blk[t:t + c.n_out]))
                if dd <= best:
                    nxt[(tuple(map(tuple, ns)), dd)] += n
        cur = nxt
    return sum(n for (_, d), n in cur.items() if d == best)


def encode_only(sim):
    """Long messages and registers too large for a trellis."""
    r = sim.data_rng()
    n_in, n_out = sim.pick([1, 1, 2, 3]), sim.integer(2, 6)
    mem = [sim.integer(1, 30) for _ in range(n_in)]
    G = {i: r.randint(0, 2, (n_out, mem[i] + 1)) for i in range(n_in)}
    fb = uf = None
    if sim.flip(0.4):
        fb, uf = {i: np.concatenate([[1], r.randint(0, 2, mem[i])]) for i in range(n_in)}, np.ones((n_in, n_out), dtype=int)
    L = sim.size(1, 12000, 2000)
    msg = r.randint(0, 2, L)
    kw = {} if fb is None else dict(feedback=fb, use_feedback=uf)
    out = sim.call('coding_conv', cdsp.tx.coding_conv, msg, G, **kw)
    want = ref.conv_encode(msg, [G[i].tolist() for i in range(n_in)], None if fb is None else {i: v.tolist() for i, v in fb.items()},
                           None if uf is None else uf.tolist())
    sim.equal(out, want, 'encoder', f'{n_in} inputs, {n_out} outputs, registers {mem}, feedback {fb is not None}, message of {L} bits')
    sim.log('encode', n_in, n_out, L, data=np.asarray(out))
    sim.probe('encode_only')


def run(sim):
    if sim.flip(0.03):
        encode_only(sim)
    for k in range(sim.integer(1, 2)):
        sim.after(sim.draw(4), Link(sim, k).write)
    while sim.step():
        if sim.steps > 2000:
            raise Violation('no-progress', 'step cap')

