"""C06: linear block codes over a faulty channel: maximum-likelihood decisions, guaranteed correction, framing."""
import numpy as np

import CommDspy as cdsp
from dst import ref
from dst.core import Violation

BUDGET = {'quick': {'runs': 4000, 'wall': 240}, 'thorough': {'runs': 80000, 'wall': 1500}}
RULE = ('one run = 1-3 coded links with random or classic generator matrices; messages are encoded in a seeded series of '
        'writes, cross a channel with random flips, bursts, stuck runs, truncation, lost and repeated blocks, and are decoded in a '
        'seeded grouping of blocks; non-trivial = at least one oracle check and one fault or probe; distinct = distinct log')
REAL = ['tx.coding_linear', 'rx.decoding_linear', 'misc.ml_decoding', 'get_bin_perm']
STUB = ['the channel and the transport (simulated)']
ASSUMPTIONS = ['decoded codes with k <= 11 and n <= 70 (the decoder enumerates the codebook), encoded ones with k <= 300']
REQUIRED_PROBES = ['flip', 'burst', 'stuck', 'truncated', 'block_lost', 'block_dup', 'padded', 'ambiguous', 'corrected',
                   'beyond_correction', 'grouped', 'buffer_reuse', 'below_one_block', 'large_code', 'wide_code', 'many_blocks', 'late_information',
                   'encode_only']

HAMMING74 = [[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]]
HAMMING84 = [r + [p] for r, p in zip(HAMMING74, (1, 1, 1, 0))]
CLASSIC = [HAMMING74, HAMMING84, [[1, 1, 1]], [[1] * 5], [[1, 0, 1], [0, 1, 1]], [[1, 0, 1, 1, 0], [0, 1, 0, 1, 1]],
           [[1, 1, 1, 1, 1, 1, 1, 1], [0, 0, 0, 0, 1, 1, 1, 1], [0, 0, 1, 1, 0, 0, 1, 1], [0, 1, 0, 1, 0, 1, 0, 1]],
           [[1, 0], [0, 1]], [[0, 1, 1], [1, 1, 0]], [[1, 1, 0], [0, 1, 1]]]


class Link:
    def __init__(self, sim, lid):
        self.sim, self.id = sim, lid
        r = sim.data_rng()
        if sim.flip(0.5):
            G = sim.pick(CLASSIC)
        else:
            k = sim.integer(1, 6 if sim.flip(0.1) else 5)
            n = sim.integer(k, min(14, k + 6))
            if sim.flip(0.06):
                k = sim.integer(7, 11)
                n = sim.integer(k, k + 9)
                sim.probe('large_code')
            elif sim.flip(0.06):
                n = sim.integer(20, 70)
                sim.probe('wide_code')
            G = r.randint(0, 2, (k, n)).tolist()
            if sim.flip(0.7):                      # make it systematic, hence one message per codeword
                for i in range(k):
                    for j in range(k):
                        G[i][j] = int(i == j)
            if n > k and sim.flip(0.15):           # the information sits at the end, behind idle or common columns
                z = sim.integer(1, n - k)
                G = [([0] * z if sim.flip(0.7) else [1] * z) + [row[(j + k) % n] for j in range(z, n)] for row in G]
                sim.probe('late_information')
        self.G = np.array(G)
        self.k, self.n = self.G.shape
        self.book = ref.codebook(self.G.tolist())
        self.words = np.array([c for _, c in self.book])
        ds = [int(np.sum(c)) for m, c in self.book if any(m)]
        self.t = (min(ds) - 1) // 2 if min(ds) > 0 else -1
        self.dtype = sim.pick([int, int, np.int8, np.uint8, np.int32])
        self.rate = sim.pick([0.0, 0.03, 0.1, 0.3])
        self.left = sim.integer(1, 4)
        self.line = []              # received blocks with the sent message: (bits, message or None, errors)
        self.tail = 0
        self.many = self.k <= 5 and sim.flip(0.05 if self.n < 20 else 0.3)
        self.buf = np.zeros(32000, dtype=self.dtype)

    def write(self):
        sim = self.sim
        r = sim.data_rng()
        L = sim.size(1, 60, 8)
        if self.many:
            L = sim.integer(300, 1500)
            sim.probe('many_blocks')
        msg = r.randint(0, 2, L).astype(self.dtype)
        keep, gkeep = msg.copy(), self.G.copy()
        out = np.asarray(sim.call('coding_linear', cdsp.tx.coding_linear, msg, self.G))
        sim.equal(msg, keep, 'input-modified', 'message')
        sim.equal(self.G, gkeep, 'input-modified', 'G')
        pad = (-L) % self.k
        if pad:
            sim.probe('padded')
        full = [int(v) for v in msg] + [0] * pad
        want = []
        for b in range(0, len(full), self.k):
            want += self.book[int(''.join(map(str, full[b:b + self.k])), 2)][1]
        sim.equal(out, want, 'codeword', f'link {self.id} G={self.G.tolist()} message={keep.tolist()}')
        sim.log('write', self.id, self.k, self.n, L, data=out)
        for b in range(len(want) // self.n):
            self.channel(np.array(want[b * self.n:(b + 1) * self.n]), full[b * self.k:(b + 1) * self.k], r)
        self.left -= 1
        if self.left:
            sim.after(1 + sim.draw(6), self.write)

    def channel(self, word, msg, r):
        sim = self.sim
        rx = word.copy()
        e = r.rand(self.n) < self.rate
        if e.any():
            sim.fault('flip', self.id, int(e.sum()))
            rx ^= e.astype(int)
        if sim.flip(0.08):
            a = sim.draw(self.n)
            rx[a:a + sim.integer(1, 4)] ^= 1
            sim.fault('burst', self.id, a)
        if sim.flip(0.05):
            a = sim.draw(self.n)
            rx[a:a + sim.integer(1, 5)] = sim.draw(2)
            sim.fault('stuck', self.id, a)
        if sim.flip(0.06):
            sim.fault('block_lost', self.id)
            return
        for _ in range(2 if sim.flip(0.06) else 1):
            if self.line and self.line[-1][0] is rx:
                sim.fault('block_dup', self.id)
            self.line.append((rx, msg, int(np.sum(rx != word))))

    def read(self):
        sim = self.sim
        if self.line or sim.flip(0.1):
            m = sim.size(1, 12, 3) if not self.many else sim.integer(100, 400)
            grp, self.line = self.line[:m], self.line[m:]
            if len(grp) > 1:
                sim.probe('grouped')
            bits = np.concatenate([g[0] for g in grp]) if grp else np.zeros(0, dtype=int)
            tail = sim.draw(self.n) if sim.flip(0.25) else 0
            if tail:
                sim.fault('truncated', self.id, tail)
                if not grp:
                    sim.probe('below_one_block')
                extra = self.line[0][0][:tail] if self.line else sim.data_rng().randint(0, 2, tail)
                bits = np.concatenate([bits, extra])
            if len(bits):
                self.decode(grp, bits)
        if self.left or self.line:
            sim.after(1 + sim.draw(6), self.read)

    def decode(self, grp, bits):
        sim = self.sim
        probs = sim.flip(0.5)
        bits = bits.astype(self.dtype)
        keep, gkeep = bits.copy(), self.G.copy()
        reuse = sim.flip(0.3) and len(bits) <= len(self.buf)
        if reuse:
            arr = self.buf[:len(bits)]
            arr[:] = bits
        else:
            arr = bits
        if probs:
            got, p = sim.call('decoding_linear', cdsp.rx.decoding_linear, arr, self.G, True)
        else:
            got = sim.call('decoding_linear', cdsp.rx.decoding_linear, arr, self.G)
            p = None
        sim.equal(arr, keep, 'input-modified', 'received pattern')
        sim.equal(self.G, gkeep, 'input-modified', 'G')
        if reuse:
            arr[:] = 1 - arr
            sim.fault('buffer_reuse', self.id)
        got = np.asarray(got)
        sim.log('read', self.id, len(grp), len(bits), int(probs), data=got)
        sim.check(got.shape == (len(grp) * self.k,), 'length', f'{len(grp)} blocks of {self.n} bits, {got.shape} decoded values')
        if probs:
            sim.check(np.shape(p) == (len(grp),), 'length', f'probabilities {np.shape(p)}')
        for b, (rx, msg, err) in enumerate(grp):
            d = np.sum(self.words != rx[None, :], axis=1)
            dmin = int(d.min())
            cnt = int(np.sum(d == dmin))
            m = [int(v) for v in got[b * self.k:(b + 1) * self.k]]
            where = f'link {self.id} G={self.G.tolist()} received {rx.tolist()}'
            sim.check(all(v in (0, 1) for v in m), 'not-binary', where)
            mine = int(d[int(''.join(map(str, m)), 2)])
            sim.check(mine == dmin, 'not-closest', f'{where}: decoded {m} at distance {mine}, closest codeword at {dmin}')
            if err <= self.t:
                sim.check(m == msg, 'not-corrected', f'{where}: {err} errors within t={self.t}, decoded {m}, sent {msg}')
                if err:
                    sim.probe('corrected')
            elif err:
                sim.probe('beyond_correction')
            if cnt > 1:
                sim.probe('ambiguous')
            if probs:
                w = 0.0 if dmin == 0 else 1.0 / cnt
                sim.check(abs(float(p[b]) - w) < 1e-12, 'error-probability', f'{where}: {p[b]} instead of {w}')


def encode_only(sim):
    """A code far too large to decode by enumeration: its codewords are still the XOR of the rows the message selects."""
    r = sim.data_rng()
    k = sim.size(12, 300, 70)
    n = k + sim.draw(41)
    G = r.randint(0, 2, (k, n))
    L = sim.size(1, 4 * k, k)
    msg = r.randint(0, 2, L).astype(sim.pick([int, int, np.int8, np.uint8, np.int32]))
    if sim.flip(0.3):
        msg[:] = 1
    out = np.asarray(sim.call('coding_linear', cdsp.tx.coding_linear, msg, G))
    rows = [int(''.join(map(str, g)), 2) for g in G.tolist()]
    want = []
    for b in range(0, L, k):
        w = 0
        for i, v in enumerate(msg[b:b + k].tolist()):
            w ^= rows[i] if v else 0
        want += [int(c) for c in format(w, f'0{n}b')]
    sim.equal(out, want, 'codeword', f'a ({n}, {k}) code, message of {L} bits')
    sim.log('encode', k, n, L, data=out)
    sim.probe('encode_only')


def run(sim):
    if sim.flip(0.1):
        encode_only(sim)
    for k in range(sim.integer(1, 3)):
        l = Link(sim, k)
        sim.after(sim.draw(4), l.write)
        sim.after(sim.draw(8), l.read)
    while sim.step():
        if sim.steps > 3000:
            raise Violation('no-progress', 'step cap')
