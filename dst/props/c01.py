"""C01: a PRBS stream is one sequence, however it is pulled, handed over, checkpointed, crashed and resumed."""
import pickle

import numpy as np

import CommDspy as cdsp
from dst import ref
from dst.core import Violation

BUDGET = {'quick': {'runs': 4000, 'wall': 240}, 'thorough': {'runs': 60000, 'wall': 1500}}
RULE = ('one run = 1-4 concurrent PRBS streams (standard and other maximal-length polynomials), each pulled in a random '
        'schedule of sizes by block generator or bit iterator, with handover, crash/restart, clones and buffer scribbles; '
        'non-trivial = at least one oracle check and at least one fault or probe; distinct = distinct event log')
REAL = ['CommDspy.tx.prbs_gen', 'CommDspy.tx.PrbsIterator', 'CommDspy.get_polynomial']
STUB = ['stream consumers, durable seed store and scheduler (simulated)']
ASSUMPTIONS = ['polynomials are maximal length when a single pull exceeds one period',
               'seeds are numpy integer vectors as documented']
REQUIRED_PROBES = ['pull_longer_than_period', 'pull_shorter_than_seed', 'crash', 'handover', 'clone', 'scribble_bits',
                   'lost_seed_write', 'scribble_seed', 'big_pull', 'zero_seed']

_PRIM = {}


def primitives(deg):
    if deg not in _PRIM:
        out = []
        for v in range(1 << (deg - 1)):
            taps = tuple(i + 1 for i in range(deg - 1) if v >> i & 1) + (deg,)
            if ref.lfsr_period(taps, deg) == (1 << deg) - 1:
                out.append(taps)
        _PRIM[deg] = out
    return _PRIM[deg]


for _d in range(2, 9):
    primitives(_d)


class Source:
    def __init__(self, sim, sid):
        self.sim = sim
        self.sid = sid
        if sim.draw(3) < 2:
            deg = sim.wpick([(4, 7), (3, 9), (2, 11), (2, 13), (1, 15), (2, 31)])
            self.taps = ref.PRBS_TAPS[deg]
            self.poly = sim.call('get_polynomial', cdsp.get_polynomial, cdsp.PrbsEnum['PRBS%d' % deg])
            sim.equal(np.asarray(self.poly), [1 if k + 1 in self.taps else 0 for k in range(deg)], 'polynomial', f'PRBS{deg}')
        else:
            deg = sim.integer(2, 8)
            self.taps = sim.pick(primitives(deg))
            self.poly = np.array([1 if k + 1 in self.taps else 0 for k in range(deg)])
        self.deg = deg
        self.period = (1 << deg) - 1
        how = sim.draw(3)
        if how == 0:
            seed = [1] * deg
        elif how == 1:
            seed = [int(v) for v in sim.data_rng().randint(0, 2, deg)]
        else:
            seed = [0] * deg
            if sim.flip(0.15):                          # a dead register stays dead
                sim.probe('zero_seed')
            else:
                seed[sim.draw(deg)] = 1
        self.seed0 = list(seed)
        self.poly0 = self.poly.copy()
        self.expected = np.zeros(0, dtype=np.int64)
        self.state_end = list(seed)
        self.pos = 0
        self.mode = sim.pick(['gen', 'iter'])
        self.left = sim.integer(3, 14)         # operations left
        self.durable = (0, np.array(seed))
        self.pending = None
        self.owner_bits = []
        self.attach(np.array(seed))

    def want(self, upto):
        if upto > len(self.expected):
            more, self.state_end = ref.lfsr(self.taps, self.state_end, upto - len(self.expected))
            self.expected = np.concatenate([self.expected, more])
        return self.expected

    def seed_at(self, pos):
        """Delay line before producing bit `pos` (most recent first)."""
        e = self.want(pos)
        hist = list(reversed(self.seed0)) + [int(v) for v in e[:pos]]
        return hist[::-1][:self.deg]

    def attach(self, seed):
        if self.mode == 'iter':
            self.seed_in = np.array(seed)
            self.it = self.sim.call('PrbsIterator', cdsp.tx.PrbsIterator, self.poly, self.seed_in)
        else:
            self.seed = seed
        self.private = False

    def current_seed(self):
        if self.mode == 'iter':
            return self.sim.call('get_seed', self.it.get_seed)
        return self.seed

    def size(self):
        sim = self.sim
        d, p = self.deg, self.period
        sizes = [1, 2, d - 1, d, d + 1, 2 * d, 0]
        if p <= 2047:
            sizes += [p - 1, p, p + 1, p + d - 1]
            if p <= 511:
                sizes += [2 * p, 2 * p + 1, 3 * p + d, 2 * p - 1]
        elif p <= 32767 and sim.draw(8) == 7:
            sizes = [p - 1, p, p + 1, p + d - 1, p + d]
        k = sim.draw(len(sizes) + 4)
        n = sizes[k] if k < len(sizes) else 1 + sim.draw(3000 if k == len(sizes) + 3 else 200)
        if self.mode == 'iter':
            n = min(n, 300)
        elif p > 100000 and sim.draw(150) == 149 and len(self.expected) < 100000:
            n = 60000 + sim.draw(30000)
            sim.probe('big_pull')
        return n

    def pull(self):
        sim = self.sim
        n = self.size()
        e = self.want(self.pos + n)[self.pos:self.pos + n]
        where = f'stream {self.sid} deg {self.deg} taps {self.taps} {self.mode} bits [{self.pos},{self.pos + n})'
        if self.mode == 'gen':
            seed_in = self.seed
            keep = np.array(seed_in)
            bits, nxt = sim.call('prbs_gen', cdsp.tx.prbs_gen, self.poly, seed_in, n)
            sim.log('pull', self.sid, 'gen', n, data=np.asarray(bits, dtype=np.int64))
            sim.equal(bits, e, 'sequence', where)
            sim.equal(seed_in, keep, 'seed-argument-modified', where)
            sim.equal(nxt, self.seed_at(self.pos + n), 'seed', where)
            self.seed = nxt
            if n > self.period:
                sim.probe('pull_longer_than_period')
            if 0 < n < self.deg:
                sim.probe('pull_shorter_than_seed')
            if n and sim.flip(0.3):
                sim.fault('scribble_bits', self.sid)     # the consumer edits its bits in place (e.g. injects bit errors)
                bits[...] = 1 - bits
            if self.private and seed_in is not nxt and sim.flip(0.15):
                sim.fault('scribble_old_seed', self.sid)
                seed_in[...] = 1 - seed_in
            self.private = nxt is not seed_in      # the seed vector now belongs to this consumer alone
        else:
            got = []
            how = sim.draw(2)
            if how == 0:
                for _ in range(n):
                    got.append(int(sim.call('next', next, self.it)))
            else:
                for b in self.it:
                    if n == 0:          # a bit was consumed to find out: account for it
                        got.append(int(b))
                        break
                    got.append(int(b))
                    if len(got) >= n:
                        break
                n = max(n, 1)
                e = self.want(self.pos + n)[self.pos:self.pos + n]
            sim.log('pull', self.sid, 'iter', n, data=np.array(got, dtype=np.int64))
            sim.equal(np.array(got, dtype=int), e, 'sequence', where)
            sim.equal(sim.call('get_seed', self.it.get_seed), self.seed_at(self.pos + n), 'seed', where)
            if n:
                sim.equal(sim.call('get_prev_seed', self.it.get_prev_seed), self.seed_at(self.pos + n - 1), 'prev-seed', where)
            if sim.flip(0.2):
                # the consumer edits in place the seeds it was shown, or reuses the memory of the seed it handed in
                sim.fault('scribble_seed', self.sid)
                for v in (self.it.get_seed(), self.it.get_prev_seed(), self.seed_in):
                    if v is not None:
                        v[...] = 1 - v
                sim.equal(sim.call('get_seed', self.it.get_seed), self.seed_at(self.pos + n), 'seed-shared', where)
        sim.equal(self.poly, self.poly0, 'polynomial-modified', where)
        self.pos += n

    def act(self, world):
        sim = self.sim
        if self.left <= 0:
            return
        self.left -= 1
        op = sim.wpick([(10, 'pull'), (2, 'save'), (1.5, 'crash'), (1.5, 'handover'), (0.7, 'clone'), (0.7, 'migrate')])
        if op == 'pull':
            self.pull()
        elif op == 'save':
            snap = (self.pos, np.array(self.current_seed()))
            if sim.flip(0.25):
                sim.fault('lost_seed_write', self.sid, self.pos)
            else:
                self.durable = snap
                sim.log('save', self.sid, self.pos)
        elif op == 'crash':
            sim.fault('crash', self.sid, self.pos, self.durable[0])
            self.pos = self.durable[0]
            self.mode = sim.pick(['gen', 'iter'])
            if sim.flip(0.3) and self.pos >= self.deg:
                # no saved seed: rebuilt from the last bits the receiver has (most recent first)
                sim.fault('rebuild_from_log', self.sid)
                self.attach(np.array(self.want(self.pos)[self.pos - self.deg:self.pos][::-1]))
            else:
                self.attach(np.array(self.durable[1]))
        elif op == 'handover':
            sim.fault('handover', self.sid, self.pos)
            seed = self.current_seed()
            if self.mode == 'iter' and self.pos > 0 and sim.flip(0.4):
                prev = sim.call('get_prev_seed', self.it.get_prev_seed)
                if prev is not None:
                    seed = prev
                    self.pos -= 1
            self.mode = 'gen' if self.mode == 'iter' else 'iter'
            self.attach(seed)
        elif op == 'migrate':
            sim.fault('migrate', self.sid, self.pos)
            if self.mode == 'iter':
                self.it = pickle.loads(pickle.dumps(self.it))
            else:
                self.seed = pickle.loads(pickle.dumps(self.seed))
        elif op == 'clone' and len(world) < 6:
            # a second consumer starts from the very same seed object: neither may disturb the other
            sim.fault('clone', self.sid, self.pos)
            c = Source.__new__(Source)
            c.__dict__.update(self.__dict__)
            c.sid = f'{self.sid}c{len(world)}'
            c.mode = sim.pick(['gen', 'iter'])
            c.seed0, c.expected, c.state_end = list(self.seed0), self.expected.copy(), list(self.state_end)
            c.durable = (self.durable[0], self.durable[1].copy())
            c.left = sim.integer(1, 6)
            c.attach(np.array(self.current_seed()) if self.mode == 'gen' else self.current_seed())
            world.append(c)
            sim.after(1 + sim.draw(5), c.act, world)
        sim.after(1 + sim.draw(5), self.act, world)


def run(sim):
    world = [Source(sim, k) for k in range(sim.integer(1, 4))]
    for s in world:
        sim.after(sim.draw(5), s.act, world)
    while sim.step():
        if sim.steps > 5000:
            raise Violation('no-progress', 'step cap')
