"""Discrete-event streaming world: sources, stage nodes running real CommDspy code, lossy links, crash and restart.

    source log --link--> node 0 --link--> node 1 ... --link--> sink

* Links are request/response: a consumer asks for samples from its current position, the producer answers with a segment of
  its durable log; requests and responses are lost, duplicated, delayed and reordered.  The segmentation that results is the
  schedule of chunk sizes the library sees.
* A node keeps its stage state (memories, filter objects) in volatile memory, together with the samples it has assembled.
  Its output log is durable.  Checkpoints (position + state) become durable only when a later sync event fires; a crash
  before that loses the checkpoint (lost write), a torn checkpoint is detected and ignored.
* A crash at any point drops the volatile part.  The node restarts from its last durable checkpoint, or, where the library
  documents how its memory is built from past samples, with a memory rebuilt from the logs; it re-executes from there.
* Faults on the caller's buffers: the chunk buffer is overwritten after the call returned (buffer reuse), and so is the
  returned output once it was copied.
* Rollback: the node keeps the memory the library returned (the very object, not a copy) and later goes back to it; a memory
  handed to the library must neither be changed by that call nor by later ones.
* Faults stop after a bounded number; then every stream must complete (liveness, bounded by a step cap).
"""
import copy
import pickle

import numpy as np

from dst.core import HarnessError, Violation


class Stage:
    """One streaming stage of the library.  Subclasses run real library code in process()."""
    name = 'stage'
    rate = 1            # output samples per input sample
    grain = 1           # chunks are multiples of this many input samples
    functional = False  # the state is a plain memory (arrays) passed in and returned, not an object
    handed = ()         # arrays handed to filter objects as their initial memory, with copies: [(array, copy)]
    memory = 1          # length of the memory: chunk sizes around it are favoured
    tol = 1e-8

    def produced(self, n):
        """Output samples after n input samples (n a multiple of grain)."""
        return n * self.rate

    def start(self):
        """Volatile state at the beginning of the stream."""
        return None

    def process(self, sim, state, chunk):
        """Returns (output, new state)."""
        raise NotImplementedError

    def reference(self, x):
        """Expected output for the whole input stream, from an independent model."""
        raise NotImplementedError

    def rebuild(self, xs, ys):
        """State from the past inputs/outputs (chronological), or None when the library offers no such entry."""
        return None

    def snapshot(self, state):
        return pickle.dumps(state)

    def restore(self, blob):
        return pickle.loads(blob)

    def describe(self):
        return self.name


class Log:
    """Durable append-only sample log (a source, or a node's output)."""

    def __init__(self, data=None):
        self.data = None if data is None else np.asarray(data)

    def __len__(self):
        return 0 if self.data is None else len(self.data)


class Config:
    """Swarm configuration of one run: which fault kinds are enabled, and how often."""

    def __init__(self, sim, kinds):
        self.on = {}
        for k in kinds:
            self.on[k] = sim.wpick([(2, 0.0), (2, 0.05), (2, 0.15), (1, 0.4)])
        self.budget = sim.integer(0, 60)

    def fire(self, sim, kind):
        p = self.on.get(kind, 0.0)
        if p <= 0 or self.budget <= 0:
            return False
        if sim.flip(p):
            self.budget -= 1
            return True
        return False


FAULTS = ('msg_loss', 'msg_dup', 'msg_delay', 'crash', 'crash_before_sync', 'torn_checkpoint', 'stall', 'buffer_reuse',
          'output_scribble', 'rebuild_from_log', 'migrate', 'rollback')


def arrays(state):
    """The arrays of a plain memory."""
    if state is None:
        return []
    if isinstance(state, (tuple, list)) and any(isinstance(q, np.ndarray) or q is None for q in state):
        return [a for q in state for a in arrays(q)]
    return [state] if isinstance(state, np.ndarray) else []


class Node:
    def __init__(self, world, label, stage, src, total_in):
        self.w = world
        self.sim = world.sim
        self.label = label
        self.stage = stage
        self.src = src                      # Log
        self.total_in = total_in
        self.out = None                     # durable output array, filled position by position
        self.out_len = 0
        self.expect = None
        self.pos = 0
        self.state = None
        self.inbox = {}                     # start -> samples (out of order segments)
        self.have = np.zeros(0)             # assembled samples from self.pos on
        self.durable = (0, None)            # (pos, blob)
        self.pending = None
        self.up = True
        self.epoch = 0
        self.req = 0
        self.consumed_calls = 0
        self.mark = None                    # (position, memory object kept by reference)

    # -------------------------------------------------------------------- life cycle
    def boot(self):
        self.up = True
        self.epoch += 1
        pos, blob = self.durable
        self.pos = pos
        self.inbox = {}
        self.have = np.zeros(0)
        how = 'fresh'
        if blob is None:
            self.state = self.stage.start()
        elif pos > 0 and self.w.cfg.fire(self.sim, 'rebuild_from_log'):
            xs = self.src.data[:pos]
            ys = self.expect[:self.stage.produced(pos)]
            st = self.stage.rebuild(np.array(xs), np.array(ys))
            if st is not None:
                self.state = st
                how = 'rebuilt'
                self.sim.fault('rebuild_from_log', self.label, pos)
            else:
                self.state = self.stage.restore(blob)
                how = 'checkpoint'
        else:
            self.state = self.stage.restore(blob)
            how = 'checkpoint'
        self.sim.log('boot', self.label, pos, how)
        self.request(self.epoch)

    def crash(self, why):
        self.sim.fault(why, self.label, self.pos)
        self.up = False
        self.state = None
        self.pending = None
        self.inbox = {}
        self.have = np.zeros(0)
        self.mark = None
        self.epoch += 1
        self.sim.after(1 + self.sim.draw(20), self.boot)

    def done(self):
        return self.pos >= self.total_in and self.out_len >= self.stage.produced(self.total_in)

    # -------------------------------------------------------------------- link
    def request(self, epoch):
        if epoch != self.epoch or not self.up or self.done():
            return
        want = self.pos + len(self.have)
        n = self.w.chunk_size(self.stage)
        self.req += 1
        self.sim.after(60, self.retry, epoch, self.req)  # retransmission timer; a newer request supersedes it
        if self.w.cfg.fire(self.sim, 'msg_loss'):
            self.sim.fault('msg_loss', self.label, 'request', want)
            return
        self.w.send(self.respond, epoch, self.req, want, n, self.label, 'req')

    def respond(self, epoch, req, start, n, *_):
        avail = len(self.src)
        end = min(start + n, avail, self.total_in)
        if end <= start:
            self.sim.after(7, self.retry, epoch, req)
            return
        seg = np.array(self.src.data[start:end])
        if self.w.cfg.fire(self.sim, 'msg_loss'):
            self.sim.fault('msg_loss', self.label, 'segment', start, end - start)
            return
        self.w.send(self.deliver, epoch, start, seg, self.label, 'seg')

    def retry(self, epoch, req):
        if epoch == self.epoch and req == self.req and self.up and not self.done():
            self.request(epoch)

    def deliver(self, epoch, start, seg, *_):
        if epoch != self.epoch or not self.up:
            return
        if start < self.pos + len(self.have):
            self.sim.probe('stale_or_overlapping_segment')
        self.inbox[start] = seg
        # assemble what is contiguous
        moved = True
        while moved:
            moved = False
            nxt = self.pos + len(self.have)
            for s in sorted(self.inbox):
                seg = self.inbox[s]
                if s + len(seg) <= nxt:
                    del self.inbox[s]
                    moved = True
                    break
                if s <= nxt:
                    part = seg[nxt - s:]
                    self.have = part.copy() if len(self.have) == 0 else np.concatenate([self.have, part])
                    del self.inbox[s]
                    moved = True
                    break
        self.sim.after(self.sim.draw(4), self.work, epoch)

    # -------------------------------------------------------------------- processing
    def work(self, epoch):
        if epoch != self.epoch or not self.up:
            return
        if self.w.cfg.fire(self.sim, 'stall'):
            d = 1 + self.sim.draw(200)
            self.sim.fault('stall', self.label, d)
            self.sim.after(d, self.work, epoch)
            return
        st = self.stage
        avail = (len(self.have) // st.grain) * st.grain
        if avail == 0:
            self.request(epoch)
            return
        n = avail if self.sim.flip(0.5) else min(avail, self.w.chunk_size(st))
        if self.w.cfg.fire(self.sim, 'crash'):
            self.crash('crash')
            return
        if self.w.cfg.fire(self.sim, 'migrate'):
            self.sim.fault('migrate', self.label, self.pos)      # state moves to another process: serialise, rebuild
            self.state = st.restore(st.snapshot(self.state))
        if self.mark is not None and self.w.cfg.fire(self.sim, 'rollback'):
            self.sim.fault('rollback', self.label, self.pos, self.mark[0])
            self.pos, self.state = self.mark
            self.inbox, self.have = {}, np.zeros(0)
            self.epoch += 1
            self.request(self.epoch)
            return
        if st.functional and self.sim.flip(0.2):
            self.mark = (self.pos, self.state)
        buf = np.array(self.have[:n])
        keep = buf.copy()
        mems = [(a, a.copy()) for a in arrays(self.state)] if st.functional else st.handed
        out, new_state = st.process(self.sim, self.state, buf)
        self.consumed_calls += 1
        for a, c in mems:
            if not np.array_equal(a, c):
                raise Violation('memory-modified', f'{st.describe()}: the call changed the memory handed to it: {c} -> {a}')
        if not np.array_equal(buf, keep):
            raise Violation('input-modified', f'{st.describe()}: the call changed the caller\'s chunk')
        out = np.asarray(out)
        lo, hi = st.produced(self.pos), st.produced(self.pos + n)
        self.sim.log('chunk', self.label, self.pos, n, data=out)
        self.sim.close(out, self.expect[lo:hi], 'stream-mismatch',
                       f'{st.describe()} input [{self.pos},{self.pos + n})', tol=st.tol, scale=self.scale)
        if n == 1:
            self.sim.probe('one_sample_chunk')
        if n < st.memory:
            self.sim.probe('chunk_shorter_than_memory')
        if self.out is None:
            self.out = np.zeros(st.produced(self.total_in), dtype=np.result_type(out.dtype, np.int64))
        if lo < self.out_len:
            self.sim.probe('re_execution')
            m = min(self.out_len, hi) - lo
            self.sim.close(out[:m], self.out[lo:lo + m], 'replay-mismatch',
                           f'{st.describe()} re-execution [{self.pos},{self.pos + n})', tol=st.tol, scale=self.scale)
        self.out[lo:hi] = out
        self.out_len = max(self.out_len, hi)
        self.log_out.data = self.out[:self.out_len]
        self.state = new_state
        self.pos += n
        self.have = self.have[n:]
        if self.w.cfg.fire(self.sim, 'buffer_reuse'):
            self.sim.fault('buffer_reuse', self.label)
            buf[...] = 77 if buf.dtype.kind in 'iu' else -1234.5
        if self.w.cfg.fire(self.sim, 'output_scribble') and out.flags.writeable:
            self.sim.fault('output_scribble', self.label)
            out[...] = 55
        # checkpoint policy
        if self.sim.flip(0.3):
            blob = st.snapshot(self.state)
            if self.w.cfg.fire(self.sim, 'torn_checkpoint'):
                self.sim.fault('torn_checkpoint', self.label, self.pos)
                blob = None
            self.pending = (self.pos, blob)
            if self.w.cfg.fire(self.sim, 'crash_before_sync'):
                self.crash('crash_before_sync')
                return
            self.sim.after(self.sim.draw(30), self.sync, self.epoch, self.pending)
        if self.done():
            self.sim.log('done', self.label)
            return
        self.sim.after(self.sim.draw(6), self.work, epoch)

    def sync(self, epoch, ck):
        if epoch != self.epoch or not self.up or ck[1] is None:
            return
        if ck[0] >= self.durable[0]:
            self.durable = ck
            self.sim.log('sync', self.label, ck[0])


class World:
    def __init__(self, sim, cfg, edges=(1, 2, 3, 5, 8, 13, 21, 34)):
        self.sim = sim
        self.cfg = cfg
        self.nodes = []
        self.edges = edges
        self.bulk = sim.draw(32) == 31      # a long stream in large blocks
        if self.bulk:
            sim.probe('bulk_stream')

    def length(self, n, rate=1):
        """Length of a source stream: n, or thousands of samples in a bulk run."""
        return self.sim.size(700, 9000, 2500) // rate + 1 if self.bulk else n

    def chunk_size(self, stage):
        m, g = max(stage.memory, 1), stage.grain
        sizes = [g, 1, m - 1, m, m + 1, 2 * m, 7, 64]
        k = self.sim.draw(len(sizes) + 2)
        n = sizes[k] if k < len(sizes) else 1 + self.sim.draw(96 if k == len(sizes) else 12)
        if self.bulk and self.sim.draw(4):
            n = self.sim.pick([256, 1000, 1024, 2048, 4096, 1 + self.sim.draw(9000)])
        n = max(n, 1)
        return -(-n // g) * g

    def send(self, fn, *args):
        d = 1 + self.sim.draw(4)
        if self.cfg.fire(self.sim, 'msg_delay'):
            d += self.sim.draw(150)
            self.sim.fault('msg_delay', *[a for a in args if isinstance(a, str)], d)
        self.sim.after(d, fn, *args)
        if self.cfg.fire(self.sim, 'msg_dup'):
            self.sim.fault('msg_dup', *[a for a in args if isinstance(a, str)])
            self.sim.after(d + 1 + self.sim.draw(80), fn, *args)

    def add_chain(self, label, source, stages):
        """A chain of stages over `source`; returns the nodes."""
        log = Log(np.asarray(source))
        ideal = np.asarray(source)
        chain = []
        for k, st in enumerate(stages):
            node = Node(self, f'{label}.{k}:{st.name}', st, log, len(ideal))
            node.expect = np.asarray(st.reference(ideal))
            if len(node.expect) != st.produced(len(ideal)):
                raise HarnessError('reference length')
            node.scale = max(1e-9, float(np.max(np.abs(node.expect)))) if len(node.expect) else 1.0
            node.log_out = Log()
            log = node.log_out
            ideal = node.expect
            chain.append(node)
            self.nodes.append(node)
        return chain

    def run(self, cap=60000):
        for n in self.nodes:
            self.sim.after(self.sim.draw(10), n.boot)
        while not all(n.done() for n in self.nodes):
            if self.sim.steps > cap or not self.sim.step():
                raise Violation('no-progress', f'streams unfinished after the last fault: {[(n.label, n.pos, n.total_in, n.up) for n in self.nodes]}')
        for n in self.nodes:
            self.sim.check(n.out_len == n.stage.produced(n.total_in), 'incomplete', n.label)


def deep(v):
    return copy.deepcopy(v)
