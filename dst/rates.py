"""Framing and rate conversion stages with their independent references."""
import math

import numpy as np

import CommDspy as cdsp
from dst.pipeline import Stage


def kernel(method, beta, v):
    """Interpolation kernel of the sinc and raised cosine methods at distance v (in samples)."""
    s = 1.0 if v == 0 else math.sin(math.pi * v) / (math.pi * v)
    if method == 'sinc':
        return s
    d = 1.0 - (2 * beta * v) ** 2
    return s * math.pi / 4 if abs(d) < 1e-9 else s * math.cos(math.pi * beta * v) / d


def support(n, forward=True):
    """Sample offsets used by an order n interpolation."""
    if n % 2 == 0:
        return list(range(-(n // 2), n // 2 + 1))
    return list(range(-(n // 2), n // 2 + 2)) if forward else list(range(-(n // 2) - 1, n // 2 + 1))


def taps(method, n, alpha, forward=True, beta=0.0):
    idx = support(n, forward)
    if method == 'lagrange':
        out = []
        for i in idx:
            p = 1.0
            for j in idx:
                if j != i:
                    p *= (alpha - j) / (i - j)
            out.append(p)
        return out
    return [kernel(method, beta, i - alpha) for i in idx]


def interpolated(x, osr, order, method, beta):
    """Reference of digital_oversample: row by row, sample by sample."""
    x = np.asarray(x, dtype=float)
    pre, n = order // 2, len(x) - order
    out = np.zeros((n, osr))
    out[:, 0] = x[pre:pre + n]
    for k in range(1, osr):
        for i, c in zip(support(order), taps(method, order, k / osr, True, beta)):
            out[:, k] += c * x[pre + i:pre + i + n]
    return out.reshape(-1)


def frames(x, length, overlap, delay=0, clip=False):
    """Reference of buffer: frames that hold at least one new sample, zero padded or clipped."""
    full = [0] * delay + list(x)
    total = len(full)
    out = []
    s = 0
    while s < total - max(overlap, 0):
        f = full[s:s + length]
        if len(f) == length or not clip:
            out.append(f + [0] * (length - len(f)))
        s += length - overlap
    return np.array(out).reshape(-1, length)


class Oversample(Stage):
    """Block by block with the last `order` samples kept."""
    functional = True

    def __init__(self, sim):
        self.method = sim.pick(['lagrange', 'sinc', 'rcos'])
        self.order = 0 if sim.flip(0.06) else sim.size(1, 24, 8)
        self.rate = sim.integer(1, 6)
        if sim.flip(0.08):
            self.rate = sim.pick([8, 16, 25, 30, 33, 48, 64, 100])
            sim.probe('high_rate')
        self.beta = sim.pick([0.5, 1.0, 0.25, 0.3, 0.0])
        self.finish()

    def finish(self):
        self.memory = self.order
        self.name = f'digital_oversample[{self.method},osr={self.rate},order={self.order},beta={self.beta}]'
        self.tol = 1e-8

    def vary(self, sim):
        k = sim.draw(3)
        if k == 0:
            self.order = sim.pick([q for q in range(0, 9) if q != self.order])
        elif k == 1:
            self.method = sim.pick([q for q in ('lagrange', 'sinc', 'rcos') if q != self.method])
        else:
            self.beta = sim.pick([q for q in (0.5, 1.0, 0.25, 0.3, 0.0) if q != self.beta])
        self.finish()

    def start(self):
        return np.zeros(self.order)

    def process(self, sim, state, chunk):
        buf = np.concatenate([state, chunk])
        keep = buf.copy()
        y, axis, coarse = sim.call('digital_oversample', cdsp.digital_oversample, buf, self.rate, self.order, self.method, self.beta)
        sim.equal(buf, keep, 'input-modified', self.name)
        sim.close(axis, np.arange(len(chunk) * self.rate) / self.rate, 'time-axis', self.name, tol=1e-9)
        sim.check(len(coarse) in (len(chunk), len(chunk) + 1), 'old-time-axis', f'{self.name}: {len(coarse)} points for {len(chunk)} kept samples')
        sim.close(coarse, np.arange(len(coarse)), 'old-time-axis', self.name, tol=1e-9)
        y = np.asarray(y)
        sim.equal(y[::self.rate], buf[self.order // 2:self.order // 2 + len(chunk)], 'original-samples', self.name)
        return y, buf[len(buf) - self.order:].copy()

    def reference(self, x):
        return interpolated(np.concatenate([np.zeros(self.order), x]), self.rate, self.order, self.method, self.beta)

    def rebuild(self, xs, ys):
        return np.concatenate([np.zeros(self.order), np.asarray(xs, dtype=float)])[len(xs):]


class Upsample(Stage):
    def __init__(self, sim):
        self.rate = sim.integer(1, 6)
        self.name = f'upsample[{self.rate}]'

    def vary(self, sim):
        self.__init__(sim)

    def process(self, sim, state, chunk):
        return sim.call('upsample', cdsp.upsample, chunk, self.rate), None

    def reference(self, x):
        out = np.zeros(len(x) * self.rate, dtype=np.asarray(x).dtype)
        out[::self.rate] = x
        return out


class Hold(Stage):
    def __init__(self, sim):
        self.rate = sim.integer(1, 6)
        self.name = f'zoh[{self.rate}]'

    def vary(self, sim):
        self.__init__(sim)

    def process(self, sim, state, chunk):
        return sim.call('zoh', cdsp.zoh, chunk, self.rate), None

    def reference(self, x):
        return np.array([v for v in np.asarray(x).tolist() for _ in range(self.rate)])


class Framer(Stage):
    """Complete frames of a stream, `overlap` samples kept from block to block (negative: samples skipped)."""
    functional = True

    def __init__(self, sim):
        self.length = sim.size(1, 12, 5)
        self.overlap = sim.integer(-4, self.length - 1)
        self.finish()

    def finish(self):
        self.grain = self.length - self.overlap
        self.memory = max(self.overlap, self.grain)
        self.name = f'buffer[{self.length},{self.overlap}]'

    def vary(self, sim):
        self.__init__(sim)

    def produced(self, n):
        return n // self.grain * self.length

    def start(self):
        return np.zeros(max(self.overlap, 0), dtype=int)

    def process(self, sim, state, chunk):
        buf = np.concatenate([state, chunk]).astype(chunk.dtype)
        keep = buf.copy()
        out = sim.call('buffer', cdsp.buffer, buf, self.length, self.overlap, 0, True)
        sim.equal(buf, keep, 'input-modified', self.name)
        sim.check(np.ndim(out) == 2 and np.shape(out)[1] == self.length, 'frame-shape', f'{self.name}: {np.shape(out)}')
        n = max(self.overlap, 0)
        return np.array(out).reshape(-1), buf[len(buf) - n:].copy()

    def reference(self, x):
        return frames(np.asarray(x).tolist(), self.length, self.overlap, max(self.overlap, 0), True).reshape(-1)

    def rebuild(self, xs, ys):
        n = max(self.overlap, 0)
        return np.concatenate([np.zeros(n), np.asarray(xs, dtype=float)])[len(xs):]


STAGES = [Oversample, Oversample, Upsample, Hold, Framer]
