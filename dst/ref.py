"""Small executable reference models.  Written from the documentation and textbook definitions, not from the library's
code; they use only Python and numpy, and never import CommDspy."""
import math

import numpy as np

# ---------------------------------------------------------------------------------------------------------- PRBS
PRBS_TAPS = {7: (6, 7), 9: (5, 9), 11: (9, 11), 13: (1, 2, 12, 13), 15: (14, 15), 31: (28, 31)}


def lfsr(taps, seed, n):
    """taps: delays (1 = most recent bit) that are XOR-ed; seed[0] is the most recent bit.  Returns n bits, final state."""
    state = 0
    deg = len(seed)
    for i, b in enumerate(seed):
        state |= int(b) << i                # bit i of state = the bit i+1 steps back
    mask = 0
    for t in taps:
        mask |= 1 << (t - 1)
    full = (1 << deg) - 1
    out = np.zeros(n, dtype=np.int64)
    for k in range(n):
        b = bin(state & mask).count('1') & 1
        out[k] = b
        state = ((state << 1) | b) & full
    return out, [(state >> i) & 1 for i in range(deg)]


def lfsr_period(taps, deg):
    seed = [1] + [0] * (deg - 1)
    state = 1
    mask = 0
    for t in taps:
        mask |= 1 << (t - 1)
    full = (1 << deg) - 1
    n = 0
    start = state
    del seed
    while True:
        b = bin(state & mask).count('1') & 1
        state = ((state << 1) | b) & full
        n += 1
        if state == start or n > full:
            return n


def prbs_cycle(deg):
    return lfsr(PRBS_TAPS[deg], [1] * deg, (1 << deg) - 1)[0]


# ---------------------------------------------------------------------------------------------------------- linear filters
def diffeq(b, a, x):
    """a[0] y[n] = sum b[i] x[n-i] - sum a[j] y[n-j], zero history."""
    b = np.atleast_1d(np.asarray(b, dtype=float))
    a = np.atleast_1d(np.asarray(a, dtype=float))
    x = np.asarray(x, dtype=float)
    if len(x) == 0:
        return np.zeros(0)
    v = np.convolve(x, b)[:len(x)]
    if len(a) == 1:
        return v / a[0]
    y = [0.0] * len(x)
    at = [float(q) for q in a[1:]]
    a0 = float(a[0])
    for n in range(len(x)):
        acc = float(v[n])
        for j, aj in enumerate(at, 1):
            if n - j >= 0:
                acc -= aj * y[n - j]
        y[n] = acc / a0
    return np.array(y)


def transposed_state(b, a, xs, ys, order):
    """State of the transposed direct form II structure, from past inputs/outputs (most recent first), a[0] = 1."""
    b = list(np.atleast_1d(b)) + [0.0] * (order + 1)
    a = list(np.atleast_1d(a)) + [0.0] * (order + 1)
    z = np.zeros(order)
    for i in range(order):
        s = 0.0
        for k in range(order - i):
            j = i + 1 + k
            if k < len(xs):
                s += b[j] * xs[k]
            if k < len(ys):
                s -= a[j] * ys[k]
        z[i] = s
    return z


def upsampled(x, osr):
    out = np.zeros(len(x) * osr)
    out[::osr] = x
    return out


def pulse(kind, osr, span, beta):
    if kind == 'imp':
        return np.array([1.0])
    n = osr * span
    return pulse_at(kind, [k / osr for k in range(-n, n)], beta)


def pulse_at(kind, t, beta):
    """The pulse at any instants (in symbols)."""
    out = []
    for v in t:
        if kind == 'rect':
            out.append(1.0 if -0.5 <= v < 0.5 else 0.0)
        elif kind == 'sinc':
            out.append(_sinc(v))
        elif kind == 'rcos':
            d = 1.0 - (2 * beta * v) ** 2
            if abs(d) < 1e-9:
                out.append(math.pi / 4 * _sinc(1 / (2 * beta)))
            else:
                out.append(_sinc(v) * math.cos(math.pi * beta * v) / d)
        elif kind == 'rrc':
            if abs(v) < 1e-9:
                out.append(1 + beta * (4 / math.pi - 1))
            elif abs(abs(4 * beta * v) - 1) < 1e-7:
                q = math.pi / (4 * beta)
                out.append(beta / math.sqrt(2) * ((1 + 2 / math.pi) * math.sin(q) + (1 - 2 / math.pi) * math.cos(q)))
            else:
                num = math.sin(math.pi * v * (1 - beta)) + 4 * beta * v * math.cos(math.pi * v * (1 + beta))
                out.append(num / (math.pi * v * (1 - (4 * beta * v) ** 2)))
        else:
            raise ValueError(kind)
    return np.array(out)


def _sinc(v):
    return 1.0 if v == 0 else math.sin(math.pi * v) / (math.pi * v)


def ctle_coeffs(zeros, poles, dc_gain_db, rate):
    """H(s) = g * prod(1 + s/|z|) / prod(1 + s/|p|) through s = 2*rate*(1-q)/(1+q), q = z^-1, normalised to a[0] = 1."""
    k = 2.0 * rate
    order = max(len(zeros), len(poles))

    def side(roots):
        p = np.array([1.0])
        for r in roots:
            w = abs(r)
            p = np.convolve(p, [1 + k / w, 1 - k / w])      # (1+q) + (k/w)(1-q)
        for _ in range(order - len(roots)):
            p = np.convolve(p, [1.0, 1.0])                   # (1+q)
        return p
    b = side(zeros) * 10 ** (dc_gain_db / 20)
    a = side(poles)
    return b / a[0], a / a[0]


# ---------------------------------------------------------------------------------------------------------- equaliser
def nearest(v, levels):
    return min(levels, key=lambda q: abs(v - q))


def ffe_dfe(x, ffe, dfe, levels, osr=1, phase=0):
    """Slicer input of the documented FFE/DFE structure, zero history, plus decisions and the smallest decision margin.
    With osr > 1 the decision taken at sampling phase `phase` of a symbol enters the feedback half a symbol later."""
    x = [float(v) for v in x]
    lv = sorted(float(v) for v in levels)
    mids = [(p + q) / 2 for p, q in zip(lv, lv[1:])]
    mem = [0.0] * len(dfe)
    out, dec = [], []
    margin = float('inf')
    half = osr // 2
    for n in range(len(x)):
        acc = 0.0
        for i, c in enumerate(ffe):
            if n - i >= 0:
                acc += c * x[n - i]
        for j, c in enumerate(dfe):
            acc -= c * mem[j]
        out.append(acc)
        d = nearest(acc, lv)
        dec.append(d)
        if dfe is not None and len(dfe):
            k = n - half
            if k >= 0 and k % osr == phase:
                margin = min(margin, min(abs(out[k] - m) for m in mids))
                mem = [dec[k]] + mem[:-1]
    return np.array(out), np.array(dec), margin


# ---------------------------------------------------------------------------------------------------------- symbols
LEVELS = {'NRZ': [-1, 1], 'OOK': [0, 1], 'PAM3': [-1, 0, 1], 'PAM4': [-3, -1, 1, 3]}


def levels(name, full_scale):
    lv = [float(v) for v in LEVELS[name]]
    if full_scale:
        r = math.sqrt(sum(v * v for v in lv) / len(lv))
        lv = [v / r for v in lv]
    return lv


def gray(k):
    return k ^ (k >> 1)


def ungray(g):
    k = 0
    while g:
        k ^= g
        g >>= 1
    return k


def differential(sym, m):
    out, acc = [], 0
    for s in sym:
        acc = (acc + int(s)) % m
        out.append(acc)
    return np.array(out, dtype=int)


def undifferential(sym, m):
    out, prev = [], 0
    for s in sym:
        out.append((int(s) - prev) % m)
        prev = int(s)
    return np.array(out, dtype=int)


# ---------------------------------------------------------------------------------------------------------- convolutional codes
def conv_encode(bits, G, feedback=None, use_feedback=None):
    """Shift-register convolutional encoder over F2, one register per input, zero start state."""
    n_in = len(G)
    n_out = len(G[0])
    bits = [int(b) for b in bits]
    bits += [0] * ((-len(bits)) % n_in)
    state = [[0] * (len(G[i][0]) - 1) for i in range(n_in)]
    out = []
    for t in range(0, len(bits), n_in):
        o, state = conv_step(bits[t:t + n_in], state, G, feedback, use_feedback)
        out += o
    del n_out
    return out


def conv_step(inp, state, G, feedback=None, use_feedback=None):
    n_in, n_out = len(G), len(G[0])
    o = [0] * n_out
    new = []
    for i in range(n_in):
        w = inp[i]
        fb = feedback is not None and i in feedback
        if fb:
            for k, c in enumerate(feedback[i][1:]):
                if c:
                    w ^= state[i][k]
        reg = [w] + state[i]
        for j in range(n_out):
            if fb and not use_feedback[i][j]:
                o[j] ^= inp[i] & int(G[i][j][0])       # systematic tap, taken before the feedback adder
            else:
                for k, c in enumerate(G[i][j]):
                    if c:
                        o[j] ^= reg[k]
        new.append(reg[:-1])
    return o, new


def conv_all_states(G):
    mem = [len(G[i][0]) - 1 for i in range(len(G))]
    tot = sum(mem)
    for v in range(1 << tot):
        bits = [(v >> (tot - 1 - k)) & 1 for k in range(tot)]
        st, p = [], 0
        for m in mem:
            st.append(bits[p:p + m])
            p += m
        yield v, st


def conv_viterbi_min(block, G, feedback=None, use_feedback=None, cap=64):
    """Exact minimum Hamming distance from `block` to any encoder path from any start state, with the per-end-state minima
    and the number of distinct (start, input) paths reaching the minimum (by dynamic programming)."""
    n_in, n_out = len(G), len(G[0])
    idx = {}
    sts = []
    for v, st in conv_all_states(G):
        idx[str(st)] = v
        sts.append(st)
    ins = [[(u >> (n_in - 1 - k)) & 1 for k in range(n_in)] for u in range(1 << n_in)]
    trans = []
    for s, st in enumerate(sts):
        for u in ins:
            o, nx = conv_step(u, [list(q) for q in st], G, feedback, use_feedback)
            trans.append((s, idx[str(nx)], tuple(o), tuple(u)))
    dist = [0] * len(sts)
    inputs = [{()} for _ in sts]            # distinct input words reaching the minimum (capped)
    for t in range(0, len(block), n_out):
        rx = block[t:t + n_out]
        nd = [None] * len(sts)
        ni = [set() for _ in sts]
        for s, d, o, u in trans:
            m = dist[s] + sum(p != q for p, q in zip(rx, o))
            if nd[d] is None or m < nd[d]:
                nd[d] = m
                ni[d] = {w + u for w in inputs[s]}
            elif m == nd[d]:
                ni[d] |= {w + u for w in inputs[s]}
            if len(ni[d]) > cap:
                ni[d] = set(sorted(ni[d])[:cap])
        dist, inputs = [10 ** 9 if q is None else q for q in nd], ni
    best = min(dist)
    words = set()
    for q, w in zip(dist, inputs):
        if q == best:
            words |= w
    return best, dist, words


def conv_word_distance(word, block, G, feedback=None, use_feedback=None):
    """Smallest distance over start states of the encoder driven by input `word` from `block`."""
    n_in = len(G)
    best = None
    for _, st in conv_all_states(G):
        s = [list(q) for q in st]
        out = []
        for t in range(0, len(word), n_in):
            o, s = conv_step([int(v) for v in word[t:t + n_in]], s, G, feedback, use_feedback)
            out += o
        d = sum(int(p) != int(q) for p, q in zip(out, block))
        best = d if best is None else min(best, d)
    return best


# ---------------------------------------------------------------------------------------------------------- linear block codes
def codebook(G):
    k, n = len(G), len(G[0])
    words = []
    for v in range(1 << k):
        m = [(v >> (k - 1 - i)) & 1 for i in range(k)]
        c = [0] * n
        for i in range(k):
            if m[i]:
                c = [p ^ int(q) for p, q in zip(c, G[i])]
        words.append((m, c))
    return words
