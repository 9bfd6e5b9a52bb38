"""A per-pixel model of picture format conversion, working on intervals (raising the bit depth leaves the new bits open)."""
import numpy as np

from . import formats as F

DEPTHS = (8, 10, 12, 16, 32)
# value: (kind, depth)
FAMILY = {v[0]: (v[1], v[3]) for v in F.PLANAR.values()}
FAMILY.update({F.PACKED['YUYV'][0]: ('422', 8), F.PACKED['UYVY'][0]: ('422', 8), F.PACKED['v216'][0]: ('422', 16), F.V210: ('422', 10)})
FAMILY.update({F.PACKED[n][0]: ('RGB', 8) for n in ('RGB', 'RGBx', 'xRGB', 'BGRx', 'xBGR')})
ORDER = {'420': 0, '422': 1, '444': 2}
KR, KB = 0.2126, 0.0722
KG = 1 - KR - KB


# ---- payloads

def encode(fmt, w, h, planes, pad=0, filler=0):
    """The payload that holds the planes (arrays [x, y]), with every other byte set to the filler."""
    comps, size, views = F.layout(fmt, w, h, pad)
    if fmt == F.V210:
        # the unused bits of the words and the words beyond the width hold the filler too
        words = np.full((h, comps[0]['stride'] // 4), filler * 0x01010101, dtype=np.uint64)
        for (c, x, y, k) in v210_samples(w, h):
            words[y, k // 3] &= np.uint64(~(0x3ff << (10 * (k % 3))) & 0xffffffff)
            words[y, k // 3] |= np.uint64(int(planes[c][x, y]) << (10 * (k % 3)))
        return words.astype('<u4').tobytes()
    buf = np.full(size, filler, dtype=np.uint8)
    for (name, shape, dt, (start, xs, ys)), p in zip(views, order(fmt, planes)):
        nb = int(dt[2])
        xx, yy = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing='ij')
        for i in range(nb):
            buf[start + xx * xs + yy * ys + i] = (p >> (8 * i)) & 0xff
    return buf.tobytes()


def order(fmt, planes):
    """Planes are kept as Y U V or R G B; the views of a format may come in another order."""
    names = [v[0] for v in F.layout(fmt, 2, 2, 0)[2]]
    ref = 'RGB' if 'R' in names else 'YUV'
    return [planes[ref.index(n)] for n in names]


def v210_samples(w, h):
    """(component, x, y, number of the sample in its line)"""
    for y in range(h):
        for x in range(w):
            yield 0, x, y, 2 * x + 1
        for x in range(w // 2):
            yield 1, x, y, 4 * x
            yield 2, x, y, 4 * x + 2


def decode(fmt, w, h, data):
    """(planes, the set of values of bytes that hold no sample)"""
    comps, size, views = F.layout(fmt, w, h, 0)
    if fmt == F.V210:
        words = np.frombuffer(data, dtype='<u4').astype(np.uint64).reshape(h, comps[0]['stride'] // 4)
        planes = [np.zeros((w, h), dtype=np.int64), np.zeros((w // 2, h), dtype=np.int64), np.zeros((w // 2, h), dtype=np.int64)]
        left = words.copy()
        for (c, x, y, k) in v210_samples(w, h):
            v = (int(words[y, k // 3]) >> (10 * (k % 3))) & 0x3ff
            planes[c][x, y] = v
            left[y, k // 3] &= np.uint64(~(0x3ff << (10 * (k % 3))) & 0xffffffff)
        return planes, set(left.ravel().tolist())
    buf = np.frombuffer(data, dtype=np.uint8)
    used = np.zeros(size, dtype=bool)
    byname = {}
    for (name, shape, dt, (start, xs, ys)) in views:
        nb = int(dt[2])
        xx, yy = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing='ij')
        p = np.zeros(shape, dtype=np.int64)
        for i in range(nb):
            at = start + xx * xs + yy * ys + i
            p |= buf[at].astype(np.int64) << (8 * i)
            used[at] = True
        byname[name] = p
    return [byname[n] for n in ('RGB' if 'R' in byname else 'YUV')], set(buf[~used].tolist())


# ---- steps, on (lows, highs)

def mean_x(lo, hi):
    return [lo[0]] + [(p[0::2] + p[1::2] + 1) // 2 for p in lo[1:]], [hi[0]] + [(p[0::2] + p[1::2] + 1) // 2 for p in hi[1:]]


def mean_y(lo, hi):
    return [lo[0]] + [(p[:, 0::2] + p[:, 1::2] + 1) // 2 for p in lo[1:]], [hi[0]] + [(p[:, 0::2] + p[:, 1::2] + 1) // 2 for p in hi[1:]]


def dup_x(lo, hi):
    return [lo[0]] + [np.repeat(p, 2, axis=0) for p in lo[1:]], [hi[0]] + [np.repeat(p, 2, axis=0) for p in hi[1:]]


def dup_y(lo, hi):
    return [lo[0]] + [np.repeat(p, 2, axis=1) for p in lo[1:]], [hi[0]] + [np.repeat(p, 2, axis=1) for p in hi[1:]]


CHROMA = {('444', '422'): [mean_x], ('422', '420'): [mean_y], ('444', '420'): [mean_x, mean_y],
          ('422', '444'): [dup_x], ('420', '422'): [dup_y], ('420', '444'): [dup_y, dup_x]}


def depth(d1, d2):
    def down(lo, hi):
        n, top = d1 - d2, (1 << d2) - 1
        return ([np.minimum((p + (1 << (n - 1))) >> n, top) for p in lo], [np.minimum((p + (1 << (n - 1))) >> n, top) for p in hi])

    def up(lo, hi):
        n = d2 - d1
        return [p << n for p in lo], [(p << n) + (1 << n) - 1 for p in hi]
    return [] if d1 == d2 else [down if d1 > d2 else up]


def matrix(rows, offsets_in, offsets_out, d):
    top = (1 << d) - 1
    tol = 1.5e-6 * (1 << d)

    def step(lo, hi):
        outs = ([], [])
        for row, off in zip(rows, offsets_out):
            a = sum(k * ((lo if k > 0 else hi)[i] - offsets_in[i]) for i, k in enumerate(row)) + off
            b = sum(k * ((hi if k > 0 else lo)[i] - offsets_in[i]) for i, k in enumerate(row)) + off
            outs[0].append(np.floor(np.clip(a - tol, 0, top)).astype(np.int64))
            outs[1].append(np.floor(np.clip(b + tol, 0, top)).astype(np.int64))
        return outs
    return [step]


def rgb_to_yuv(d):
    mid = 1 << (d - 1)
    y = (KR, KG, KB)
    u = tuple(((1 if i == 2 else 0) - y[i]) / (2 * (1 - KB)) for i in range(3))
    v = tuple(((1 if i == 0 else 0) - y[i]) / (2 * (1 - KR)) for i in range(3))
    return matrix([y, u, v], (0, 0, 0), (0, mid, mid), d)


def yuv_to_rgb(d):
    mid = 1 << (d - 1)
    a, b = 2 * (1 - KR), 2 * (1 - KB)
    return matrix([(1, 0, a), (1, -KB * b / KG, -KR * a / KG), (1, b, 0)], (0, mid, mid), (0, 0, 0), d)


def path(k1, d1, k2, d2):
    """The steps of a conversion."""
    if k1 == k2:
        return depth(d1, d2)
    if k1 != 'RGB' and k2 != 'RGB':
        if d2 > d1 and ORDER[k2] < ORDER[k1]:
            return depth(d1, d2) + CHROMA[k1, k2]
        return CHROMA[k1, k2] + depth(d1, d2)
    if k1 == 'RGB':
        if k2 == '444':
            return rgb_to_yuv(d1) + depth(d1, d2)
        return rgb_to_yuv(d1) + path('444', d1, k2, d2)
    if k1 == '444':
        return yuv_to_rgb(d1) + depth(d1, d2)
    return path(k1, d1, '444', d2) + yuv_to_rgb(d2)


def paths(f1, f2):
    (k1, d1), (k2, d2) = FAMILY[f1], FAMILY[f2]
    if f1 == F.V210 or f2 == F.V210:
        return path(k1, d1, '422', 10) + path('422', 10, k2, d2)
    return path(k1, d1, k2, d2)


def resamples(f1, f2):
    ks = {FAMILY[f1][0], FAMILY[f2][0]} | ({'422'} if F.V210 in (f1, f2) else set())
    return len({F.SHIFTS[k] for k in ks}) > 1


def model(f1, f2, planes):
    lo, hi = planes, planes
    for step in paths(f1, f2):
        lo, hi = step(lo, hi)
    return lo, hi


def content(kind, d, shapes, seed):
    rs = np.random.RandomState(seed)
    top = (1 << d) - 1
    out = []
    for shape in shapes:
        if kind == 'random':
            p = rs.randint(0, top + 1, size=shape, dtype=np.int64)
        elif kind == 'extreme':
            p = rs.choice(np.array([0, 1, top, top - 1, top // 2, top // 2 + 1], dtype=np.int64), size=shape)
        elif kind == 'max':
            p = np.full(shape, top, dtype=np.int64)
        elif kind == 'flat':
            p = np.full(shape, rs.randint(0, top + 1, dtype=np.int64), dtype=np.int64)
        elif kind == 'high':
            p = top - rs.randint(0, min(64, top), size=shape, dtype=np.int64)
        else:
            p = rs.randint(0, min(64, top), size=shape, dtype=np.int64)
        out.append(p)
    return out


def shapes(fmt, w, h):
    hs, vs = F.SHIFTS[FAMILY[fmt][0]]
    return [(w, h), (w >> hs, h >> vs), (w >> hs, h >> vs)]
