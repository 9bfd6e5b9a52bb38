"""The raw picture and sound formats, written down independently of the package."""

# name: (value, chroma, bytes per value, active bits)
PLANAR = {
    'U8_444': (0x2000, '444', 1, 8), 'U8_422': (0x2001, '422', 1, 8), 'U8_420': (0x2003, '420', 1, 8), 'U8_444_RGB': (0x2010, 'RGB', 1, 8),
    'S16_444_10BIT': (0x2804, '444', 2, 10), 'S16_422_10BIT': (0x2805, '422', 2, 10), 'S16_420_10BIT': (0x2807, '420', 2, 10),
    'S16_444_10BIT_RGB': (0x2814, 'RGB', 2, 10),
    'S16_444_12BIT': (0x3004, '444', 2, 12), 'S16_422_12BIT': (0x3005, '422', 2, 12), 'S16_420_12BIT': (0x3007, '420', 2, 12),
    'S16_444_12BIT_RGB': (0x3014, 'RGB', 2, 12),
    'S16_444': (0x4004, '444', 2, 16), 'S16_422': (0x4005, '422', 2, 16), 'S16_420': (0x4007, '420', 2, 16), 'S16_444_RGB': (0x4014, 'RGB', 2, 16),
    'S32_444': (0x8008, '444', 4, 32), 'S32_422': (0x8009, '422', 4, 32), 'S32_420': (0x800b, '420', 4, 32), 'S32_444_RGB': (0x8018, 'RGB', 4, 32),
}
# name: (value, bytes per value, active bits, the components of a group in order, pixels per group)
PACKED = {
    'YUYV': (0x2100, 1, 8, 'YUYV', 2), 'UYVY': (0x2101, 1, 8, 'UYVY', 2), 'v216': (0x4105, 2, 16, 'UYVY', 2),
    'AYUV': (0x2102, 1, 8, 'AYUV', 1), 'RGB': (0x2104, 1, 8, 'RGB', 1),
    'RGBx': (0x2110, 1, 8, 'RGBx', 1), 'xRGB': (0x2111, 1, 8, 'xRGB', 1), 'BGRx': (0x2112, 1, 8, 'BGRx', 1), 'xBGR': (0x2113, 1, 8, 'xBGR', 1),
    'RGBA': (0x2114, 1, 8, 'RGBA', 1), 'ARGB': (0x2115, 1, 8, 'ARGB', 1), 'BGRA': (0x2116, 1, 8, 'BGRA', 1), 'ABGR': (0x2117, 1, 8, 'ABGR', 1),
}
V210 = 0x2906
ALPHA = {'ALPHA_U8': (0x2080, 1, 8), 'ALPHA_S16_10BIT': (0x2884, 2, 10), 'ALPHA_S16_12BIT': (0x3084, 2, 12), 'ALPHA_S16': (0x4084, 2, 16),
         'ALPHA_S32': (0x8088, 4, 32), 'ALPHA_U8_1BIT': (0x1080, 1, 1)}
CODED = {'MJPEG': 0x200, 'DNxHD': 0x201, 'MPEG2': 0x202, 'AVCI': 0x203, 'H264': 0x204, 'DV': 0x205, 'D10': 0x206, 'VC2': 0x207, 'VP8': 0x208, 'H265': 0x209}
LAYOUTS = {'FULL_FRAME': 0, 'SEPARATE_FIELDS': 1, 'SINGLE_FIELD': 2, 'MIXED_FIELDS': 3, 'SEGMENTED_FRAME': 4, 'UNKNOWN': 0xfffffffe}
OTHER = {'UNKNOWN': 0xfffffffe, 'INVALID': 0xffffffff}
SHIFTS = {'444': (0, 0), 'RGB': (0, 0), '422': (1, 0), '420': (1, 1)}

PLANAR_BY_VALUE = {v[0]: (n,) + v[1:] for n, v in PLANAR.items()}
PACKED_BY_VALUE = {v[0]: (n,) + v[1:] for n, v in PACKED.items()}
ALL_FRAME = dict({n: v[0] for t in (PLANAR, PACKED, ALPHA) for n, v in t.items()}, v210=V210, **CODED, **OTHER)

# name: (value, arrangement, bytes per sample, kind)
AUDIO = {
    'S16_PLANES': (0x0, 'planes', 2, 'int'), 'S16_PAIRS': (0x1, 'pairs', 2, 'int'), 'S16_INTERLEAVED': (0x2, 'inter', 2, 'int'),
    'S24_PLANES': (0x4, 'planes', 4, 'int'), 'S24_PAIRS': (0x5, 'pairs', 3, 'int'), 'S24_INTERLEAVED': (0x6, 'inter', 3, 'int'),
    'S32_PLANES': (0x8, 'planes', 4, 'int'), 'S32_PAIRS': (0x9, 'pairs', 4, 'int'), 'S32_INTERLEAVED': (0xa, 'inter', 4, 'int'),
    'FLOAT_PLANES': (0x18, 'planes', 4, 'float'), 'FLOAT_PAIRS': (0x19, 'pairs', 4, 'float'), 'FLOAT_INTERLEAVED': (0x1a, 'inter', 4, 'float'),
    'DOUBLE_PLANES': (0x2c, 'planes', 8, 'double'), 'DOUBLE_PAIRS': (0x2d, 'pairs', 8, 'double'), 'DOUBLE_INTERLEAVED': (0x2e, 'inter', 8, 'double'),
}
AUDIO_OTHER = {'S64_INVALID': 0xc, 'MP1': 0x200, 'AAC': 0x201, 'OPUS': 0x202, 'UNKNOWN': 0xfffffffe, 'INVALID': 0xffffffff}
AUDIO_BY_VALUE = {v[0]: (n,) + v[1:] for n, v in AUDIO.items()}


def planes(value, w, h):
    """[(samples per line, lines)] of a planar format."""
    _, chroma, _, _ = PLANAR_BY_VALUE[value]
    hs, vs = SHIFTS[chroma]
    return [(w, h), (w >> hs, h >> vs), (w >> hs, h >> vs)]


def audio_size(value, channels, samples):
    _, arrangement, nbytes, _ = AUDIO_BY_VALUE[value]
    if arrangement == 'pairs':
        channels += channels % 2
    return channels * samples * nbytes


def audio_offset(value, channels, samples, c, i):
    """Byte offset of sample i of channel c."""
    _, arrangement, nbytes, _ = AUDIO_BY_VALUE[value]
    if arrangement == 'planes':
        return (c * samples + i) * nbytes
    if arrangement == 'inter':
        return (i * channels + c) * nbytes
    return ((c // 2) * 2 * samples + i * 2 + c % 2) * nbytes


def layout(fmt, w, h, pad):
    """(components as metadata, total size, [(name, shape, dtype, offset of element (x, y) as (start, xstep, ystep))])"""
    comps, views = [], []
    if fmt in PLANAR_BY_VALUE:
        n, chroma, nb, _ = PLANAR_BY_VALUE[fmt]
        off = 0
        for name, (cw, ch) in zip('RGB' if chroma == 'RGB' else 'YUV', planes(fmt, w, h)):
            stride = (cw + pad) * nb
            length = stride * ch
            if not pad and chroma in ('422', '420') and name in 'UV':
                # odd sizes: the length is the plane's share of the luma size
                hs, vs = SHIFTS[chroma]
                length = w * h // (1 << (hs + vs)) * nb
            comps.append({'width': cw, 'height': ch, 'stride': stride, 'offset': off, 'length': length})
            views.append((name, (cw, ch), {1: '<u1', 2: '<u2', 4: '<u4'}[nb], (off, nb, stride)))
            off += length
        return comps, off, views
    if fmt == V210:
        stride = -(-w // 48) * 128
        return [{'width': w, 'height': h, 'stride': stride, 'offset': 0, 'length': stride * h}], stride * h, []
    n, nb, _, order, per = PACKED_BY_VALUE[fmt]
    stride = w * nb * len(order) // per + pad * nb * len(order)
    names = [c for c in order if c in 'YUVRGB']
    if 'Y' in names:
        names = 'YUV'
    for name in names:
        first = order.index(name) * nb
        step = len(order) * nb
        cw = w
        if per == 2:
            if name == 'Y':
                step //= 2
            else:
                cw = w // 2
        views.append((name, (cw, h), {1: '<u1', 2: '<u2'}[nb], (first, step, stride)))
    return [{'width': w, 'height': h, 'stride': stride, 'offset': 0, 'length': stride * h}], stride * h, views


# picture sizes (and numbers of samples) beyond those that small numbers, single bytes, block sizes and small integers reach
LARGE = [(255, 3), (256, 2), (257, 3), (1000, 1), (1280, 2), (1920, 2), (4096, 1), (4100, 2), (2, 300), (3, 1080), (1, 4097), (300, 200), (640, 48), (97, 130)]
LONG = [255, 256, 257, 1000, 1601, 1920, 4096, 4097, 16384, 33000, 65536, 65537]
