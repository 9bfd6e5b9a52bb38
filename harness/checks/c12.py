"""C12: array views of a grain address exactly the bytes of its payload."""
import struct
from uuid import UUID

import numpy as np
from hypothesis import strategies as st

from .. import aio, formats as F, gen
from ..core import Target, eq, label, nontrivial, raises, true

RULE = ("video: every raw picture format with generated dimensions, payload, way of construction (made, given, with padded lines through metadata, from a plain grain, assigned later, "
        "awaited) and writes through the arrays; audio: the same for every raw sound format, channel and sample count; refused: every format without array support, and payloads "
        "too short for the stated picture; held: histories of payload buffers that the program keeps, grains over them that are given other ones, copied and rebuilt, and arrays taken from them earlier, with writes on all sides; large: pictures up to 4100 wide or high, sound of up to 33000 samples or 257 channels. Non-trivial: at least two arrays with elements, or a refusal.")
ASSUMPTIONS = ["24 bit sound is widened to 32 bit copies, as the documentation says, so writes do not reach the payload",
               "alpha formats are not covered: their planes have no documented meaning",
               "a payload that is too short for the picture gives no component arrays"]

dims = st.one_of(st.integers(0, 9), st.sampled_from([2, 4, 6, 8, 16, 17, 48, 50]))
VFMT = sorted(list(F.PLANAR_BY_VALUE) + list(F.PACKED_BY_VALUE) + [F.V210])
AFMT = sorted(F.AUDIO_BY_VALUE)
HOW = ['made', 'given', 'readonly', 'meta', 'plain', 'assigned', 'awaited', 'bytesio', 'copy', 'deepcopy', 'array', 'object', 'lazy', 'file', 'async file']
# how grains come by payloads that an array cannot address, whose arrays are of a copy
COPIED = ('object', 'lazy', 'file', 'async file')


def pattern(n, seed):
    return np.random.RandomState(seed).bytes(n)


def strat_video():
    write = st.tuples(st.integers(0, 2), st.integers(0, 63), st.integers(0, 63), st.integers(0, 2**32 - 1))
    return st.tuples(st.sampled_from(VFMT), dims, st.integers(0, 7), st.sampled_from(HOW), st.sampled_from([0, 0, 1, 2, 5]), st.integers(0, 2**31), st.sampled_from([0, 0, 3, 64]),
                     st.lists(write, max_size=5))


def construct(cls, plain, how, kw, meta, data):
    """A numpy grain made in the stated way (None meta: keyword arguments)."""
    import copy
    if how == 'meta':
        return cls(meta, bytearray(data))
    if how == 'readonly':
        return cls(data=bytes(data), **kw)
    if how == 'plain':
        return cls(grain=plain(data=bytearray(data), **kw))
    if how == 'assigned':
        g = cls(**kw)
        g.data = bytearray(data)
        return g
    if how == 'awaited':
        async def fetch():
            return bytearray(data)
        g = cls(**kw)

        async def go():
            g.data = fetch()
            eq(g.data, None, "payload before it is awaited")
            eq(list(getattr(g, 'component_data', None) or getattr(g, 'channel_data', [])), [], "arrays before the payload is awaited")
            return await g
        aio.run(go())
        return g
    if how == 'array':
        return cls(data=np.frombuffer(bytearray(data), dtype='u1' if len(data) % 2 else 'u2'), **kw)
    if how == 'object':
        class Bytesable:
            def __bytes__(self):
                return bytes(data)
        g = cls(data=bytes(len(data)), **kw)
        g.data = Bytesable()
        return g
    if how == 'lazy':
        import io
        from mediagrains.utils.iobytes import IOBytes
        return cls(data=IOBytes(io.BytesIO(b"***" + bytes(data) + b"*"), 3, len(data)), **kw)
    if how == 'file':
        # read from a file straight into arrays, loaded lazily
        import io
        from mediagrains.gsf import GSFDecoder, dumps
        with GSFDecoder(file_data=io.BytesIO(dumps([plain(src_id=UUID(int=1), flow_id=UUID(int=2), data=bytes(data), **kw)])), parse_grain=cls) as dec:
            (g, _), = dec.grains()
        return g
    if how == 'async file':
        from mediagrains.gsf import GSFDecoder, dumps
        from mediagrains.utils.asyncbinaryio import AsyncBytesIO

        async def read():
            async with GSFDecoder(file_data=AsyncBytesIO(dumps([plain(src_id=UUID(int=1), flow_id=UUID(int=2), data=bytes(data), **kw)])), parse_grain=cls) as dec:
                async for g, _ in dec.grains():
                    await g
                    return g
        return aio.run(read())
    if how == 'bytesio':
        import io
        return cls(data=io.BytesIO(bytes(data)).getbuffer(), **kw)
    g = cls(data=bytearray(data), **kw)
    if how == 'copy':
        return copy.copy(g)
    if how == 'deepcopy':
        d = copy.deepcopy(g)
        for arrays in (getattr(g, 'component_data', []), getattr(g, 'channel_data', [])):
            for a in arrays:
                if a.size:
                    a[...] = 1
        return d
    return g


def check_video(case):
    import mediagrains.grains as plain
    from mediagrains.cogenums import CogFrameFormat
    from mediagrains.numpy import VideoGrain
    fmt, w, h, how, pad, seed, extra, writes = case
    if how != 'meta':
        pad = 0
    comps, size, views = F.layout(fmt, w, h, pad)
    what = "{:#x} {}x{} {}: ".format(fmt, w, h, how)
    kw = dict(cog_frame_format=CogFrameFormat(fmt), width=w, height=h)
    itemsize = 4 if fmt == F.V210 else (F.PLANAR_BY_VALUE.get(fmt) or F.PACKED_BY_VALUE.get(fmt))[2 if fmt in F.PLANAR_BY_VALUE else 1]
    if how == 'made':
        extra = 0
        data = bytes(size)
    else:
        data = pattern(size + extra * itemsize, seed)
    meta = {'@_ns': 'urn:x-ipstudio:ns:0.1', 'grain': {'grain_type': 'video', 'cog_frame': {'format': fmt, 'layout': 0, 'width': w, 'height': h, 'extension': 0, 'components': comps}}}
    g = construct(VideoGrain, plain.VideoGrain, how, kw, meta, data)
    label('how:' + how)
    label('fmt:{:#x}'.format(fmt))
    eq(bytes(g), data, what + "payload")
    eq(bytes(g.data), data, what + "payload")
    eq(g.data.dtype.str.replace('|', '<'), '<u{}'.format(itemsize), what + "payload type")
    eq(g.length, len(data), what + "length")
    if fmt == F.V210:
        eq(list(g.component_data), [], what + "component arrays")
        true(not any(hasattr(g.component_data, n) for n in 'YUVRGB'), what + "named arrays")
        return
    cd = g.component_data
    eq(len(cd), len(views), what + "number of arrays")
    nontrivial(all(s[0] * s[1] > 0 for _, s, _, _ in views))
    for i, (name, shape, dt, (start, xs, ys)) in enumerate(views):
        true(getattr(cd, name) is cd[i], what + "{} is not array {}".format(name, i))
        eq(cd[i].shape, shape, what + "shape of " + name)
        eq(cd[i].dtype.str.replace('|', '<'), dt, what + "type of " + name)
    others = set('YUVRGB') - {v[0] for v in views}
    true(not any(hasattr(cd, n) for n in others), what + "unexpected names")
    buf = bytearray(data)
    if how == 'made':
        # give every element a value of its own
        rs = np.random.RandomState(seed)
        for name, shape, dt, _ in views:
            getattr(cd, name)[...] = rs.randint(0, 2**31, size=shape).astype(dt)
        buf = bytearray(bytes(g.data))
    compare(g, buf, views, what)
    for c, x, y, v in (writes if how not in COPIED else ()):
        name, shape, dt, (start, xs, ys) = views[c]
        if not (shape[0] and shape[1]):
            continue
        x, y = x % shape[0], y % shape[1]
        nb = int(dt[2])
        v &= (1 << (8 * nb)) - 1
        if how == 'readonly':
            raises(ValueError, lambda: cd[c].__setitem__((x, y), v), what + "write to a read-only payload")
        else:
            cd[c][x, y] = v
            p = start + x * xs + y * ys
            buf[p:p + nb] = v.to_bytes(nb, 'little')
            label('write')
        eq(bytes(g.data), bytes(buf), what + "payload after writing {} at {}".format(name, (x, y)))
    compare(g, buf, views, what + "after writes: ")
    # a new payload brings new arrays
    other = pattern(len(data), seed ^ 1)
    g.data = bytearray(other)
    compare(g, bytearray(other), views, what + "after assigning other data: ")
    if seed % 3 == 0:
        written(g, other, what)


def written(g, data, what):
    """What a file that the grain is written to has."""
    from mediagrains.gsf import dumps, loads
    g.source_id, g.flow_id = UUID(int=1), UUID(int=2)
    h, = loads(dumps([g]))[1][1]
    eq(bytes(h.data), data, what + "payload in a file")
    back, = loads(dumps([g]), parse_grain=type(g))[1][1]
    true(type(back) is type(g), what + "type of grain read")
    eq(bytes(back.data), data, what + "payload of grain read")


def compare(g, buf, views, what):
    for i, (name, shape, dt, (start, xs, ys)) in enumerate(views):
        nb = int(dt[2])
        a = g.component_data[i]
        want = [[int.from_bytes(buf[start + x * xs + y * ys:start + x * xs + y * ys + nb], 'little') for y in range(shape[1])] for x in range(shape[0])]
        eq(a.tolist(), want if shape[0] else [], what + "elements of " + name)


# ---------------------------------------------------------------- audio

def strat_audio():
    write = st.tuples(st.integers(0, 20), st.integers(0, 300), st.integers(-2**31, 2**31 - 1))
    return st.tuples(st.sampled_from(AFMT), st.integers(0, 7), st.one_of(st.integers(0, 6), st.integers(0, 40)), st.sampled_from([h for h in HOW]), st.integers(0, 2**31),
                     st.sampled_from([0, 0, 0, 1, 5]), st.lists(write, max_size=5))


def sample(fmt, b):
    name, arr, nb, kind = F.AUDIO_BY_VALUE[fmt]
    if name.startswith('S24'):
        return int.from_bytes(b[:3], 'little', signed=True) << 8
    if kind == 'float':
        return struct.unpack('<f', b)[0]
    if kind == 'double':
        return struct.unpack('<d', b)[0]
    return int.from_bytes(b, 'little', signed=True)


def same(x, y):
    return x == y or (x != x and y != y)


def check_audio(case):
    import mediagrains.grains as plain
    from mediagrains.cogenums import CogAudioFormat
    from mediagrains.numpy import AudioGrain
    fmt, ch, n, how, seed, extra, writes = case
    name, arr, nb, kind = F.AUDIO_BY_VALUE[fmt]
    s24 = name.startswith('S24')
    what = "{} {} channels {} samples {}: ".format(name, ch, n, how)
    size = F.audio_size(fmt, ch, n)
    data = bytes(size) if how == 'made' else pattern(size + extra * nb, seed)
    kw = dict(cog_audio_format=CogAudioFormat(fmt), channels=ch, samples=n, sample_rate=48000)
    meta = {'@_ns': 'urn:x-ipstudio:ns:0.1', 'grain': {'grain_type': 'audio', 'cog_audio': {'format': fmt, 'channels': ch, 'samples': n, 'sample_rate': 48000}}}
    g = construct(AudioGrain, plain.AudioGrain, how, kw, meta, data)
    label('how:' + how)
    label('fmt:' + name)
    eq(bytes(g), data, what + "payload")
    eq(bytes(g.data), data, what + "payload")
    eq(g.length, len(data), what + "length")
    nontrivial(ch > 1 and n > 0)

    def compare(buf, note=""):
        eq(len(g.channel_data), ch, what + note + "number of channels")
        for c in range(ch):
            a = g.channel_data[c]
            eq(a.shape, (n,), what + note + "shape of channel {}".format(c))
            eq(a.dtype.str, {'int': '<i4' if nb != 2 else '<i2', 'float': '<f4', 'double': '<f8'}[kind], what + note + "type of channel {}".format(c))
            for i in range(n):
                p = F.audio_offset(fmt, ch, n, c, i)
                want = sample(fmt, bytes(buf[p:p + nb]))
                got = a[i].item()
                true(same(got, want), what + note + "sample {} of channel {} is {} want {}".format(i, c, got, want))
    buf = bytearray(data)
    compare(buf)
    eq(bytes(g.data), data, what + "payload after looking at the channels")
    for c, i, v in (writes if how not in COPIED else ()):
        if not ch or not n:
            continue
        c, i = c % ch, i % n
        a = g.channel_data[c]
        if how == 'readonly' and not s24:
            raises(ValueError, lambda: a.__setitem__(i, 0), what + "write to a read-only payload")
            continue
        if s24:
            a[i] = v
            eq(bytes(g.data), bytes(buf), what + "payload after a write to 24 bit samples")
            continue
        p = F.audio_offset(fmt, ch, n, c, i)
        if kind == 'float':
            a[i] = v
            buf[p:p + nb] = struct.pack('<f', v)
        elif kind == 'double':
            a[i] = v
            buf[p:p + nb] = struct.pack('<d', v)
        else:
            if nb == 2:
                v = ((v + 2**15) & 0xffff) - 2**15
            a[i] = v
            buf[p:p + nb] = v.to_bytes(nb, 'little', signed=True)
        label('write')
        eq(bytes(g.data), bytes(buf), what + "payload after writing sample {} of channel {}".format(i, c))
    other = pattern(len(data), seed ^ 1)
    g.data = bytearray(other)
    compare(other, "after assigning other data: ")
    if seed % 3 == 0:
        written(g, other, what)
    h = AudioGrain(g.meta, g.data)
    eq(bytes(h), other, what + "payload of a grain made from it")
    eq([x.tolist() for x in h.channel_data] == [x.tolist() for x in g.channel_data] or kind != 'int', True, what + "channels of a grain made from it")
    eq(bytes(g), other, what + "payload after making a grain from it")


# ---------------------------------------------------------------- refusals

def refusals(tier):
    r = [('video', n, v) for n, v in list(F.CODED.items()) + list(F.OTHER.items())]
    r += [('audio', n, F.AUDIO_OTHER[n]) for n in ('MP1', 'AAC', 'OPUS', 'UNKNOWN', 'INVALID')]
    return r


def strat_short():
    return st.tuples(st.just('short'), st.sampled_from([f for f in VFMT if f != F.V210]), st.integers(1, 8), st.integers(1, 5), st.integers(0, 2000), st.booleans())


def check_refused(case):
    from mediagrains.numpy import AudioGrain, VideoGrain
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
    nontrivial()
    if case[0] == 'short':
        _, fmt, w, h, cut, later = case
        comps, size, views = F.layout(fmt, w, h, 0)
        item = 4 if fmt in F.PLANAR_BY_VALUE and F.PLANAR_BY_VALUE[fmt][2] == 4 else 2
        n = size - 1 - cut % size if size else 0
        n -= n % item
        if n >= size or n < 0:
            return
        kw = dict(cog_frame_format=CogFrameFormat(fmt), width=w, height=h)
        if later:
            g = VideoGrain(**kw)
            g.data = bytes(n)
        else:
            g = VideoGrain(data=bytes(n), **kw)
        eq(list(g.component_data), [], "component arrays of a {} byte payload of {:#x} {}x{}".format(n, fmt, w, h))
        eq(bytes(g), bytes(n), "payload")
        return
    kind, name, v = case
    if kind == 'video':
        raises(NotImplementedError, lambda: VideoGrain(cog_frame_format=CogFrameFormat(v), width=2, height=2), name)
        raises(NotImplementedError, lambda: VideoGrain(cog_frame_format=CogFrameFormat(v), width=2, height=2, data=bytes(64)), name)
    else:
        raises(NotImplementedError, lambda: AudioGrain(cog_audio_format=CogAudioFormat(v), channels=2, samples=2), name)
        raises(NotImplementedError, lambda: AudioGrain(cog_audio_format=CogAudioFormat(v), channels=2, samples=2, data=bytes(64)), name)


def strat_large_video():
    write = st.tuples(st.integers(0, 2), st.integers(0, 9999), st.integers(0, 9999), st.integers(0, 2**32 - 1))
    return st.tuples(st.sampled_from(VFMT), st.sampled_from(F.LARGE), st.sampled_from(HOW), st.sampled_from([0, 0, 1, 5, 64]), st.integers(0, 2**31), st.sampled_from([0, 0, 3, 64]),
                     st.lists(write, max_size=3)).map(lambda t: (t[0], *t[1], *t[2:]))


def strat_large_audio():
    write = st.tuples(st.integers(0, 99), st.integers(0, 99999), st.integers(-2**31, 2**31 - 1))
    return st.tuples(st.sampled_from(AFMT), st.one_of(st.tuples(st.integers(1, 3), st.sampled_from(F.LONG[:-2])), st.tuples(st.sampled_from([8, 16, 32, 64, 255, 256, 257]), st.integers(1, 40))),
                     st.sampled_from([h for h in HOW]), st.integers(0, 2**31), st.sampled_from([0, 0, 0, 1, 5]), st.lists(write, max_size=3)).map(lambda t: (t[0], *t[1], *t[2:]))


# ---------------------------------------------------------------- payloads that the program keeps a hold of

def strat_held():
    k = st.integers(0, 3)
    big = st.integers(0, 10**6)
    step = st.one_of(st.tuples(st.just('assign'), k, k), st.tuples(st.just('buffer'), k, big, st.integers(0, 255)), st.tuples(st.just('array'), k, big, st.integers(0, 2**31)),
                     st.tuples(st.just('old'), big, big, st.integers(0, 2**31)), st.tuples(st.just('copy'), k, k), st.tuples(st.just('deepcopy'), k, k), st.tuples(st.just('rebuilt'), k, k),
                     st.tuples(st.just('none'), k), st.tuples(st.just('refused'), k))
    what = st.one_of(st.tuples(st.just('video'), st.sampled_from([f for f in VFMT if f != F.V210]), st.integers(1, 9), st.integers(1, 4)), st.tuples(st.just('audio'), st.sampled_from(AFMT), st.integers(1, 4), st.integers(1, 6)))
    return st.tuples(what, st.integers(0, 2**31), st.lists(step, min_size=1, max_size=10))


def check_held(case):
    """Buffers, the grains over them, and arrays that were taken from grains earlier: each is a view of the one buffer it was made over, at any time."""
    import copy
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
    from mediagrains.numpy import AudioGrain, VideoGrain
    (kind, fmt, a, b), seed, steps = case
    if kind == 'video':
        comps, size, views = F.layout(fmt, a, b, 0)
        kw = dict(cog_frame_format=CogFrameFormat(fmt), width=a, height=b)
        cls, snapshots = VideoGrain, False
        view = [(s[0] * s[1], [start + x * xs + y * ys for x in range(s[0]) for y in range(s[1])], int(dt[2])) for _, s, dt, (start, xs, ys) in views]
    else:
        size = F.audio_size(fmt, a, b)
        kw = dict(cog_audio_format=CogAudioFormat(fmt), channels=a, samples=b, sample_rate=48000)
        cls, snapshots = AudioGrain, F.AUDIO_BY_VALUE[fmt][0].startswith('S24')
        nb = F.AUDIO_BY_VALUE[fmt][2]
        view = [(b, [F.audio_offset(fmt, a, b, c, i) for i in range(b)], nb) for c in range(a)]
    what = "{} {:#x} {}x{}: ".format(kind, fmt, a, b)

    def arrays(g):
        return list(g.component_data if kind == 'video' else g.channel_data)

    buffers = [bytearray(pattern(size, (seed + i) % 2**32)) for i in range(4)]
    model = [bytes(x) for x in buffers]
    grains = [cls(data=buffers[i % 4], **kw) for i in range(3)] + [cls(data=memoryview(buffers[0]), **kw)]
    over = [0, 1, 2, 0]
    old = []                            # (array, view, buffer)

    def items(arr):
        flat = np.ascontiguousarray(arr).tobytes()
        n = arr.dtype.itemsize
        return [flat[i:i + n] for i in range(0, len(flat), n)]

    def agree(note):
        for i, x in enumerate(buffers):
            eq(bytes(x), model[i], note + "buffer {}".format(i))
        for i, g in enumerate(grains):
            if over[i] is None:
                eq(g.data, None, note + "payload of grain {} without".format(i))
                eq(arrays(g), [], note + "arrays of grain {} without payload".format(i))
                continue
            eq(bytes(g.data), model[over[i]], note + "payload of grain {}".format(i))
            eq(bytes(g), model[over[i]], note + "bytes of grain {}".format(i))
            if not snapshots:
                check_arrays(arrays(g), over[i], note + "arrays of grain {}".format(i))
        for arr, v, i in old:
            check_one(arr, v, i, note + "an array taken earlier")

    def check_arrays(arrs, i, note):
        eq(len(arrs), len(view), note)
        for arr, v in zip(arrs, view):
            check_one(arr, v, i, note)

    def check_one(arr, v, i, note):
        n, places, nb = v
        eq(items(arr), [model[i][p:p + nb] for p in places], note)

    def write(arr, v, i, n, value):
        if not v[0]:
            return
        n %= v[0]
        raw = (value & 0xffffffff).to_bytes(4, 'little') * 2
        item = np.frombuffer(raw[:arr.dtype.itemsize], dtype=arr.dtype)[0]
        arr[np.unravel_index(n, arr.shape)] = item
        p = v[1][n]
        model[i] = model[i][:p] + item.tobytes() + model[i][p + v[2]:]

    agree(what + "at first: ")
    for op in steps:
        k = op[1] % 4
        if op[0] in ('assign', 'none'):
            if over[k] is not None and not snapshots:
                old.extend((x, v, over[k]) for x, v in zip(arrays(grains[k]), view))
                old = old[-6:]
            grains[k].data = None if op[0] == 'none' else buffers[op[2]]
            over[k] = None if op[0] == 'none' else op[2]
        elif op[0] == 'buffer':
            if size:
                p = op[2] % size
                buffers[k][p] = op[3]
                model[k] = model[k][:p] + bytes([op[3]]) + model[k][p + 1:]
        elif op[0] == 'array':
            if over[k] is not None and not snapshots:
                j = op[2] % len(view)
                write(arrays(grains[k])[j], view[j], over[k], op[2] // len(view), op[3])
        elif op[0] == 'old':
            if old:
                arr, v, i = old[op[1] % len(old)]
                write(arr, v, i, op[2], op[3])
        elif op[0] == 'copy':
            grains[op[2]], over[op[2]] = copy.copy(grains[k]), over[k]
        elif op[0] == 'deepcopy':
            g = copy.deepcopy(grains[k])
            if over[k] is not None:
                for x in arrays(g):
                    x[...] = 1          # reaches nothing else
        elif op[0] == 'rebuilt':
            grains[op[2]], over[op[2]] = cls(grains[k].meta, grains[k].data), over[k]
            if over[k] is None:
                grains[op[2]].data = None
        elif op[0] == 'refused':
            if size % max(2, view[0][2]) == 0 and view[0][2] > 1 and size:
                raises(ValueError, lambda: setattr(grains[k], 'data', bytes(size - 1)), what + "a payload of part of an element")
        agree(what + "after {}: ".format(op))
    nontrivial(len(steps) > 2)
    label(kind)
    label('arrays kept', bool(old))


TARGETS = [
    Target('held', strat_held, check_held, quick=3000, thorough=100000),
    Target('large-video', strat_large_video, check_video, quick=200, thorough=8000),
    Target('large-audio', strat_large_audio, check_audio, quick=200, thorough=8000),
    Target('video', strat_video, check_video, quick=6000, thorough=300000),
    Target('audio', strat_audio, check_audio, quick=6000, thorough=300000),
    Target('refused', strat_short, check_refused, quick=800, thorough=20000, enumerate=refusals),
]
