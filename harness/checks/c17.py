"""C17: PSNR figures equal the textbook definition per component or channel."""
import math
import operator
import uuid

import numpy as np
from hypothesis import strategies as st

from .. import formats as F, gen
from ..core import Target, eq, label, nontrivial, raises, true

RULE = ("video, audio: two grains of every raw format and generated size with generated samples (noise, extremes, few differences, equal), lines padded or not, compared both ways and with other "
        "padding; large: pictures of up to 60000 samples a component and sounds of up to 65537 a channel; again: three grains whose payloads change in between, up to 8 steps; mixed: the same picture in a planar and a packed format; refused: pairs of grains that cannot be compared; option: the PSNR option of compare_grain. "
        "Non-trivial: some component differs.")
ASSUMPTIONS = ["figures agree to 1e-9 relative", "the peak is the largest value for pictures, the magnitude of the most negative value for integer sound and 1.0 for floating point sound",
               "grains hold at least one sample per component", "the channel arrays of 24 bit numpy sound are widened copies, made when the payload is set (payloads are not changed in place under them)", "alpha formats are not covered"]
VFMT = sorted(list(F.PLANAR_BY_VALUE) + list(F.PACKED_BY_VALUE))
AFMT = sorted(F.AUDIO_BY_VALUE)
ID = dict(src_id=uuid.UUID(int=1), flow_id=uuid.UUID(int=2), origin_timestamp=gen.mk_ts(0), sync_timestamp=gen.mk_ts(0), creation_timestamp=gen.mk_ts(0))


def bits(fmt):
    return (F.PLANAR_BY_VALUE.get(fmt) or F.PACKED_BY_VALUE[fmt][:1] + (0,) + F.PACKED_BY_VALUE[fmt][1:3])[3]


def values(kind, rs, n, lo, hi):
    """n samples between lo and hi as Python integers."""
    if kind == 'low':
        return [lo] * n
    if kind == 'high':
        return [hi] * n
    if kind == 'extreme':
        return [(lo, hi)[x] for x in rs.randint(0, 2, n)]
    return [lo + int(x) % (hi - lo + 1) for x in rs.randint(0, 2**62, n)]


def change(kind, rs, xs, lo, hi):
    """Another list of samples."""
    if kind == 'same':
        return list(xs)
    if kind in ('one', 'tiny'):
        out = list(xs)
        i = rs.randint(len(xs))
        out[i] = out[i] + 1 if out[i] < hi else out[i] - 1
        return out
    if kind == 'invert':
        return [hi + lo - x for x in xs]
    return values(kind, rs, len(xs), lo, hi)


KINDS = st.sampled_from(['random', 'random', 'extreme', 'low', 'high'])
CHANGES = st.sampled_from(['same', 'one', 'tiny', 'invert', 'random', 'random', 'high', 'low'])


def textbook(a, b, peak):
    sse = sum((x - y)**2 for x, y in zip(a, b))
    if sse == 0:
        return math.inf
    return 10 * (2 * math.log10(peak) + math.log10(len(a)) - math.log10(sse))


def close(got, want, what):
    eq(len(got), len(want), what + "number of figures")
    for i, (g, w) in enumerate(zip(got, want)):
        true(g == w if math.isinf(w) else abs(g - w) <= 1e-9 * max(1, abs(w)), what + "figure {} is {!r}, the definition gives {!r}".format(i, g, w))


def picture(fmt, w, h, pad, comps, filler, numpy):
    """A grain with the samples given (component -> list by column then row)."""
    import mediagrains.grains as P
    import mediagrains.numpy as N
    components, size, views = F.layout(fmt, w, h, pad)
    buf = bytearray(filler[i % len(filler)] for i in range(size))
    for (name, shape, dt, (start, xs, ys)), vals in zip(views, comps):
        nb = int(dt[-1])
        for x in range(shape[0]):
            for y in range(shape[1]):
                o = start + x * xs + y * ys
                buf[o:o + nb] = vals[x * shape[1] + y].to_bytes(nb, 'little')
    meta = {'@_ns': 'urn:x-ipstudio:ns:0.1', 'grain': {'grain_type': 'video', 'source_id': str(ID['src_id']), 'flow_id': str(ID['flow_id']), 'origin_timestamp': '0:0', 'sync_timestamp': '0:0',
                                                       'cog_frame': {'format': fmt, 'layout': 0, 'width': w, 'height': h, 'extension': 0, 'components': components}}}
    return (N if numpy else P).VideoGrain(meta, buf)


def make_pictures(fmt, w, h, kind, changes, seed):
    rs = np.random.RandomState(seed)
    hi = (1 << bits(fmt)) - 1
    _, _, views = F.layout(fmt, w, h, 0)
    a = [values(kind, rs, v[1][0] * v[1][1], 0, hi) for v in views]
    b = [change(c, rs, x, 0, hi) for x, c in zip(a, changes)]
    return a, b, hi


def even(fmt, w, h):
    sub = fmt in F.PACKED_BY_VALUE or F.PLANAR_BY_VALUE[fmt][1] in ('422', '420')
    return (w + w % 2, h + h % 2) if sub else (w, h)


fillers = st.sampled_from([b"\x00", b"\xff", b"\x01\x80\x7f"])
threes = st.tuples(CHANGES, CHANGES, CHANGES)


def strat_video():
    return st.tuples(st.sampled_from(VFMT), st.integers(1, 8), st.integers(1, 6), st.tuples(st.sampled_from([0, 0, 1, 5]), st.sampled_from([0, 0, 2])), KINDS, threes, st.integers(0, 2**31),
                     st.tuples(fillers, fillers), st.integers(0, 3), st.sampled_from([None, None, 1, 235, 4095]))


def check_video(case):
    from mediagrains.comparison import compute_psnr
    fmt, w, h, pads, kind, changes, seed, fill, kinds, peak = case
    w, h = even(fmt, w, h)
    if fmt not in F.PLANAR_BY_VALUE:
        pads = (pads[0] * 4, pads[1] * 4)
    a, b, hi = make_pictures(fmt, w, h, kind, changes, seed)
    want = [textbook(x, y, peak or hi) for x, y in zip(a, b)]
    what = "{:#x} {}x{}: ".format(fmt, w, h)
    nontrivial(not all(math.isinf(x) for x in want))
    label('fmt:{:#x}'.format(fmt))
    A, B = picture(fmt, w, h, pads[0], a, fill[0], kinds & 1), picture(fmt, w, h, pads[1], b, fill[1], kinds & 2)
    raw = bytes(A.data), bytes(B.data)
    kw = {} if peak is None else {'max_val': peak}
    close(compute_psnr(A, B, **kw), want, what)
    close(compute_psnr(B, A, **kw), want, what + "(swapped) ")
    close(compute_psnr(A, A, **kw), [math.inf] * 3, what + "(itself) ")
    eq((bytes(A.data), bytes(B.data)), raw, what + "payloads afterwards")


FLOAT = {'float': '<f4', 'double': '<f8'}


def sound(fmt, channels, samples, chans, filler, numpy):
    import mediagrains.grains as P
    import mediagrains.numpy as N
    from mediagrains.cogenums import CogAudioFormat
    _, _, nb, kind = F.AUDIO_BY_VALUE[fmt]
    size = F.audio_size(fmt, channels, samples)
    buf = bytearray(filler[i % len(filler)] for i in range(size))
    for c, vals in enumerate(chans):
        for i, v in enumerate(vals):
            o = F.audio_offset(fmt, channels, samples, c, i)
            if kind in FLOAT:
                buf[o:o + nb] = np.array([v], FLOAT[kind]).tobytes()
            elif 'S24' in F.AUDIO_BY_VALUE[fmt][0]:
                buf[o:o + 3] = (v & 0xffffff).to_bytes(3, 'little')
            else:
                buf[o:o + nb] = v.to_bytes(nb, 'little', signed=True)
    return (N if numpy else P).AudioGrain(cog_audio_format=CogAudioFormat(fmt), channels=channels, samples=samples, sample_rate=48000, data=buf, **ID)


def strat_audio():
    return st.tuples(st.sampled_from(AFMT), st.integers(1, 12), st.lists(st.tuples(KINDS, CHANGES), min_size=1, max_size=5), st.integers(0, 2**31), st.tuples(fillers, fillers), st.integers(0, 3),
                     st.sampled_from([None, None, 1, 1000]))


def make_sounds(fmt, samples, chans, seed):
    rs = np.random.RandomState(seed)
    name, _, nb, kind = F.AUDIO_BY_VALUE[fmt]
    depth = 24 if 'S24' in name else 8 * nb
    lo, hi = (-100, 100) if kind in FLOAT else (-(1 << depth - 1), (1 << depth - 1) - 1)
    a = [values(k, rs, samples, lo, hi) for k, _ in chans]
    b = [change(c, rs, x, lo, hi) for x, (_, c) in zip(a, chans)]
    if kind in FLOAT:
        dt = FLOAT[kind]
        a, b = [[[float(x) for x in np.array(ch, dt) / np.dtype(dt).type(97)] for ch in y] for y in (a, b)]
        for i, (_, c) in enumerate(chans):
            if c == 'tiny':
                # as close as makes a difference, or somewhat less close
                e = 10.0**-rs.randint(5, 17)
                b[i] = [float(np.array(x + e, dt)) for x in a[i]]
                if b[i] == a[i]:
                    b[i][0] = float(np.nextafter(np.array(a[i][0], dt), np.dtype(dt).type(2)))
        return a, b, 1.0
    return a, b, 1 << (depth - 1)


def check_audio(case):
    from mediagrains.comparison import compute_psnr
    fmt, samples, chans, seed, fill, kinds, peak = case
    a, b, top = make_sounds(fmt, samples, chans, seed)
    scale = 256 if 'S24' in F.AUDIO_BY_VALUE[fmt][0] else 1   # 24 bit samples are compared in the 32 bit range
    want = [textbook(x, y, top if peak is None else peak / scale) for x, y in zip(a, b)]
    what = "{} {} channels of {}: ".format(F.AUDIO_BY_VALUE[fmt][0], len(chans), samples)
    nontrivial(not all(math.isinf(x) for x in want))
    label(F.AUDIO_BY_VALUE[fmt][0])
    A, B = sound(fmt, len(chans), samples, a, fill[0], kinds & 1), sound(fmt, len(chans), samples, b, fill[1], kinds & 2)
    raw = bytes(A.data), bytes(B.data)
    kw = {} if peak is None else {'max_val': peak}
    close(compute_psnr(A, B, **kw), want, what)
    close(compute_psnr(B, A, **kw), want, what + "(swapped) ")
    close(compute_psnr(B, B, **kw), [math.inf] * len(chans), what + "(itself) ")
    eq((bytes(A.data), bytes(B.data)), raw, what + "payloads afterwards")


# formats that hold the same components at the same depth
GROUPS = [['U8_422', 'UYVY', 'YUYV'], ['S16_422', 'v216'], ['U8_444', 'AYUV'], ['U8_444_RGB', 'RGB', 'RGBx', 'xRGB', 'RGBA', 'ARGB'], ['BGRx', 'xBGR', 'BGRA', 'ABGR']]


def strat_mixed():
    return st.sampled_from(GROUPS).flatmap(lambda g: st.tuples(st.sampled_from(g), st.sampled_from(g), st.integers(1, 4), st.integers(1, 3), KINDS, threes, st.integers(0, 2**31), fillers))


def check_mixed(case):
    from mediagrains.comparison import compute_psnr
    f1, f2, w, h, kind, changes, seed, fill = case
    f1, f2 = F.ALL_FRAME[f1], F.ALL_FRAME[f2]
    a, b, hi = make_pictures(f1, 2 * w, 2 * h, kind, changes, seed)
    want = [textbook(x, y, hi) for x, y in zip(a, b)]
    nontrivial(f1 != f2)
    A, B = picture(f1, 2 * w, 2 * h, 0, a, fill, False), picture(f2, 2 * w, 2 * h, 0, b, fill, False)
    close(compute_psnr(A, B), want, "{:#x} against {:#x}: ".format(f1, f2))


def strat_again():
    op = gen.weighted((4, st.tuples(st.just('psnr'), st.integers(0, 2), st.integers(0, 2), st.sampled_from([None, None, 1000]))),
                      (3, st.tuples(st.just('change'), st.integers(0, 2), CHANGES, st.integers(0, 2**31))), (1, st.tuples(st.just('new'), st.integers(0, 2), CHANGES, st.integers(0, 2**31))))
    grains = st.one_of(st.tuples(st.just('video'), st.sampled_from(VFMT), st.integers(1, 4), st.integers(1, 4)), st.tuples(st.just('audio'), st.sampled_from(AFMT), st.integers(1, 3), st.integers(1, 12)))
    return st.tuples(grains, KINDS, threes, st.integers(0, 2**31), st.integers(0, 7), st.booleans(), st.lists(op, min_size=3, max_size=8))


def check_again(case):
    """Figures for three grains (two of which may be over one payload), whose payloads change in between"""
    from mediagrains.comparison import compute_psnr
    (t, fmt, p, q), kind, changes, seed, kinds, shared, ops = case

    if t == 'video':
        p, q = even(fmt, p, q)
        a, b, top = make_pictures(fmt, p, q, kind, changes, seed)
        lo, hi, scale = 0, top, 1

        def make(comps, numpy):
            return picture(fmt, p, q, 0, comps, b"\x00", numpy)
    else:
        a, b, top = make_sounds(fmt, q, [(kind, c) for c in changes[:p]], seed)
        name, _, nb, what = F.AUDIO_BY_VALUE[fmt]
        depth = 24 if 'S24' in name else 8 * nb
        lo, hi = (-1, 1) if what in FLOAT else (-(1 << depth - 1), (1 << depth - 1) - 1)
        scale = 256 if 'S24' in name else 1

        def make(comps, numpy):
            return sound(fmt, p, q, comps, b"\x00", numpy)
    vals = [[list(x) for x in y] for y in (a, b, a)]
    gs = [make(v, kinds >> i & 1) for i, v in enumerate(vals)]
    if shared:
        gs[2] = type(gs[0])(gs[0].meta, gs[0].data)
        vals[2] = vals[0]
    label('one payload' if shared else 'own payloads')
    done = changed = 0
    for k, (op, i, x, y) in enumerate(ops):
        text = "{} {:#x} {}x{} {!r} after {!r}: ".format(t, fmt, p, q, ops[k], ops[:k])
        if op == 'psnr':
            want = [textbook(u, v, top if y is None else y / scale) for u, v in zip(vals[i], vals[x])]
            close(compute_psnr(gs[i], gs[x], **({} if y is None else {'max_val': y})), want, text)
            done += 1
            nontrivial(done > 1 and changed > 0)
            continue
        rs = np.random.RandomState(y)
        if t == 'audio' and what in FLOAT:
            dt = FLOAT[what]
            new = [[float(v) for v in np.array(rs.randint(-100, 101, len(c)) / 100.0, dt)] for c in vals[i]]
        else:
            new = [change(x, rs, c, lo, hi) for c in vals[i]]
        h = make(new, False)
        if op == 'new' or (isinstance(gs[i].data, np.ndarray) and t == 'audio' and scale == 256):
            if shared and i in (0, 2):
                continue
            gs[i].data = bytearray(h.data)
            vals[i] = [list(c) for c in new]
        else:
            target = gs[i].data
            if isinstance(target, np.ndarray):
                target[...] = np.frombuffer(h.data, target.dtype).reshape(target.shape)
            else:
                target[:] = bytes(h.data)
            for c, n in zip(vals[i], new):
                c[:] = n
        changed += done > 0


def strat_refused():
    small = st.integers(1, 3)
    v = st.tuples(st.just('video'), st.sampled_from(VFMT + [F.V210] + sorted(F.CODED.values())), small, small, st.sampled_from([0, 0, 0, 1]))
    a = st.tuples(st.just('audio'), st.sampled_from(AFMT + [0x200, 0x201, 0x202]), small, small, st.just(0))
    o = st.tuples(st.sampled_from(['event', 'empty', 'coded_video', 'coded_audio']), st.just(0), small, small, st.just(0))
    # the same size in two formats, so that only the formats can be what differs
    same = st.tuples(st.sampled_from(VFMT), st.sampled_from(VFMT), small, small).map(lambda t: (('video', t[0], t[2], t[3], 0), ('video', t[1], t[2], t[3], 0)))
    return gen.weighted((5, same), (3, st.tuples(v, v)), (3, st.tuples(a, a)), (1, st.tuples(v, a)), (1, st.tuples(o, gen.weighted((1, o), (1, v), (1, a)))))


def signature(x):
    """What must agree for a comparison (None: cannot be compared at all)."""
    t, fmt, p, q, short = x
    if t == 'video':
        if short or fmt not in VFMT:
            return None
        _, _, views = F.layout(fmt, 2 * p, 2 * q, 0)
        return [v[:2] for v in views] + [bits(fmt)]
    if t == 'audio':
        return None if fmt not in AFMT else [fmt, p, q]
    return None


def something(x):
    import mediagrains.grains as P
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
    t, fmt, p, q, short = x
    if t == 'video':
        g = P.VideoGrain(cog_frame_format=CogFrameFormat(fmt), width=2 * p, height=2 * q, **ID)
        if short and g.data:
            g = P.VideoGrain(g.meta, g.data[:-4])
        return g
    if t == 'audio':
        return P.AudioGrain(cog_audio_format=CogAudioFormat(fmt), channels=p, samples=q, sample_rate=48000, **ID)
    if t == 'empty':
        return P.Grain({'@_ns': 'urn:x-ipstudio:ns:0.1', 'grain': {'grain_type': 'empty'}}, None)
    cls = {'event': P.EventGrain, 'coded_video': P.CodedVideoGrain, 'coded_audio': P.CodedAudioGrain}[t]
    return cls(**ID)


def check_refused(case):
    from mediagrains.comparison import compute_psnr
    x, y = case
    a, b = something(x), something(y)
    sx, sy = signature(x), signature(y)
    what = "{!r} against {!r}: ".format(x, y)
    if sx is not None and sx == sy:
        label('comparable')
        close(compute_psnr(a, b), [math.inf] * (3 if x[0] == 'video' else x[2]), what)
        return
    nontrivial()
    label('refused')
    raises((NotImplementedError, AttributeError), lambda: compute_psnr(a, b), what)


OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def strat_option():
    opt = st.tuples(st.sampled_from(sorted(OPS)), st.lists(st.one_of(st.none(), st.sampled_from([0, 0, 1, -1, 1e-6, -1e-6, 20, 'zero', 'zero', 'ten'])), min_size=5, max_size=5))
    return st.tuples(st.one_of(strat_video(), strat_audio()), st.lists(opt, min_size=1, max_size=2), st.booleans(), st.sampled_from([None, None, None, 'size', 'format', 'short']))


def check_option(case):
    from mediagrains.comparison import compare_grain, compute_psnr
    from mediagrains.comparison.options import Exclude, PSNR
    grains, opts, exclude, spoil = case
    if len(grains) == 10:
        fmt, w, h, pads, kind, changes, seed, fill, kinds, _ = grains
        w, h = even(fmt, w, h)
        a, b, _ = make_pictures(fmt, w, h, kind, changes, seed)
        A = picture(fmt, w, h, 0, a, fill[0], False)
        B = picture(fmt, w, h, 0, b, fill[1], False)
        if spoil == 'size':
            w2 = w + 2
            a, b, _ = make_pictures(fmt, w2, h, kind, changes, seed)
            B = picture(fmt, w2, h, 0, b, fill[1], False)
        elif spoil == 'format':
            B = something(('video', F.V210 if fmt != F.V210 else VFMT[0], 1, 1, 0))
        elif spoil == 'short':
            from mediagrains.grains import VideoGrain
            B = VideoGrain(B.meta, B.data[:-4])
    else:
        fmt, samples, chans, seed, fill, kinds, _ = grains
        a, b, _ = make_sounds(fmt, samples, chans, seed)
        A, B = sound(fmt, len(chans), samples, a, fill[0], False), sound(fmt, len(chans), samples, b, fill[1], False)
        if spoil in ('size', 'short'):
            B = sound(fmt, len(chans), samples - 1, [x[:-1] for x in b], fill[1], False)
        elif spoil == 'format':
            B = something(('audio', AFMT[(AFMT.index(fmt) + 1) % len(AFMT)], 1, 1, 0))
    options = []
    if spoil is None:
        got = compute_psnr(A, B)
        ok = True
        for op, deltas in opts:
            limits = [None if d is None else 0 if d == 'zero' else 10 if d == 'ten' else (g if math.isinf(g) and d >= 0 else (100.0 + d if math.isinf(g) else g + d)) for g, d in zip(got, deltas)]
            ok = ok and all(lim is None or OPS[op](g, lim) for g, lim in zip(got, limits))
            options.append(OPS[op](PSNR.data, limits))
    else:
        ok = False
        options = [OPS[op](PSNR.data, [-1000.0] * 5) for op, _ in opts]
    label('spoiled by {}'.format(spoil))
    if exclude:
        options.append(Exclude.data)
    r = compare_grain(A, B, *options)
    what = "{!r}: ".format(options)
    str(r), r.msg
    c = r.data
    if not exclude:
        true(bool(c) is ok, what + "payload counts as {}".format("accepted" if c else "different"))
    others = [x.attr for x in r.children if not x and not x.excluded() and x.attr != 'data']
    if spoil is None:
        eq(others, [], what + "other attributes that differ")
    true(bool(r) is (not others and (ok or exclude or (spoil == 'format'))), what + "result")
    nontrivial(spoil is not None or any(not math.isinf(g) for g in got))
    label('accepted' if ok else 'not accepted')


def strat_large_video():
    return st.tuples(st.sampled_from(VFMT), st.sampled_from(F.LARGE), st.tuples(st.sampled_from([0, 0, 1, 5]), st.sampled_from([0, 0, 2])), KINDS, threes, st.integers(0, 2**31),
                     st.tuples(fillers, fillers), st.integers(0, 3), st.sampled_from([None, None, 235])).map(lambda t: (t[0], *t[1], *t[2:]))


def strat_large_audio():
    return st.tuples(st.sampled_from(AFMT), st.sampled_from(F.LONG), st.lists(st.tuples(KINDS, CHANGES), min_size=1, max_size=2), st.integers(0, 2**31), st.tuples(fillers, fillers), st.integers(0, 3),
                     st.sampled_from([None, None, 1000]))


TARGETS = [
    Target('large-video', strat_large_video, check_video, quick=120, thorough=5000),
    Target('large-audio', strat_large_audio, check_audio, quick=120, thorough=5000),
    Target('video', strat_video, check_video, quick=2500, thorough=150000),
    Target('audio', strat_audio, check_audio, quick=2500, thorough=150000),
    Target('mixed', strat_mixed, check_mixed, quick=600, thorough=30000),
    Target('again', strat_again, check_again, quick=1000, thorough=50000),
    Target('refused', strat_refused, check_refused, quick=1600, thorough=20000),
    Target('option', strat_option, check_option, quick=1500, thorough=50000),
]
