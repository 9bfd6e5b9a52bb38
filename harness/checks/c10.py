"""C10: raw essence sizes and plane geometry follow from format and dimensions."""
from hypothesis import strategies as st

from .. import formats as F, gen
from ..core import Target, eq, label, nontrivial, true

RULE = ("video: every raw format with generated dimensions (even, odd, zero, large); audio: every raw format with generated channel and sample counts; tables: every enumerated "
        "format. Non-trivial: the payload is not empty.")
ASSUMPTIONS = ["for odd dimensions of subsampled formats the stated width and height of the chroma planes are rounded down; their length may be more than stride times height",
               "alpha formats are only checked for consistency between size, components and expected length"]

dim = st.one_of(st.integers(0, 40), st.sampled_from([1, 2, 3, 6, 47, 48, 49, 95, 96, 97, 720, 1280, 1920]))
RAW = sorted([v[0] for v in F.PLANAR.values()] + [v[0] for v in F.PACKED.values()] + [F.V210])
ALPHA = [v[0] for v in F.ALPHA.values()]


def strat_video():
    return st.tuples(gen.weighted((6, st.sampled_from(RAW)), (1, st.sampled_from(ALPHA)), (1, st.sampled_from(list(F.OTHER.values())))), dim,
                     st.one_of(st.integers(0, 20), st.sampled_from([1, 2, 3, 540, 1080])), st.sampled_from(['kw', 'enum', 'given']), st.sampled_from(gen.LAYOUTS))


def check_video(case):
    from mediagrains import VideoGrain
    from mediagrains.cogenums import CogFrameFormat, CogFrameLayout
    fmt, w, h, how, layout = case
    kw = dict(cog_frame_format=CogFrameFormat(fmt) if how != 'kw' else fmt, width=w, height=h,
              cog_frame_layout=CogFrameLayout(layout) if how != 'kw' else layout)
    what = "{:#x} {}x{}: ".format(fmt, w, h)
    g = VideoGrain(data=b"abc" if how == 'given' else None, **kw)
    size = len(VideoGrain(**kw).data) if how == 'given' else len(g.data)
    if how == 'given':
        eq(bytes(g.data), b"abc", what + "payload given")
    else:
        eq(bytes(g.data), bytes(size), what + "payload made")
        eq(g.length, size, what + "length")
    nontrivial(size > 0)
    comps = [dict(c) for c in g.components]
    # the components tile the payload
    off = 0
    for i, c in enumerate(comps):
        eq(set(c), {'width', 'height', 'stride', 'length', 'offset'}, what + "component keys")
        eq(c['offset'], off, what + "offset of component {}".format(i))
        true(c['length'] >= c['stride'] * c['height'], what + "component {} is shorter than its lines".format(i))
        off += c['length']
    eq(off, size, what + "total length of the components against the payload made")
    eq(g.expected_length, size, what + "expected length")
    eq((g.width, g.height, int(g.cog_frame_format), int(g.cog_frame_layout), g.extension), (w, h, fmt, layout, 0), what + "header")
    even = w % 2 == 0 and h % 2 == 0
    label('odd', not even)
    if fmt in F.PLANAR_BY_VALUE:
        n, chroma, nb, bits = F.PLANAR_BY_VALUE[fmt]
        label('format:' + n)
        hs, vs = F.SHIFTS[chroma]
        eq([(c['width'], c['height'], c['stride']) for c in comps], [(x, y, x * nb) for x, y in F.planes(fmt, w, h)], what + "components")
        if even or (hs, vs) == (0, 0):
            eq([c['length'] for c in comps], [x * y * nb for x, y in F.planes(fmt, w, h)], what + "component lengths")
            eq(size, nb * sum(x * y for x, y in F.planes(fmt, w, h)), what + "size")
        else:
            eq([c['length'] for c in comps], [w * h * nb] + [(w * h // ((1 << hs) * (1 << vs))) * nb] * 2, what + "component lengths")
    elif fmt in F.PACKED_BY_VALUE:
        n, nb, bits, order, per = F.PACKED_BY_VALUE[fmt]
        label('format:' + n)
        stride = w * nb * len(order) // per
        eq(comps, [{'width': w, 'height': h, 'stride': stride, 'offset': 0, 'length': stride * h}], what + "components")
        eq(size, stride * h, what + "size")
    elif fmt == F.V210:
        label('format:v210')
        stride = -(-w // 48) * 128
        eq(comps, [{'width': w, 'height': h, 'stride': stride, 'offset': 0, 'length': stride * h}], what + "components")
    elif fmt in F.OTHER.values():
        eq((comps, size), ([], 0), what + "components and size")


def strat_audio():
    return st.tuples(st.sampled_from([v[0] for v in F.AUDIO.values()] + list(F.AUDIO_OTHER.values())), st.one_of(st.integers(0, 9), st.sampled_from([16, 17, 64])),
                     st.one_of(st.integers(0, 50), st.sampled_from([1024, 1920, 1601])), st.sampled_from(['kw', 'enum', 'given']))


def check_audio(case):
    from mediagrains import AudioGrain
    from mediagrains.cogenums import CogAudioFormat
    from mediagrains.grains.AudioGrain import size_for_audio_format
    fmt, ch, n, how = case
    what = "{:#x} {} channels {} samples: ".format(fmt, ch, n)
    kw = dict(cog_audio_format=CogAudioFormat(fmt) if how != 'kw' else fmt, channels=ch, samples=n, sample_rate=48000)
    g = AudioGrain(data=b"abcdef" if how == 'given' else None, **kw)
    if fmt in F.AUDIO_BY_VALUE:
        label('format:' + F.AUDIO_BY_VALUE[fmt][0])
        want = F.audio_size(fmt, ch, n)
    elif fmt == 0xc:
        want = ch * n * 8
    else:
        want = 0
    nontrivial(want > 0)
    eq(g.expected_length, want, what + "expected length")
    eq(size_for_audio_format(fmt, ch, n), want, what + "size")
    if how != 'given':
        eq(bytes(g.data), bytes(want), what + "payload made")
        eq(g.length, want, what + "length")
    else:
        eq(bytes(g.data), b"abcdef", what + "payload given")
    g.samples = n + 1
    if fmt in F.AUDIO_BY_VALUE:
        eq(g.expected_length, F.audio_size(fmt, ch, n + 1), what + "expected length after a change")


def tables(tier):
    return ([('frame', n, v) for n, v in F.ALL_FRAME.items()] + [('audio', n) for n in F.AUDIO] + [('audio-other', n, v) for n, v in F.AUDIO_OTHER.items()] +
            [('layout', n, v) for n, v in F.LAYOUTS.items()] + [('planar', n) for n in F.PLANAR] + [('sets',)])


def check_table(case):
    from mediagrains import cogenums as E
    from mediagrains.cogenums import CogFrameFormat, CogAudioFormat, CogFrameLayout
    nontrivial()
    if case[0] == 'sets':
        eq({f.name: int(f) for f in CogFrameFormat}, F.ALL_FRAME, "frame formats")
        eq({f.name: int(f) for f in CogAudioFormat}, dict({n: v[0] for n, v in F.AUDIO.items()}, **F.AUDIO_OTHER), "audio formats")
        eq({f.name: int(f) for f in CogFrameLayout}, F.LAYOUTS, "frame layouts")
    elif case[0] == 'frame':
        _, n, v = case
        f = CogFrameFormat[n]
        eq(int(f), v, n)
        if n in F.OTHER:
            return
        planar = n in F.PLANAR or n in F.ALPHA
        packed = n in F.PACKED or n == 'v210'
        eq(bool(E.COG_FRAME_IS_COMPRESSED(f)), n in F.CODED, n + " compressed")
        eq(bool(E.COG_FRAME_IS_PLANAR(f)), planar, n + " planar")
        if n not in F.CODED:
            eq(bool(E.COG_FRAME_IS_PACKED(f)), packed, n + " packed")
            eq(bool(E.COG_FRAME_IS_ALPHA(f)), n in F.ALPHA, n + " alpha")
        eq(bool(E.COG_FRAME_IS_PLANAR_RGB(f)), n in F.PLANAR and F.PLANAR[n][1] == 'RGB', n + " planar RGB")
        if n in F.PLANAR or n in F.ALPHA:
            t = (F.PLANAR.get(n) or (None,) + F.ALPHA[n])
            if n != 'ALPHA_U8_1BIT':
                eq(E.COG_FRAME_FORMAT_ACTIVE_BITS(f), t[-1], n + " bits")
            eq(E.COG_FRAME_FORMAT_BYTES_PER_VALUE(f), t[-2], n + " bytes per value")
        if n in F.PLANAR:
            eq((E.COG_FRAME_FORMAT_H_SHIFT(f), E.COG_FRAME_FORMAT_V_SHIFT(f)), F.SHIFTS[F.PLANAR[n][1]], n + " shifts")
        elif n in F.PACKED:
            eq(E.COG_FRAME_FORMAT_ACTIVE_BITS(f), F.PACKED[n][2], n + " bits")
        elif n == 'v210':
            eq(E.COG_FRAME_FORMAT_ACTIVE_BITS(f), 10, n + " bits")
    elif case[0] == 'planar':
        n = case[1]
        v, chroma, nb, bits = F.PLANAR[n]
        pc = {'444': E.PlanarChromaFormat.YUV_444, '422': E.PlanarChromaFormat.YUV_422, '420': E.PlanarChromaFormat.YUV_420, 'RGB': E.PlanarChromaFormat.RGB}[chroma]
        eq(E.COG_PLANAR_FORMAT(pc, bits), CogFrameFormat[n], n + " composed")
    elif case[0] == 'audio':
        n = case[1]
        v, arr, nb, kind = F.AUDIO[n]
        f = CogAudioFormat[n]
        eq(int(f), v, n)
        eq((bool(E.COG_AUDIO_IS_PLANES(f)), bool(E.COG_AUDIO_IS_PAIRS(f)), bool(E.COG_AUDIO_IS_INTERLEAVED(f))), (arr == 'planes', arr == 'pairs', arr == 'inter'), n)
        eq((bool(E.COG_AUDIO_IS_INT(f)), bool(E.COG_AUDIO_IS_FLOAT(f)), bool(E.COG_AUDIO_IS_DOUBLE(f))), (kind == 'int', kind == 'float', kind == 'double'), n)
        eq(bool(E.COG_AUDIO_IS_COMPRESSED(f)), False, n)
        eq(E.COG_AUDIO_FORMAT_SAMPLEBYTES(f), nb, n + " bytes per sample")
        depth = {'S16': E.COG_AUDIO_FORMAT_DEPTH_S16, 'S24': E.COG_AUDIO_FORMAT_DEPTH_S24, 'S32': E.COG_AUDIO_FORMAT_DEPTH_S32,
                 'FLOAT': E.COG_AUDIO_FORMAT_DEPTH_S32, 'DOUBLE': E.COG_AUDIO_FORMAT_DEPTH_S64}[n.split('_')[0]]
        eq(E.COG_AUDIO_FORMAT_DEPTH(f), depth, n + " depth")
    elif case[0] == 'audio-other':
        eq(int(CogAudioFormat[case[1]]), case[2], case[1])
        if case[1] in ('MP1', 'AAC', 'OPUS'):
            true(E.COG_AUDIO_IS_COMPRESSED(CogAudioFormat[case[1]]), case[1] + " compressed")
    elif case[0] == 'layout':
        eq(int(CogFrameLayout[case[1]]), case[2], case[1])


TARGETS = [
    Target('tables', None, check_table, quick=0, thorough=0, shards=1, enumerate=tables),
    Target('video', strat_video, check_video, quick=8000, thorough=400000),
    Target('audio', strat_audio, check_audio, quick=5000, thorough=200000),
]
