"""C19: video test patterns contain the specified picture at every size and format."""
from fractions import Fraction

from hypothesis import strategies as st

from .. import formats as F, gen
from ..core import Target, eq, label, nontrivial, raises, true
from .c18 import FLOW, PATTERN_FORMATS, RATES, SRC, still_template

RULE = ("pattern: a luma steps or colour bars generator of generated format, size and intensity, asked for a generated instant, against a pixel by pixel model; overlay: the moving bar of generated height and "
        "speed over those or over a still with padded lines and any kind of payload; large-pattern, large-overlay: the same at the sizes real pictures have; refused: formats the generators don't support. Non-trivial: pictures of more than one bar, or with a bar that is "
        "neither absent nor covers everything.")
ASSUMPTIONS = ["intensities are between 0 and 1", "bars are eight, to within a pixel of equal width", "colour levels are the 16 bit table of the generator's test, cut to the depth of the format",
               "the bar is at black level, starts at line int(speed x count) modulo the height and wraps around", "4:2:0 pictures have at least two lines"]

#: 16 bit levels of the eight bars, from the generator's test
BARS = [(0xFFFF, 0x8000, 0x8000), (0xE1FF, 0x0000, 0x9400), (0xB200, 0xABFF, 0x0000), (0x95FF, 0x2BFF, 0x15FF), (0x69FF, 0xD400, 0xEA00), (0x4C00, 0x5400, 0xFFFF), (0x1DFF, 0xFFFF, 0x6BFF), (0x0000, 0x8000, 0x8000)]


def planes_of(spec):
    """[[lines of sample values]] for the three components of a pattern."""
    kind, fmt, w, h = spec[:4]
    _, chroma, nb, bits = F.PLANAR_BY_VALUE[fmt]
    out = []
    for c, (cw, ch) in enumerate(F.planes(fmt, w, h)):
        if kind == 'luma':
            black, white = 16 << (bits - 8), 235 << (bits - 8)
            line = [black + (x * 8 // cw) * (white - black) // 8 if c == 0 else 1 << (bits - 1) for x in range(cw)]
        else:
            levels = [BARS[i][c] >> (16 - bits) for i in range(8)]
            if c == 0:
                levels = [int(v * spec[4]) for v in levels]
            line = [levels[x * 8 // cw] for x in range(cw)]
        out.append([line] * ch)
    return out


def paint(spec, planes):
    """The payload for the planes."""
    fmt, w, h = spec[1:4]
    _, size, views = F.layout(fmt, w, h, 0)
    buf = bytearray(size)
    for (name, shape, dt, (start, xs, ys)), lines in zip(views, planes):
        nb = int(dt[-1])
        for y, line in enumerate(lines):
            buf[start + y * ys:start + y * ys + shape[0] * nb] = b''.join(v.to_bytes(nb, 'little') for v in line)
    return buf


def maker(spec, rate):
    from mediagrains.cogenums import CogFrameFormat
    from mediagrains.patterngenerators.video import ColourBars, LumaSteps
    kw = dict(cog_frame_format=CogFrameFormat(spec[1]))
    if rate != (25, 1):
        kw['rate'] = Fraction(*rate)
    if spec[0] == 'luma':
        return LumaSteps(SRC, FLOW, spec[2], spec[3], **kw)
    if spec[4] != 0.75:
        kw['intensity'] = spec[4]
    return ColourBars(SRC, FLOW, spec[2], spec[3], **kw)


def difference(got, want, what, spec):
    if got == want:
        return
    eq(len(got), len(want), what + " payload size")
    i = next(i for i in range(len(want)) if got[i] != want[i])
    _, _, views = F.layout(spec[1], spec[2], spec[3], 0)
    for name, shape, dt, (start, xs, ys) in views:
        if start <= i < start + ys * shape[1]:
            nb = int(dt[-1])
            x, y = (i - start) % ys // nb, (i - start) // ys
            o = start + y * ys + x * nb
            true(False, "{}: {} at {},{} is {:#x}, not {:#x}".format(what, name, x, y, int.from_bytes(got[o:o + nb], 'little'), int.from_bytes(want[o:o + nb], 'little')))
    true(False, "{}: byte {} is {:#x}, not {:#x}".format(what, i, got[i], want[i]))


widths = st.one_of(st.integers(1, 40), st.sampled_from([8, 16, 24, 32, 64, 48, 720 // 8, 121, 240, 242]))
heights = st.integers(1, 9)
intensities = st.one_of(st.sampled_from([0.75, 1.0, 0.0, 1, 0.5, 0.1]), st.floats(0, 1, allow_subnormal=False))
counts = st.one_of(st.integers(-20, 20), st.integers(0, 10**10), st.integers(-10**9, 0))
patterns = st.one_of(st.tuples(st.just('luma'), st.sampled_from(PATTERN_FORMATS), widths, heights), st.tuples(st.just('bars'), st.sampled_from(PATTERN_FORMATS), widths, heights, intensities))


def instant(n, rate):
    from mediatimestamp import TimeValue
    return TimeValue(n, rate=Fraction(*rate))


def strat_pattern():
    return st.tuples(patterns, st.sampled_from(RATES), counts)


def check_pattern(case):
    spec, rate, n = case
    g = maker(spec, rate)[instant(n, rate)]
    what = "{} {} {}x{}".format(spec[0], F.PLANAR_BY_VALUE[spec[1]][0], spec[2], spec[3])
    eq((int(g.cog_frame_format), g.width, g.height, int(g.cog_frame_layout)), (spec[1], spec[2], spec[3], 0), what + " attributes")
    difference(bytes(g.data), bytes(paint(spec, planes_of(spec))), what, spec)
    nontrivial(spec[2] > 1)
    label(F.PLANAR_BY_VALUE[spec[1]][0])
    label('not a multiple of eight', spec[2] % 8)


still = st.tuples(st.just('still'), st.fixed_dictionaries({'w': st.integers(1, 20), 'h': st.integers(1, 9), 'fmt': st.sampled_from(PATTERN_FORMATS), 'pad': st.sampled_from([0, 0, 1, 4]), 'seed': st.integers(0, 255),
                                                         'labels': st.just([]), 'numpy': st.booleans(), 'ots': st.just(0)}))
speeds = st.one_of(st.sampled_from([1.0, 1.0, 2.0, 0.5, -1.0, 3, 0, 0.25, -0.5, 1.7]), st.floats(-4, 4, allow_subnormal=False))


def strat_overlay():
    return st.tuples(st.one_of(patterns, still), st.sampled_from(RATES), counts, st.one_of(st.integers(0, 12), st.integers(1, 4), st.just(100)), speeds, st.booleans())


def check_overlay(case):
    from mediagrains.patterngenerators.video import MovingBarOverlay, StillPatternGenerator
    spec, rate, n, height, speed, again = case
    if spec[0] == 'still':
        c = dict(spec[1], rate=rate)
        fmt, w, h, pad = c['fmt'], c['w'], c['h'], c['pad']
    else:
        fmt, w, h, pad = spec[1], spec[2], spec[3], 0
    name, chroma, nb, bits = F.PLANAR_BY_VALUE[fmt]
    if chroma == '420' and h < 2:
        h = 2
        if spec[0] == 'still':
            c['h'] = 2
        else:
            spec = spec[:3] + (2,) + spec[4:]
    if spec[0] == 'still':
        template = still_template(c)
        want = bytearray(bytes(template.data))
        source = StillPatternGenerator(template)
    else:
        source = maker(spec, rate)
        want = paint(spec, planes_of(spec))
    background = bytes(want)
    _, _, views = F.layout(fmt, w, h, pad)
    first = int(speed * n) % h
    hs, vs = F.SHIFTS[chroma]
    for c_, (_, (cw, ch), _, (start, xs, ys)) in enumerate(views):
        level = (1 << (bits - 1)) if c_ else 16 << (bits - 8)
        top, rows = (first >> vs, height >> vs) if c_ else (first, height)
        for y in range(rows):
            o = start + (top + y) % ch * ys
            want[o:o + cw * nb] = level.to_bytes(nb, 'little') * cw
    kw = {}
    if height != 100:
        kw['height'] = height
    if speed != 1.0:
        kw['speed'] = speed
    overlay = MovingBarOverlay(source, **kw)
    tv = instant(n, rate)
    if again:
        overlay[instant(n + 3, rate)], overlay[instant(n - 1, rate)]
    g = overlay[tv]
    what = "bar of {} lines at speed {} and count {} over {} {} {}x{}".format(height, speed, n, spec[0], name, w, h)
    difference(bytes(g.data), bytes(want), what, (None, fmt, w, h))
    true(bytes(source[tv].data) == background, what + ": the background was changed")
    nontrivial(background != bytes(want) and 0 < height < h)
    label('wraps around', height < h < first + height)
    label('odd height', h % 2)
    label('taller than the picture', height > h)


def cases_refused(tier):
    return [(kind, v) for kind in ('luma', 'bars', 'overlay') for v in sorted(F.ALL_FRAME.values()) if v not in PATTERN_FORMATS]


def check_refused(case):
    from mediagrains.cogenums import CogFrameFormat
    from mediagrains.grains import VideoGrain
    from mediagrains.patterngenerators.video import MovingBarOverlay, StillPatternGenerator
    kind, fmt = case
    nontrivial()
    if kind == 'overlay':
        meta = {'@_ns': 'urn:x-ipstudio:ns:0.1', 'grain': {
            'grain_type': 'video', 'source_id': str(SRC), 'flow_id': str(FLOW), 'origin_timestamp': gen.mk_ts(0), 'sync_timestamp': gen.mk_ts(7), 'creation_timestamp': gen.mk_ts(8), 'rate': Fraction(25),
            'duration': Fraction(1, 25), 'cog_frame': {'format': fmt, 'layout': 0, 'width': 8, 'height': 4, 'extension': 0, 'components': []}}}
        source = StillPatternGenerator(VideoGrain(meta, bytearray(64)))
        raises(ValueError, lambda: MovingBarOverlay(source), "moving bar over {:#x}".format(fmt))
    else:
        raises(ValueError, lambda: maker((kind, fmt, 8, 4, 0.75), (25, 1)), "{} in {:#x}".format(kind, fmt))


sizes = st.sampled_from([(320, 2), (640, 1), (720, 2), (1280, 1), (1920, 2), (2000, 1), (257, 3), (8, 240), (4, 288), (3, 480), (8, 576), (2, 1080), (100, 120), (1, 300)])
large_patterns = st.one_of(st.tuples(st.just('luma'), st.sampled_from(PATTERN_FORMATS), sizes), st.tuples(st.just('bars'), st.sampled_from(PATTERN_FORMATS), sizes, intensities)).map(
    lambda t: (*t[:2], *t[2], *t[3:]))


def strat_large_pattern():
    return st.tuples(large_patterns, st.sampled_from(RATES), counts)


def strat_large_overlay():
    return st.tuples(large_patterns, st.sampled_from(RATES), counts, st.one_of(st.integers(0, 300), st.sampled_from([100, 255, 256, 257])), speeds, st.booleans())


TARGETS = [Target('large-pattern', strat_large_pattern, check_pattern, quick=200, thorough=6000),
           Target('large-overlay', strat_large_overlay, check_overlay, quick=200, thorough=6000),
           Target('refused', lambda: st.sampled_from(cases_refused('quick')), check_refused, quick=50, thorough=200, enumerate=cases_refused),
           Target('pattern', strat_pattern, check_pattern, quick=4000, thorough=100000),
           Target('overlay', strat_overlay, check_overlay, quick=6000, thorough=200000)]
