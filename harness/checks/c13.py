"""C13: picture format conversions compute the specified sample values."""
import numpy as np
from hypothesis import strategies as st

from .. import convmodel as M, formats as F, gen
from ..core import Target, eq, fail, label, nontrivial, raises, true

RULE = ("convert: an ordered pair of formats with a conversion, a picture size, contents (random, extremes, flat) and a way of holding the source picture, against a per-pixel model; "
        "pairs: every ordered pair is tried with a small picture of extremes; large: pictures up to 4100 wide or high; again: up to 7 conversions and changes (bytes, samples, a new payload) of two pictures over one payload or two; unsupported: pairs without a conversion. Non-trivial: a picture whose samples are not all equal, a conversion after an earlier one and a change, or a refusal.")
ASSUMPTIONS = ["samples are within the range of the format's bit depth",
               "dimensions are even where chroma is resampled",
               "bits added when bit depth is raised may have any value; where steps follow each other the resulting range of values is accepted",
               "chroma averages round up; colour conversion results are cut to integers after clipping, with a tolerance of 1.5e-6 of full scale for the coefficients"]

FORMATS = sorted(M.FAMILY)
PAIRS = [(a, b) for a in FORMATS for b in FORMATS if a != b]


def strat():
    return st.tuples(st.sampled_from(PAIRS), st.integers(1, 8), st.integers(1, 5), st.sampled_from(['random', 'extreme', 'extreme', 'max', 'flat', 'high', 'low']),
                     st.integers(0, 2**32 - 1), st.sampled_from(['given', 'given', 'readonly', 'padded']), st.sampled_from([0, 0xff]),
                     st.sampled_from([0, 0, 0, 40, 90]))


def every_pair(tier):
    return [(p, 2, 2, 'extreme', i, 'given', 0, 0) for i, p in enumerate(PAIRS)]


def check(case):
    from mediagrains.cogenums import CogFrameFormat
    from mediagrains.numpy import VideoGrain
    (f1, f2), w, h, kind, seed, how, filler, wide = case
    w += wide
    if M.resamples(f1, f2):
        w, h = w + w % 2, h + h % 2
    planes = M.content(kind, M.FAMILY[f1][1], M.shapes(f1, w, h), seed)
    pad = 3 if how == 'padded' and f1 != F.V210 else 0
    data = M.encode(f1, w, h, planes, pad, filler)
    what = "{} -> {} {}x{} {}: ".format(name(f1), name(f2), w, h, how)
    if how == 'padded':
        comps, size, _ = F.layout(f1, w, h, pad)
        meta = {'@_ns': 'urn:x-ipstudio:ns:0.1', 'grain': {'grain_type': 'video', 'source_id': '00000000-0000-0000-0000-000000000001', 'flow_id': '00000000-0000-0000-0000-000000000002',
                'cog_frame': {'format': f1, 'layout': 0, 'width': w, 'height': h, 'extension': 0, 'components': comps}}}
        g = VideoGrain(meta, bytearray(data))
    else:
        import uuid
        g = VideoGrain(src_id=uuid.UUID(int=1), flow_id=uuid.UUID(int=2), cog_frame_format=CogFrameFormat(f1), width=w, height=h, data=data if how == 'readonly' else bytearray(data))
    nontrivial(kind not in ('max', 'flat'))
    label('kinds:{}-{}'.format(M.FAMILY[f1][0], M.FAMILY[f2][0]))
    label('depths:{}-{}'.format(M.FAMILY[f1][1], M.FAMILY[f2][1]))
    converted(g, f1, f2, w, h, planes, data, seed, what)


def converted(g, f1, f2, w, h, planes, data, seed, what):
    """Convert a grain of format f1 that holds the planes, as data, and check what comes out."""
    from mediagrains.cogenums import CogFrameFormat
    np.random.seed(seed)
    out = g.convert(CogFrameFormat(f2))
    eq(bytes(g.data), data, what + "the source picture")
    eq((int(out.cog_frame_format), out.width, out.height), (f2, w, h), what + "header")
    comps, size, _ = F.layout(f2, w, h, 0)
    eq(len(bytes(out.data)), size, what + "size")
    got, rest = M.decode(f2, w, h, bytes(out.data))
    lo, hi = M.model(f1, f2, planes)
    for c in range(3):
        eq(got[c].shape, lo[c].shape, what + "shape of component {}".format(c))
        bad = (got[c] < lo[c]) | (got[c] > hi[c])
        if bad.any():
            x, y = [int(i[0]) for i in np.nonzero(bad)]
            fail("{}component {} at {} is {} want {}..{} (source {})", what, c, (x, y), int(got[c][x, y]), int(lo[c][x, y]), int(hi[c][x, y]),
                 [p.tolist() for p in planes] if w * h <= 16 else '')
    true(rest <= {0}, what + "bits without samples are not zero: {}".format(rest))
    # arrays and payload of the result are the same thing
    if f2 != F.V210:
        for c in range(3):
            a = getattr(out.component_data, ('RGB' if M.FAMILY[f2][0] == 'RGB' else 'YUV')[c])
            eq(a.tolist(), got[c].tolist(), what + "component array {}".format(c))
    return out


SIZES = [2, 4, 6, 8]


def strat_again():
    op = gen.weighted((4, st.tuples(st.just('convert'), st.integers(0, 1), st.integers(0, 2), st.integers(0, 2**32 - 1))),
                      (2, st.tuples(st.just('edit'), st.integers(0, 1), st.integers(0, 3), st.integers(0, 2**32 - 1))),
                      (1, st.tuples(st.just('sample'), st.integers(0, 1), st.integers(0, 2), st.integers(0, 2**32 - 1))),
                      (1, st.tuples(st.just('assign'), st.integers(0, 1), st.just(0), st.integers(0, 2**32 - 1))))
    return st.tuples(st.sampled_from(FORMATS), st.sampled_from(SIZES), st.sampled_from(SIZES), st.integers(0, 2**32 - 1), st.lists(st.sampled_from(FORMATS), min_size=3, max_size=3),
                     st.sampled_from(['shared', 'shared', 'own']), st.lists(op, min_size=3, max_size=7))


def check_again(case):
    """Conversions one after the other, of two pictures (over one payload or two) that change in between: each is of what the picture holds then."""
    import uuid
    from mediagrains.cogenums import CogFrameFormat
    from mediagrains.numpy import VideoGrain
    f1, w, h, seed, targets, payload, ops = case
    targets = [t for t in targets if t != f1]
    if not targets:
        return
    depth = M.FAMILY[f1][1]

    def fresh(w, h, seed):
        planes = M.content('random', depth, M.shapes(f1, w, h), seed)
        return M.encode(f1, w, h, planes)
    buf = bytearray(fresh(w, h, seed))
    dims = [(w, h), (h, w)]
    bufs = [buf, buf]
    if payload == 'own' or F.layout(f1, w, h, 0)[1] != F.layout(f1, h, w, 0)[1]:
        bufs[1] = bytearray(fresh(h, w, seed))
    label('one payload' if bufs[0] is bufs[1] else 'two payloads')
    gs = [VideoGrain(src_id=uuid.UUID(int=1), flow_id=uuid.UUID(int=2), cog_frame_format=CogFrameFormat(f1), width=x, height=y, data=b) for (x, y), b in zip(dims, bufs)]
    done = changed = 0
    for k, (op, i, j, seed) in enumerate(ops):
        g, (x, y) = gs[i], dims[i]
        what = "{} {}x{} after {}: ".format(name(f1), x, y, [o[:3] for o in ops[:k]])
        data = bytes(bufs[i])
        eq(bytes(g.data), data, what + "the payload")
        planes = M.decode(f1, x, y, data)[0]
        if op == 'convert':
            f2 = targets[j % len(targets)]
            out = converted(g, f1, f2, x, y, planes, data, seed, "{} to {} of ".format(name(f1), name(f2)) + what)
            done += 1
            nontrivial(done > 1 and changed > 0)
            # the result is the user's to change
            out.data[...] = 0x55 if out.data.dtype == np.uint8 else 5
        elif op == 'edit':
            n = len(data)
            fill = fresh(x, y, seed)
            a, b = [(0, n), (0, 16 * (n // 32)), (16 * (n // 32), n), (4 * (n // 8), 4 * (n // 8) + 4)][j]
            bufs[i][a:b] = fill[a:b]
            changed += done > 0
        elif op == 'sample':
            if f1 == F.V210:
                continue
            c = getattr(g.component_data, ('RGB' if M.FAMILY[f1][0] == 'RGB' else 'YUV')[j])
            px, py = seed % c.shape[0], (seed // 64) % c.shape[1]
            c[px, py] ^= 1
            changed += done > 0
            true(bytes(bufs[i]) != data, what + "the payload after a sample was set")
        else:
            bufs[i] = bytearray(fresh(x, y, seed))
            g.data = bufs[i]
            changed += done > 0


def name(f):
    return [n for n, v in F.ALL_FRAME.items() if v == f][0]


def unsupported(tier):
    others = sorted(set(F.PACKED_BY_VALUE) - set(M.FAMILY))
    return [(a, b) for a in FORMATS + others for b in others + [0x204, 0xffffffff] if a != b] + [(a, b) for a in others for b in FORMATS]


def check_unsupported(case):
    import uuid
    from mediagrains.cogenums import CogFrameFormat
    from mediagrains.numpy import VideoGrain
    a, b = case
    nontrivial()
    g = VideoGrain(src_id=uuid.UUID(int=1), flow_id=uuid.UUID(int=2), cog_frame_format=CogFrameFormat(a), width=2, height=2)
    raises(NotImplementedError, lambda: g.convert(CogFrameFormat(b)), "{} -> {}".format(name(a), name(b)))
    raises(NotImplementedError, lambda: g.asformat(CogFrameFormat(b)), "{} -> {}".format(name(a), name(b)))


def strat_large():
    return st.tuples(st.sampled_from(PAIRS), st.sampled_from(F.LARGE), st.sampled_from(['random', 'random', 'extreme', 'high']), st.integers(0, 2**32 - 1),
                     st.sampled_from(['given', 'readonly', 'padded']), st.sampled_from([0, 0xff]), st.just(0)).map(lambda t: (t[0], *t[1], *t[2:]))


TARGETS = [
    Target('large', strat_large, check, quick=250, thorough=10000),
    Target('again', strat_again, check_again, quick=1200, thorough=60000),
    Target('unsupported', None, check_unsupported, quick=0, thorough=0, enumerate=unsupported),
    Target('convert', strat, check, quick=5000, thorough=400000, enumerate=every_pair),
]
