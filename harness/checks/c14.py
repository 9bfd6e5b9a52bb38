"""C14: conversions preserve picture identity and invert where nothing is lost."""
import copy
import uuid
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import convmodel as M, formats as F, gen
from ..core import Target, eq, label, nontrivial, true
from .c13 import FORMATS, PAIRS, name

RULE = ("identity: conversion of a grain with generated ids, timestamps, rate, layout, aspect ratios and time labels through a chain of formats; inverse: pairs whose target holds at least as much, "
        "there and back, for generated pictures; changed: up to 9 conversions of two pictures while their attributes and payloads change; large: the same up to thousands of samples wide or high. Non-trivial: a picture whose samples are not all equal, or a conversion after an earlier one and a change.")
ASSUMPTIONS = ["dimensions are even where chroma is resampled", "raising the bit depth adds bits of any value, so coming back may be one step higher",
               "the creation timestamp of a converted grain is that of the conversion"]


def holds(a, b):
    """Whether format b can hold everything a picture in format a has."""
    (k1, d1), (k2, d2) = M.FAMILY[a], M.FAMILY[b]
    return d2 >= d1 and (k1 == k2 or (k1 != 'RGB' and k2 != 'RGB' and M.ORDER[k2] >= M.ORDER[k1]))


LOSSLESS = [(a, b) for a, b in PAIRS if holds(a, b)]


def grain(fmt, w, h, data, m):
    from mediagrains.cogenums import CogFrameFormat, CogFrameLayout
    from mediagrains.numpy import VideoGrain
    g = VideoGrain(src_id=uuid.UUID(bytes=m['src']), flow_id=uuid.UUID(bytes=m['flow']), origin_timestamp=gen.mk_ts(m['ots']), sync_timestamp=gen.mk_ts(m['sts']),
                   creation_timestamp=gen.mk_ts(m['cts']), rate=Fraction(*m['rate']), duration=Fraction(*m['duration']), cog_frame_layout=CogFrameLayout(m['layout']),
                   cog_frame_format=CogFrameFormat(fmt), width=w, height=h, data=bytearray(data))
    if m['sar']:
        g.source_aspect_ratio = Fraction(*m['sar'])
    if m['par']:
        g.pixel_aspect_ratio = Fraction(*m['par'])
    for tag, count, rate, drop in m['labels']:
        g.add_timelabel(tag, count, Fraction(*rate), drop)
    return g


def metas():
    opt = st.one_of(st.none(), gen.rational(False))
    return st.fixed_dictionaries({'src': gen.uuid_bytes(), 'flow': gen.uuid_bytes(), 'ots': gen.ts_ns(), 'sts': gen.ts_ns(), 'cts': gen.ts_ns(), 'rate': gen.rational(),
                                  'duration': gen.rational(), 'layout': st.sampled_from(gen.LAYOUTS), 'sar': opt, 'par': opt, 'labels': st.lists(gen.timelabel(), max_size=2)})


def strat_identity():
    return st.tuples(st.lists(st.sampled_from(FORMATS), min_size=2, max_size=4), st.integers(1, 3), st.integers(1, 2), st.integers(0, 2**32 - 1), metas(), metas())


def compare(h, m, fmt, w, ht, what):
    o = gen.observe(h)
    eq(o['src'], m['src'], what + "source id")
    eq((o['ots'], o['sts']), (m['ots'], m['sts']), what + "timestamps")
    eq((o['rate'], o['duration']), (tuple(m['rate']), tuple(m['duration'])), what + "rate and duration")
    eq(o['labels'], [(t, c, tuple(r), d) for t, c, r, d in m['labels']], what + "time labels")
    f = o['f']
    eq((f['format'], f['layout'], f['width'], f['height'], f['extension']), (fmt, m['layout'], w, ht, 0), what + "format, layout and size")
    eq((f['sar'], f['par']), (m['sar'] and tuple(m['sar']), m['par'] and tuple(m['par'])), what + "aspect ratios")
    comps, size, _ = F.layout(fmt, w, ht, 0)
    eq(f['components'], comps, what + "components")
    eq(len(bytes(h.data)), size, what + "payload size")
    eq(h.grain_type, 'video', what + "grain type")


def check_identity(case):
    from mediagrains.cogenums import CogFrameFormat
    chain, w, h, seed, m, m2 = case
    w, h = 2 * w, 2 * h
    planes = M.content('random', M.FAMILY[chain[0]][1], M.shapes(chain[0], w, h), seed)
    data = M.encode(chain[0], w, h, planes)
    g = grain(chain[0], w, h, data, m)
    nontrivial()
    flow = m['flow']
    held = []
    for k, fmt in enumerate(chain):
        enum = CogFrameFormat(fmt)
        what = "step {} to {}: ".format(k, name(fmt))
        meta, raw = copy.deepcopy(g.meta), bytes(g.data)
        prev = int(g.cog_frame_format)
        out = g.convert(enum)
        true(out is not g, what + "convert gave the grain itself")
        true(not np.shares_memory(out.data, g.data), what + "payload shared with the source")
        compare(out, m, fmt, w, h, what)
        a = g.asformat(enum)
        compare(a, m, fmt, w, h, what)
        if fmt == prev:
            label('same format')
            true(a is g, what + "asformat made another grain")
            eq(out.meta, meta, what + "metadata")
            eq(bytes(out.data), raw, what + "payload")
            eq(out.flow_id.bytes, flow, what + "flow id")
        else:
            label('other format')
            eq(a.flow_id, out.flow_id, what + "flow ids of two conversions")
            eq(g.flow_id_for_converted_flow(enum), out.flow_id, what + "flow id against the one foretold")
            true(out.flow_id.bytes != flow, what + "flow id is that of the source")
            eq(out.flow_id.version, 5, what + "version of the flow id")
            # another grain of the same flow, in whatever format, goes to the same flow; one of another flow does not
            other = [f for f in FORMATS if f not in (fmt, prev)][seed % (len(FORMATS) - 2)]
            _, size, _ = F.layout(other, 2, 2, 0)
            for fl in (flow, m2['flow']):
                g2 = grain(other, 2, 2, bytes(size), dict(m2, flow=fl))
                f2 = g2.convert(enum).flow_id
                true((f2 == out.flow_id) == (fl == flow), what + "flow id for another grain of {} flow".format("the same" if fl == flow else "another"))
            third = [f for f in FORMATS if f not in (fmt, prev)][(seed // 7) % (len(FORMATS) - 2)]
            true(g.flow_id_for_converted_flow(CogFrameFormat(third)) != out.flow_id, what + "flow id is the same for {}".format(name(third)))
        eq(g.meta, meta, what + "metadata of the source")
        eq(bytes(g.data), raw, what + "payload of the source")
        held.append((g, meta, raw))
        # changing the copy leaves the source
        out.timelabels.append({'tag': 'x', 'timelabel': {'frames_since_midnight': 1, 'frame_rate_numerator': 1, 'frame_rate_denominator': 1, 'drop_frame': False}})
        for tl in out.timelabels:
            tl.count = 3
        for x, xm, xr in held:
            eq(x.meta, xm, what + "metadata of a source after the result was changed")
        out.data[...] = 1
        for x, xm, xr in held:
            eq(bytes(x.data), xr, what + "payload of a source after the result was changed")
        if a is not g:
            g = a
            flow = a.flow_id.bytes


def strat_inverse():
    return st.tuples(st.sampled_from(LOSSLESS), st.integers(1, 6), st.integers(1, 4), st.sampled_from(['random', 'extreme', 'max', 'high', 'low']), st.integers(0, 2**32 - 1),
                     st.sampled_from([0, 0, 0, 44]))


def every_lossless(tier):
    return [(p, 2, 2, 'extreme', i, 0) for i, p in enumerate(LOSSLESS)]


PLAIN = {'src': bytes(15) + b"\x01", 'flow': bytes(15) + b"\x02", 'ots': 0, 'sts': 0, 'cts': 0, 'rate': (25, 1), 'duration': (1, 25), 'layout': 0, 'sar': None, 'par': None, 'labels': []}


def check_inverse(case):
    from mediagrains.cogenums import CogFrameFormat
    (f1, f2), w, h, kind, seed, wide = case
    w += wide
    if M.resamples(f1, f2):
        w, h = w + w % 2, h + h % 2
    d1, d2 = M.FAMILY[f1][1], M.FAMILY[f2][1]
    planes = M.content(kind, d1, M.shapes(f1, w, h), seed)
    data = M.encode(f1, w, h, planes)
    g = grain(f1, w, h, data, PLAIN)
    np.random.seed(seed)
    back = g.convert(CogFrameFormat(f2)).convert(CogFrameFormat(f1))
    nontrivial(kind != 'max')
    label('exact' if d1 == d2 and F.V210 not in (f1, f2) else 'depth')
    got, _ = M.decode(f1, w, h, bytes(back.data))
    top = (1 << d1) - 1
    what = "{} -> {} -> {} {}x{}: ".format(name(f1), name(f2), name(f1), w, h)
    for c in range(3):
        diff = got[c] - planes[c]
        if d1 == d2:
            true(not diff.any(), what + "component {} changed: {} to {}".format(c, planes[c].tolist(), got[c].tolist()))
        else:
            true(((diff == 0) | ((diff == 1) & (got[c] <= top))).all(), what + "component {} changed by more than one step: {} to {}".format(c, planes[c].tolist(), got[c].tolist()))
    if d1 == d2:
        eq(bytes(back.data), M.encode(f1, w, h, got), what + "payload")
        if f1 in F.PLANAR_BY_VALUE or f1 == F.V210:
            eq(bytes(back.data), data, what + "payload")


def strat_changed():
    field = st.sampled_from(['src', 'flow', 'ots', 'sts', 'cts', 'rate', 'duration', 'layout', 'sar', 'par', 'labels', 'labels', 'flow'])
    op = gen.weighted((5, st.tuples(st.just('convert'), st.integers(0, 1), st.integers(0, 2))), (3, st.tuples(st.just('set'), st.integers(0, 1), field)),
                      (1, st.tuples(st.just('label'), st.integers(0, 1), gen.timelabel())), (1, st.tuples(st.just('data'), st.integers(0, 1), st.integers(0, 2**16))),
                      (1, st.tuples(st.just('copy'), st.integers(0, 1), st.just(0))))
    return st.tuples(st.lists(st.sampled_from(FORMATS), min_size=4, max_size=4), metas(), metas(), metas(), st.lists(op, min_size=3, max_size=9))


def check_changed(case):
    """Two pictures are converted again and again, while their attributes and payloads change: each conversion is of what the picture is then."""
    from mediagrains.cogenums import CogFrameFormat, CogFrameLayout
    fmts, m1, m2, m3, ops = case
    src, targets = fmts[0], fmts[1:]
    ms = [dict(m1), dict(m2)]
    size = F.layout(src, 2, 2, 0)[1]
    gs = [grain(src, 2, 2, bytes(size), m) for m in ms]
    done, changed = 0, 0
    for k, (op, i, x) in enumerate(ops):
        g, m = gs[i], ms[i]
        what = "{!r} after {!r}: ".format(ops[k], ops[:k])
        if op == 'convert':
            f = targets[x]
            enum = CogFrameFormat(f)
            out = g.convert(enum)
            compare(out, m, f, 2, 2, what)
            if f == src:
                eq(out.flow_id.bytes, m['flow'], what + "flow id")
                eq(bytes(out.data), bytes(g.data), what + "payload")
                true(g.asformat(enum) is g, what + "asformat made another grain")
            else:
                fresh = grain(src, 2, 2, bytes(size), m)
                eq(out.flow_id, fresh.convert(enum).flow_id, what + "flow id against a new picture of that flow")
                eq(g.flow_id_for_converted_flow(enum), out.flow_id, what + "flow id against the one foretold")
                compare(g.asformat(enum), m, f, 2, 2, what)
                planes = M.decode(src, 2, 2, bytes(g.data))[0]
                lo, hi = M.model(src, f, planes)
                got = M.decode(f, 2, 2, bytes(out.data))[0]
                true(all(((a <= b) & (b <= c)).all() for a, b, c in zip(lo, got, hi)), what + "samples")
            done += 1
            nontrivial(done > 1 and changed > 0)
            # the result is another grain, to be changed at will
            out.flow_id = uuid.UUID(int=9)
            out.rate = Fraction(7, 9)
            out.timelabels = []
        elif op == 'set':
            v = m3[x] if m[x] != m3[x] else m2[x]
            if v is None:
                continue    # (these can't be taken away)
            m[x] = v
            if x == 'labels':
                g.timelabels = []
                for tag, count, rate, drop in v:
                    g.add_timelabel(tag, count, Fraction(*rate), drop)
            else:
                name = {'src': 'src_id', 'flow': 'flow_id', 'ots': 'origin_timestamp', 'sts': 'sync_timestamp', 'cts': 'creation_timestamp', 'layout': 'cog_frame_layout',
                        'sar': 'source_aspect_ratio', 'par': 'pixel_aspect_ratio'}.get(x, x)
                setattr(g, name, uuid.UUID(bytes=v) if x in ('src', 'flow') else gen.mk_ts(v) if x in ('ots', 'sts', 'cts') else CogFrameLayout(v) if x == 'layout' else Fraction(*v))
            changed += done > 0
        elif op == 'label':
            g.add_timelabel(x[0], x[1], Fraction(*x[2]), x[3])
            m['labels'] = list(m['labels']) + [x]
            changed += done > 0
        elif op == 'data':
            g.data = bytearray(M.encode(src, 2, 2, M.content('random', M.FAMILY[src][1], M.shapes(src, 2, 2), x)))
            changed += done > 0
        elif op == 'copy':
            gs[i] = copy.deepcopy(g)
        for y, my in zip(gs, ms):
            o = gen.observe(y)
            eq((o['src'], o['flow'], o['ots'], o['sts'], gen.ts_to_ns(y.creation_timestamp), o['rate'], o['duration'], len(o['labels'])),
               (my['src'], my['flow'], my['ots'], my['sts'], my['cts'], tuple(my['rate']), tuple(my['duration']), len(my['labels'])), what + "a source")


def strat_large():
    return st.tuples(st.sampled_from(LOSSLESS), st.sampled_from(F.LARGE), st.sampled_from(['random', 'random', 'extreme', 'high']), st.integers(0, 2**32 - 1),
                     st.just(0)).map(lambda t: (t[0], *t[1], *t[2:]))


TARGETS = [
    Target('changed', strat_changed, check_changed, quick=1000, thorough=60000),
    Target('large', strat_large, check_inverse, quick=200, thorough=8000),
    Target('identity', strat_identity, check_identity, quick=1500, thorough=60000),
    Target('inverse', strat_inverse, check_inverse, quick=3000, thorough=200000, enumerate=every_lossless),
]
