"""C15: comparing two grains reports a match exactly when nothing compared differs."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import compare_model as M, formats as F, gen
from ..core import Target, eq, label, nontrivial, raises, true

RULE = ("same: a grain against its deep copy and against another built from the same values; edited: a grain against one with one to three generated edits of fields, list entries or payload bytes, down to the closest fraction or time; "
        "history: three grains changed in place and compared again, up to 9 steps; types: grains of two types; arrays: numpy grains against plain ones with the same or one changed sample; long: payloads of up to 140 000 bytes with one byte changed at the first, last or another position, or one more or less. Non-trivial: at least one compared attribute differs, or a comparison after an earlier one and a change.")
ASSUMPTIONS = ["floating point samples of the same value (0.0 and -0.0) may be called equal or different", "JSON values that Python calls equal (1, 1.0, true) may be called equal",
               "aspect ratios, the extension and the component table of pictures are not compared fields"]


def tree(r, what, same=None):
    s = str(r)
    true(isinstance(s, str) and s, what + "printed form")
    true(isinstance(r.msg, str), what + "message")
    true(isinstance(repr(r), str), what + "repr")
    if same is not None:
        true(bool(r) is same, what + "{} where {} is expected: {}".format(bool(r), same, s[:500]))
    for c in r.children:
        tree(c, what, same)


def compare_both(a, b, diff, what):
    """Compare both ways round with the creation timestamp included."""
    from mediagrains.comparison import compare_grain
    from mediagrains.comparison.options import Include
    for x, y, w in ((a, b, what), (b, a, what + "(swapped) ")):
        r = compare_grain(x, y, Include.creation_timestamp)
        tree(r, w)
        eq(sorted(r.failing_attributes()), sorted(diff), w + "attributes that differ")
        true(bool(r) is (not diff), w + "result is {} but {} differ".format(bool(r), sorted(diff)))
        for at in diff:
            true(not getattr(r, at), w + at + " counts as equal")
            true(getattr(r, at) is r.subcomparison_for_attribute(at), w + at)
            true(at == 'data' or not getattr(r, at).excluded(), w + at + " counts as excluded")
        r2 = compare_grain(x, y)
        true(bool(r2) is (not diff - {'creation_timestamp'}), w + "result without the creation timestamp is {} but {} differ".format(bool(r2), sorted(diff)))
        eq(sorted(r2.failing_attributes()), sorted(diff), w + "attributes that differ")
    return r


def check_same(spec):
    from mediagrains.comparison import compare_grain
    from mediagrains.comparison.options import Include
    g = gen.build(spec)
    label('type:' + spec['type'])
    nontrivial(len(M.payload(spec)) > 0 or spec['type'] in ('event', 'empty'))
    for h, what in ((copy.deepcopy(g), "deep copy: "), (gen.build(spec), "same values: "), (g, "itself: ")):
        r = compare_grain(g, h, Include.creation_timestamp)
        tree(r, what, True)
        eq(r.failing_attributes(), [], what + "attributes that differ")
        eq(sorted(c.attr for c in r.children), sorted(M.attributes(spec['type'])), what + "attributes compared")
        true(bool(compare_grain(g, h)), what + "result")


def strat_edited():
    return M.specs().flatmap(lambda s: st.tuples(st.just(s), gen.weighted((5, st.lists(M.edit_for(s), min_size=1, max_size=1)), (1, st.lists(M.edit_for(s), min_size=2, max_size=3)))))


def check_edited(case):
    a, edits = case
    b = a
    for e in edits:
        b = M.apply(b, e)
    if not M.timestamps_ok(a, b):
        return
    ga, gb = gen.build(a), gen.build(b)
    diff = M.differing(a, ga.length, b, gb.length)
    if None in diff:
        label('signed zero')
        return
    label('type:' + a['type'])
    for d in diff:
        label('differs:' + d)
    nontrivial(len(diff) > 0)
    r = compare_both(ga, gb, diff, "{!r}: ".format(edits)[:300])
    # entries of lists
    for at in {'timelabels', 'unit_offsets', 'event_data'} & {c.attr for c in r.children}:
        va, vb = M.value(a, 0, at), M.value(b, 0, at)
        want = [i for i in range(max(len(va), len(vb))) if i >= len(va) or i >= len(vb) or va[i] != vb[i]]
        eq(sorted(getattr(r, at).failing_keys()), want, "entries of {} that differ".format(at))
        for i in want:
            true(not getattr(r, at)[i], "entry {} of {}".format(i, at))


def strat_history():
    def more(s):
        edit = st.tuples(st.just('edit'), st.integers(0, 2), M.edit_for(s))
        match = st.tuples(st.just('match'), st.integers(0, 2), st.integers(0, 2))
        comp = st.tuples(st.just('compare'), st.integers(0, 2), st.integers(0, 2))
        return st.tuples(st.just(s), st.lists(gen.weighted((3, edit), (1, match), (3, comp)), min_size=3, max_size=9))
    return M.specs().flatmap(more)


def check_history(case):
    """Three grains that change in place, compared again and again."""
    from mediagrains.comparison import compare_grain
    from mediagrains.comparison.options import Include
    s, ops = case
    label('type:' + s['type'])
    specs = [s, s, s]
    grains = [gen.build(x, *([bytearray(M.payload(x))] if x['type'] not in ('event', 'empty') else [])) for x in specs]
    done = changed = 0
    kept = []
    for k, (op, i, x) in enumerate(ops):
        what = "{!r} after {!r}: ".format(ops[k], ops[:k])[:600]
        if op == 'compare':
            a, b = grains[i], grains[x]
            diff = M.differing(specs[i], a.length, specs[x], b.length)
            if None in diff or not M.timestamps_ok(specs[i], specs[x]):
                continue
            r = compare_grain(a, b, Include.creation_timestamp)
            tree(r, what)
            eq(sorted(r.failing_attributes()), sorted(diff), what + "attributes that differ")
            true(bool(r) is (not diff), what + "result is {} but {} differ".format(bool(r), sorted(diff)))
            true(bool(compare_grain(a, b)) is (not diff - {'creation_timestamp'}), what + "result without the creation timestamp")
            done += 1
            nontrivial(done > 1 and changed > 0)
            kept.append((r, sorted(diff)))
        else:
            new = M.apply(specs[i], x) if op == 'edit' else specs[x]
            if s['type'] == 'empty':
                new = dict(new, data=specs[i]['data'])
            M.put(grains[i], specs[i], new)
            specs[i] = new
            changed += done > 0
    # what was found earlier stays what was found
    for r, diff in kept:
        eq(sorted(r.failing_attributes()), diff, "an earlier result: attributes that differ")


def strat_types():
    return st.tuples(M.specs(), M.specs(), st.booleans())


def check_types(case):
    a, b, align = case
    if align:
        b = dict(b, **{k: a[k] for k in ('src', 'flow', 'ots', 'sts', 'cts', 'rate', 'duration', 'labels')})
    if not M.timestamps_ok(a, b):
        return
    ga, gb = gen.build(a), gen.build(b)
    diff = M.differing(a, ga.length, b, gb.length)
    if None in diff:
        return
    label('types differ', a['type'] != b['type'])
    nontrivial(len(diff) > 0)
    compare_both(ga, gb, diff, "{} and {}: ".format(a['type'], b['type']))


VFMT = sorted(list(F.PLANAR_BY_VALUE) + list(F.PACKED_BY_VALUE))
AFMT = sorted(F.AUDIO_BY_VALUE)


def strat_arrays():
    return st.tuples(st.booleans(), st.sampled_from(VFMT), st.sampled_from(AFMT), st.integers(1, 5), st.integers(1, 4), st.sampled_from([1, 3, 256]), st.integers(0, 2**31), st.integers(0, 9999),
                     st.integers(0, 3))


def check_arrays(case):
    import mediagrains.grains as P
    import mediagrains.numpy as N
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
    video, vf, af, w, h, spread, seed, where, kinds = case
    fixed = dict(src_id=gen.UUID(int=1), flow_id=gen.UUID(int=2), origin_timestamp=gen.mk_ts(5), sync_timestamp=gen.mk_ts(5), creation_timestamp=gen.mk_ts(5))
    if video:
        w, h = 2 * w, 2 * h
        kw = dict(cog_frame_format=CogFrameFormat(vf), width=w, height=h, **fixed)
        p, n = P.VideoGrain, N.VideoGrain
        size = F.layout(vf, w, h, 0)[1]
    else:
        kw = dict(cog_audio_format=CogAudioFormat(af), channels=w, samples=8 * h, sample_rate=48000, **fixed)
        p, n = P.AudioGrain, N.AudioGrain
        size = F.audio_size(af, w, 8 * h)
    data = np.random.RandomState(seed).randint(0, spread, size).astype(np.uint8)
    other = data.copy()
    where %= size
    other[where] ^= 1
    make = [lambda d: p(data=d.tobytes(), **kw), lambda d: n(data=bytearray(d.tobytes()), **kw)]
    a, b, c = make[kinds & 1](data), make[kinds >> 1](data), make[kinds >> 1](other)
    what = "{:#x}: ".format(vf if video else af)
    nontrivial()
    compare_both(a, b, set(), what + "same content ")
    compare_both(a, c, {'data'}, what + "byte {} changed ".format(where))


SIZES = [255, 256, 1023, 1025, 4095, 4096, 4097, 8191, 8193, 16385, 32767, 65535, 65537, 100000, 131073]


def enum_long(tier):
    """Long payloads, with a change at an end, the middle or next to a round position."""
    for kind in ('grain', 'coded video', 'coded audio', 'video', 'audio', 'arrays'):
        for n in SIZES:
            if kind not in ('grain', 'coded video', 'coded audio') and n % 4 not in (0, 1):
                continue
            for where in ('first', 'last', 'near last', 'middle') + (('longer', 'shorter') if kind in ('grain', 'coded video', 'coded audio') else ()):
                yield (kind, n, where, (n + len(where)) % 3, (n * 7 + len(where)) % 256)


def strat_long():
    return st.tuples(st.sampled_from(['grain', 'coded video', 'coded audio', 'video', 'audio', 'arrays']), st.one_of(st.sampled_from(SIZES), st.integers(200, 140000)),
                     st.one_of(st.sampled_from(['first', 'last', 'near last', 'middle', 'longer', 'shorter']), st.integers(0, 139999)), st.integers(0, 2), st.integers(0, 255))


def check_long(case):
    import mediagrains.grains as P
    import mediagrains.numpy as N
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
    kind, n, where, pattern, by = case
    fixed = dict(src_id=gen.UUID(int=1), flow_id=gen.UUID(int=2), origin_timestamp=gen.mk_ts(5), sync_timestamp=gen.mk_ts(5), creation_timestamp=gen.mk_ts(5))
    if kind in ('video', 'arrays'):
        n -= n % 4
        mk = lambda d, c=(P if kind == 'video' else N).VideoGrain: c(cog_frame_format=CogFrameFormat.U8_422, width=n // 2, height=1, data=d, **fixed)   # noqa: E731
    elif kind == 'audio':
        n -= n % 4
        mk = lambda d: P.AudioGrain(cog_audio_format=CogAudioFormat.S16_INTERLEAVED, channels=2, samples=n // 4, sample_rate=48000, data=d, **fixed)   # noqa: E731
    elif kind == 'grain':
        mk = lambda d: P.Grain({'grain': {k: str(v) for k, v in fixed.items()}}, d)   # noqa: E731
    elif kind == 'coded video':
        mk = lambda d: P.CodedVideoGrain(cog_frame_format=CogFrameFormat.H264, coded_width=16, coded_height=16, data=d, **fixed)   # noqa: E731
    else:
        mk = lambda d: P.CodedAudioGrain(cog_audio_format=CogAudioFormat.AAC, channels=2, samples=10, sample_rate=48000, data=d, **fixed)   # noqa: E731
    values = 256 if n <= 2048 else 16     # describing the differences of long payloads with many values takes minutes
    data = {0: bytes(n), 1: bytes(range(values)) * (n // values + 1), 2: np.random.RandomState(n).randint(0, values, n).astype(np.uint8).tobytes()}[pattern][:n]
    diff = {'data'}
    if where in ('longer', 'shorter') and kind in ('grain', 'coded video', 'coded audio'):
        other = data + bytes([by]) if where == 'longer' else data[:-1]
        diff = {'data', 'length'}
    else:
        at = {'first': 0, 'last': n - 1, 'near last': n - 1 - by % 9, 'middle': n // 2}.get(where, n - 1 if isinstance(where, str) else where % n)
        other = data[:at] + bytes([data[at] ^ (by or 1)]) + data[at + 1:]
    label('kind:' + kind)
    label('where:' + (where if isinstance(where, str) else 'any'))
    nontrivial()
    a, b, c = mk(bytearray(data)), mk(bytearray(data)), mk(bytearray(other))
    what = "{} bytes, {}: ".format(n, where)
    compare_both(a, b, set(), what + "same content ")
    compare_both(a, c, diff, what + "one byte of difference ")


TARGETS = [
    Target('same', M.specs, check_same, quick=1200, thorough=60000),
    Target('edited', strat_edited, check_edited, quick=4000, thorough=200000),
    Target('history', strat_history, check_history, quick=1000, thorough=60000),
    Target('types', strat_types, check_types, quick=600, thorough=20000),
    Target('arrays', strat_arrays, check_arrays, quick=800, thorough=40000),
    Target('long', strat_long, check_long, quick=120, thorough=6000, enumerate=enum_long),
]
