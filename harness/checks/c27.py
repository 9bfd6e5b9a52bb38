"""C27: the strategies shipped for users generate grains of the type asked for, with everything asked for."""
import io
import json
import math
import struct
from fractions import Fraction
from uuid import UUID

from hypothesis import strategies as st

from .. import formats as F, gen
from ..core import Target, eq, fail, label, nontrivial, true

RULE = ("honour: every grain strategy with every parameter left out, None, DONOTSET, fixed, or a strategy, by name or through grains(): each drawn grain against the constraint, the size of the payload and a GSF round trip; "
        "template: grains drawn from a template compared with it, then changed; attribute: the strategy for each attribute; vary: what is not constrained takes different values, every: and each of the possible ones; helpers: identifiers and fractions; reach: payloads drawn range over all that the format holds (low bits, high bits, both signs, the whole length). "
        "Non-trivial: at least one constraint that is not the default.")
ASSUMPTIONS = ["GSF round trip where the numbers fit GSF's fields", "audio formats of the S64_INVALID and alpha kinds: the payload size is not checked"]

VIDEO_OK = sorted(v for n, v in F.ALL_FRAME.items() if n not in F.CODED and n not in F.OTHER)
CODED_OK = sorted(F.CODED.values())
AUDIO_OK = sorted(v[0] for v in F.AUDIO.values()) + [0xc]
CODED_AUDIO_OK = [0x200, 0x201, 0x202]
LAYOUTS_OK = [0, 1, 2, 3, 4]
ANY = object()
TYPES = ['empty', 'video', 'audio', 'coded_video', 'coded_audio', 'event']

timestamps = gen.ts_ns(maxsec=1 << 40)
fraction_values = st.tuples(st.integers(0, 10**6), st.integers(1, 10**4))
size = st.integers(1, 40)


def event_data():
    return st.lists(st.fixed_dictionaries({'path': st.text('ab/_', min_size=1, max_size=4), 'pre': st.one_of(st.integers(-9, 9), st.booleans(), st.text(max_size=3)),
                                           'post': st.one_of(st.integers(-9, 9), st.booleans(), st.text(max_size=3))}), max_size=2)


# name: (values, what DONOTSET gives or None where it is not asked for, test of what None gives)
def common(t):
    dr, dd = ((0, 1), (0, 1)) if t == 'empty' else ((25, 1), (1, 25))
    return {'src_id': (gen.uuid_bytes(), None, ANY), 'flow_id': (gen.uuid_bytes(), None, ANY),
            'creation_timestamp': (timestamps, 'now', ANY), 'origin_timestamp': (timestamps, 'creation', ANY), 'sync_timestamp': (timestamps, 'origin', ANY),
            'rate': (fraction_values, dr, lambda v: 0 <= Fraction(*v) <= 200), 'duration': (fraction_values, dd, lambda v: 0 <= Fraction(*v) <= 200)}


def positive(most=None):
    return lambda v: type(v) is int and v >= 1 and (most is None or v <= most)


def is_in(values):
    return lambda v: v in values


def params(t):
    p = common(t)
    sf = st.sampled_from
    if t == 'video':
        p.update(format=(sf(VIDEO_OK + CODED_OK), 0xfffffffe, is_in(VIDEO_OK)), width=(size, 1920, is_in([240])), height=(size, 1080, is_in([135])), cog_frame_layout=(sf(LAYOUTS_OK + [0xfffffffe]), 0xfffffffe, is_in(LAYOUTS_OK)))
    elif t == 'coded_video':
        p.update(format=(sf(CODED_OK + VIDEO_OK[:3]), 0xfffffffe, is_in(CODED_OK)), cog_frame_layout=(sf(LAYOUTS_OK + [0xfffffffe]), 0xfffffffe, is_in(LAYOUTS_OK)),
                 origin_width=(size, 1920, is_in([240])), origin_height=(size, 1080, is_in([135])), coded_width=(size, 'origin_width', is_in([240])), coded_height=(size, 'origin_height', is_in([135])),
                 is_key_frame=(st.booleans(), 'none', lambda v: type(v) is bool), temporal_offset=(st.integers(-20, 20), 'none', lambda v: type(v) is int and v >= 0),
                 unit_offsets=(st.lists(st.integers(0, 999), min_size=1, max_size=3, unique=True).map(sorted).map(tuple), (), lambda v: all(x >= 0 for x in v) and all(a < b for a, b in zip(v, v[1:]))))
    elif t == 'audio':
        p.update(format=(sf(AUDIO_OK + CODED_AUDIO_OK), 0xffffffff, is_in(AUDIO_OK)), samples=(size, 0, positive()), channels=(st.integers(1, 5), 0, positive()), sample_rate=(sf([8000, 96000, 48000]), 48000, is_in([44100, 48000])))
    elif t == 'coded_audio':
        p.update(format=(sf(CODED_AUDIO_OK + AUDIO_OK[:3]), 0xffffffff, is_in(CODED_AUDIO_OK)), samples=(size, 0, positive()), channels=(st.integers(1, 5), 0, positive()), sample_rate=(sf([8000, 96000, 48000]), 48000, is_in([44100, 48000])),
                 priming=(st.integers(0, 3000), 0, lambda v: v >= 0), remainder=(st.integers(0, 3000), 0, lambda v: v >= 0))
    elif t == 'event':
        path = r'[a-zA-Z0-9_\-]+[a-zA-Z0-9_\-/]*\n?'
        p.update(event_type=(st.text('urn:ab', min_size=1, max_size=9), '', lambda v: v.startswith('urn:')), topic=(st.text('ab/', min_size=1, max_size=5), '', lambda v: __import__('re').fullmatch(path, v) is not None),
                 event_data=(event_data(), [], lambda v: all(set(d) == {'path', 'pre', 'post'} and __import__('re').fullmatch(path, d['path']) for d in v)))
    return p


LEFT_OUT = {'rate': 'unset', 'duration': 'unset', 'priming': 'unset', 'remainder': 'unset'}


def constraint_cases(t):
    out = {}
    for name, (values, unset, _) in params(t).items():
        kinds = [st.just(('default',)), st.just(('default',)), st.just(('none',)), values.map(lambda v: ('value', v)), values.map(lambda v: ('value', v)), st.lists(values, min_size=1, max_size=3).map(lambda v: ('strategy', v))]
        if unset is not None:
            kinds.append(st.just(('unset',)))
        out[name] = st.one_of(kinds)
    return st.fixed_dictionaries(out)


def native(name, v, spelling=0):
    """The value as it is passed to a strategy."""
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat, CogFrameLayout
    if name in ('src_id', 'flow_id'):
        return UUID(bytes=v)
    if name.endswith('_timestamp'):
        return gen.mk_ts(v)
    if name in ('rate', 'duration'):
        f = Fraction(*v)
        return [f, str(f), f if f.denominator > 1 else int(f)][spelling % 3]
    if name == 'unit_offsets':
        return list(v)
    if name == 'cog_frame_layout':
        return CogFrameLayout(v)
    if name == 'format':
        return CogFrameFormat(v) if spelling == 'video' else CogAudioFormat(v)
    if name == 'event_data':
        return [dict(d) for d in v]
    return v


def plain(name, v):
    return (Fraction(*v).numerator, Fraction(*v).denominator) if name in ('rate', 'duration') else tuple(v) if name == 'unit_offsets' else v


def look(g, name):
    """The value of a parameter that a grain has."""
    if name == 'format':
        return int(g.cog_frame_format if 'video' in g.grain_type else g.cog_audio_format)
    if name == 'cog_frame_layout':
        return int(g.cog_frame_layout)
    if name in ('src_id', 'flow_id'):
        return (g.source_id if name == 'src_id' else g.flow_id).bytes
    if name.endswith('_timestamp'):
        return gen.ts_to_ns(getattr(g, name))
    if name in ('rate', 'duration'):
        f = getattr(g, name)
        return (f.numerator, f.denominator)
    if name == 'unit_offsets':
        return tuple(g.unit_offsets)
    if name == 'event_data':
        return [dict(d) for d in g.event_data]
    return getattr(g, name)


def draw(strategy, n, seed):
    """n values drawn from a strategy."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    out = []

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate,), suppress_health_check=list(HealthCheck), print_blob=False, verbosity=hypothesis.Verbosity.quiet)
    @given(strategy)
    def collect(x):
        out.append(x)
    try:
        collect()
    except hypothesis.errors.HypothesisException as e:
        fail("drawing failed: {}: {}", type(e).__name__, e)
    true(len(out) > 0, "nothing drawn")
    return out


def now():
    from mediatimestamp.immutable import Timestamp
    return gen.ts_to_ns(Timestamp.get_time())


ZERO = {'video', 'audio'}


def expected_size(g):
    if g.grain_type == 'video':
        f = look(g, 'format')
        if f in F.PLANAR_BY_VALUE or f in F.PACKED_BY_VALUE or f == F.V210:
            return F.layout(f, g.width, g.height, 0)[1]
        return len(g.data) if f not in CODED_OK else None
    if g.grain_type == 'audio':
        f = look(g, 'format')
        return F.audio_size(f, g.channels, g.samples) if f in F.AUDIO_BY_VALUE else None
    return None


def fits(g):
    for f in (g.rate, g.duration):
        if max(f.numerator, f.denominator) > 0xffffffff:
            return False
    return True


def round_trip(g):
    from mediagrains.gsf import GSFDecoder, GSFEncoder
    if not fits(g):
        label('does not fit GSF')
        return
    fp = io.BytesIO()
    enc = GSFEncoder(fp, minor=0, major=9)
    enc.add_segment().add_grain(g)
    enc.start_dump()
    enc.end_dump()
    fp.seek(0)
    dec = GSFDecoder(file_data=fp)
    dec.decode_file_headers()
    back = [x for x, _ in dec.grains()]
    eq(len(back), 1, "grains in the file")
    a, b = gen.observe(back[0]), gen.observe(g)
    eq(a, b, "GSF round trip of {}".format(g.grain_type))
    if g.grain_type != 'event':
        eq(gen.payload(back[0]), gen.payload(g), "payload after a GSF round trip")


# Payloads range over what the format holds
def reach(case):
    from hypothesis import HealthCheck, Phase, find, settings
    from hypothesis.errors import NoSuchExample
    import random
    t, fmt, what, seed = case
    nontrivial()
    spec = {'video': {'format': fmt, 'width': 4, 'height': 2}, 'coded_video': {'format': fmt}, 'audio': {'format': fmt, 'samples': 2, 'channels': 2}, 'coded_audio': {'format': fmt}}[t]
    name = 'cog_frame_format' if 'video' in t else 'cog_audio_format'
    kw = dict({'video': dict(width=4, height=2), 'audio': dict(samples=2, channels=2)}.get(t, dict(data=bytes(5))), **{name: native('format', fmt, 'video' if 'video' in t else 'audio')})
    from mediagrains import grains
    g = getattr(grains, gen.CLASS_NAMES[t])(src_id=UUID(int=1), flow_id=UUID(int=2), **kw)
    for more in range(5):
        try:
            find(strategies().grains_from_template_with_data(g), lambda x: REACH[what](gen.payload(x)), random=random.Random(seed + more),
                 settings=settings(database=None, max_examples=1500, deadline=None, phases=(Phase.generate, ), suppress_health_check=list(HealthCheck)))
            return
        except NoSuchExample:
            label('again')
    fail("no {} payload of {} with {} is ever generated", t, spec, what)


def doubles(d):
    return [v for (v,) in struct.iter_unpack('<d', d)]


def floats(d):
    return [v for (v,) in struct.iter_unpack('<f', d)]


REACH = {'a first byte of ones': lambda d: d[0] == 0xff, 'a last byte of ones': lambda d: d[-1] == 0xff, 'different bytes': lambda d: len(set(d)) > 2, 'an odd first byte': lambda d: d[0] & 1, 'zeros': lambda d: not any(d),
         'a fraction as float': lambda d: any(v != int(v) for v in floats(d)), 'a large float': lambda d: max(floats(d)) > 1e30, 'a tiny float': lambda d: any(0 < v < 1e-10 for v in floats(d)), 'a last float': lambda d: floats(d)[-1] > 0,
         'more than single precision': lambda d: any(v < 3e38 and struct.unpack('<f', struct.pack('<f', v))[0] != v for v in doubles(d)), 'a large double': lambda d: max(doubles(d)) > 1e100,
         'a tiny double': lambda d: any(0 < v < 1e-100 for v in doubles(d)), 'a last double': lambda d: doubles(d)[-1] > 0}


def reach_all(tier):
    out = []
    ints = [k for k in REACH if 'float' not in k and 'double' not in k and 'single' not in k]
    for t, formats in (('video', VIDEO_OK), ('coded_video', CODED_OK), ('audio', AUDIO_OK), ('coded_audio', CODED_AUDIO_OK)):
        for f in formats:
            if t == 'audio' and f not in F.AUDIO_BY_VALUE:
                continue
            kind = F.AUDIO_BY_VALUE[f][3] if t == 'audio' else 'int'
            names = ints if kind == 'int' else [k for k in REACH if kind in k] + ['zeros'] + (['more than single precision'] if kind == 'double' else [])
            out += [(t, f, n, 1) for n in names]
    return out


def strategies():
    from mediagrains.hypothesis import strategies as s
    return s


def make(t, constraints, by_name, spelling):
    s = strategies()
    kw = {}
    for name, c in constraints.items():
        sp = ('video' if 'video' in t else 'audio') if name == 'format' else spelling
        if c[0] == 'none':
            kw[name] = None
        elif c[0] == 'unset':
            kw[name] = s.DONOTSET
        elif c[0] == 'value':
            kw[name] = native(name, c[1], sp)
        elif c[0] == 'strategy':
            kw[name] = st.sampled_from([native(name, v, sp) for v in c[1]])
    return s.grains(t, **kw) if by_name else getattr(s, t + '_grains')(**kw)


def check_grain(t, g, constraints, t0, t1, seen=None):
    eq(type(g).__name__, gen.CLASS_NAMES[t], "class of the grain")
    eq(g.grain_type, t, "type of the grain")
    for name, (values, unset, test) in params(t).items():
        c = constraints[name]
        kind = LEFT_OUT.get(name, 'none') if c[0] == 'default' else c[0]
        got = look(g, name)
        what = "{} of a {} grain asked for with {}".format(name, t, c)
        if kind == 'value':
            eq(got, plain(name, c[1]), what)
        elif kind == 'strategy':
            true(got in [plain(name, v) for v in c[1]], "{}: {!r}".format(what, got))
        elif kind == 'none':
            true(test is ANY or test(got), "{}: {!r}".format(what, got))
        elif unset == 'now':
            true(t0 <= got <= t1, "{}: {} is not between {} and {}".format(what, got, t0, t1))
        elif unset == 'creation':
            eq(got, look(g, 'creation_timestamp'), what)
        elif unset == 'origin':
            eq(got, look(g, 'origin_timestamp'), what)
        elif unset == 'none':
            eq(got, None, what)
        elif unset in ('origin_width', 'origin_height'):
            eq(got, look(g, unset), what)
        else:
            eq(got, unset, what)


def check_data(g):
    want = expected_size(g)
    data = gen.payload(g)
    if want is not None:
        eq(len(data), want, "size of the payload of {} {}".format(g.grain_type, gen.observe(g)['f']))
    return data


def honour(case):
    t, constraints, by_name, spelling, seed = case
    t0 = now()
    got = draw(make(t, constraints, by_name, spelling), 4, seed)
    t1 = now()
    set_ = [n for n, c in constraints.items() if c[0] != 'default']
    nontrivial(bool(set_))
    for n in set_:
        label("{} {}".format(n, constraints[n][0]))
    for g in got:
        check_grain(t, g, constraints, t0, t1)
        data = check_data(g)
        if t != 'event':
            true(not any(data), "the payload of a {} grain is not zero".format(t))
        round_trip(g)


def honour_cases():
    return st.sampled_from(TYPES).flatmap(lambda t: st.tuples(st.just(t), constraint_cases(t), st.booleans(), st.integers(0, 2), st.integers(0, 2**32)))


# Templates
def check_values(g):
    """Floating point payloads hold ordinary numbers."""
    if g.grain_type != 'audio':
        return
    f = look(g, 'format')
    if f not in F.AUDIO_BY_VALUE or F.AUDIO_BY_VALUE[f][3] == 'int':
        return
    n = F.AUDIO_BY_VALUE[f][2]
    data = gen.payload(g)
    for (v,) in struct.iter_unpack('<f' if n == 4 else '<d', data):
        true(math.isfinite(v), "a {} payload has a sample {}".format(g.cog_audio_format.name, v))


def template(case):
    t, spec, how, seed = case
    s = strategies()
    g = gen.build(spec) if "type" in spec else draw(make(t, spec, True, 0), 1, seed)[0]
    before = gen.observe(g), gen.payload(g), gen.ts_to_ns(g.creation_timestamp)
    kind, data = how
    n = len(before[1])
    if kind == 'none':
        strategy = s.grains_from_template_with_data(g)
    elif kind == 'bytes':
        strategy = s.grains_from_template_with_data(g, data=data)
    else:
        strategy = s.grains_from_template_with_data(g, data=st.sampled_from(data))
    got = draw(strategy, 5, seed)
    nontrivial(n > 0 or kind != 'none')
    label(kind)
    seen = set()
    for x in got:
        eq(gen.observe(x), before[0], "grain drawn from a template")
        eq(gen.ts_to_ns(x.creation_timestamp), before[2], "creation timestamp of a grain drawn from a template")
        true(x is not g, "the template itself was drawn")
        d = gen.payload(x)
        seen.add(d)
        if kind == 'none':
            want = expected_size(g)
            eq(len(d), n if want is None else want, "size of the payload drawn")
            check_values(x)
        elif kind == 'bytes':
            eq(d, data, "payload drawn")
        else:
            true(d in data, "payload drawn: {!r} is none of {!r}".format(d, data))
    eq((gen.observe(g), gen.payload(g), gen.ts_to_ns(g.creation_timestamp)), before, "the template after drawing")
    # Whatever is done with one of them leaves the template and the others alone
    got[0].origin_timestamp = gen.mk_ts(12345)
    got[0].source_id = UUID(int=77)
    got[0].rate = Fraction(7, 3)
    if t == 'video':
        got[0].width = g.width + 1
        for c in got[0].components:
            c.offset += 1
    eq((gen.observe(g), gen.payload(g)), before[:2], "the template after a drawn grain was changed")
    for x in got[1:]:
        eq(gen.observe(x), before[0], "a grain drawn from the template after another one was changed")


def small_template(t):
    if t == 'video':
        fixed = {'format': ('value', 0x2001), 'width': ('value', 4), 'height': ('value', 2)}
        over = st.fixed_dictionaries({'format': st.sampled_from(sorted(F.PLANAR_BY_VALUE) + sorted(F.PACKED_BY_VALUE) + [F.V210]).map(lambda v: ('value', v)), 'width': st.integers(1, 9).map(lambda v: ('value', v)), 'height': st.integers(1, 4).map(lambda v: ('value', v))})
    elif t == 'audio':
        over = st.fixed_dictionaries({'format': st.sampled_from(sorted(F.AUDIO_BY_VALUE)).map(lambda v: ('value', v)), 'samples': st.integers(1, 6).map(lambda v: ('value', v)), 'channels': st.integers(1, 3).map(lambda v: ('value', v))})
    else:
        over = st.just({})
    return st.tuples(constraint_cases(t), over).map(lambda x: dict(x[0], **x[1]))


def template_cases():
    def of(t):
        how = st.one_of(st.just(('none', None)), st.binary(max_size=9).map(lambda b: ('bytes', b)), st.lists(st.binary(max_size=9), min_size=1, max_size=3).map(lambda b: ('strategy', b)))
        spec = small_template(t)
        if t in ('coded_video', 'coded_audio', 'empty'):
            spec = gen.grain_spec(9, (t, ), 20)
        return st.tuples(st.just(t), spec, how, st.integers(0, 2**32))
    return st.sampled_from(['video', 'audio', 'audio', 'coded_video', 'coded_audio', 'empty']).flatmap(of)


# grains_with_data
def with_data(case):
    t, seed = case
    got = draw(strategies().grains_with_data(t), 6, seed)
    nontrivial()
    label(t)
    datas = set()
    for g in got:
        check_grain(t, g, {n: ('default',) if n not in ('width', 'height') and n not in ('origin_width', 'origin_height') else ('value', 16 if 'width' in n else 9) for n in params(t)}, 0, 0)
        datas.add(check_data(g))
        check_values(g)
        round_trip(g)
    if t in ZERO and len(got) >= 4:
        true(any(any(d) for d in datas), "the payloads of {} {} grains drawn are all zero".format(len(got), t))


# Attributes
ATTRIBUTES = {'empty': 'src_id flow_id origin_timestamp sync_timestamp creation_timestamp rate duration'.split()}
ATTRIBUTES['video'] = ATTRIBUTES['empty'] + 'cog_frame_format width height cog_frame_layout'.split()
ATTRIBUTES['coded_video'] = ATTRIBUTES['empty'] + 'cog_frame_format coded_width coded_height cog_frame_layout origin_width origin_height is_key_frame temporal_offset unit_offsets'.split()
ATTRIBUTES['audio'] = ATTRIBUTES['empty'] + 'cog_audio_format samples channels sample_rate'.split()
ATTRIBUTES['coded_audio'] = ATTRIBUTES['audio'] + 'priming remainder'.split()
ATTRIBUTES['event'] = ATTRIBUTES['empty'] + 'event_type topic event_data'.split()


def attribute(case):
    t, attr, seed = case
    s = strategies()
    if attr == 'nonsense':
        try:
            s.strategy_for_grain_attribute(attr, grain_type=t)
        except ValueError:
            return
        fail("a strategy for the attribute {!r}", attr)
    nontrivial()
    name = 'format' if attr in ('cog_frame_format', 'cog_audio_format') else attr
    test = params(t)[name][2]
    values = draw(s.strategy_for_grain_attribute(attr, grain_type=t), 12, seed)
    base = draw(s.grains(t), 1, seed)[0]
    for v in values:
        if attr == 'unit_offsets' and v is None:
            label('no unit offsets')
            continue
        before = {n: look(base, n) for n in params(t) if n not in (name, 'event_data')}
        setattr(base, attr, v)
        got = look(base, name)
        true(test is ANY or test(got), "strategy for {} of {}: {!r}".format(attr, t, v))
        if attr in ('rate', 'duration'):
            eq(getattr(base, attr), Fraction(v), "{} set".format(attr))
        elif attr == 'event_data':
            eq(got, [dict(d) for d in v], "event data set")
        else:
            eq(got, v.bytes if isinstance(v, UUID) else gen.ts_to_ns(v) if name.endswith('timestamp') else tuple(v) if name == 'unit_offsets' else v, "{} set".format(attr))
        eq({n: look(base, n) for n in params(t) if n not in (name, 'event_data')}, before, "the other attributes when {} is set".format(attr))


def attribute_all(tier):
    return [(t, a, seed) for t in TYPES for a in ATTRIBUTES[t] + ['nonsense'] for seed in range(2 if tier == 'quick' else 40)]


# What is left open varies
CONSTANT = {'width', 'height', 'origin_width', 'origin_height', 'coded_width', 'coded_height'}


def vary(case):
    t, constraints, seed = case
    strategy = make(t, constraints, True, 0)
    nontrivial()
    open_ = []
    for name in params(t):
        c = constraints[name]
        kind = LEFT_OUT.get(name, 'none') if c[0] == 'default' else c[0]
        if kind == 'none' and name not in CONSTANT or kind == 'strategy' and len({plain(name, v) if name != 'event_data' else repr(v) for v in c[1]}) > 1:
            open_.append(name)
    values = {name: set() for name in open_}
    # Hypothesis likes to repeat itself, in which case there are more draws
    for more in range(12):
        for g in draw(strategy, 30 if more == 0 else 100, seed + more):
            for name in open_:
                values[name].add(json.dumps(look(g, name), default=repr))
        if all(len(v) > 1 for v in values.values()):
            return
    for name in open_:
        true(len(values[name]) > 1, "{} of {} grains asked for with {} is always {}".format(name, t, constraints[name], values[name]))


def vary_cases():
    return st.sampled_from(TYPES).flatmap(lambda t: st.tuples(st.just(t), constraint_cases(t), st.integers(0, 2**32)))


# All values that are asked for come
def every(case):
    from hypothesis import HealthCheck, Phase, find, settings
    from hypothesis.errors import NoSuchExample
    import random
    t, name, value, seed = case
    nontrivial()
    strategy = strategies().grains(t)
    for more in range(5):
        try:
            find(strategy, lambda g: look(g, name) == value, random=random.Random(seed + more),
                 settings=settings(database=None, max_examples=1500, deadline=None, phases=(Phase.generate, ), suppress_health_check=list(HealthCheck)))
            return
        except NoSuchExample:
            label('again')
    fail("no {} grain with {} {} is ever generated", t, name, value)


def every_all(tier):
    out = []
    for t in TYPES:
        p = params(t)
        values = {'format': {'video': VIDEO_OK, 'coded_video': CODED_OK, 'audio': [v for v in AUDIO_OK if v != 0xc], 'coded_audio': CODED_AUDIO_OK}.get(t), 'cog_frame_layout': LAYOUTS_OK, 'is_key_frame': [True, False],
                  'sample_rate': [44100, 48000], 'samples': [1, 2, 3], 'channels': [1, 2, 3], 'temporal_offset': [0, 1], 'event_data': [[]]}
        out += [(t, n, v, 1) for n in p if n in values for v in values[n]]
    return out


# Helpers
def helpers(case):
    from hypothesis import Phase, find, settings
    kind, low, high, most, seed = case
    s = strategies()
    nontrivial()
    if kind == 'uuid':
        for u in draw(s.shrinking_uuids(), 10, seed):
            true(type(u) is UUID, "an identifier is {!r}".format(u))
        least = find(s.shrinking_uuids(), lambda u: u.int >= low, settings=settings(database=None, max_examples=200, deadline=None, phases=(Phase.generate, Phase.shrink)))
        eq(least.int, low, "the smallest identifier that is at least {}".format(low))
        return
    low, high = sorted([Fraction(*low), Fraction(*high)])
    for d in draw(s.fraction_dicts(min_value=low, max_value=high, **({'max_denominator': most} if most else {})), 10, seed):
        eq(set(d), {'numerator', 'denominator'}, "keys of a fraction")
        true(type(d['numerator']) is int and type(d['denominator']) is int, "numbers of {!r}".format(d))
        f = Fraction(d['numerator'], d['denominator'])
        true(low <= f <= high, "{!r} is not between {} and {}".format(d, low, high))
        true(not most or d['denominator'] <= most, "denominator of {!r}".format(d))


def unknown(case):
    try:
        strategies().grains(case)
    except ValueError:
        return
    fail("a strategy for grains of type {!r}", case)


def helper_cases():
    return st.one_of(st.tuples(st.just('uuid'), st.sampled_from([0, 1, 7, 200]), st.just(0), st.just(0), st.integers(0, 2**32)),
                     st.tuples(st.just('fraction'), st.tuples(st.integers(-50, 50), st.just(1)), st.tuples(st.integers(-50, 50), st.just(1)), st.one_of(st.none(), st.integers(1, 30)), st.integers(0, 2**32)))


TARGETS = [
    Target('honour', honour_cases, honour, 1600, 60000),
    Target('template', template_cases, template, 800, 30000),
    Target('with_data', lambda: st.tuples(st.sampled_from(TYPES), st.integers(0, 2**32)), with_data, 120, 4000),
    Target('attribute', None, attribute, 0, 0, enumerate=attribute_all),
    Target('vary', vary_cases, vary, 120, 3000),
    Target('every', None, every, 0, 0, enumerate=every_all),
    Target('reach', None, reach, 0, 0, enumerate=reach_all),
    Target('helpers', helper_cases, helpers, 120, 3000),
    Target('unknown', lambda: st.text(max_size=6).filter(lambda x: x not in TYPES), unknown, 40, 200),
]
