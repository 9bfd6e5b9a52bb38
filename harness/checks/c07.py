"""C07: a grain's attributes, metadata and copies stay consistent under any updates."""
from copy import copy, deepcopy
from decimal import Decimal
from fractions import Fraction
from functools import lru_cache
from uuid import UUID

from hypothesis import strategies as st

from .. import aio, gen
from ..core import Target, eq, fail, label, nontrivial, raises, true

RULE = ("histories of 1-12 operations (set an attribute through any of its names and value kinds, copy, rebuild from metadata, replace or await data) on a grain built "
        "by keyword arguments, by positional or typed metadata or by partial metadata, checking every attribute of every live grain after each; non-trivial: at least "
        "one attribute was set after a copy or two different attributes were set. attrs: enumerated. arguments: constructors called with any of their arguments, in order or by name; non-trivial: some are given and some left out. "
        "made: metadata with next to nothing in it, constructors given something to wait for. fetch: histories of payloads, things to wait for, tasks waiting and things becoming ready; non-trivial: something was given while a task waited.")
ASSUMPTIONS = ["a shallow copy shares its metadata and data with the original, as copy.copy of a container does: it is checked when made, not kept apart afterwards",
               "a grain's payload object is whatever was given (not copied) "]

CLASSES = ['Grain', 'VideoGrain', 'CodedVideoGrain', 'AudioGrain', 'CodedAudioGrain', 'EventGrain', 'np.VideoGrain', 'np.AudioGrain']
GT = {'Grain': 'empty', 'VideoGrain': 'video', 'CodedVideoGrain': 'coded_video', 'AudioGrain': 'audio', 'CodedAudioGrain': 'coded_audio', 'EventGrain': 'event',
      'np.VideoGrain': 'video', 'np.AudioGrain': 'audio'}


def cls_of(name):
    import mediagrains
    if name.startswith('np.'):
        import mediagrains.numpy as m
        return getattr(m, name[3:])
    return getattr(mediagrains, name)


# ---- attributes: canonical name -> (aliases, kind, path in the metadata)
COMMON = {
    'source_id': (['source_id', 'src_id'], 'uuid', ['source_id']),
    'flow_id': (['flow_id'], 'uuid', ['flow_id']),
    'origin_timestamp': (['origin_timestamp'], 'ts', ['origin_timestamp']),
    'sync_timestamp': (['sync_timestamp'], 'ts', ['sync_timestamp']),
    'creation_timestamp': (['creation_timestamp'], 'ts', ['creation_timestamp']),
    'rate': (['rate'], 'fr', ['rate']),
    'duration': (['duration'], 'fr', ['duration']),
    'timelabels': (['timelabels'], 'labels', ['timelabels']),
}
VIDEO = {
    'cog_frame_format': (['cog_frame_format', 'format'], 'ff', ['cog_frame', 'format']),
    'cog_frame_layout': (['cog_frame_layout', 'layout'], 'fl', ['cog_frame', 'layout']),
    'width': (['width'], 'int', ['cog_frame', 'width']),
    'height': (['height'], 'int', ['cog_frame', 'height']),
    'extension': (['extension'], 'int', ['cog_frame', 'extension']),
    'source_aspect_ratio': (['source_aspect_ratio'], 'ofr', ['cog_frame', 'source_aspect_ratio']),
    'pixel_aspect_ratio': (['pixel_aspect_ratio'], 'ofr', ['cog_frame', 'pixel_aspect_ratio']),
}
CODED = {
    'cog_frame_format': (['cog_frame_format', 'format'], 'cf', ['cog_coded_frame', 'format']),
    'cog_frame_layout': (['cog_frame_layout', 'layout'], 'fl', ['cog_coded_frame', 'layout']),
    'origin_width': (['origin_width'], 'int', ['cog_coded_frame', 'origin_width']),
    'origin_height': (['origin_height'], 'int', ['cog_coded_frame', 'origin_height']),
    'coded_width': (['coded_width'], 'int', ['cog_coded_frame', 'coded_width']),
    'coded_height': (['coded_height'], 'int', ['cog_coded_frame', 'coded_height']),
    'is_key_frame': (['is_key_frame'], 'obool', ['cog_coded_frame', 'is_key_frame']),
    'temporal_offset': (['temporal_offset'], 'oint', ['cog_coded_frame', 'temporal_offset']),
    'unit_offsets': (['unit_offsets'], 'ints', ['cog_coded_frame', 'unit_offsets']),
    'source_aspect_ratio': (['source_aspect_ratio'], 'ofr', ['cog_coded_frame', 'source_aspect_ratio']),
    'pixel_aspect_ratio': (['pixel_aspect_ratio'], 'ofr', ['cog_coded_frame', 'pixel_aspect_ratio']),
}
AUDIO = {
    'cog_audio_format': (['cog_audio_format', 'format'], 'af', ['cog_audio', 'format']),
    'samples': (['samples'], 'int', ['cog_audio', 'samples']),
    'channels': (['channels'], 'int', ['cog_audio', 'channels']),
    'sample_rate': (['sample_rate'], 'int', ['cog_audio', 'sample_rate']),
}
CAUDIO = {
    'cog_audio_format': (['cog_audio_format', 'format'], 'caf', ['cog_coded_audio', 'format']),
    'samples': (['samples'], 'int', ['cog_coded_audio', 'samples']),
    'channels': (['channels'], 'int', ['cog_coded_audio', 'channels']),
    'sample_rate': (['sample_rate'], 'int', ['cog_coded_audio', 'sample_rate']),
    'priming': (['priming'], 'int', ['cog_coded_audio', 'priming']),
    'remainder': (['remainder'], 'int', ['cog_coded_audio', 'remainder']),
}
EVENT = {
    'event_type': (['event_type'], 'str', ['event_payload', 'type']),
    'topic': (['topic'], 'str', ['event_payload', 'topic']),
    'event_data': (['event_data'], 'events', ['event_payload', 'data']),
}
OWN = {'Grain': {}, 'VideoGrain': VIDEO, 'CodedVideoGrain': CODED, 'AudioGrain': AUDIO, 'CodedAudioGrain': CAUDIO, 'EventGrain': EVENT,
       'np.VideoGrain': VIDEO, 'np.AudioGrain': AUDIO}
ATTRS = {c: dict(COMMON, **OWN[c]) for c in CLASSES}
# not settable in isolation on grains with arrays over their payload
SETTABLE = {c: sorted(ATTRS[c]) for c in CLASSES}
SETTABLE['np.VideoGrain'] = sorted(set(COMMON) | {'cog_frame_layout', 'width', 'height', 'extension', 'source_aspect_ratio', 'pixel_aspect_ratio'})
SETTABLE['np.AudioGrain'] = sorted(set(COMMON) | {'sample_rate'})
SECTION = {'VideoGrain': 'cog_frame', 'np.VideoGrain': 'cog_frame', 'CodedVideoGrain': 'cog_coded_frame', 'AudioGrain': 'cog_audio', 'np.AudioGrain': 'cog_audio',
           'CodedAudioGrain': 'cog_coded_audio', 'EventGrain': 'event_payload'}


# ---- plain values per kind; spelling: how the value is given
@lru_cache(None)
def plain(kind):
    sf = st.sampled_from
    return {
        'uuid': gen.uuid_bytes(), 'ts': gen.ts_ns(), 'fr': gen.rational(), 'ofr': gen.rational(False), 'labels': st.lists(gen.timelabel(), max_size=3),
        'ff': sf(gen.VIDEO_FORMATS), 'cf': sf(gen.CODED_FORMATS), 'fl': sf(gen.LAYOUTS), 'af': sf(gen.AUDIO_FORMATS), 'caf': sf(gen.CODED_AUDIO_FORMATS),
        'int': gen.u32, 'obool': sf([True, False, None]), 'oint': st.one_of(st.none(), st.integers(-2**31, 2**31 - 1), st.integers(-3, 3)),
        'ints': st.lists(gen.u32, max_size=4), 'str': st.text(max_size=8), 'events': st.lists(gen.event_datum(), max_size=3),
    }[kind]


def spell(kind, v, how, tl_class):
    """A Python value given to the code for plain value v."""
    from mediatimestamp.immutable import TimeOffset
    from mediagrains.cogenums import CogFrameFormat, CogFrameLayout, CogAudioFormat
    if v is None:
        return None
    if kind == 'uuid':
        u = UUID(bytes=v)
        return [u, str(u), str(u).upper()][how % 3]
    if kind == 'ts':
        t = gen.mk_ts(v)
        if how % 3 == 1:
            return t.to_sec_nsec()
        if how % 3 == 2:
            a = abs(v)
            return TimeOffset(a // 10**9, a % 10**9, -1 if v < 0 else 1)
        return t
    if kind in ('fr', 'ofr'):
        f = Fraction(*v)
        if how % 4 == 1:
            return str(f)
        if how % 4 == 2 and f.denominator == 1:
            return f.numerator
        if how % 4 == 3 and f.denominator in (1, 2, 4, 8) and f.numerator < 2**40:
            return float(f) if how % 8 == 3 else Decimal(f.numerator) / Decimal(f.denominator)
        return f
    if kind == 'labels':
        return [mk_label(x, how, tl_class) for x in v]
    if kind in ('ff', 'cf'):
        return CogFrameFormat(v) if how % 2 else v
    if kind == 'fl':
        return CogFrameLayout(v) if how % 2 else v
    if kind in ('af', 'caf'):
        return CogAudioFormat(v) if how % 2 else v
    if kind == 'ints':
        return tuple(v) if how % 3 == 1 else list(v)
    if kind == 'events':
        return [dict(d) for d in v]
    return v


def mk_label(x, how, tl_class):
    tag, count, rate, drop = x
    meta = {'tag': tag, 'timelabel': {'frames_since_midnight': count, 'frame_rate_numerator': rate[0], 'frame_rate_denominator': rate[1], 'drop_frame': drop}}
    if how % 2:
        return meta
    tl = tl_class()
    tl.tag, tl.count, tl.rate, tl.drop_frame = tag, count, Fraction(*rate), drop
    return tl


def read(g, name, kind):
    """(plain value, type ok)"""
    from mediatimestamp.immutable import Timestamp
    from mediagrains.cogenums import CogFrameFormat, CogFrameLayout, CogAudioFormat
    v = getattr(g, name)
    if v is None:
        return None, kind in ('ofr', 'obool', 'oint')
    if kind == 'uuid':
        return v.bytes, type(v) is UUID
    if kind == 'ts':
        return gen.ts_to_ns(v), type(v) is Timestamp
    if kind in ('fr', 'ofr'):
        return (v.numerator, v.denominator), type(v) is Fraction
    if kind == 'labels':
        return [(t.tag, t.count, (t.rate.numerator, t.rate.denominator), t.drop_frame) for t in v], True
    if kind in ('ff', 'cf'):
        return int(v), type(v) is CogFrameFormat
    if kind == 'fl':
        return int(v), type(v) is CogFrameLayout
    if kind in ('af', 'caf'):
        return int(v), type(v) is CogAudioFormat
    if kind == 'obool':
        return v, type(v) is bool
    if kind in ('int', 'oint'):
        return v, type(v) is int
    if kind == 'ints':
        return list(v), True
    if kind == 'events':
        return [dict(d) for d in v], True
    return v, type(v) is str


def in_meta(kind, v, m):
    """Does the metadata item m (or ABSENT) stand for plain value v?"""
    if v is None:
        return m is ABSENT
    if m is ABSENT:
        return kind in ('labels', 'ints') and not v
    if kind == 'uuid':
        return isinstance(m, str) and UUID(m).bytes == v
    if kind == 'ts':
        t = gen.mk_ts(v)
        return m == t.to_sec_nsec()
    if kind in ('fr', 'ofr'):
        return dict(m) == {'numerator': v[0], 'denominator': v[1]}
    if kind == 'labels':
        return [dict(x) for x in m] == [mk_label(x, 1, None) for x in v]
    if kind == 'events':
        return [dict(x) for x in m] == [dict(x) for x in v]
    if kind == 'ints':
        return list(m) == v
    if kind in ('ff', 'cf', 'fl', 'af', 'caf'):
        return type(m) is int and m == v
    return type(m) is type(v) and m == v


ABSENT = object()


def dig(g, path):
    m = g.meta['grain']
    for p in path:
        if p not in m:
            return ABSENT
        m = m[p]
    return m


# ---- construction
@lru_cache(None)
def values_st(c):
    def one(name, kind):
        if c == 'np.VideoGrain' and name == 'cog_frame_format':
            return st.sampled_from([0x2000, 0x2001, 0x2003, 0x2805, 0x2104, 0x2906, 0x2100, 0x2116])
        if c == 'np.VideoGrain' and name in ('width', 'height'):
            return st.sampled_from([2, 4, 6])
        if c == 'VideoGrain' and name in ('width', 'height'):
            return st.integers(0, 9)
        if c == 'np.AudioGrain' and name == 'cog_audio_format':
            return st.sampled_from([0, 1, 2, 4, 5, 8, 9, 0xa, 0x18, 0x2e])
        if c.endswith('AudioGrain') and name in ('samples', 'channels'):
            return st.integers(0 if c[0] != 'n' else 1, 5)
        return plain(kind)
    return st.fixed_dictionaries({n: one(n, ATTRS[c][n][1]) for n in ATTRS[c]})


KW_DROP = {'timelabels', 'extension', 'source_aspect_ratio', 'pixel_aspect_ratio', 'event_data'}


@lru_cache(None)
def op_st(c):
    sets = st.sampled_from(SETTABLE[c]).flatmap(
        lambda n: st.tuples(st.just('set'), st.integers(0, 3), st.just(n), st.integers(0, 1), st.integers(0, 15), plain(ATTRS[c][n][1])))
    simple = st.tuples(st.sampled_from(['deepcopy', 'deepcopy', 'copy', 'rebuild', 'pair']), st.integers(0, 3))
    data = st.tuples(st.sampled_from(['data', 'data-await', 'data-await', 'data-cm', 'data-none']), st.integers(0, 3), st.binary(max_size=12))
    self_assign = st.tuples(st.just('self-assign'), st.integers(0, 3), st.sampled_from(SETTABLE[c]))
    label_op = st.tuples(st.just('add_timelabel'), st.integers(0, 3), gen.timelabel())
    byte_kind = {}
    for n in SETTABLE[c]:
        byte_kind.setdefault(ATTRS[c][n][1], []).append(n)
    # an attribute set from another attribute of its kind, of this grain or of another
    cross = st.sampled_from(SETTABLE[c]).flatmap(
        lambda n: st.tuples(st.just('set-from'), st.integers(0, 3), st.just(n), st.integers(0, 3), st.sampled_from(byte_kind[ATTRS[c][n][1]])))
    return gen.weighted((8, sets), (3, cross), (3, simple), (2, data if c != 'EventGrain' else sets), (1, self_assign), (1, label_op))


def strat():
    def for_class(c):
        return st.fixed_dictionaries({
            'class': st.just(c), 'values': values_st(c), 'how': st.sampled_from(['kw', 'kw', 'meta', 'meta-plain', 'factory', 'partial', 'positional']),
            'spell': st.integers(0, 15), 'given': st.sets(st.sampled_from(sorted(ATTRS[c]))), 'data': st.one_of(st.none(), st.binary(max_size=12)),
            'as': st.sampled_from(['bytes', 'bytearray', 'obj']),
            'ops': st.lists(op_st(c), min_size=2, max_size=12)})
    return st.sampled_from(CLASSES).flatmap(for_class)


class Bytesable:
    def __init__(self, b):
        self.b = b

    def __bytes__(self):
        return self.b

    def __eq__(self, other):
        return isinstance(other, Bytesable) and other.b == self.b

    __hash__ = None


def wrap(b, how):
    return b if how == 'bytes' else bytearray(b) if how == 'bytearray' else memoryview(b) if how == 'memoryview' else Bytesable(b)


def metadata(c, values, names, how, tl_class):
    g = {'grain_type': GT[c]}
    for n in names:
        kind, path = ATTRS[c][n][1:]
        v = values[n]
        if v is None:
            continue
        if kind == 'uuid':
            m = spell(kind, v, how % 2, tl_class)
        elif kind == 'ts':
            m = spell(kind, v, how % 3, tl_class)
        elif kind == 'ofr' or (kind == 'fr' and how % 2):
            m = {'numerator': v[0], 'denominator': v[1]}
        elif kind == 'fr':
            m = Fraction(*v)
        elif kind == 'labels':
            if not v:
                continue
            m = [mk_label(x, 1, None) for x in v]
        elif kind == 'ints' and not v:
            continue
        else:
            m = spell(kind, v, how * 3, tl_class)
        d = g
        for p in path[:-1]:
            d = d.setdefault(p, {})
        d[path[-1]] = m
    if 'Video' in c and not c.startswith('Coded') and 'cog_frame' in g and how % 4:
        g['cog_frame']['components'] = []
    return {'@_ns': 'urn:x-ipstudio:ns:0.1', 'grain': g}


def np_payload(c, values):
    from mediagrains import VideoGrain, AudioGrain
    if c == 'np.VideoGrain':
        return VideoGrain(cog_frame_format=values['cog_frame_format'], width=values['width'], height=values['height'])
    return AudioGrain(cog_audio_format=values['cog_audio_format'], samples=values['samples'], channels=values['channels'])


def construct(case):
    """(grain, model of the attributes known, payload bytes)"""
    import mediagrains
    from mediagrains import GrainFactory
    c, values, how, sp = case['class'], dict(case['values']), case['how'], case['spell']
    K = cls_of(c)
    tl = mediagrains.Grain.TIMELABEL
    raw = case['data']
    isnp = c.startswith('np.')
    if c == 'EventGrain':
        raw = None
    data = None if raw is None else wrap(raw, case['as'])
    if how == 'factory' and isnp:
        how = 'meta'
    if c == 'Grain' and how == 'kw':
        g = GrainFactory(src_id=UUID(bytes=values['source_id']), flow_id=UUID(bytes=values['flow_id']),
                         **{n: spell(ATTRS[c][n][1], values[n], 0, tl) for n in ('origin_timestamp', 'sync_timestamp', 'creation_timestamp', 'rate', 'duration')})
        values['timelabels'] = []
        return g, values, None
    if how == 'kw':
        kw = {}
        for n in ATTRS[c]:
            if n in KW_DROP:
                continue
            s = {'uuid': 0, 'ts': 0}.get(ATTRS[c][n][1], sp)
            kw['src_id' if n == 'source_id' else n] = spell(ATTRS[c][n][1], values[n], s, tl)
            if n == 'unit_offsets':
                kw[n] = list(values[n]) if values[n] else None
        if isnp:
            data, raw = None, bytes(np_payload(c, values).data)
        g = K(data=data, **kw)
        for n in KW_DROP & set(ATTRS[c]):
            values[n] = {'timelabels': [], 'extension': 0, 'event_data': []}.get(n)
        if raw is None and not isnp:
            raw = ...
        return g, values, raw
    names = set(ATTRS[c])
    if how == 'partial' and not isnp:
        names = set(case['given'])
        if 'cog_frame' == SECTION.get(c) and names & set(VIDEO):
            names |= set(VIDEO)
    if isnp:
        tmpl = np_payload(c, values)
        raw = bytes(tmpl.data)
        data = bytearray(raw)
    md = metadata(c, values, names, 1 if how == 'meta-plain' else sp, tl)
    if isnp and c == 'np.VideoGrain':
        md['grain']['cog_frame']['components'] = [dict(x) for x in tmpl.components]
    if c == 'Grain' or how == 'factory':
        g = GrainFactory(md, data) if not isnp else K(md, data)
    elif how == 'positional':
        g = K(md, data)
    else:
        g = K(meta=md, data=data)
    return g, {n: values[n] for n in names}, raw if raw is not None else ...


def unset(c, n):
    """The value of an attribute that metadata leaves out."""
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat, CogFrameLayout
    kind = ATTRS[c][n][1]
    if c == 'CodedAudioGrain' and n == 'sample_rate':
        return 48000
    return {'uuid': bytes(16), 'fr': (0, 1), 'ofr': None, 'labels': [], 'ff': int(CogFrameFormat.UNKNOWN), 'cf': int(CogFrameFormat.UNKNOWN), 'fl': int(CogFrameLayout.UNKNOWN), 'af': int(CogAudioFormat.INVALID),
            'caf': int(CogAudioFormat.INVALID), 'int': 0, 'obool': None, 'oint': None, 'ints': [], 'str': '', 'events': []}[kind]


def check_attrs(g, c, model, what):
    from mediagrains import Grain
    true(isinstance(g, Grain), what + "not a Grain")
    eq(type(g), cls_of(c), what + "class")
    eq(g.grain_type, GT[c], what + "grain type")
    eq(g.meta['grain']['grain_type'], GT[c], what + "grain type in the metadata")
    eq(g.meta['@_ns'], 'urn:x-ipstudio:ns:0.1', what + "namespace")
    for n, v in model.items():
        aliases, kind, path = ATTRS[c][n]
        for a in aliases:
            got, typed = read(g, a, kind)
            if not (gen.strict_eq(got, v) if kind == 'events' else got == v):
                fail("{}{} is {!r}, want {!r}", what, a, got, v)
            true(typed, "{}{} is of type {}".format(what, a, type(getattr(g, a))))
        if not in_meta(kind, v, dig(g, path)):
            fail("{}metadata {} is {!r} for {!r}", what, path, dig(g, path), v)


def check_pair(g, raw, what):
    eq(len(g), 2, what + "length of the pair")
    true(g[0] is g.meta, what + "first of the pair is not the metadata")
    parts = tuple(g)
    eq(len(parts), 2, what + "parts")
    true(parts[0] is g.meta, what + "first part is not the metadata")
    if g.grain_type == 'event':
        eq(parts[1], g.data, what + "second part")
        eq(g[1], g.data, what + "second of the pair")
    else:
        true(parts[1] is g.data and g[1] is g.data, what + "second of the pair is not the data")
        true(g.has_data() == (g.data is not None), what + "has_data")
        if raw is not ...:
            eq(None if g.data is None else bytes(g.data), raw, what + "payload")
            if raw is not None:
                eq(bytes(g), raw, what + "bytes(grain)")
                eq(g.length, len(raw), what + "length")
            else:
                eq(g.length, 0, what + "length")
    true(isinstance(repr(g), str), what + "repr")


def same(a, b, c):
    if c.startswith('np.'):
        # (pairs of metadata and numpy arrays can't be compared by Python itself)
        pair = (a.meta, None if a.data is None else bytes(a))
        if not (a == pair and not (a != pair)) or a == (a.meta, bytes(a) + b"x") or a == 5:
            return False
        return a == b and b == a and not (a != b) and a == tuple(b)
    return a == b and b == a and not (a != b) and a == tuple(b) and tuple(a) == b


def sized(b):
    """A payload that is a whole number of samples in any format"""
    return ((b or bytes(1)) * 48)[:48]


async def _await(x):
    return await x


async def _enter(g):
    async with g as h:
        return h


def containers(m, path):
    """(path, container) for every dictionary and list in some metadata"""
    if isinstance(m, (dict, list)):
        yield path, m
        for k, v in (m.items() if isinstance(m, dict) else enumerate(m)):
            yield from containers(v, path + (k,))


def check_apart(grains, what):
    """What is changed at one place in the metadata of one grain changes there alone"""
    seen = {}
    for j, g in enumerate(grains):
        for path, m in containers(g.meta, ()):
            if id(m) in seen:
                fail("{}the metadata at {} of grain {} is the same object as that at {} of grain {}", what, path, j, *seen[id(m)])
            seen[id(m)] = (path, j)


def check(case):
    import mediagrains
    from mediagrains import GrainFactory
    c = case['class']
    K = cls_of(c)
    tl = mediagrains.Grain.TIMELABEL
    isnp = c.startswith('np.')
    label('class:' + c)
    label('built:' + case['how'])
    g, model, raw = construct(case)
    live = [[g, dict(model), raw]]
    # attributes that were not given have the value that stands for none, which must be kept as well
    for n in ATTRS[c]:
        if n not in model:
            live[0][1][n] = v = read(g, n, ATTRS[c][n][1])[0]
            if case['how'] == 'partial' and not isnp and not n.endswith('_timestamp'):
                eq(v, unset(c, n), "{} of a {} whose metadata has none".format(n, c))
    if c == 'VideoGrain' and case['how'] != 'kw':
        eq(list(g.components), [], "components of a VideoGrain whose metadata has none")
    if c == 'CodedVideoGrain' and case['how'] == 'partial':
        eq(g.meta['grain']['cog_coded_frame'].get('length', 0), 0, "length in metadata that had none")
    if 'creation_timestamp' in live[0][1] and case['how'] == 'partial':
        m = live[0][1]
        if 'origin_timestamp' not in model:
            eq(m['origin_timestamp'], m['creation_timestamp'], "default origin timestamp")
        if 'sync_timestamp' not in model:
            eq(m['sync_timestamp'], m['origin_timestamp'], "default sync timestamp")
    check_attrs(g, c, live[0][1], "after construction: ")
    check_pair(g, raw, "after construction: ")
    sets = set()
    copied = False
    for k, op in enumerate(case['ops']):
        what = "after operation {} {!r}: ".format(k, op[:3])
        i = op[1] % len(live)
        g, model, raw = live[i]
        label('op:' + op[0])
        if op[0] == 'set':
            _, _, n, alias, sp, v = op
            aliases, kind, path = ATTRS[c][n]
            setattr(g, aliases[alias % len(aliases)], spell(kind, v, sp, tl))
            model[n] = list(v) if kind in ('ints', 'labels') else v
            sets.add(n)
            nontrivial(copied or len(sets) > 1)
        elif op[0] == 'set-from':
            _, _, n, j, n2 = op
            src, src_model = live[j % len(live)][:2]
            if (n != n2 or src is not g) and src_model[n2] is not None:
                v = getattr(src, n2)
                # (the items of the lists are objects, which lists share)
                setattr(g, n, deepcopy(list(v)) if ATTRS[c][n][1] in ('labels', 'ints', 'events') else v)
                model[n] = deepcopy(src_model[n2])
                sets.add(n)
                nontrivial(copied or len(sets) > 1)
        elif op[0] == 'self-assign':
            n = op[2]
            if getattr(g, n) is not None:
                setattr(g, n, getattr(g, n))
        elif op[0] == 'add_timelabel':
            tag, count, rate, drop = op[2]
            g.add_timelabel(tag, count, Fraction(*rate), drop)
            model['timelabels'] = list(model['timelabels']) + [op[2]]
        elif op[0] in ('deepcopy', 'copy', 'rebuild'):
            if op[0] == 'rebuild':
                h = (K if isnp else GrainFactory)(deepcopy(g.meta), g.data)
                if g.data is None:
                    continue        # no data given makes a new payload
            else:
                h = (deepcopy if op[0] == 'deepcopy' else copy)(g)
            true(h is not g, what + "same object")
            true(same(g, h, c), what + "not equal to the original: {!r} {!r}".format(g, h))
            check_attrs(h, c, model, what)
            if op[0] == 'copy':
                check_pair(h, raw, what)
                if isnp and g.data is not None:
                    import numpy
                    true(numpy.shares_memory(h.data, g.data) or h.data.size == 0, what + "data of a shallow copy is not shared")
                elif c != 'EventGrain':
                    true(h.data is g.data, what + "data of a shallow copy is not shared")
            else:
                if op[0] == 'deepcopy' and g.data is not None and c != 'EventGrain':
                    d = h.data
                    if isinstance(d, bytearray) and len(d):
                        d[0] ^= 0xff
                        eq(bytes(g), raw if raw is not ... else bytes(g), what + "payload of the original")
                        true(bytes(g) != bytes(h), what + "payload shared with the original")
                        d[0] ^= 0xff
                    elif isnp and d.size:
                        import numpy
                        true(not numpy.shares_memory(d, g.data), what + "payload shared with the original")
                    if len(live) < 4:
                        live.append([h, dict(model), raw])
                        copied = True
                elif op[0] == 'deepcopy' or c == 'EventGrain':
                    if len(live) < 4:
                        live.append([h, dict(model), raw])
                        copied = True
        elif op[0] == 'data':
            b = sized(op[2]) if isnp else op[2]
            g.data = bytearray(b)
            live[i][2] = b
        elif op[0] == 'data-none':
            g.data = None
            live[i][2] = None
        elif op[0] in ('data-await', 'data-cm'):
            want = sized(op[2]) if isnp else op[2]

            async def load(b=want):
                return b
            g.data = load()
            true(g.data is None and g.length == 0 and not g.has_data(), what + "data before it is awaited")
            g.length = 77
            eq(g.length, 77, what + "announced length")
            plainly = bytes if isnp else (lambda x: x)
            got = aio.run(_await(g)) if op[0] == 'data-await' else aio.run(_enter(g)).data
            eq(plainly(got), want, what + "awaited data")
            eq(plainly(aio.run(_await(g))), want, what + "data awaited again")
            eq(plainly(aio.run(_enter(g)).data), want, what + "data after entering the grain again")
            live[i][2] = want
            try:
                g.length = 78
            except AttributeError:
                pass
            else:
                fail("{}the length of data which is there can be set", what)
        check_apart([h for h, _, _ in live], what)
        for j, (h, m, r) in enumerate(live):
            w = what if j == i else what + "grain {}, which was not touched: ".format(j)
            check_attrs(h, c, m, w)
            check_pair(h, r, w)


def attr_cases(tier):
    return [(c, new) for c in CLASSES[:6] for new in (False, True)] + [('bad', c) for c in CLASSES[1:]]


def check_attr(case):
    import mediagrains.grains as G
    from mediagrains.grains.Grain import attributes_for_grain_type, new_attributes_for_grain_type, GrainType
    import inspect
    nontrivial()
    if case[0] == 'bad':
        K = cls_of(case[1])
        for kw in ({'src_id': "not a uuid"}, {'flow_id': 5}):
            try:
                K(**kw)
            except AttributeError:
                continue
            fail("{} accepts {!r}", case[1], kw)
        return
    c, new = case
    t = 'grain' if c == 'Grain' else GT[c]
    names = new_attributes_for_grain_type(t) if new else attributes_for_grain_type(t)
    enum = GrainType(["grain", "video", "audio", "coded_video", "coded_audio", "event"].index(t))
    eq(new_attributes_for_grain_type(enum) if new else attributes_for_grain_type(enum), names, "attributes by enumeration value")
    true(len(set(names)) == len(names), "repeated names")
    known = {a: n for n, v in ATTRS[c].items() for a in v[0]}
    for n in names:
        true(n in known, "{} is not an attribute of {}".format(n, c))
    want = set(ATTRS[c]) - {'timelabels', 'extension', 'source_aspect_ratio', 'pixel_aspect_ratio'}
    eq({known[n] for n in names}, want, "attributes listed for " + c)
    if new and c != 'Grain':
        params = set(inspect.signature(cls_of(c).__init__).parameters)
        for n in names:
            true(n in params or n == 'event_data', "{} is not a constructor argument of {}".format(n, c))


# the arguments of the constructors, in order, and what stands when they are left out
_IDS = [('src_id', 'source_id', None), ('flow_id', 'flow_id', None), ('origin_timestamp', 'origin_timestamp', None)]
_CS = [('creation_timestamp', 'creation_timestamp', None), ('sync_timestamp', 'sync_timestamp', None)]
_RD = [('rate', 'rate', (25, 1)), ('duration', 'duration', (1, 25))]


def _same(*pairs):
    return [(n, n, d) for n, d in pairs]


ARGUMENTS = {
    'Grain': _IDS + _CS[::-1] + [('rate', 'rate', (0, 1)), ('duration', 'duration', (0, 1))],
    'VideoGrain': _IDS + _CS + _RD + _same(('cog_frame_format', 0xfffffffe), ('width', 1920), ('height', 1080), ('cog_frame_layout', 0xfffffffe)),
    'CodedVideoGrain': _IDS + _CS + _RD + _same(('cog_frame_format', 0xfffffffe), ('origin_width', 1920), ('origin_height', 1080), ('coded_width', 'origin_width'), ('coded_height', 'origin_height'),
                                                ('is_key_frame', None), ('temporal_offset', None), ('length', None), ('cog_frame_layout', 0xfffffffe), ('unit_offsets', [])),
    'AudioGrain': _IDS + _CS[::-1] + _RD + _same(('cog_audio_format', 0xffffffff), ('samples', 0), ('channels', 0), ('sample_rate', 48000)),
    'CodedAudioGrain': _IDS + _CS + _RD + _same(('cog_audio_format', 0xffffffff), ('samples', 0), ('channels', 0), ('priming', 0), ('remainder', 0), ('sample_rate', 48000), ('length', None)),
    'EventGrain': _IDS + _CS + _RD + _same(('event_type', ''), ('topic', '')),
}


def strat_arguments():
    def for_class(c):
        names = [a for a, _, _ in ARGUMENTS[c]]
        small = {'width', 'height', 'samples', 'channels', 'length'}
        value = {a: st.integers(0, 40) if a in small else plain(ATTRS[c][n][1]) for a, n, _ in ARGUMENTS[c]}
        return st.tuples(st.just(c), st.booleans(), st.sets(st.sampled_from(names)).map(lambda x: x | {'src_id', 'flow_id'} if c == 'Grain' and x else x), st.sampled_from([0, 0, 0, 1, 2, 5, 8, 30]), st.fixed_dictionaries(value),
                         st.one_of(st.none(), st.binary(max_size=6)) if c != 'EventGrain' else st.none(), st.integers(0, 15))
    return st.sampled_from(sorted(ARGUMENTS)).flatmap(for_class)


def check_arguments(case):
    """Any of the arguments given, in order or by name: those are what the grain has, and the others have their defaults."""
    import json
    import mediagrains
    from mediatimestamp.immutable import Timestamp
    c, isnp, given, positional, values, raw, sp = case
    isnp = isnp and c in ('VideoGrain', 'AudioGrain')
    K = mediagrains.GrainFactory if c == 'Grain' else cls_of('np.' + c if isnp else c)
    args = ARGUMENTS[c]
    given = set(given) | {a for a, _, _ in args[:positional]}
    if isnp:
        given |= {'cog_frame_format', 'width', 'height'} if c == 'VideoGrain' else {'cog_audio_format', 'samples', 'channels'}
        values = dict(values, **({'cog_frame_format': 0x2000, 'width': 4, 'height': 2} if c == 'VideoGrain' else {'cog_audio_format': 4}))
        raw = None
    kinds = {n: ATTRS[c][n][1] if n in ATTRS[c] else 'int' for _, n, _ in args}

    def spelt(a, n):
        v = values[a]
        if kinds[n] in ('uuid', 'ts'):
            return spell(kinds[n], v, 0, None)
        if kinds[n] == 'ints':
            return list(v)
        return spell(kinds[n], v, sp, None)
    pos = [spelt(a, n) for a, n, _ in args[:positional]]
    kw = {a: spelt(a, n) for a, n, _ in args[positional:] if a in given}
    what = "{}({}, {}): ".format(c, pos, kw)
    if isnp and pos:
        raises(TypeError, lambda: K(None, raw, *pos, **kw), what + "(more positional arguments than the metadata and data) ")
        pos, kw = [], {a: spelt(a, n) for a, n, _ in args if a in given}
    if c == 'Grain' and not given >= {'src_id', 'flow_id'}:
        raises(AttributeError, lambda: K(None, raw, *pos, **kw), what + "(without identifiers) ")
        return
    before = Timestamp.get_time()
    g = K(None, raw, *pos, **kw) if pos else K(data=raw, **kw)
    after = Timestamp.get_time()
    nontrivial(0 < len(given) < len(args))
    label('class:' + c)
    label('given by position' if pos else 'given by name')
    model = {}
    for a, n, d in args:
        if a == 'length':
            continue
        v = values[a] if a in given else d
        if v is None and kinds[n] in ('ts', 'uuid'):
            continue
        if a in ('coded_width', 'coded_height') and (a not in given or v is None):
            v = model[d]
        model[n] = list(v) if kinds[n] == 'ints' else v
    if 'creation_timestamp' not in given:
        true(before <= g.creation_timestamp <= after, what + "created at {}, between {} and {}".format(g.creation_timestamp, before, after))
        model['creation_timestamp'] = gen.ts_to_ns(g.creation_timestamp)
    model.setdefault('origin_timestamp', model['creation_timestamp'])
    model.setdefault('sync_timestamp', model['origin_timestamp'])
    model['timelabels'] = []
    if 'src_id' not in given:
        eq(g.meta['grain']['source_id'], 'None', what + "source id")
    if 'flow_id' not in given:
        eq(g.meta['grain']['flow_id'], 'None', what + "flow id")
    check_attrs(g, 'np.' + c if isnp else c, model, what)
    if c == 'EventGrain':
        eq(list(g.event_data), [], what + "event data")
    elif raw is not None:
        true(g.data is None if c == 'Grain' else bytes(g.data) == raw, what + "payload")
    elif 'length' in [a for a, _, _ in args]:
        eq(bytes(g.data), bytes(values['length'] if 'length' in given else 0), what + "payload made")
    if g.data is not None:
        eq(bytes(g), bytes(g.data), what + "bytes(grain)")
    # what a grain is described by can be written as JSON and a grain made of what is read back
    again = K(json.loads(json.dumps(g.meta)), g.data)
    eq(again.meta, g.meta, what + "metadata of the grain made from its metadata as JSON")
    more = K(json.loads(json.dumps(g.meta)))
    eq(more.meta, g.meta, what + "metadata of the grain made from its metadata alone")
    if not isnp:
        true(again == g, what + "the grain made from its metadata as JSON differs")


# ---------------------------------------------------------------- payloads that come later

class Later:
    """Something to wait for, by any number at a time."""
    def __init__(self, value):
        import asyncio
        self.value = value
        self.ready = asyncio.Event()

    def __await__(self):
        yield from self.ready.wait().__await__()
        return self.value


def new_grain(c, data=None):
    ids = dict(src_id=UUID(int=1), flow_id=UUID(int=2))
    if c == 'Grain':
        from mediagrains import GrainFactory
        return GrainFactory(**ids)
    if c.endswith('.VideoGrain'):
        ids.update(cog_frame_format=0x2000, width=4, height=4)
    if c.endswith('.AudioGrain'):
        ids.update(cog_audio_format=0, samples=24, channels=1)
    if data is not None:
        ids['data'] = data
    return cls_of(c)(**ids)


PAYLOADS = [bytes([k]) * 48 for k in range(10)]


def strat_fetch():
    step = st.one_of(st.tuples(st.just('later')), st.tuples(st.just('now')), st.tuples(st.just('none')), st.tuples(st.just('start')), st.tuples(st.just('start')), st.tuples(st.just('start')), st.tuples(st.just('finish'), st.integers(0, 9)), st.tuples(st.just('finish'), st.integers(0, 9)))
    return st.tuples(st.sampled_from([c for c in CLASSES if c != 'EventGrain']), st.booleans(), st.tuples(st.sampled_from([(), (('later',), ('start',)), (('later',), ('start',), ('start',)), (('start',), ('later',)), (('now',), ('later',), ('start',))]), st.lists(step, min_size=2, max_size=9)).map(lambda t: [*t[0], *t[1]]))


def check_fetch(case):
    """Waiting for a payload, several times at once, while it or others are given: the grain has the one given last."""
    import asyncio
    c, first, steps = case
    first = first and c != 'Grain'

    async def go():
        given = []              # [Later, begun]
        tasks = []
        numbers = iter(PAYLOADS)

        def later():
            given.append(Later(next(numbers)))
            return given[-1]
        g = new_grain(c, later() if first else None)
        now = ('later', given[-1]) if first else ('value', None if g.data is None else bytes(g.data))
        waited = set()          # of those things that a task waits for
        crossed = 0
        for k, op in enumerate(steps):
            what = "{}: after step {} of {}: ".format(c, k, steps[:k + 1])
            if op[0] == 'later':
                crossed += bool(waited)
                g.data = later()
                now = ('later', given[-1])
            elif op[0] == 'now':
                v = next(numbers)
                crossed += bool(waited)
                g.data = bytearray(v)
                now = ('value', v)
            elif op[0] == 'none':
                g.data = None
                now = ('value', None)
            elif op[0] == 'start':
                async def wait():
                    return await g
                tasks.append((asyncio.ensure_future(wait()), now))
                if now[0] == 'later':
                    waited.add(now[1])
            elif given:
                given[op[1] % len(given)].ready.set()
            for _ in range(6):
                await asyncio.sleep(0)
            if now[0] == 'later' and now[1] in waited and now[1].ready.is_set():
                now = ('value', now[1].value)
            waited = {x for x in waited if not x.ready.is_set()}
            want = now[1] if now[0] == 'value' else None
            eq(None if g.data is None else bytes(g.data), want, what + "payload")
            eq(g.has_data(), want is not None, what + "whether there is a payload")
            eq(g.length, 0 if want is None else len(want), what + "length")
            if c.startswith('np.') and want is not None:
                arrays = g.component_data if 'Video' in c else g.channel_data
                true(len(arrays) > 0 and all((a.tobytes() == bytes([want[0]]) * a.nbytes) for a in arrays), what + "arrays are of another payload")
        for x in given:
            x.ready.set()
        for t, at in tasks:
            got = await t
            if at[0] == 'value' or at[1] is given[-1] and now in (at, ('value', at[1].value)):
                want = at[1] if at[0] == 'value' else at[1].value
                eq(None if got is None else bytes(got), want, "{}: {}: what was waited for".format(c, steps))
        nontrivial(len(tasks) > 0 and crossed > 0)
        label('given while waiting', crossed > 0)
    aio.run(go())


# ---------------------------------------------------------------- as little as possible

def made_cases(tier):
    out = []
    for c in CLASSES:
        if not c.startswith('np.'):
            out += [('bare', c, m, d) for m in range(5) for d in (0, 1) if c != 'VideoGrain' or m not in (0, 2)]
        if c != 'Grain':
            out += [('awaited', c, how) for how in ('kw', 'meta', 'factory')]
    out += [('factory', w) for w in range(6)] + [('event', v, n, i) for v in range(3) for n in (1, 2) for i in (0, 1)]
    return out


def check_made(case):
    from mediagrains import GrainFactory
    from mediatimestamp.immutable import Timestamp
    nontrivial()
    what = "{}: ".format(case)
    if case[0] == 'bare':
        _, c, m, d = case
        K = GrainFactory if c == 'Grain' else cls_of(c)
        meta = [{}, {'grain': {}}, {'@_ns': 'urn:x-ipstudio:ns:0.1'}, {'grain': {'grain_type': GT[c]}}, {'grain': {'grain_type': 'data' if c == 'EventGrain' else GT[c], 'length': 77}}][m]
        data = None
        if d and c == 'EventGrain':
            data = b'{"type": "t", "topic": "u", "data": []}'
        elif d:
            data = bytes(12)
        before = Timestamp.get_time()
        g = (GrainFactory if m > 2 and d else K)(meta, data)
        after = Timestamp.get_time()
        true(before <= g.creation_timestamp <= after, what + "creation timestamp")
        at = gen.ts_to_ns(g.creation_timestamp)
        model = {n: at if n.endswith('_timestamp') else unset(c, n) for n in ATTRS[c]}
        if d and c == 'EventGrain':
            model.update(event_type='t', topic='u')
        check_attrs(g, c, model, what)
        if c != 'EventGrain':
            eq(bytes(g.data) if g.data is not None else None, data if data is not None else None if c == 'Grain' else b'', what + "payload")
        if c in ('Grain', 'CodedVideoGrain', 'CodedAudioGrain', 'EventGrain'):
            eq(g.expected_length, 77 if m == 4 else g.length, what + "expected length")
        else:
            eq(g.expected_length, 0, what + "expected length")
        return
    if case[0] == 'factory':
        ids = [{}, {'src_id': UUID(int=1)}, {'flow_id': UUID(int=1)}, {'src_id': UUID(int=1), 'flow_id': str(UUID(int=2))}, {'src_id': str(UUID(int=1)), 'flow_id': UUID(int=2)}, {'src_id': 1, 'flow_id': UUID(int=2)}][case[1]]
        raises(AttributeError, lambda: GrainFactory(**ids), what)
        return
    if case[0] == 'event':
        check_event(*case[1:], what)
        return
    _, c, how = case
    raw = b'{"type": "t", "topic": "u", "data": [{"path": "/a", "pre": 1}]}' if c == 'EventGrain' else PAYLOADS[3]

    async def load():
        return raw

    async def go():
        if how == 'kw':
            g = new_grain(c, load())
        else:
            meta = new_grain(c).meta
            if how == 'factory' and not c.startswith('np.'):
                g = GrainFactory(meta, load())
            else:
                g = cls_of(c)(meta, load())
        eq(g.has_data(), False, what + "whether there is a payload before it is awaited")
        if c != 'EventGrain':
            eq(g.data, None, what + "payload before it is awaited")
            eq(g.length, 0, what + "length before it is awaited")
            g.length = 5
            eq(g.length, 5, what + "length that was announced")
        got = await g
        eq(g.has_data(), True, what + "whether there is a payload")
        eq(bytes(got), raw, what + "what was waited for")
        eq(bytes(g), raw, what + "payload")
        eq(g.length, len(raw), what + "length")
        if c == 'EventGrain':
            eq((g.event_type, g.topic, [dict(x) for x in g.event_data]), ('t', 'u', [{'path': '/a', 'pre': 1}]), what + "event")
        if c.startswith('np.'):
            true(len(g.component_data if 'Video' in c else g.channel_data) > 0, what + "arrays")
        eq(bytes(await g), raw, what + "what was waited for again")
    aio.run(go())


def check_event(v, n, instead, what):
    """An event grain whose payload comes later, waited for n times at once, and maybe given another one first."""
    import asyncio
    from mediagrains.grains import EventGrain
    coming = [b'{"type": "t", "topic": "u", "data": [{"path": "/a", "pre": 1}]}', '{"type": "t", "topic": "u", "data": []}', None][v]
    other = b'{"type": "other", "topic": "o", "data": []}'

    async def go():
        x = Later(coming)
        g = EventGrain(src_id=UUID(int=1), flow_id=UUID(int=2), event_type='first', data=x)

        async def wait():
            return await g
        tasks = [asyncio.ensure_future(wait()) for _ in range(n)]
        await asyncio.sleep(0)
        eq(g.has_data(), False, what + "whether there is a payload")
        if instead:
            g.data = other
        x.ready.set()
        got = [await t for t in tasks]
        want = 'other' if instead else 'first' if coming is None else 't'
        eq(g.event_type, want, what + "event type")
        eq(got, [g.data] * n, what + "what was waited for")
        if instead or coming is not None:
            eq(g.has_data(), True, what + "whether there is a payload now")
    aio.run(go())


TARGETS = [
    Target('made', None, check_made, quick=0, thorough=0, shards=1, enumerate=made_cases),
    Target('fetch', strat_fetch, check_fetch, quick=1500, thorough=60000),
    Target('arguments', strat_arguments, check_arguments, quick=1500, thorough=60000),
    Target('attrs', None, check_attr, quick=0, thorough=0, shards=1, enumerate=attr_cases),
    Target('history', strat, check, quick=6000, thorough=400000),
]
