"""Generators of plain-data grain specifications, construction of real grains from them, and observation back to plain data.

A grain spec is a dict:
  type, src(16 bytes), flow(16 bytes), ots/sts/cts (int ns), rate/duration ((n, d)), labels [(tag, count, (n, d), drop)],
  data (bytes or None), f (type specific fields)
"""
import json
from functools import lru_cache
from fractions import Fraction
from uuid import UUID

from hypothesis import strategies as st

U8, U16, U32 = 0xFF, 0xFFFF, 0xFFFFFFFF
MAXSEC = (1 << 48) - 1

VIDEO_FORMATS = [0x1080, 0x2000, 0x2001, 0x2003, 0x2010, 0x2080, 0x2100, 0x2101, 0x2102, 0x2104, 0x2110, 0x2111, 0x2112,
                 0x2113, 0x2114, 0x2115, 0x2116, 0x2117, 0x2804, 0x2814, 0x2805, 0x2807, 0x2884, 0x2906, 0x3004, 0x3014,
                 0x3005, 0x3007, 0x3084, 0x4004, 0x4014, 0x4005, 0x4007, 0x4084, 0x4105, 0x8008, 0x8018, 0x8009, 0x800b,
                 0x8088, 0xfffffffe, 0xffffffff]
CODED_FORMATS = [0x200, 0x201, 0x202, 0x203, 0x204, 0x205, 0x206, 0x207, 0x208, 0x209, 0xfffffffe, 0xffffffff]
LAYOUTS = [0, 1, 2, 3, 4, 0xfffffffe]
AUDIO_FORMATS = [0, 1, 2, 4, 5, 6, 8, 9, 0xa, 0xc, 0x18, 0x19, 0x1a, 0x2c, 0x2d, 0x2e, 0xffffffff]
CODED_AUDIO_FORMATS = [0x200, 0x201, 0x202, 0xffffffff]
GRAIN_TYPES = ['video', 'coded_video', 'audio', 'coded_audio', 'event', 'empty']


def weighted(*pairs):
    """One of the strategies, with weights (one_of drops repeated strategies)."""
    idx = [i for i, (w, _) in enumerate(pairs) for _ in range(w)]
    strategies = [x for _, x in pairs]
    return st.sampled_from(idx).flatmap(strategies.__getitem__)


@lru_cache(None)
def biased_uint(maxv):
    edges = sorted({0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, maxv - 1, maxv,
                    1920, 1080, 25, 48000})
    edges = [e for e in edges if e <= maxv]
    return st.one_of(st.sampled_from(edges), st.integers(0, maxv), st.integers(0, min(maxv, 300)))


u8, u16, u32 = biased_uint(U8), biased_uint(U16), biased_uint(U32)


@lru_cache(None)
def uuid_bytes():
    return st.one_of(st.binary(min_size=16, max_size=16), st.sampled_from([bytes(range(16)), b"\xff" * 16, b"\x00" * 15 + b"\x01",
                                                                           bytes(range(16, 32)), b"\x00" * 16]))


@lru_cache(None)
def ts_ns(signed=True, maxsec=MAXSEC):
    secs = st.one_of(st.sampled_from([0, 1, 2, 1420102800, 417798915, 0xFFFFFFFF, 0x100000000, maxsec - 1, maxsec]),
                     st.integers(0, maxsec), st.integers(0, 10))
    ns = st.one_of(st.sampled_from([0, 1, 20000000, 40000000, 999999999]), st.integers(0, 999999999))

    def mk(t):
        s, n, neg = t
        v = s * 10**9 + n
        return -v if (neg and signed) else v
    return st.tuples(secs, ns, st.sampled_from([False, False, False, True]) if signed else st.just(False)).map(mk)


@lru_cache(None)
def rational(allow_zero=True):
    base = [(25, 1), (30000, 1001), (1, 25), (1001, 30000), (50, 1), (24000, 1001), (48000, 1), (1, 1), (U32, 1), (1, U32),
            (U32, U32 - 1), (65536, 65535), (375, 8)]
    if allow_zero:
        base.append((0, 1))
    return st.one_of(st.sampled_from(base), st.tuples(st.integers(0 if allow_zero else 1, U32), st.integers(1, U32))).map(
        lambda t: (Fraction(*t).numerator, Fraction(*t).denominator))


@lru_cache(None)
def text(max_bytes, nul=False):
    alpha = st.characters(exclude_categories=("Cs",), exclude_characters="" if nul else "\x00")
    return st.one_of(st.text(alphabet="abz /:é€😀", max_size=max_bytes), st.text(alphabet=alpha, max_size=max_bytes)).map(
        lambda s: _fit(s, max_bytes))


def _fit(s, n):
    while len(s.encode("utf-8")) > n:
        s = s[:-1]
    return s


@lru_cache(None)
def timelabel():
    return st.tuples(text(16), u32, rational(), st.booleans())


@lru_cache(None)
def json_values(allow_none=True):
    leaf = st.one_of(st.booleans(), st.integers(-2**53, 2**53), st.text(max_size=6), st.floats(allow_nan=False, allow_infinity=False),
                     *([st.none()] if allow_none else []))
    return st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=4), c, max_size=3)), max_leaves=5)


@lru_cache(None)
def event_datum():
    return st.fixed_dictionaries({'path': st.text(max_size=8)}, optional={'pre': json_values(), 'post': json_values()})


@lru_cache(None)
def type_fields(t, version=9, raw_sized=False):
    sf, fd = st.sampled_from, st.fixed_dictionaries
    if t == 'video':
        w, h = (st.integers(1, 40), st.integers(1, 12)) if raw_sized else (u32, u32)
        opt = st.one_of(st.none(), rational(False))
        return fd({'format': sf(VIDEO_FORMATS), 'layout': sf(LAYOUTS), 'width': w, 'height': h, 'extension': u32, 'sar': opt, 'par': opt,
                   'components': st.lists(st.tuples(u32, u32, u32, u32), max_size=4)})
    if t == 'coded_video':
        toff = st.one_of(sf([0, 1, -1, -2**31, 0x7ffffffe, 127, -128, 255, 65535]), st.integers(-2**31, 0x7ffffffe), st.integers(-20, 20))
        return fd({'format': sf(CODED_FORMATS), 'layout': sf(LAYOUTS),
                   'origin_width': u32, 'origin_height': u32, 'coded_width': u32, 'coded_height': u32,
                   'key': st.booleans() if version < 9 else sf([True, False, None]),
                   'toff': toff if version < 9 else st.one_of(st.none(), toff),
                   'units': st.lists(u32, max_size=6)})
    if t == 'audio':
        return fd({'format': sf(AUDIO_FORMATS), 'channels': u16, 'samples': u32, 'sample_rate': u32})
    if t == 'coded_audio':
        return fd({'format': sf(CODED_AUDIO_FORMATS), 'channels': u16, 'samples': u32, 'sample_rate': u32, 'priming': u32, 'remainder': u32})
    if t == 'event':
        return fd({'event_type': st.text(max_size=10), 'topic': st.text(max_size=10), 'events': st.lists(event_datum(), max_size=3)})
    return st.just({})


SPECIAL_DATA = [b"", b"grai\x00\x00\x00\x00", b"SSBBgrsg\x09\x00\x00\x00", b"\x00" * 8, b"grdt\x08\x00\x00\x00"]


@lru_cache(None)
def _spec_of(t, version, max_data):
    signed = version >= 8
    ts = ts_ns(signed)
    return st.fixed_dictionaries({
        'type': st.just(t), 'src': uuid_bytes(), 'flow': uuid_bytes(), 'ots': ts, 'sts': ts, 'cts': ts, 'rate': rational(), 'duration': rational(),
        'labels': st.one_of(st.just([]), st.lists(timelabel(), max_size=3)),
        'f': type_fields(t, version),
        'data': st.none() if t == 'event' else st.one_of(st.binary(max_size=max_data), st.sampled_from(SPECIAL_DATA)),
    })


def grain_spec(version=9, types=GRAIN_TYPES, max_data=40):
    return _grain_spec(version, tuple(types), max_data)


@lru_cache(None)
def _grain_spec(version, types, max_data):
    return st.one_of([_spec_of(t, version, max_data) for t in types])


def mk_ts(ns):
    from mediatimestamp.immutable import Timestamp
    sign = -1 if ns < 0 else 1
    a = abs(ns)
    return Timestamp(a // 10**9, a % 10**9, sign)


def ts_to_ns(ts):
    return ts.sign * (ts.sec * 10**9 + ts.ns)


def components_from(comps):
    out = []
    off = 0
    for (w, h, stride, length) in comps:
        out.append({'width': w, 'height': h, 'stride': stride, 'length': length, 'offset': off})
        off += length
    return out


def build(spec, data=...):
    """A real grain for the spec, built through metadata."""
    from mediagrains import GrainFactory
    t, f = spec['type'], spec['f']
    g = {
        'grain_type': t, 'source_id': str(UUID(bytes=spec['src'])), 'flow_id': str(UUID(bytes=spec['flow'])),
        'origin_timestamp': mk_ts(spec['ots']), 'sync_timestamp': mk_ts(spec['sts']), 'creation_timestamp': mk_ts(spec['cts']),
        'rate': Fraction(*spec['rate']), 'duration': Fraction(*spec['duration']),
    }
    if spec['labels']:
        g['timelabels'] = [{'tag': tag, 'timelabel': {'frames_since_midnight': c, 'frame_rate_numerator': n, 'frame_rate_denominator': d,
                                                      'drop_frame': drop}} for (tag, c, (n, d), drop) in spec['labels']]
    if t == 'video':
        cf = {'format': f['format'], 'layout': f['layout'], 'width': f['width'], 'height': f['height'], 'extension': f['extension'],
              'components': components_from(f['components'])}
        if f['sar'] is not None:
            cf['source_aspect_ratio'] = {'numerator': f['sar'][0], 'denominator': f['sar'][1]}
        if f['par'] is not None:
            cf['pixel_aspect_ratio'] = {'numerator': f['par'][0], 'denominator': f['par'][1]}
        g['cog_frame'] = cf
    elif t == 'coded_video':
        cf = {k: f[k] for k in ('format', 'layout', 'origin_width', 'origin_height', 'coded_width', 'coded_height')}
        if f['key'] is not None:
            cf['is_key_frame'] = f['key']
        if f['toff'] is not None:
            cf['temporal_offset'] = f['toff']
        if f['units']:
            cf['unit_offsets'] = list(f['units'])
        g['cog_coded_frame'] = cf
    elif t == 'audio':
        g['cog_audio'] = {k: f[k] for k in ('format', 'channels', 'samples', 'sample_rate')}
    elif t == 'coded_audio':
        g['cog_coded_audio'] = {k: f[k] for k in ('format', 'channels', 'samples', 'sample_rate', 'priming', 'remainder')}
    elif t == 'event':
        g['event_payload'] = {'type': f['event_type'], 'topic': f['topic'], 'data': [dict(d) for d in f['events']]}
    d = spec['data'] if data is ... else data
    return GrainFactory({'@_ns': 'urn:x-ipstudio:ns:0.1', 'grain': g}, d)


CLASS_NAMES = {'video': 'VideoGrain', 'coded_video': 'CodedVideoGrain', 'audio': 'AudioGrain', 'coded_audio': 'CodedAudioGrain',
               'event': 'EventGrain', 'empty': 'Grain'}


def expected(spec):
    """Plain data observation the spec stands for (without creation timestamp and payload)."""
    t, f = spec['type'], dict(spec['f'])
    e = {
        'class': CLASS_NAMES[t], 'type': t, 'src': spec['src'], 'flow': spec['flow'], 'ots': spec['ots'], 'sts': spec['sts'],
        'rate': tuple(spec['rate']), 'duration': tuple(spec['duration']),
        'labels': [(tag, c, tuple(r), drop) for (tag, c, r, drop) in spec['labels']],
    }
    if t == 'video':
        f['components'] = components_from(f['components'])
    if t == 'event':
        f['events'] = [dict(d) for d in f['events']]
    e['f'] = f
    return e


def _fr(x):
    return None if x is None else (x.numerator, x.denominator)


def observe(g):
    """Plain data observation of a real grain through its public attributes."""
    t = g.grain_type
    o = {
        'class': type(g).__name__, 'type': t, 'src': g.source_id.bytes, 'flow': g.flow_id.bytes,
        'ots': ts_to_ns(g.origin_timestamp), 'sts': ts_to_ns(g.sync_timestamp), 'rate': _fr(g.rate), 'duration': _fr(g.duration),
        'labels': [(tl.tag, tl.count, _fr(tl.rate), tl.drop_frame) for tl in g.timelabels],
    }
    if t == 'video':
        o['f'] = {'format': int(g.cog_frame_format), 'layout': int(g.cog_frame_layout), 'width': g.width, 'height': g.height,
                  'extension': g.extension, 'sar': _fr(g.source_aspect_ratio), 'par': _fr(g.pixel_aspect_ratio),
                  'components': [{'width': c.width, 'height': c.height, 'stride': c.stride, 'length': c.length, 'offset': c.offset}
                                 for c in g.components]}
    elif t == 'coded_video':
        o['f'] = {'format': int(g.cog_frame_format), 'layout': int(g.cog_frame_layout), 'origin_width': g.origin_width,
                  'origin_height': g.origin_height, 'coded_width': g.coded_width, 'coded_height': g.coded_height,
                  'key': g.is_key_frame, 'toff': g.temporal_offset, 'units': list(g.unit_offsets)}
    elif t == 'audio':
        o['f'] = {'format': int(g.cog_audio_format), 'channels': g.channels, 'samples': g.samples, 'sample_rate': g.sample_rate}
    elif t == 'coded_audio':
        o['f'] = {'format': int(g.cog_audio_format), 'channels': g.channels, 'samples': g.samples, 'sample_rate': g.sample_rate,
                  'priming': g.priming, 'remainder': g.remainder}
    elif t == 'event':
        o['f'] = {'event_type': g.event_type, 'topic': g.topic, 'events': [dict(d) for d in g.event_data]}
    else:
        o['f'] = {}
    return o


def payload(g):
    """The payload bytes of a real grain (b'' where there is none)."""
    d = g.data
    return b"" if d is None else bytes(d)


def event_json(f):
    return {'type': f['event_type'], 'topic': f['topic'], 'data': [dict(d) for d in f['events']]}


def strict_eq(a, b):
    """Equality that also distinguishes bool/int/float, recursively."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(strict_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(strict_eq(x, y) for x, y in zip(a, b))
    return a == b


def check_payload(g, spec, what=""):
    from .core import fail
    if spec['type'] == 'event':
        got = json.loads(payload(g).decode('utf-8'))
        if not strict_eq(got, event_json(spec['f'])):
            fail("{}: event payload {!r} is not {!r}", what, got, event_json(spec['f']))
    else:
        want = spec['data'] or b""
        if payload(g) != want:
            fail("{}: payload {!r} is not {!r}", what, payload(g)[:200], want[:200])
