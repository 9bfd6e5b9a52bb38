"""Shared pieces of the GSF checks: whole-file cases, driving the encoder, observing decoder output."""
from datetime import datetime, timedelta, timezone
from functools import lru_cache
from io import BytesIO
from uuid import UUID

from hypothesis import strategies as st

from . import gen
from .core import eq, fail, true


@lru_cache(None)
def created_st():
    return st.tuples(st.integers(1, 9999) | st.sampled_from([1970, 2000, 2024, 32, 255, 256]), st.integers(1, 12), st.integers(1, 28),
                     st.integers(0, 23), st.integers(0, 59), st.integers(0, 59), st.sampled_from([0, 1, 500000, 999999]),
                     st.one_of(st.none(), st.just(0), st.integers(-14 * 60, 14 * 60)))


def mk_datetime(c):
    tz = None if c[7] is None else timezone(timedelta(minutes=c[7]))
    return datetime(*c[:7], tzinfo=tz)


def created_utc(c):
    """Independent computation of the UTC (y, mo, d, h, mi, s) for a case datetime, None if it leaves the calendar."""
    try:
        d = datetime(*c[:6]) - timedelta(minutes=c[7] or 0)
    except OverflowError:
        return None
    return (d.year, d.month, d.day, d.hour, d.minute, d.second)


@lru_cache(None)
def tag_st():
    return st.tuples(gen.text(12), gen.text(20))


@lru_cache(None)
def tags_st():
    return st.lists(tag_st(), max_size=3)


@lru_cache(None)
def flow_st():
    return st.one_of(st.none(), st.none(), st.tuples(gen.uuid_bytes(), gen.uuid_bytes(),
                     st.one_of(st.sampled_from(["urn:x-nmos:format:video", "urn:x-nmos:format:audio"]), gen.text(64)),
                     st.one_of(st.sampled_from([b"", b"{}"]), gen.text(60).map(lambda s: s.encode()))))


@lru_cache(None)
def segments_st(max_size=3, min_size=0):
    one = st.fixed_dictionaries({'local_id': st.one_of(st.integers(0, 5), gen.u16), 'id': gen.uuid_bytes(), 'tags': tags_st(), 'flow': flow_st()})
    return st.lists(one, min_size=min_size, max_size=max_size, unique_by=lambda s: s['local_id'])


def file_case(max_grains=5, versions=(9, 9, 8, 7), max_data=40, types=gen.GRAIN_TYPES, min_segments=1, min_grains=0):
    return gen.weighted(*[(1, _file_case(max_grains, v, max_data, tuple(types), min_segments, min_grains)) for v in versions])


@lru_cache(None)
def _file_case(max_grains, major, max_data, types, min_segments, min_grains=0):
    def fix(c):
        segs = c['segments']
        grains = [(segs[i % len(segs)]['local_id'], spec) for (i, spec) in c['grains']] if segs else []
        return dict(c, grains=grains)
    return st.fixed_dictionaries({
        'major': st.just(major), 'minor': st.sampled_from([0, 0, 1, 65535]), 'id': gen.uuid_bytes(),
        'created': created_st().filter(lambda c: created_utc(c) is not None), 'tags': tags_st(), 'segments': segments_st(min_size=min_segments),
        'grains': st.lists(st.tuples(st.integers(0, 2), gen.grain_spec(version=major, max_data=max_data, types=types)), min_size=min_grains, max_size=max_grains),
    }).map(fix)


def encoder_kwargs(case):
    return dict(major=case['major'], minor=case['minor'], id=UUID(bytes=case['id']), created=mk_datetime(case['created']), tags=list(case['tags']),
                segments=[{'id': UUID(bytes=s['id']), 'local_id': s['local_id'], 'tags': list(s['tags'])} for s in case['segments']])


def mk_encoder(case, fp, **kw):
    from mediagrains.gsf import GSFEncoder
    enc = GSFEncoder(fp, **encoder_kwargs(case), **kw)
    for s in case['segments']:
        if s['flow'] is not None:
            f = s['flow']
            # str and bytes are both allowed
            data = f[3].decode('utf-8') if len(f[3]) % 2 else f[3]
            enc.segments[s['local_id']].add_flow(UUID(bytes=f[0]), UUID(bytes=f[1]), f[2], data)
    return enc


def encode(case, streaming):
    fp = BytesIO()
    with mk_encoder(case, fp, streaming=streaming) as enc:
        for (lid, spec) in case['grains']:
            enc.add_grain(gen.build(spec), segment_local_id=lid)
    return fp.getvalue()


def check_head(head, case, counts=None, what="head"):
    eq(head['id'], UUID(bytes=case['id']), what + ".id")
    c = case['created']
    want = created_utc(c) if (c is not None and len(c) == 8) else c
    got = head['created']
    if want is None:
        eq(got, None, what + ".created")
    else:
        true(isinstance(got, datetime), "{}.created is {!r}".format(what, got))
        eq(got.utcoffset(), timedelta(0), what + ".created offset")
        eq((got.year, got.month, got.day, got.hour, got.minute, got.second), tuple(want), what + ".created")
    eq([tuple(t) for t in head['tags']], [tuple(t) for t in case['tags']], what + ".tags")
    eq([s['local_id'] for s in head['segments']], [s['local_id'] for s in case['segments']], what + " segment numbers")
    for got, s in zip(head['segments'], case['segments']):
        w = "{}.segment {}".format(what, s['local_id'])
        eq(got['id'], UUID(bytes=s['id']), w + " id")
        eq([tuple(t) for t in got['tags']], [tuple(t) for t in s['tags']], w + " tags")
        if s['flow'] is None:
            true('flow' not in got or got['flow'] is None, w + " has a flow")
        else:
            f = s['flow']
            eq(got['flow'], {'source_id': UUID(bytes=f[0]), 'flow_id': UUID(bytes=f[1]), 'format': f[2], 'data': f[3].decode('utf-8')}, w + " flow")
        if counts is not None:
            eq(got['count'], counts[s['local_id']], w + " count")


def check_grain(g, spec, what="grain", with_data=True):
    o = gen.observe(g)
    e = gen.expected(spec)
    if not with_data and spec['type'] == 'event':
        o['f'] = e['f'] = {}
    if o != e:
        for k in e:
            if o.get(k) != e[k]:
                fail("{}: {} is {:.2000}, want {:.2000}", what, k, repr(o.get(k)), repr(e[k]))
        fail("{}: {!r} want {!r}", what, o, e)
    if spec['type'] == 'coded_video':
        true(type(g.is_key_frame) is type(spec['f']['key']), "{}: key frame flag {!r}".format(what, g.is_key_frame))
    if with_data:
        gen.check_payload(g, spec, what)
        if spec['type'] != 'event':
            eq(g.length, len(spec['data'] or b""), what + " length")


def counts_of(case):
    counts = {s['local_id']: 0 for s in case['segments']}
    for (lid, _) in case['grains']:
        counts[lid] = counts.get(lid, 0) + 1
    return counts


def by_segment(grains):
    d = {}
    for (lid, spec) in grains:
        d.setdefault(lid, []).append(spec)
    return d


def check_loaded(result, case, counts=None, what=""):
    head, segs = result
    check_head(head, case, counts, what + "head")
    want = by_segment(case['grains'])
    eq(set(segs), set(want), what + "segments with grains")
    for lid in want:
        eq(len(segs[lid]), len(want[lid]), what + "number of grains in segment {}".format(lid))
        for i, (g, spec) in enumerate(zip(segs[lid], want[lid])):
            check_grain(g, spec, "{}segment {} grain {}".format(what, lid, i))


# ---- files of which one part is long or numerous
PARTS = {
    'payload': [255, 256, 257, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 100000, 131072, 131073, 1 << 20, (1 << 20) + 1, 3000000],
    'huge': [(1 << 24) - 1, 1 << 24, (1 << 24) + 1],
    'units': [127, 128, 255, 256, 257, 1000, 16383, 16384, 65535],
    'labels': [127, 128, 255, 256, 257, 1000],
    'components': [127, 128, 255, 256, 257, 1000],
    'grains': [100, 255, 256, 257, 1000],
    'segments': [100, 255, 256, 257, 1000],
    'tags': [100, 255, 256, 257, 1000],
    'segtags': [100, 255, 256, 257, 1000],
    'flow': [255, 256, 4096, 65535, 65536, 65537, 300000],
    'tag text': [255, 256, 257, 4096, 65534, 65535],
    'event text': [255, 256, 4096, 65535, 65536, 70000, 300000],
    'events': [100, 256, 1000, 3000],
}


@lru_cache(None)
def scale_st(parts=tuple(sorted(set(PARTS) - {'huge'})) * 3 + ('payload',) * 8 + ('huge',)):
    return st.sampled_from(parts).flatmap(lambda p: st.tuples(st.just(p), st.sampled_from(PARTS[p]), st.integers(0, 2**32)))


def scaled(case, scale):
    """The case with a part made that long or numerous."""
    import random
    part, n, seed = scale
    rnd = random.Random(seed)
    segs = [dict(s) for s in case['segments']] or [{'local_id': 1, 'id': bytes(16), 'tags': [], 'flow': None}]
    grains = [(lid, dict(s, f=dict(s['f']))) for lid, s in case['grains']]
    case = dict(case, segments=segs, grains=grains)
    lids = [s['local_id'] for s in segs]

    def u32():
        return rnd.choice([rnd.getrandbits(32), rnd.getrandbits(8), rnd.getrandbits(16)])

    def fraction():
        f = gen.Fraction(u32(), max(1, u32()))
        return f.numerator, f.denominator

    def text(length):
        return ''.join(chr(rnd.choice((97 + rnd.getrandbits(4), 97 + rnd.getrandbits(4), 32, 47))) for _ in range(length))

    def first(kind):
        """A grain of that type, which is made of the first grain if there is none."""
        for _, s in grains:
            if s['type'] == kind:
                return s
        f = {'coded_video': {'format': gen.CODED_FORMATS[0], 'layout': gen.LAYOUTS[0], 'origin_width': 1, 'origin_height': 2, 'coded_width': 3, 'coded_height': 4, 'key': True, 'toff': 5, 'units': []},
             'video': {'format': gen.VIDEO_FORMATS[0], 'layout': gen.LAYOUTS[0], 'width': 1, 'height': 2, 'extension': 0, 'sar': None, 'par': None, 'components': []},
             'event': {'event_type': 'e', 'topic': 't', 'events': []}}[kind]
        s = dict(grains[0][1] if grains else {'src': bytes(16), 'flow': bytes(range(16)), 'ots': 1, 'sts': 2, 'cts': 3, 'rate': (25, 1), 'duration': (1, 25), 'labels': []},
                 type=kind, f=f, data=None if kind == 'event' else b"abc")
        grains.insert(rnd.randint(0, len(grains)), (rnd.choice(lids), s))
        return s
    if part in ('payload', 'huge'):
        some = [s for _, s in grains if s['type'] not in ('event',)] or [first('video')]
        rnd.choice(some)['data'] = rnd.randbytes(n)
    elif part == 'units':
        first('coded_video')['f']['units'] = [u32() for _ in range(n)]
    elif part == 'components':
        first('video')['f']['components'] = [(u32(), u32(), u32(), rnd.getrandbits(20)) for _ in range(n)]
    elif part == 'labels':
        s = grains[0][1] if grains else first('coded_video')
        s['labels'] = [(text(rnd.randint(0, 16)), u32(), fraction(), bool(rnd.getrandbits(1))) for _ in range(n)]
    elif part == 'grains':
        pattern = [s for _, s in grains] or [first('event')]
        grains.extend((rnd.choice(lids), dict(rnd.choice(pattern), ots=i * 1000, sts=rnd.getrandbits(40))) for i in range(n - len(grains)))
    elif part == 'segments':
        free = sorted(set(range(1, n + 10)) - set(lids))[:n - len(segs)]
        rnd.shuffle(free)
        segs.extend({'local_id': i, 'id': rnd.randbytes(16), 'tags': [], 'flow': None} for i in free)
        pattern = [s for _, s in grains] or [first('event')]
        grains.extend((rnd.choice(free), dict(rnd.choice(pattern), ots=i)) for i in range(5))
    elif part == 'tags':
        case['tags'] = [(text(rnd.randint(0, 5)), text(rnd.randint(0, 5))) for _ in range(n)]
    elif part == 'segtags':
        rnd.choice(segs)['tags'] = [(text(rnd.randint(0, 5)), text(rnd.randint(0, 5))) for _ in range(n)]
    elif part == 'flow':
        rnd.choice(segs)['flow'] = (rnd.randbytes(16), rnd.randbytes(16), text(64), text(n).encode())
    elif part == 'tag text':
        t = (text(n), text(9)) if seed & 1 else (text(9), text(n))
        if seed & 2:
            case['tags'] = list(case['tags']) + [t]
        else:
            s = rnd.choice(segs)
            s['tags'] = list(s['tags']) + [t]
    elif part == 'event text':
        s = first('event')
        where = seed % 3
        if where == 0:
            s['f']['event_type'] = text(n)
        elif where == 1:
            s['f']['topic'] = text(n)
        else:
            s['f']['events'] = list(s['f']['events']) + [{'path': '/p', 'post': text(n)}]
    elif part == 'events':
        first('event')['f']['events'] = [{'path': text(3), 'pre': i} if i % 3 else {'path': text(2), 'post': [i]} for i in range(n)]
    return case
