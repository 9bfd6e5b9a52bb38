"""What comparing two grains should say, computed from the plain specifications they were built from."""
import copy
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from . import gen

COMMON = ['grain_type', 'src_id', 'flow_id', 'rate', 'duration', 'length', 'origin_timestamp', 'sync_timestamp', 'creation_timestamp', 'timelabels']
SPECIFIC = {
    'event': {'event_type': 'event_type', 'topic': 'topic', 'event_data': 'events'},
    'audio': {'cog_audio_format': 'format', 'samples': 'samples', 'channels': 'channels', 'sample_rate': 'sample_rate'},
    'coded_audio': {'cog_audio_format': 'format', 'samples': 'samples', 'channels': 'channels', 'sample_rate': 'sample_rate', 'priming': 'priming', 'remainder': 'remainder'},
    'video': {'cog_frame_format': 'format', 'width': 'width', 'height': 'height', 'cog_frame_layout': 'layout'},
    'coded_video': {'cog_frame_format': 'format', 'coded_width': 'coded_width', 'coded_height': 'coded_height', 'origin_width': 'origin_width', 'origin_height': 'origin_height',
                    'is_key_frame': 'key', 'temporal_offset': 'toff', 'cog_frame_layout': 'layout', 'unit_offsets': 'units'},
    'empty': {},
}
SPEC_KEYS = {'src_id': 'src', 'flow_id': 'flow', 'rate': 'rate', 'duration': 'duration', 'origin_timestamp': 'ots', 'sync_timestamp': 'sts', 'creation_timestamp': 'cts', 'timelabels': 'labels'}
ALIASES = {'source_id': ['src_id'], 'format': ['cog_frame_format', 'cog_audio_format'], 'layout': ['cog_frame_layout']}
INTEGERS = ['length', 'samples', 'channels', 'sample_rate', 'priming', 'remainder', 'width', 'height', 'coded_width', 'coded_height', 'origin_width', 'origin_height', 'temporal_offset']
TIMES = ['origin_timestamp', 'sync_timestamp', 'creation_timestamp']
FLOATS = {0x18: 'f4', 0x19: 'f4', 0x1a: 'f4', 0x2c: 'f8', 0x2d: 'f8', 0x2e: 'f8'}


def attributes(t):
    return COMMON + list(SPECIFIC[t]) + ([] if t == 'event' else ['data'])


def payload(spec):
    return spec['data'] or b""


def same_values(fmt, a, b):
    """Whether two different float payloads hold equal values (0.0 and -0.0)."""
    dt = np.dtype(FLOATS[fmt])
    n = len(a) // dt.itemsize * dt.itemsize
    return len(a) == len(b) and a[n:] == b[n:] and bool((np.frombuffer(a[:n], dt) == np.frombuffer(b[:n], dt)).all())


def value(spec, length, attr):
    if attr == 'grain_type':
        return spec['type']
    if attr == 'length':
        return length
    if attr in SPEC_KEYS:
        v = spec[SPEC_KEYS[attr]]
        return [tuple(x) if isinstance(x, (list, tuple)) else x for x in v] if isinstance(v, list) else v
    if attr == 'data':
        return payload(spec)
    return spec['f'][SPECIFIC[spec['type']][attr]]


def differing(a, la, b, lb):
    """The attributes that differ (None in it: cannot be said)."""
    out = set()
    if a['type'] != b['type']:
        out |= {x for x in COMMON if value(a, la, x) != value(b, lb, x)} | {'data'}
        return out
    for x in attributes(a['type']):
        va, vb = value(a, la, x), value(b, lb, x)
        if va != vb:
            out.add(x)
            if x == 'data' and a['type'] == 'audio' and a['f']['format'] == b['f']['format'] and a['f']['format'] in FLOATS and same_values(a['f']['format'], va, vb):
                out.add(None)
    if a['type'] in ('video', 'coded_video', 'audio', 'coded_audio') and a['f']['format'] != b['f']['format']:
        out.add('data')
        out.discard(None)
    return out


# ---- edits

def payload_edit():
    n = st.one_of(st.integers(0, 700), st.integers(0, 70000))
    return st.one_of(st.tuples(st.just('flip'), n, st.sampled_from([1, 2, 0x40, 0x7f, 0x80, 0xff])), st.tuples(st.just('flip'), st.integers(-3, -1), st.integers(1, 255)),
                     st.tuples(st.just('append'), st.binary(min_size=1, max_size=5)), st.tuples(st.just('cut'), st.integers(1, 5)), st.tuples(st.just('swap'), n, n),
                     st.tuples(st.just('insert'), n, st.binary(min_size=1, max_size=3)))


def list_edit(item):
    i = st.integers(0, 5)
    return st.one_of(st.tuples(st.just('set'), i, item), st.tuples(st.just('insert'), i, item), st.tuples(st.just('delete'), i), st.tuples(st.just('swap'), i, i))


def near(strategy, deltas):
    return st.one_of(st.tuples(st.just('to'), strategy), st.tuples(st.just('by'), st.sampled_from(deltas)))


#: To the closest fraction on either side
PART = st.tuples(st.just('part'), st.integers(0, 3), st.sampled_from(['tag', 'count', 'numerator', 'denominator', 'drop']), st.sampled_from([1, -1, 2, 256, 65536]))
NEXT = st.tuples(st.just('next'), st.sampled_from([1, -1]))


def neighbour(n, d, side):
    """The fraction closest to n/d, above or below it, whose parts are below 2^32."""
    if (n, d) == (0, 1):
        return (1, gen.U32)
    q = (-side * pow(n, -1, d)) % d if d > 1 else 0     # p d - q n = side
    top = gen.U32 if n <= d else gen.U32 * d // n
    q += (top - q) // d * d
    p = (q * n + side) // d
    return (p, q) if 0 <= p <= gen.U32 and 0 < q <= gen.U32 else (n, d)


def edit_for(spec):
    """Strategy for one edit (key path, how) of a spec."""
    t = spec['type']
    ts = near(gen.ts_ns(), [1, -1, 10**9, -10**9, 40000000, 1001])
    fields = [('src', st.tuples(st.just('to'), gen.uuid_bytes())), ('flow', st.tuples(st.just('to'), gen.uuid_bytes())), ('ots', ts), ('sts', ts), ('cts', ts),
              ('rate', st.one_of(st.tuples(st.just('to'), gen.rational()), NEXT)), ('duration', st.one_of(st.tuples(st.just('to'), gen.rational()), NEXT)),
              ('labels', st.tuples(st.just('label'), st.integers(0, 3), st.integers(0, 3), gen.timelabel())), ('labels', PART), ('labels', st.tuples(st.just('list'), list_edit(gen.timelabel())))]
    if t != 'event':
        fields += [('data', st.tuples(st.just('data'), payload_edit()))] * 4
    for k in SPECIFIC[t].values():
        if k == 'units':
            how = st.tuples(st.just('list'), list_edit(gen.u32))
        elif k == 'events':
            how = st.one_of(st.tuples(st.just('list'), list_edit(gen.event_datum())),
                            st.tuples(st.just('event'), st.integers(0, 3), st.sampled_from(['pre', 'post']), st.one_of(st.just('remove'), st.just((None,)), st.tuples(gen.json_values()))))
        elif k == 'format':
            how = st.tuples(st.just('to'), st.sampled_from({'video': gen.VIDEO_FORMATS, 'coded_video': gen.CODED_FORMATS, 'audio': gen.AUDIO_FORMATS, 'coded_audio': gen.CODED_AUDIO_FORMATS}[t]))
        elif k == 'layout':
            how = st.tuples(st.just('to'), st.sampled_from(gen.LAYOUTS))
        elif k == 'key':
            how = st.tuples(st.just('to'), st.sampled_from([True, False, None]))
        elif k == 'toff':
            how = near(st.one_of(st.none(), st.integers(-5, 5)), [1, -1, 5])
        elif k in ('event_type', 'topic'):
            how = st.tuples(st.just('to'), st.text(max_size=10))
        elif k in ('channels',):
            how = near(gen.u16, [1, -1, 16])
        else:
            how = near(gen.u32, [1, -1, 256, 65536])
        fields.append((('f', k), how))
    return st.sampled_from(fields).flatmap(lambda f: f[1].map(lambda how: (f[0], how)))


def edit_list(x, op):
    x = list(x)
    if op[0] == 'insert':
        x.insert(op[1], op[2])
    elif x:
        i = op[1] % len(x)
        if op[0] == 'set':
            x[i] = op[2]
        elif op[0] == 'delete':
            del x[i]
        else:
            j = op[2] % len(x)
            x[i], x[j] = x[j], x[i]
    return x


def edit_payload(d, op):
    d = bytearray(d)
    if op[0] == 'append':
        return bytes(d) + op[1]
    if not d:
        return b"\x01"
    if op[0] == 'cut':
        return bytes(d[:-op[1]])
    i = op[1] % len(d)
    if op[0] == 'flip':
        d[i] ^= op[2]
    elif op[0] == 'swap':
        j = op[2] % len(d)
        d[i], d[j] = d[j], d[i]
    else:
        d[i:i] = op[2]
    return bytes(d)


LIMITS = {'channels': gen.U16}


def edit_part(lab, which, by):
    """A time label with one number, or the end of its tag, changed as little as can be"""
    tag, count, (n, d), drop = lab
    lim = lambda v, lo: min(max(v, lo), gen.U32)   # noqa: E731
    if which == 'tag':
        tag = tag[:-1] + ('b' if tag[-1:] == 'a' else 'a')
    elif which == 'count':
        count = lim(count + by, 0)
    elif which == 'drop':
        drop = not drop
    elif n:
        f = Fraction(lim(n + by, 1), d) if which == 'numerator' else Fraction(n, lim(d + by, 1))
        n, d = f.numerator, f.denominator
    return (tag, count, (n, d), drop)


def apply(spec, edit):
    spec = copy.deepcopy(spec)
    key, how = edit
    holder, k = (spec['f'], key[1]) if isinstance(key, tuple) else (spec, key)
    if how[0] == 'to':
        holder[k] = how[1]
    elif how[0] == 'next':
        holder[k] = neighbour(*holder[k], how[1])
    elif how[0] == 'by':
        v = (holder[k] or 0) + how[1]
        holder[k] = v if k in ('toff', 'ots', 'sts', 'cts') else min(max(v, 0), LIMITS.get(k, gen.U32))
    elif how[0] == 'list':
        holder[k] = edit_list(holder[k], how[1])
    elif how[0] == 'label':
        if holder[k]:
            i = how[1] % len(holder[k])
            x = list(holder[k][i])
            x[how[2]] = how[3][how[2]]
            holder[k][i] = tuple(x)
    elif how[0] == 'part':
        if holder[k]:
            i = how[1] % len(holder[k])
            holder[k][i] = edit_part(holder[k][i], how[2], how[3])
    elif how[0] == 'event':
        if holder[k]:
            d = dict(holder[k][how[1] % len(holder[k])])
            if how[3] == 'remove':
                d.pop(how[2], None)
            else:
                d[how[2]] = how[3][0]
            holder[k][how[1] % len(holder[k])] = d
    elif how[0] == 'data':
        holder[k] = edit_payload(payload(spec), how[1])
    return spec


def payloads():
    """Payloads long and short, varied and uniform."""
    small = st.binary(max_size=40)
    big = st.tuples(st.integers(190, 420), st.sampled_from([1, 2, 5, 256]), st.integers(0, 2**31)).map(
        lambda t: np.random.RandomState(t[2]).randint(0, t[1], t[0]).astype(np.uint8).tobytes())
    nans = st.lists(st.sampled_from([b"\x00\x00\xc0\x7f", b"\x00\x00\x80\x3f", b"\x00\x00\x00\x00\x00\x00\xf8\x7f", b"\x00\x00\x00\x80", b"\xff\xff\xff\xff"]), max_size=8).map(b"".join)
    # (few different values, for the time it takes)
    long = st.tuples(st.one_of(st.integers(1000, 9000), st.integers(9000, 70000)), st.sampled_from([1, 2]), st.integers(0, 2**31)).map(
        lambda t: np.random.RandomState(t[2]).randint(0, t[1], t[0]).astype(np.uint8).tobytes())
    return gen.weighted((12, small), (3, big), (3, nans), (1, long))


def specs(types=gen.GRAIN_TYPES):
    def with_data(s):
        return st.just(s) if s['type'] == 'event' else payloads().map(lambda d: dict(s, data=d))
    return gen.grain_spec(9, types).flatmap(with_data)


def timestamps_ok(*specs):
    """Whether all differences of timestamps can be represented."""
    lim = (2**48 - 1) * 10**9
    return all(abs(x[k]) <= lim and abs(x[k] - y[k]) <= lim for x in specs for y in specs for k in ('ots', 'sts', 'cts'))


SETTERS = {'src': 'source_id', 'flow': 'flow_id', 'ots': 'origin_timestamp', 'sts': 'sync_timestamp', 'cts': 'creation_timestamp', 'rate': 'rate', 'duration': 'duration', 'labels': 'timelabels',
           'format': {'video': 'cog_frame_format', 'coded_video': 'cog_frame_format', 'audio': 'cog_audio_format', 'coded_audio': 'cog_audio_format'}, 'layout': 'cog_frame_layout',
           'key': 'is_key_frame', 'toff': 'temporal_offset', 'units': 'unit_offsets', 'events': 'event_data'}


def put(g, old, new):
    """Change a grain built for one spec into one for another of the same type, through its attributes and its payload."""
    for holder, was, now in ((None, old, new), ('f', old['f'], new['f'])):
        for k in now:
            v = now[k]
            if k in ('type', 'f', 'components') or v == was[k]:
                continue
            if k == 'data':
                v = v or b""
                if isinstance(g.data, bytearray) and len(g.data) == len(v):
                    g.data[:] = v
                else:
                    g.data = bytearray(v)
                continue
            name = SETTERS.get(k, k)
            if isinstance(name, dict):
                name = name[new['type']]
            if k in ('src', 'flow'):
                v = gen.UUID(bytes=v)
            elif k in ('ots', 'sts', 'cts'):
                v = gen.mk_ts(v)
            elif k in ('rate', 'duration', 'sar', 'par'):
                v = gen.Fraction(*v)
            elif k == 'labels':
                g.timelabels = []
                for tag, count, rate, drop in v:
                    g.add_timelabel(tag, count, gen.Fraction(*rate), drop)
                continue
            elif k == 'units':
                v = list(v)
            elif k == 'events':
                v = [dict(d) for d in v]
            setattr(g, name, v)
