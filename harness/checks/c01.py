"""C01: a GSF file gives back exactly the grains that were written to it."""
from io import BytesIO
from uuid import UUID

from hypothesis import strategies as st

from .. import gen
from ..core import Target, eq, label, nontrivial, true, fail
from ..gsfcase import (file_case, encode, check_loaded, counts_of, check_head, check_grain, mk_datetime, tags_st, created_st,
                       created_utc, scale_st, scaled)

RULE = ("Cases are whole files: 1-3 segments with tags and flow metadata, 0-5 grains of the six types with extreme field values, versions 7/8/9, "
        "all writing and reading calls; large: files of which one part (a payload, a list, a text, the number of grains, segments or tags) is made long; alike: grains that are the one before but for one field, list entry or byte; held: payloads of every kind of object that one may be. Non-trivial: at least one grain that has a payload, a time label, or a non-default type field.")


def strat():
    return st.tuples(file_case(), st.sampled_from(['exit', 'stream']), st.sampled_from(['loads', 'load', 'session', 'decode']))


def classify(case):
    for (_, s) in case['grains']:
        label('type:' + s['type'])
        label('labels', bool(s['labels']))
        label('negative-ts', s['ots'] < 0 or s['sts'] < 0)
        label('empty-payload', not s['data'])
    label('v{}'.format(case['major']))
    label('multi-segment', len(case['segments']) > 1)
    nontrivial(any(s['data'] or s['labels'] or s['f'] for (_, s) in case['grains']))


def read(raw, how):
    from mediagrains.gsf import loads, load, GSFDecoder, GrainDataLoadingMode
    if how == 'loads':
        return loads(raw)
    if how == 'load':
        return load(BytesIO(raw))
    if how == 'decode':
        return GSFDecoder().decode(raw)
    segs = {}
    with GSFDecoder(file_data=BytesIO(raw)) as dec:
        for (g, lid) in dec.grains(loading_mode=GrainDataLoadingMode.LOAD_IMMEDIATELY):
            segs.setdefault(lid, []).append(g)
        return (dec.file_headers, segs)


def check_file(c):
    case, mode, how = c
    classify(case)
    raw = encode(case, streaming=(mode == 'stream'))
    check_loaded(read(raw, how), case, counts_of(case))
    # order across segments, when written in one go grain by grain
    if mode == 'stream':
        from mediagrains.gsf import GSFDecoder
        with GSFDecoder(file_data=BytesIO(raw)) as dec:
            got = [lid for (g, lid) in dec.grains()]
        eq(got, [lid for (lid, _) in case['grains']], "order of grains in the file")


def strat_dumps():
    return st.tuples(st.sampled_from([9, 9, 8, 7]).flatmap(lambda v: st.tuples(st.just(v), st.lists(gen.grain_spec(version=v), max_size=4))),
                     gen.uuid_bytes(), created_st().filter(lambda c: created_utc(c) is not None), tags_st(), st.one_of(st.none(), tags_st()), st.booleans())


def strat_alike():
    """Grains that are the one before them but for one part."""
    from .. import compare_model as M

    def more(s):
        return st.lists(st.tuples(st.integers(0, 3), gen.weighted((3, M.edit_for(s)), (1, st.tuples(st.just('labels'), M.PART)))), min_size=1, max_size=4).map(lambda es: grow(s, es))

    def grow(s, edits):
        out = [s]
        for i, e in edits:
            new = M.apply(out[i % len(out)], e)
            # as far as the file can hold it
            if -2**31 <= (new['f'].get('toff') or 0) < 2**31 - 1 and all(abs(new[k]) < 2**48 * 10**9 for k in ('ots', 'sts', 'cts')):
                out.append(new)
        return out
    spec = gen.weighted((3, gen.grain_spec(9)), (1, gen.grain_spec(9).filter(lambda s: s['labels'])), (1, st.tuples(gen.grain_spec(9), gen.timelabel()).map(lambda t: dict(t[0], labels=[t[1]]))))
    return st.tuples(spec.flatmap(more).map(lambda specs: (9, specs)), gen.uuid_bytes(), created_st().filter(lambda c: created_utc(c) is not None), tags_st(), st.one_of(st.none(), tags_st()), st.booleans())


def check_dumps(c):
    from mediagrains.gsf import dumps, dump, loads
    (major, specs), fid, created, tags, segtags, use_dump = c
    for s in specs:
        label('type:' + s['type'])
    nontrivial(any(s['data'] or s['labels'] or s['f'] for s in specs))
    kw = dict(major=major, id=UUID(bytes=fid), created=mk_datetime(created), tags=tags)
    if segtags is not None:
        kw['segment_tags'] = segtags
    grains = [gen.build(s) for s in specs]
    if use_dump:
        fp = BytesIO()
        dump(iter(grains), fp, **kw)
        raw = fp.getvalue()
    else:
        raw = dumps(grains, **kw)
    head, segs = loads(raw)
    eq(len(head['segments']), 1, "number of segments")
    seg = head['segments'][0]
    case = {'id': fid, 'created': created, 'tags': tags,
            'segments': [{'local_id': 1, 'id': seg['id'].bytes, 'tags': segtags or [], 'flow': None}], 'grains': [(1, s) for s in specs]}
    check_loaded((head, segs), case, {1: len(specs)})
    # a second trip is a fixed point: what was read writes the same grains again
    if specs:
        head2, segs2 = loads(dumps(segs[1], **kw))
        check_loaded((head2, segs2), dict(case, segments=[dict(case['segments'][0], id=head2['segments'][0]['id'].bytes)]), {1: len(specs)}, "second trip: ")
    # the grains given are not altered by writing
    for g, s in zip(grains, specs):
        check_grain(g, s, "source grain after writing")


def strat_overlong():
    t = st.text(alphabet="aé€😀", min_size=1, max_size=30)
    return st.tuples(t, st.integers(0, 40), st.sampled_from(['label', 'key', 'val', 'format', 'segkey', 'segval']))


def longest_prefix(s, n):
    while len(s.encode('utf-8')) > n:
        s = s[:-1]
    return s


def check_overlong(c):
    """Text longer than its field still gives a readable file, holding the longest prefix that fits."""
    from mediagrains import GrainFactory
    from mediagrains.gsf import GSFEncoder, loads
    t, k, where = c
    limit = {'label': 16, 'format': 64}.get(where, 65535)
    s = t
    if limit == 65535:
        s = 'x' * (limit - k) + t
    else:
        s = ('x' * k)[:limit] + t + t
    want = longest_prefix(s, limit)
    label('split-character', len(s.encode()) > limit and len(want.encode()) != limit)
    label('over', len(s.encode()) > limit)
    nontrivial(len(s.encode()) > limit)
    fp = BytesIO()
    kw = {'tags': [(s if where == 'key' else 'k', s if where == 'val' else 'v')]}
    enc = GSFEncoder(fp, **kw)
    seg = enc.add_segment(tags=[(s if where == 'segkey' else 'k', s if where == 'segval' else 'v')])
    u = UUID(bytes=bytes(range(16)))
    seg.add_flow(u, u, s if where == 'format' else 'f', '{}')
    g = GrainFactory(src_id=u, flow_id=u)
    g.add_timelabel(s if where == 'label' else 't', 1, 25)
    with enc as e:
        e.add_grain(g)
    head, segs = loads(fp.getvalue())
    got = {'key': head['tags'][0][0], 'val': head['tags'][0][1], 'segkey': head['segments'][0]['tags'][0][0],
           'segval': head['segments'][0]['tags'][0][1], 'format': head['segments'][0]['flow']['format'], 'label': segs[1][0].timelabels[0].tag}
    defaults = {'key': 'k', 'val': 'v', 'segkey': 'k', 'segval': 'v', 'format': 'f', 'label': 't'}
    for n in got:
        eq(got[n], want if n == where else defaults[n], "text field " + n)


def strat_large():
    return st.tuples(file_case(max_grains=3), st.sampled_from(['exit', 'stream']), st.sampled_from(['loads', 'load', 'session', 'decode']), scale_st())


def check_large(c):
    case, mode, how, scale = c
    label('{} of {}'.format(*scale[:2]))
    nontrivial()
    case = scaled(case, scale)
    check_loaded(read(encode(case, streaming=(mode == 'stream')), how), case, counts_of(case), "{} {}: ".format(*scale[:2]))


class Bytesable:
    """A payload that only knows how to become bytes."""
    def __init__(self, b):
        self.b = b

    def __bytes__(self):
        return self.b


HOLDERS = ['bytes', 'bytearray', 'object', 'iobytes', 'view', 'view of items', 'array u1', 'array <i2', 'array i2', 'array i4', 'array f4', 'array >i2', 'array rows', 'array columns', 'array read-only', 'array strided']


def hold(data, kind):
    """The payload in one of the forms that it may have, as its bytes and the object."""
    import numpy
    from mediagrains.utils.iobytes import IOBytes
    if kind == 'bytes':
        return data, data
    if kind == 'bytearray':
        return data, bytearray(data)
    if kind == 'object':
        return data, Bytesable(data)
    if kind == 'iobytes':
        return data, IOBytes(BytesIO(b"*****" + data + b"***"), 5, len(data))
    if kind == 'view':
        return data, memoryview(b"**" + data + b"***")[2:2 + len(data)]
    if kind == 'view of items':
        data = data[:len(data) // 4 * 4]
        return data, memoryview(bytearray(data)).cast('i')
    kind = kind[6:]
    if kind == 'strided':
        return data[::2], numpy.frombuffer(data, dtype='u1')[::2]
    if kind in ('rows', 'columns'):
        data = data[:len(data) // 12 * 12]
        a = numpy.frombuffer(data, dtype='i2').reshape((-1, 6))
        return (data, a) if kind == 'rows' else (a.T.tobytes(), a.T)
    if kind == 'read-only':
        data = data[:len(data) // 2 * 2]
        return data, numpy.frombuffer(data, dtype='i2')
    n = int(kind[-1])
    data = data[:len(data) // n * n]
    return data, numpy.array(numpy.frombuffer(data, dtype=kind))


def strat_held():
    spec = st.tuples(gen.grain_spec(version=9).filter(lambda s: s['type'] not in ('event', 'empty')), st.one_of(st.binary(max_size=60), st.just(bytes(range(48)))), st.sampled_from(HOLDERS))
    return st.tuples(st.lists(spec, min_size=1, max_size=4), st.sampled_from(['dumps', 'exit', 'stream', 'async exit', 'async stream']), st.booleans())


def check_held(c):
    """Grains whose payload is any of the objects that a payload may be: the file has its bytes."""
    from mediagrains.gsf import dumps, GSFEncoder, loads
    from mediagrains.utils.asyncbinaryio import AsyncBytesIO
    from .. import aio, gsfref
    specs, how, later = c
    grains, want = [], []
    for s, data, kind in specs:
        label(kind)
        data, d = hold(data, kind)
        g = gen.build(s, None if later else d)
        if later:
            g.data = d
        what = "{} grain with {} of {} bytes: ".format(s['type'], kind, len(data))
        eq(g.length, len(data), what + "length")
        eq(bytes(g), data, what + "bytes")
        grains.append(g)
        want.append(dict(s, data=data))
    nontrivial(any(len(w['data']) for w in want) and any(x[2] != 'bytes' for x in specs))
    if how == 'dumps':
        raw = dumps(grains)
    else:
        f = AsyncBytesIO(b"") if how.startswith('async') else BytesIO()
        e = GSFEncoder(f, streaming=how.endswith('stream'))
        e.add_segment(local_id=1)
        if how.startswith('async'):
            async def go():
                async with e as enc:
                    await enc.add_grains(grains)
            aio.run(go())
        else:
            with e as enc:
                enc.add_grains(grains)
        raw = f.getvalue()
    m = gsfref.parse_one(raw)
    eq([x['data'] for _, x in m['grains']], [w['data'] for w in want], "payloads in the file ({})".format([x[2] for x in specs]))
    true(m['terminated'], "no terminator")
    got = loads(raw)[1][1]
    eq(len(got), len(want), "grains read")
    for g, w in zip(got, want):
        check_grain(g, w, "grain read")


TARGETS = [
    Target('held', strat_held, check_held, quick=1000, thorough=40000),
    Target('large', strat_large, check_large, quick=400, thorough=16000),
    Target('file', strat, check_file, quick=4000, thorough=160000),
    Target('dumps', strat_dumps, check_dumps, quick=2400, thorough=80000),
    Target('alike', strat_alike, check_dumps, quick=1200, thorough=60000),
    Target('overlong', strat_overlong, check_overlong, quick=400, thorough=4000, shards=2),
]
