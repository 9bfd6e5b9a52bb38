"""C02: bytes the GSF encoder writes conform to the published file format (independent strict reader)."""
from io import BytesIO

from hypothesis import strategies as st

from .. import aio, gen, gsfref
from ..core import Target, eq, label, nontrivial, true, fail
from ..gsfcase import file_case, mk_encoder, counts_of, created_utc, scale_st, scaled

RULE = ("Cases are whole files (segments, tags, flow metadata, grains of all types, versions 7/8/9) written by the encoder in one of its modes to a "
        "seekable or non-seekable file and parsed by an independent strict reader; large: files of which one part is made long or numerous. Non-trivial: at least one grain block or one tag/flow block.")
ASSUMPTIONS = ["field values fit the width the format gives them (the encoder does not promise to refuse values that do not)",
               "file objects write everything they are given in one call"]

MODES = ['exit', 'stream', 'pipe-exit', 'pipe-stream', 'async-exit', 'async-stream', 'async-file-stream', 'dump', 'progressive']


def write(case, mode):
    import warnings
    from mediagrains.utils.asyncbinaryio import AsyncBytesIO
    if mode.startswith('async'):
        fp = BytesIO() if mode == 'async-file-stream' else AsyncBytesIO()

        async def go():
            async with mk_encoder(case, fp, streaming=mode.endswith('stream')) as enc:
                for (lid, spec) in case['grains']:
                    await enc.add_grain(gen.build(spec), segment_local_id=lid)
        aio.run(go())
        return fp.getvalue()
    fp = aio.Pipe() if mode.startswith('pipe') else BytesIO()
    enc = mk_encoder(case, fp, streaming=mode.endswith('stream'))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if mode == 'dump':
            for (lid, spec) in case['grains']:
                enc.add_grain(gen.build(spec), segment_local_id=lid)
            enc.dump()
        elif mode == 'progressive':
            k = len(case['grains']) // 2
            for (lid, spec) in case['grains'][:k]:
                enc.add_grain(gen.build(spec), segment_local_id=lid)
            enc.start_dump()
            for (lid, spec) in case['grains'][k:]:
                enc.add_grain(gen.build(spec), segment_local_id=lid)
            enc.end_dump()
        else:
            with enc as e:
                for (lid, spec) in case['grains']:
                    e.add_grain(gen.build(spec), segment_local_id=lid)
    return fp.getvalue()


def compare_spec(got, spec, what):
    for k in ('type', 'src', 'flow', 'ots', 'sts'):
        eq(got[k], spec[k], what + " " + k)
    for k in ('rate', 'duration'):
        want = tuple(spec[k])
        eq(got[k], want, what + " " + k)
    eq(got['labels'], [(t, c, tuple(r), d) for (t, c, r, d) in spec['labels']], what + " time labels")
    f = spec['f']
    if spec['type'] == 'event':
        true(gen.strict_eq(got['f'], {'event_type': f['event_type'], 'topic': f['topic'], 'events': [dict(x) for x in f['events']]}),
             "{}: event {!r} want {!r}".format(what, got['f'], f))
    else:
        for k in f:
            w = f[k]
            if k == 'components':
                w = [tuple(x) for x in w]
            elif k in ('sar', 'par') and w is not None:
                w = tuple(w)
            eq(got['f'][k], w, what + " " + k)
        eq(got['data'], spec['data'] or b"", what + " grain data")


def check_model(m, case, counts, what=""):
    eq(m['major'], case['major'], what + "major version")
    eq(m['minor'], case['minor'], what + "minor version")
    eq(m['id'], case['id'], what + "file id")
    eq(m['created'], created_utc(case['created']), what + "creation time")
    eq(m['tags'], [tuple(t) for t in case['tags']], what + "file tags")
    eq([s['local_id'] for s in m['segments']], [s['local_id'] for s in case['segments']], what + "segments")
    for s, w in zip(m['segments'], case['segments']):
        for k in ('id', 'flow'):
            eq(s[k], None if w[k] is None else (tuple(w[k]) if k == 'flow' else w[k]), what + "segment " + k)
        eq(s['tags'], [tuple(t) for t in w['tags']], what + "segment tags")
        eq(s['count'], counts[w['local_id']], what + "grain count in the header of segment {}".format(w['local_id']))
    true(m['terminated'], what + "no terminator block")


def check_file(c):
    case, mode = c
    for (_, s) in case['grains']:
        label('type:' + s['type'])
    label('mode:' + mode)
    label('v{}'.format(case['major']))
    nontrivial(case['grains'] or case['tags'] or any(s['tags'] or s['flow'] for s in case['segments']))
    raw = write(case, mode)
    try:
        m = gsfref.parse_one(raw)
    except (gsfref.BadFile, UnicodeDecodeError, ValueError) as e:
        fail("not a conforming file: {!r}", e)
    counts = counts_of(case)
    if mode == 'pipe-stream':
        counts = {k: -1 for k in counts}
    check_model(m, case, counts)
    for s in m['segments']:
        eq(m['block_counts'].get(s['local_id'], 0), counts_of(case)[s['local_id']], "grain blocks of segment")
    order = case['grains']
    if not (mode.endswith('stream')):
        # grains given before the header is written come out segment by segment, the others after them as they are given
        k = len(order) // 2 if mode == 'progressive' else len(order)
        idx = {s['local_id']: i for i, s in enumerate(case['segments'])}
        order = sorted(order[:k], key=lambda g: idx[g[0]]) + order[k:]
        eq(sorted(lid for lid, _ in m['grains']), sorted(lid for lid, _ in order), "segments of the grain blocks")
        per = {}
        for lid, spec in order:
            per.setdefault(lid, []).append(spec)
        seen = {}
        for lid, got in m['grains']:
            i = seen.get(lid, 0)
            seen[lid] = i + 1
            compare_spec(got, per[lid][i], "segment {} grain {}".format(lid, i))
    else:
        eq([lid for lid, _ in m['grains']], [lid for lid, _ in order], "order of grain blocks")
        for i, ((_, got), (_, spec)) in enumerate(zip(m['grains'], order)):
            compare_spec(got, spec, "grain {}".format(i))
    if case['major'] == 7:
        # the deprecated field of version 7 is there (its width is what makes the rest line up); nothing more to compare
        label('v7-grains', bool(case['grains']))


def strat():
    return st.tuples(file_case(), st.sampled_from(MODES))


def strat_large():
    return st.tuples(file_case(max_grains=3), st.sampled_from(MODES), scale_st())


def check_large(c):
    case, mode, scale = c
    label('{} of {}'.format(*scale[:2]))
    check_file((scaled(case, scale), mode))


TARGETS = [Target('large', strat_large, check_large, quick=400, thorough=16000),
           Target('file', strat, check_file, quick=4800, thorough=200000)]
