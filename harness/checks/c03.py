"""C03: the GSF decoder reads any conforming file, skipping what it does not know (independent writer)."""
from io import BytesIO, BufferedReader
from uuid import UUID

from hypothesis import strategies as st

from .. import aio, gen, gsfref
from ..core import Target, eq, label, nontrivial, true, raises
from ..gsfcase import file_case, check_head, check_grain, scale_st, scaled

RULE = ("Cases are 1-3 concatenated files produced by an independent writer that uses the freedoms of the format (unknown and fill blocks, extra trailing "
        "properties, non-1 booleans, bytes after a string's NUL, null and unreduced rationals, null creation time, any child order, missing terminator, "
        "arbitrary counts), read by every reading call; large: one of the files has a long part or a long unknown block. Non-trivial: at least one such freedom used, or more than one file.")
ASSUMPTIONS = ["extra properties are appended only to blocks that have no sub-blocks (elsewhere they cannot be told from a block)"]

HOW = ['loads', 'load', 'decode', 'sync', 'async-bytes', 'async-load', 'async-file', 'async-bufreader']


def strat_one():
    case = st.tuples(file_case(max_grains=3, min_segments=0), st.tuples(st.integers(0, 2**32), st.sampled_from([0, 1, 2, 4, 8, 16])), st.booleans(), st.booleans(),
                     st.lists(st.sampled_from([-1, 0, 1, 5, 2**40, -2**63, 2**63 - 1]), max_size=3), st.booleans())
    return case


def strat():
    return st.tuples(st.lists(strat_one(), min_size=1, max_size=3), st.sampled_from(HOW), st.sampled_from([None, True, False]))


def assemble(one, big=None):
    """(bytes, model, freedoms used)"""
    case, choices, null_created, terminated, counts, orphan = one
    m = dict(case)
    if null_created:
        m['created'] = None
    else:
        m['created'] = tuple(case['created'][:6])
    m['segments'] = [dict(s, count=counts[i] if i < len(counts) else 0) for i, s in enumerate(case['segments'])]
    m['terminated'] = terminated
    if orphan and case['grains']:       # a grain whose segment number has no segment block
        used = {s['local_id'] for s in case['segments']}
        lid = next(i for i in range(77, 65536) if i not in used)
        m['grains'] = case['grains'] + [(lid, case['grains'][0][1])]
    p = gsfref.Plan(*choices, big=big)
    raw = gsfref.write(m, p)
    used = set(p.used)
    if null_created:
        used.add('null-created')
    if not terminated:
        used.add('unterminated')
    return raw, m, used


def read(raw, how, concat):
    """(head, [(local_id, grain)]) through one of the reading calls; list in file order or grouped."""
    from mediagrains.gsf import loads, load, GSFDecoder, GrainDataLoadingMode
    from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncFileWrapper
    kw = {} if concat is None else {'support_concatenation': concat}
    imm = GrainDataLoadingMode.LOAD_IMMEDIATELY
    if how in ('loads', 'load', 'decode', 'async-load'):
        if how == 'loads':
            head, segs = loads(raw, **kw)
        elif how == 'load':
            head, segs = load(BytesIO(raw), **kw)
        elif how == 'decode':
            head, segs = GSFDecoder(**kw).decode(raw)
        else:
            head, segs = aio.run(load(AsyncBytesIO(raw), **kw))
        return head, None, {k: list(v) for k, v in segs.items()}
    seq = []
    if how == 'sync':
        fp = BytesIO(raw)
        with GSFDecoder(file_data=fp, **kw) as dec:
            for (g, lid) in dec.grains(loading_mode=imm):
                seq.append((lid, g))
            head = dec.file_headers
    else:
        fp = AsyncBytesIO(raw) if how == 'async-bytes' else AsyncFileWrapper(BufferedReader(BytesIO(raw)) if how == 'async-bufreader' else BytesIO(raw))

        async def go():
            out = []
            async with GSFDecoder(file_data=fp, **kw) as dec:
                async for (g, lid) in dec.grains(loading_mode=imm):
                    out.append((lid, g))
                return dec.file_headers, out
        head, seq = aio.run(go())
    segs = {}
    for lid, g in seq:
        segs.setdefault(lid, []).append(g)
    return head, seq, segs


def check(c):
    ones, how, concat = c
    run_check([assemble(o) for o in ones], how, concat)


def run_check(parts, how, concat):
    raw = b"".join(p[0] for p in parts)
    used = set().union(*(p[2] for p in parts))
    for u in used:
        label('freedom:' + u)
    label('how:' + how)
    label('concatenated', len(parts) > 1)
    nontrivial(used or len(parts) > 1)
    head, seq, segs = read(raw, how, concat)
    models = [p[1] for p in parts]
    if concat is False:
        models = models[:1]
    last = models[-1]
    check_head(head, last, {s['local_id']: s['count'] for s in last['segments']})
    want = [g for m in models for g in m['grains']]
    per = {}
    for lid, spec in want:
        per.setdefault(lid, []).append(spec)
    if seq is not None:
        eq([lid for lid, _ in seq], [lid for lid, _ in want], "segment numbers in file order")
    eq(sorted(segs), sorted(per), "segments with grains")
    for lid in per:
        eq(len(segs[lid]), len(per[lid]), "grains in segment {}".format(lid))
        for i, (g, spec) in enumerate(zip(segs[lid], per[lid])):
            check_grain(g, spec, "segment {} grain {}".format(lid, i))


def strat_large():
    big = st.tuples(st.integers(0, 12), st.sampled_from([255, 256, 4096, 8191, 65535, 65536, 65537, 131072, 300000, 1 << 20, (1 << 20) + 1]))
    return st.tuples(st.lists(strat_one(), min_size=1, max_size=2), st.sampled_from(HOW), st.sampled_from([None, True]), st.integers(0, 1),
                     st.one_of(st.tuples(st.none(), big), st.tuples(scale_st(), st.none()), st.tuples(scale_st(), big)))


def check_large(c):
    """One of the files has a long part, or a long block that is to be ignored."""
    ones, how, concat, which, (scale, big) = c
    which = min(which, len(ones) - 1)
    parts = []
    for i, one in enumerate(ones):
        if i == which:
            if scale:
                label('{} of {}'.format(*scale[:2]))
                one = (scaled(one[0], scale),) + one[1:]
            parts.append(assemble(one, big))
        else:
            parts.append(assemble(one))
    nontrivial()
    run_check(parts, how, concat)


def strat_refuse():
    return st.tuples(strat_one(), st.one_of(
        st.tuples(st.just('version'), st.one_of(st.integers(0, 6), st.integers(10, 65535))),
        st.tuples(st.just('magic'), st.tuples(st.integers(0, 7), st.integers(1, 127))),
        st.tuples(st.just('nohead'), st.just(0)),
        st.tuples(st.just('text'), st.text(max_size=30))), st.sampled_from(['sync', 'loads', 'async-bytes', 'async-load']), st.booleans())


def check_refuse(c):
    from mediagrains.gsf import GSFDecodeError, GSFDecodeBadFileTypeError, GSFDecodeBadVersionError, GSFError
    one, (what, arg), how, second = c
    raw, m, _ = assemble(one)
    nontrivial()
    label(what)
    b = bytearray(raw)
    if what == 'version':
        b[8:10] = arg.to_bytes(2, 'little')
        e = raises(GSFDecodeBadVersionError, lambda: read(bytes(b), how, None), "version {} file".format(arg))
        eq((e.major, e.minor), (arg, m['minor']), "version in the error")
    elif what == 'magic':
        b[arg[0]] ^= arg[1]
        # 7-bit changes keep the signature ASCII: it must be reported as the wrong file type
        e = raises(GSFDecodeBadFileTypeError, lambda: read(bytes(b), how, None), "wrong signature")
        eq(e.filetype.rstrip("\0"), bytes(b[:8]).decode('ascii').split("\0")[0], "file type in the error") if 0 not in b[:8] else None
    elif what == 'nohead':
        e = raises(GSFDecodeError, lambda: read(bytes(b[:12]), how, None), "no head block")
    else:
        junk = arg.encode()
        if junk[:8] == b"SSBBgrsg":
            return
        raises((GSFError, EOFError), lambda: read(junk, how, None), "not a GSF file at all")
    true(issubclass(GSFDecodeBadFileTypeError, GSFDecodeError) and issubclass(GSFDecodeError, GSFError), "error classes")


TARGETS = [
    Target('large', strat_large, check_large, quick=400, thorough=16000),
    Target('file', strat, check, quick=4000, thorough=160000),
    Target('refuse', strat_refuse, check_refuse, quick=1200, thorough=30000),
]
