"""C06: damaged GSF input never yields invented grains or undocumented failures."""
import asyncio
import json
from io import BytesIO, BufferedReader

from hypothesis import strategies as st

from .. import aio, gen, gsfref
from ..core import Target, Violation, eq, fail, label, nontrivial, true
from ..gsfcase import file_case, check_grain, scale_st, scaled

RULE = ("cut: files of 1-4 grains (independent writer), each cut at up to 14 bytes (arbitrary and next to block boundaries) and read by every kind of reader and loading "
        "mode; non-trivial: some cut fell inside a grain; cut-large: the same with files of which one part is made long or numerous. mutate: 1-4 edits (overwrite, insert, delete, duplicate, set a size or count field) of such files; "
        "non-trivial: the damaged file still opened, or differs in its header.")
ASSUMPTIONS = ["documented errors are GSFDecodeError and its subclasses and EOFError; an unreadable event payload may also give ValueError",
               "data that is deferred may report the damage when it is touched"]

CUT_READERS = ['sync-imm', 'sync-lazy', 'sync-never', 'loads', 'stream', 'buffered-imm', 'async-bytes', 'async-bytes-lazy', 'async-wrapper', 'async-wrapper-lazy',
               'async-wrapper-load', 'async-stream', 'async-never']


def small_file():
    return gen.weighted((3, file_case(max_grains=3, min_grains=1, max_data=24)), (1, file_case(max_grains=4, min_grains=2, max_data=8, types=['event', 'audio', 'empty'])))


def model(case, terminated=True):
    return dict(case, created=tuple(case['created'][:6]), terminated=terminated, segments=[dict(s, count=0) for s in case['segments']])


def top_blocks(raw):
    """[(tag, start, end)] of the blocks after the header."""
    out = []
    pos = 12
    while pos + 8 <= len(raw):
        size = int.from_bytes(raw[pos + 4:pos + 8], "little")
        out.append((raw[pos:pos + 4], pos, pos + max(8, size)))
        pos += max(8, size)
    return out


def inner_boundaries(raw):
    marks = set()
    for tag in (b"grai", b"gbhd", b"grdt", b"head", b"segm", b"tag ", b"flow", b"tils", b"vghd", b"cghd", b"aghd", b"cahd", b"eghd", b"comp", b"unof"):
        i = raw.find(tag)
        while i >= 0:
            marks |= {i, i + 4, i + 8}
            i = raw.find(tag, i + 1)
    return sorted(marks)


async def _drain(raw, how):
    from mediagrains.gsf import GSFDecoder, GrainDataLoadingMode as M
    from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncFileWrapper, AsyncStreamWrapper
    if how.startswith('async-bytes'):
        f = AsyncBytesIO(raw)
    elif how == 'async-stream':
        r = asyncio.StreamReader()
        r.feed_data(raw)
        r.feed_eof()
        f = AsyncStreamWrapper(r)
    else:
        f = AsyncFileWrapper(BytesIO(raw))
    mode = {'lazy': M.ALWAYS_DEFER_LOAD_IF_POSSIBLE, 'load': M.ALWAYS_LOAD_DEFER_IF_POSSIBLE, 'never': M.LOAD_NEVER}.get(how.split('-')[-1], M.LOAD_IMMEDIATELY)
    out = []
    err = None
    try:
        async with GSFDecoder(file_data=f) as dec:
            try:
                async for (g, lid) in dec.grains(loading_mode=mode):
                    out.append([lid, g, None])
            except Exception as e:
                err = e
            if mode is M.ALWAYS_DEFER_LOAD_IF_POSSIBLE:
                for it in out:
                    try:
                        await it[1]
                    except (EOFError, ValueError) as e:
                        it[2] = e
        return out, err
    except Exception as e:
        if mode is M.ALWAYS_LOAD_DEFER_IF_POSSIBLE:
            for it in out[-1:]:
                it[2] = e
        return out, e


def read_all(raw, how):
    """([[local id, grain, error in data or None]], error that ended the reading or None)"""
    from mediagrains.gsf import GSFDecoder, GrainDataLoadingMode as M, loads
    if how.startswith('async'):
        return aio.run(_drain(raw, how))
    out = []
    if how == 'loads':
        try:
            _, segs = loads(raw)
        except Exception as e:
            return None, e
        return segs, None
    fp = aio.Stream(raw) if how == 'stream' else BufferedReader(BytesIO(raw), 32) if how.startswith('buffered') else BytesIO(raw)
    mode = {'lazy': M.ALWAYS_DEFER_LOAD_IF_POSSIBLE, 'never': M.LOAD_NEVER}.get(how.split('-')[-1], M.LOAD_IMMEDIATELY)
    try:
        with GSFDecoder(file_data=fp) as dec:
            for (g, lid) in dec.grains(loading_mode=mode):
                out.append([lid, g, None])
        return out, None
    except Exception as e:
        return out, e


def documented(e, event_ok=True):
    from mediagrains.gsf import GSFDecodeError
    return isinstance(e, (GSFDecodeError, EOFError)) or (event_ok and isinstance(e, ValueError))


def strat_cut():
    return st.tuples(st.lists(st.tuples(small_file(), st.tuples(st.integers(0, 2**32), st.sampled_from([0, 0, 2, 8])), st.booleans()), min_size=1, max_size=2),
                     st.lists(st.tuples(st.booleans(), st.integers(0, 4000), st.sampled_from(CUT_READERS)), min_size=3, max_size=14))


def strat_cut_large():
    return st.tuples(st.tuples(small_file(), st.tuples(st.integers(0, 2**32), st.sampled_from([0, 0, 2, 8])), st.booleans()),
                     scale_st(('payload', 'payload', 'payload', 'payload', 'units', 'labels', 'components', 'grains', 'segments', 'segtags', 'flow', 'tag text', 'event text', 'events')),
                     st.lists(st.tuples(st.booleans(), st.integers(0, 2**32), st.sampled_from(CUT_READERS)), min_size=2, max_size=5))


def check_cut_large(c):
    (case, plan, term), scale, cuts = c
    label('{} of {}'.format(*scale[:2]))
    check_cut(([(scaled(case, scale), plan, term)], cuts))


def check_cut(c):
    ones, cuts = c
    parts = [gsfref.write(model(case, term), gsfref.Plan(*plan)) for (case, plan, term) in ones]
    raw = b"".join(parts)
    specs = [g for (case, _, _) in ones for g in case['grains']]
    grains = []
    base = 0
    for p in parts:
        grains += [(base + a, base + b) for (tag, a, b) in top_blocks(p) if tag == b"grai" and b - a > 8]
        base += len(p)
    if len(grains) != len(specs):
        from ..core import HarnessError
        raise HarnessError("scanner found {} grains of {}".format(len(grains), len(specs)))
    bounds = inner_boundaries(raw)
    for (near, at, how) in cuts:
        cut = bounds[at % len(bounds)] + at % 3 - 1 if near else at % (len(raw) + 1)
        cut = max(0, min(cut, len(raw)))
        inside = any(a < cut < b for a, b in grains)
        nontrivial(inside)
        label('cut inside a grain', inside)
        label('reader:' + how)
        what = "cut at {} of {} read by {}: ".format(cut, len(raw), how)
        whole = sum(b <= cut for a, b in grains)
        begun = sum(a < cut for a, b in grains)
        got, err = read_all(raw[:cut], how)
        if err is not None and not documented(err, False):
            fail("{}{!r}", what, err)
        if got is None:
            continue
        if how == 'loads':
            want = {}
            for n in range(whole, begun + 1):
                want = {}
                for lid, spec in specs[:n]:
                    want.setdefault(lid, []).append(spec)
                if {k: len(v) for k, v in got.items()} == {k: len(v) for k, v in want.items()}:
                    break
            else:
                fail("{}grains per segment {} are not those of a prefix ({} whole grains)", what, {k: len(v) for k, v in got.items()}, whole)
            for lid in want:
                for g, spec in zip(got[lid], want[lid]):
                    check_grain(g, spec, what + "grain")
            continue
        true(len(got) <= begun, "{}{} grains delivered, {} begin before the cut".format(what, len(got), begun))
        true(len(got) >= whole, "{}{} grains delivered, {} are whole before the cut".format(what, len(got), whole))
        for i, (lid, g, e) in enumerate(got):
            wlid, spec = specs[i]
            eq(lid, wlid, what + "segment number")
            never = how.endswith('never') or e is not None
            check_grain(g, spec, what + "grain {}".format(i), with_data=not never)
            if i < whole and e is not None:
                fail("{}data of whole grain {} gives {!r}", what, i, e)


SPECIALS = [0, 1, 2, 7, 8, 9, 10, 16, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0x10000]
edit_st = st.one_of(
    st.tuples(st.just('set'), st.integers(0, 4000), st.binary(min_size=1, max_size=4)),
    st.tuples(st.just('flip'), st.integers(0, 4000), st.integers(0, 7)),
    st.tuples(st.just('ins'), st.integers(0, 4000), st.binary(min_size=1, max_size=12)),
    st.tuples(st.just('del'), st.integers(0, 4000), st.integers(1, 40)),
    st.tuples(st.just('dup'), st.integers(0, 4000), st.integers(1, 60), st.integers(0, 4000)),
    st.tuples(st.just('size'), st.integers(0, 60), st.one_of(st.sampled_from(SPECIALS), st.integers(-9, 9).map(lambda d: ('rel', d)))),
    st.tuples(st.just('tag'), st.integers(0, 60), st.sampled_from([b"grai", b"gbhd", b"grdt", b"SSBB", b"fill", b"head", b"segm", b"tils", b"vghd", b"eghd", b"\xff\xff\xff\xff"])),
    st.tuples(st.just('body'), st.integers(0, 60), st.integers(0, 60), st.binary(min_size=1, max_size=2)),
    st.tuples(st.just('cut'), st.integers(0, 4000)),
)


def strat_mutate():
    return st.tuples(small_file(), st.tuples(st.integers(0, 2**32), st.sampled_from([0, 0, 4])), st.booleans(), st.lists(edit_st, min_size=1, max_size=4),
                     st.booleans())


def damage(raw, edits):
    b = bytearray(raw)
    starts = [m for m in inner_boundaries(raw) if raw[m:m + 4] in TAGS]
    for e in edits:
        n = max(1, len(b))
        if e[0] == 'set':
            i = e[1] % n
            b[i:i + len(e[2])] = e[2]
        elif e[0] == 'flip' and b:
            b[e[1] % n] ^= 1 << e[2]
        elif e[0] == 'ins':
            i = e[1] % n
            b[i:i] = e[2]
        elif e[0] == 'del':
            i = e[1] % n
            del b[i:i + e[2]]
        elif e[0] == 'dup':
            i = e[1] % n
            j = e[3] % n
            b[j:j] = b[i:i + e[2]]
        elif e[0] == 'cut':
            del b[e[1] % n:]
        elif starts and e[0] in ('size', 'tag', 'body'):
            i = starts[e[1] % len(starts)]
            if e[0] == 'size':
                old = int.from_bytes(b[i + 4:i + 8], "little")
                v = (old + e[2][1]) % (1 << 32) if isinstance(e[2], tuple) else e[2]
                b[i + 4:i + 8] = v.to_bytes(4, "little")
            elif e[0] == 'tag':
                b[i:i + 4] = e[2]
            else:
                j = i + 8 + e[2]
                b[j:j + len(e[3])] = e[3]
    return bytes(b)


TAGS = (b"grai", b"gbhd", b"grdt", b"head", b"segm", b"tag ", b"flow", b"tils", b"vghd", b"cghd", b"aghd", b"cahd", b"eghd", b"comp", b"unof")
MUT_READERS = ['sync-imm', 'sync-lazy', 'loads', 'async-bytes', 'async-wrapper-lazy', 'stream', 'async-stream', 'sync-never']


def digest(got):
    out = []
    for lid, g, e in got:
        out.append((lid, g.grain_type, g.source_id, g.flow_id, g.meta['grain'].get('rate'), e is None and gen.payload(g)))
    return out


def check_mutate(c):
    case, plan, term, edits, twice = c
    raw = gsfref.write(model(case, term), gsfref.Plan(*plan))
    if twice:
        raw = raw + raw
    bad = damage(raw, edits)
    for e in edits:
        label('edit:' + e[0])
    results = {}
    for how in MUT_READERS:
        what = "damaged file read by {}: ".format(how)
        got, err = read_all(bad, how)
        if err is not None and not documented(err):
            raise Violation("{}{!r}".format(what, err)) from err
        if isinstance(err, ValueError) and b"eghd" not in bad:
            raise Violation("{}{!r} with no event in the file".format(what, err)) from err
        if how == 'loads':
            results[how] = (None, err)
            continue
        true(len(got) <= len(bad) // 8, what + "more grains than fit in the file")
        for lid, g, e in got:
            if e is None and g.grain_type != 'event' and not how.endswith('never'):
                data = gen.payload(g)
                true(data in bad, "{}payload {!r} is not in the file".format(what, data[:60]))
            elif e is not None and not documented(e):
                fail("{}data of a grain gives {!r}", what, e)
        results[how] = (digest(got), err)
    opened = results['sync-imm'][0] or results['sync-imm'][1] is None
    label('opened', opened)
    nontrivial(bad != raw)
    label('error', results['sync-imm'][1] is not None)
    eq(results['async-bytes'][0], results['sync-imm'][0], "grains by asynchronous reading compared with synchronous reading")


TARGETS = [
    Target('cut-large', strat_cut_large, check_cut_large, quick=300, thorough=12000),
    Target('cut', strat_cut, check_cut, quick=3000, thorough=150000),
    Target('mutate', strat_mutate, check_mutate, quick=6000, thorough=300000),
]
