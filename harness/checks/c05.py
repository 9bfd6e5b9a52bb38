"""C05: all ways of reading a GSF file deliver the same grains (loading modes, lazy data in any order, filters, sync and async)."""
import asyncio
import os
from contextlib import aclosing, closing
from io import BytesIO, BufferedReader

from hypothesis import strategies as st

from .. import aio, gen, gsfref
from ..core import Target, eq, fail, label, nontrivial, true
from ..gsfcase import file_case, check_head, check_grain, scale_st, scaled

RULE = ("Cases are a file of up to 7 grains (independent writer, with unknown blocks), a way of opening it (seekable and non-seekable, sync and async), one or more "
        "consecutive passes each with a loading mode and a segment filter, and a schedule of operations on the grains delivered so far (touch, re-touch, concurrent "
        "awaits, concurrent reading) run between deliveries and at the end; large: the same with files of which one part is made long or numerous. Non-trivial: at least two grains delivered and at least one touch or filter.")
ASSUMPTIONS = ["synchronous lazily loaded data is touched only while the file is open", "data deferred in asynchronous reading is read by awaiting the grain",
               "a pass that stops early is closed before the next one starts"]

SYNC = ['bytes', 'buffered', 'file', 'stream', 'deprecated']
ASYNC = ['abytes', 'abytes-open', 'awrapper', 'awrapper-buffered', 'afile', 'aiowrapper', 'astream', 'astream-slow', 'slow', 'slow']

k = st.integers(0, 6)
sync_op = st.one_of(st.tuples(st.just('touch'), k), st.tuples(st.just('touch'), k), st.tuples(st.just('meta'), k), st.tuples(st.just('len'), k),
                    st.tuples(st.just('part'), k), st.just(('none',)))
async_op = st.one_of(st.tuples(st.just('await'), k), st.tuples(st.just('await'), k), st.tuples(st.just('ctx'), k), st.tuples(st.just('meta'), k),
                     st.tuples(st.just('peek'), k), st.tuples(st.just('gather'), st.lists(k, min_size=1, max_size=5)),
                     st.tuples(st.just('cancel'), k, st.integers(0, 9)), st.just(('none',)))
MODES = ['LOAD_IMMEDIATELY', 'ALWAYS_LOAD_DEFER_IF_POSSIBLE', 'ALWAYS_DEFER_LOAD_IF_POSSIBLE', 'LOAD_NEVER']
pass_st = st.tuples(st.integers(0, 8), st.sampled_from(MODES + MODES[1:3] + [None]),
                    st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(['list', 'tuple', 'set']), st.lists(st.integers(0, 3), max_size=3))))


passes_st = gen.weighted((1, st.lists(pass_st, max_size=2)), (4, st.lists(pass_st, min_size=1, max_size=3)))


def schedule_of(op):
    full = st.lists(st.lists(op, min_size=1, max_size=3), min_size=4, max_size=7)
    return gen.weighted((1, st.lists(st.lists(op, max_size=2), max_size=3)), (4, full))


def base():
    return st.tuples(gen.weighted((1, file_case(max_grains=2)), (4, file_case(max_grains=7, min_grains=3))), st.tuples(st.integers(0, 2**32), st.sampled_from([0, 0, 1, 4, 8])), st.booleans(), st.none())


def strat_sync():
    return st.tuples(base(), st.sampled_from(SYNC), passes_st, schedule_of(sync_op), st.lists(sync_op, max_size=4))


def strat_async():
    return st.tuples(base(), st.sampled_from(ASYNC), passes_st, schedule_of(async_op), st.lists(async_op, max_size=6),
                     st.booleans())


def large():
    return st.tuples(file_case(max_grains=5, min_grains=1), st.tuples(st.integers(0, 2**32), st.sampled_from([0, 0, 1, 4, 8])), st.booleans(), scale_st())


def strat_large_sync():
    return st.tuples(large(), st.sampled_from(SYNC), passes_st, schedule_of(sync_op), st.lists(sync_op, max_size=4))


def strat_large_async():
    return st.tuples(large(), st.sampled_from(ASYNC), passes_st, schedule_of(async_op), st.lists(async_op, max_size=6), st.booleans())


def make(b):
    case, plan, terminated, scale = b
    if scale is not None:
        label('{} of {}'.format(*scale[:2]))
        case = scaled(case, scale)
    m = dict(case, created=tuple(case['created'][:6]), terminated=terminated, segments=[dict(s, count=0) for s in case['segments']])
    return gsfref.write(m, gsfref.Plan(*plan)), m


def path():
    return os.path.join(os.environ["VERIF_SCRATCH"], "c05-{}.gsf".format(os.getpid()))


def mk_filter(f, case):
    """(filter argument, predicate)"""
    if f is None:
        return None, lambda lid: True
    lids = [s['local_id'] for s in case['segments']]
    absent = next(i for i in range(9, 99999) if i not in lids)
    ids = [lids[i] if i < len(lids) else absent for i in f[1]]
    return {'list': list, 'tuple': tuple, 'set': set}[f[0]](ids), lambda lid: lid in ids


class Delivered:
    """Grains delivered so far, with what each must show."""
    def __init__(self):
        self.items = []         # [grain, spec, mode, state] with state 'now' (data there), 'lazy', 'never'

    def pick(self, i):
        return self.items[i % len(self.items)] if self.items else None


def check_meta(it, what):
    check_grain(it[0], it[1], what, with_data=False)


def check_never(it, what):
    check_meta(it, what)
    if it[1]['type'] != 'event':
        eq(gen.payload(it[0]), b"", what + " payload of a grain read without data")


def plain(plan, case):
    """The passes as a list, the last of which reads to the end."""
    return list(plan) + [(None, 'LOAD_IMMEDIATELY', None)]


def check_sync(c):
    from mediagrains.gsf import GSFDecoder, GrainDataLoadingMode
    b, kind, passes, schedule, final = c
    raw, case = make(b)
    label('kind:' + kind)
    fp = {'bytes': BytesIO, 'buffered': lambda r: BufferedReader(BytesIO(r), buffer_size=16), 'stream': aio.Stream, 'deprecated': BytesIO}.get(
        kind, lambda r: open_file(r))(raw)
    can_tell = kind != 'stream'
    d = Delivered()
    touches = 0

    def op(o):
        nonlocal touches
        it = d.pick(o[1]) if len(o) > 1 else None
        if it is None:
            return
        where = fp.tell() if can_tell else None
        what = "grain {} ({})".format(o[1] % len(d.items), it[2])
        if it[3] == 'never':
            check_never(it, what)
        elif o[0] == 'touch':
            touches += 1
            check_grain(it[0], it[1], what)
        elif o[0] == 'meta':
            check_meta(it, what)
        elif o[0] == 'len' and it[1]['type'] != 'event':
            eq(it[0].length, len(it[1]['data']), what + " length")
        elif o[0] == 'part' and it[1]['type'] != 'event' and it[1]['data']:
            touches += 1
            eq(bytes(it[0].data[1:3]), it[1]['data'][1:3], what + " data[1:3]")
            eq(it[0].data[-1], it[1]['data'][-1], what + " data[-1]")
        if can_tell:
            eq(fp.tell(), where, "file position after touching a grain")

    try:
        if kind == 'deprecated':
            dec = GSFDecoder(file_data=fp)
            check_head(dec.decode_file_headers(), case)
        else:
            ctx = GSFDecoder(file_data=fp)
            dec = ctx.__enter__()
            check_head(dec.file_headers, case)
        todo = list(case['grains'])
        n = 0
        for (count, mode, flt) in plain(passes, case):
            arg, keep = mk_filter(flt, case)
            kw = {} if arg is None else {'local_ids': arg}
            if kind == 'deprecated':
                kw.update({'LOAD_NEVER': {'skip_data': True}, 'LOAD_IMMEDIATELY': {}, None: {}, 'ALWAYS_DEFER_LOAD_IF_POSSIBLE': {'load_lazily': True, 'skip_data': True}}.get(mode, {'load_lazily': True}))
                never = mode == 'LOAD_NEVER'
            else:
                if mode is not None:
                    kw['loading_mode'] = GrainDataLoadingMode[mode]
                never = mode == 'LOAD_NEVER'
            if count == 0:
                continue
            label('mode:{}'.format(mode))
            label('filtered', arg is not None)
            taken = 0
            with closing(dec.grains(**kw)) as it:
                for (g, lid) in it:
                    while todo and not keep(todo[0][0]):
                        todo.pop(0)
                    true(todo, "more grains delivered than the file has")
                    wlid, spec = todo.pop(0)
                    eq(lid, wlid, "segment of grain delivered")
                    item = [g, spec, mode, 'never' if never else 'lazy']
                    d.items.append(item)
                    if n % 2 == 0:
                        check_meta(item, "grain {} on delivery".format(n)) if not never else check_never(item, "grain {} on delivery".format(n))
                    for o in (schedule[n] if n < len(schedule) else ()):
                        op(o)
                    n += 1
                    taken += 1
                    if taken == count:
                        break
                else:
                    while todo and not keep(todo[0][0]):
                        todo.pop(0)
                    eq(len(todo), 0, "grains missing")
            if not todo and taken != count:
                break
        eq(len(todo), 0, "grains missing at the end")
        for o in final:
            op(o)
        nontrivial(len(d.items) >= 2 and (touches or any(p[2] for p in passes)))
        label('touch', touches)
        for i, it in enumerate(d.items):
            (check_never if it[3] == 'never' else check_grain)(*( (it, "grain {} at the end".format(i)) if it[3] == 'never' else
                                                                  (it[0], it[1], "grain {} at the end ({})".format(i, it[2]))))
        if kind != 'deprecated':
            ctx.__exit__(None, None, None)
    finally:
        fp.close()


def open_file(raw):
    p = path()
    with open(p, "wb") as f:
        f.write(raw)
    return open(p, "rb")


def make_async(kind, raw):
    """(file for the decoder, whether data can be deferred, extra coroutine to run alongside or None, closer)"""
    from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncFileWrapper, AsyncBytesIOWrapper, AsyncStreamWrapper
    if kind.startswith('abytes'):
        return AsyncBytesIO(raw), True, None, None
    if kind == 'awrapper':
        return AsyncFileWrapper(BytesIO(raw)), True, None, None
    if kind == 'awrapper-buffered':
        return AsyncFileWrapper(BufferedReader(BytesIO(raw), buffer_size=16)), True, None, None
    if kind == 'afile':
        f = open_file(raw)
        return AsyncFileWrapper(f), True, None, f.close
    if kind == 'aiowrapper':
        return AsyncBytesIOWrapper(BytesIO(raw)), True, None, None
    if kind == 'slow':
        return aio.slow_file(raw, (1, 0, 2, 1, 3)), True, None, None
    r = asyncio.StreamReader()
    if kind == 'astream':
        r.feed_data(raw)
        r.feed_eof()
        return AsyncStreamWrapper(r), False, None, None

    async def feed():
        i = 0
        while i < len(raw):
            r.feed_data(raw[i:i + 7 + i % 23])
            i += 7 + i % 23
            await asyncio.sleep(0)
        r.feed_eof()
    return AsyncStreamWrapper(r), False, feed, None


def check_async(c):
    aio.run(_check_async(c))


async def _check_async(c):
    from mediagrains.gsf import GSFDecoder, GrainDataLoadingMode
    b, kind, passes, schedule, final, ahead = c
    raw, case = make(b)
    label('kind:' + kind)
    afile, deferrable, feed, closer = make_async(kind, raw)
    d = Delivered()
    touches = 0
    exited = False
    feeder = asyncio.ensure_future(feed()) if feed else None
    opened = None

    async def touch(it, what, ctx=False):
        nonlocal touches
        touches += 1
        if it[3] == 'never':
            await it[0]
            return check_never(it, what)
        if exited and it[3] == 'lazy' and it[2] in ('ALWAYS_DEFER_LOAD_IF_POSSIBLE', None):
            r = await it[0]         # permanently empty: must not fail, however often
            if it[1]['type'] != 'event':
                true(not r, what + " awaited after the reading ended gave {!r}".format(r))
                eq(gen.payload(it[0]), b"", what + " payload after the reading ended")
            return
        if ctx:
            async with it[0] as g:
                true(g is it[0], what + " as a context manager")
                check_grain(g, it[1], what)
        else:
            r = await it[0]
            if it[1]['type'] != 'event':
                eq(bytes(r or b""), it[1]['data'], what + " result of awaiting")
            check_grain(it[0], it[1], what)
        if it[3] == 'lazy':
            it[3] = 'now'

    async def op(o):
        if len(o) < 2 or not d.items:
            return
        if o[0] == 'gather':
            label('concurrent', len(o[1]) > 1)
            its = [d.pick(i) for i in o[1]]
            await asyncio.gather(*[touch(it, "grain {} ({}) awaited concurrently".format(i % len(d.items), it[2])) for i, it in zip(o[1], its)])
            return
        it = d.pick(o[1])
        what = "grain {} ({})".format(o[1] % len(d.items), it[2])
        if o[0] == 'cancel':
            if kind != 'slow' or it[3] != 'lazy' or exited:
                return
            # given up before the data has come: it is there to be awaited again
            label('cancelled')

            async def wait():
                await it[0]
            task = asyncio.ensure_future(wait())
            for _ in range(o[2]):
                await asyncio.sleep(0)
            task.cancel()
            await asyncio.gather(task, return_exceptions=True)
            if it[1]['type'] == 'event' or it[0].data is not None:
                await touch(it, what + " (given up too late)")
        elif o[0] == 'await':
            await touch(it, what)
        elif o[0] == 'ctx':
            await touch(it, what, True)
        elif o[0] == 'meta':
            check_meta(it, what)
        elif o[0] == 'peek' and it[1]['type'] != 'event':
            if it[3] == 'lazy' and deferrable and it[1]['data']:
                eq(it[0].data, None, what + " data before it is awaited")
                if not exited:
                    eq(it[0].length, len(it[1]['data']), what + " length before it is awaited")
            elif it[3] == 'now':
                eq(gen.payload(it[0]), it[1]['data'], what + " payload")

    def deliver(todo, keep, g, lid, mode):
        while todo and not keep(todo[0][0]):
            todo.pop(0)
        true(todo, "more grains delivered than the file has")
        wlid, spec = todo.pop(0)
        eq(lid, wlid, "segment of grain delivered")
        state = 'never' if mode == 'LOAD_NEVER' else ('now' if mode == 'LOAD_IMMEDIATELY' or not deferrable else 'lazy')
        item = [g, spec, mode, state]
        d.items.append(item)
        if state == 'now':
            check_grain(g, spec, "grain on delivery ({})".format(mode))
        else:
            check_meta(item, "grain on delivery ({})".format(mode))

    try:
        if kind == 'abytes-open':
            opened = await afile.__aenter__()
            dctx = GSFDecoder(file_data=opened)
        else:
            dctx = GSFDecoder(file_data=afile)
        dec = await dctx.__aenter__()
        check_head(dec.file_headers, case)
        todo = list(case['grains'])
        n = 0
        for (count, mode, flt) in plain(passes, case):
            arg, keep = mk_filter(flt, case)
            kw = {} if arg is None else {'local_ids': arg}
            if mode is not None:
                kw['loading_mode'] = GrainDataLoadingMode[mode]
            if count == 0:
                continue
            label('mode:{}'.format(mode))
            label('filtered', arg is not None)
            taken = 0
            ended = False
            async with aclosing(dec.grains(**kw)) as it:
                while True:
                    ops = schedule[n] if n < len(schedule) else ()
                    if taken == count:
                        break
                    if ahead and d.items:
                        # the reader advances while the data of earlier grains is being fetched
                        label('read ahead')

                        async def nxt():
                            try:
                                return await it.__anext__()
                            except StopAsyncIteration:
                                return None
                        got = (await asyncio.gather(nxt(), *[op(o) for o in ops]))[0]
                    else:
                        for o in ops:
                            await op(o)
                        got = await anext(it, None)
                    if got is None:
                        ended = True
                        break
                    deliver(todo, keep, got[0], got[1], mode)
                    n += 1
                    taken += 1
            if ended:
                while todo and not keep(todo[0][0]):
                    todo.pop(0)
                eq(len(todo), 0, "grains missing")
                break
        eq(len(todo), 0, "grains missing at the end")
        half = len(final) // 2
        for o in final[:half]:
            await op(o)
        nontrivial(len(d.items) >= 2 and (touches or any(p[2] for p in passes)))
        label('touch', touches)
        await dctx.__aexit__(None, None, None)
        exited = True
        for it in d.items:
            if it[3] == 'lazy' and it[2] == 'ALWAYS_LOAD_DEFER_IF_POSSIBLE':
                check_grain(it[0], it[1], "grain to be loaded on exit")
                it[3] = 'now'
        for o in final[half:]:
            await op(o)
        for i, it in enumerate(d.items):
            await touch(it, "grain {} at the end ({})".format(i, it[2]))
    finally:
        if feeder is not None:
            feeder.cancel()
        if opened is not None:
            await afile.__aexit__(None, None, None)
        if closer is not None:
            closer()


TARGETS = [
    Target('sync', strat_sync, check_sync, quick=4000, thorough=160000),
    Target('async', strat_async, check_async, quick=4000, thorough=160000),
    Target('large-sync', strat_large_sync, check_sync, quick=300, thorough=12000),
    Target('large-async', strat_large_async, check_async, quick=300, thorough=12000),
]
