"""C04: every way of driving the GSF encoder yields the same file for one history (model of tags, segments, grain selection)."""
import warnings
from io import BytesIO
from uuid import UUID

from hypothesis import strategies as st

from .. import aio, gen, gsfref
from ..core import Target, eq, label, nontrivial, true, fail, raises
from ..gsfcase import tags_st, flow_st, mk_datetime, created_utc

RULE = ("Cases are encoder histories: 0-8 header and grain operations before the dump, 0-8 during it (through the outer encoder, the opened encoder and "
        "segment objects, selecting segments by number, id, both or neither, including forbidden calls), optionally a second dump, in each call style, "
        "streaming or not, on seekable/non-seekable/async files. Non-trivial: at least one grain or one forbidden call. tasks: 2-4 tasks that add grains to "
        "one asynchronous encoder at the same time, on files that let others go on at every write; non-trivial: streaming.")
ASSUMPTIONS = ["segment numbers below 65535", "what a second dump does with grains already dumped is left open (only new, or old and new)"]

IDS = [bytes([i]) * 16 for i in (1, 2, 3)]
STYLES = ['ctx', 'ctx-stream', 'actx', 'actx-stream', 'start_dump', 'dump']
FILES = ['bytes', 'bytes-junk', 'pipe']
AFILES = ['abytes', 'abytes-junk', 'bytes', 'wrapper', 'iowrapper', 'open', 'open-wrapper', 'pipe', 'pipe-wrapper']

sel = st.one_of(st.just(('none',)), st.tuples(st.just('local'), st.integers(0, 4)), st.tuples(st.just('id'), st.integers(0, 2)),
                st.tuples(st.just('both'), st.integers(0, 4), st.integers(0, 2)))
via = st.sampled_from(['outer', 'open', 'seg'])
ops_st = st.one_of(
    st.tuples(st.just('grains'), via, sel, st.integers(0, 3), st.booleans()),
    st.tuples(st.just('grains'), via, sel, st.integers(1, 2), st.booleans()),
    st.tuples(st.just('tag'), via, gen.text(5), gen.text(5)),
    st.tuples(st.just('seg'), via, st.one_of(st.none(), st.integers(0, 2)), st.one_of(st.none(), st.integers(0, 5)), st.one_of(st.none(), tags_st())),
    st.tuples(st.just('segtag'), st.integers(0, 4), gen.text(5), gen.text(5)),
    st.tuples(st.just('segflow'), st.integers(0, 4), flow_st()),
)


def strat():
    return st.fixed_dictionaries({
        'major': st.sampled_from([9, 8, 7]), 'style': st.sampled_from(STYLES), 'file': st.integers(0, 8),
        'ctor_tags': tags_st(), 'ctor_segs': st.lists(st.tuples(st.integers(0, 2), st.integers(0, 4), tags_st()), max_size=2, unique_by=lambda t: t[1]),
        'pre': st.lists(ops_st, max_size=8), 'during': st.lists(ops_st, max_size=8),
        'second': st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(STYLES), st.lists(
            st.tuples(st.just('grains'), via, sel, st.integers(1, 3), st.booleans()), max_size=3))),
    })


class Model:
    def __init__(self, case):
        self.tags = list(case['ctor_tags'])
        self.segs = {}
        self.next = 1
        for (i, lid, tags) in case['ctor_segs']:
            self.add(IDS[i], lid, tags)

    def add(self, sid, lid, tags):
        if lid is None:
            lid = self.next
        self.next = max(self.next, lid + 1)
        self.segs[lid] = {'id': sid, 'tags': list(tags or []), 'flow': None, 'grains': []}
        return lid

    def select(self, s):
        """(local id of the existing segment, or None; id and number a created one would get)"""
        sid = IDS[s[-1]] if s[0] in ('id', 'both') else None
        lid = s[1] if s[0] in ('local', 'both') else None
        if lid is None:
            c = sorted(k for k, v in self.segs.items() if sid is None or v['id'] == sid)
            return (c[0] if c else None), sid, lid
        return (lid if lid in self.segs else None), sid, lid


class Run:
    def __init__(self, case):
        from mediagrains.gsf import GSFEncoder
        self.case = case
        self.m = Model(case)
        self.n = 0
        self.forbidden = 0
        self.open = None
        self.is_async = False
        self.active = False
        self.dumped = False
        self.fp = None
        self.segobj = {}
        self.make_file(case['style'], case['file'])
        self.created = (2024, 2, 29, 1, 2, 3, 0, None)
        self.fid = bytes(range(16))
        self.enc = GSFEncoder(self.fp, major=case['major'], id=UUID(bytes=self.fid), created=mk_datetime(self.created), tags=case['ctor_tags'],
                              segments=[{'id': UUID(bytes=IDS[i]), 'local_id': lid, 'tags': tags} for (i, lid, tags) in case['ctor_segs']],
                              streaming=case['style'].endswith('stream'))
        self.segobj.update(self.enc.segments)

    def make_file(self, style, k):
        from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncFileWrapper, AsyncBytesIOWrapper
        junk = b"\xaa" * 5000
        if style.startswith('actx'):
            kind = AFILES[k % len(AFILES)]
            if kind == 'abytes':
                self.fp = AsyncBytesIO()
            elif kind == 'abytes-junk':
                self.fp = AsyncBytesIO(junk)
            elif kind == 'bytes':
                self.fp = BytesIO(junk)
            elif kind == 'open':
                self.fp = aio.run(AsyncBytesIO().__aenter__())
            else:
                b = aio.Pipe() if kind.startswith('pipe') else BytesIO(junk)
                self.fp = b if kind == 'pipe' else AsyncBytesIOWrapper(b) if kind == 'iowrapper' else AsyncFileWrapper(b)
                if kind == 'open-wrapper':
                    self.fp = aio.run(self.fp.__aenter__())
                self.getvalue = b.getvalue
                self.seekable = not kind.startswith('pipe')
                label('file:' + kind)
                return
        else:
            kind = FILES[k % len(FILES)]
            self.fp = {'bytes': BytesIO, 'bytes-junk': lambda: BytesIO(junk), 'pipe': aio.Pipe}[kind]()
        label('file:' + kind)
        self.getvalue = self.fp.getvalue
        self.seekable = kind != 'pipe'

    def new_grains(self, n):
        out = []
        for _ in range(n):
            i = self.n
            self.n += 1
            t = gen.GRAIN_TYPES[i % 6]
            f = {'video': {'format': 0x2001, 'layout': 0, 'width': 1, 'height': 1, 'extension': 0, 'sar': None, 'par': None, 'components': []},
                 'coded_video': {'format': 0x205, 'layout': 0, 'origin_width': 1, 'origin_height': 2, 'coded_width': 3, 'coded_height': 4, 'key': True,
                                 'toff': 0, 'units': [i]},
                 'audio': {'format': 1, 'channels': 2, 'samples': 3, 'sample_rate': 48000},
                 'coded_audio': {'format': 0x201, 'channels': 2, 'samples': 3, 'sample_rate': 48000, 'priming': 1, 'remainder': 2},
                 'event': {'event_type': 'e', 'topic': str(i), 'events': []}, 'empty': {}}[t]
            out.append({'type': t, 'src': IDS[0], 'flow': IDS[1], 'ots': i, 'sts': i, 'cts': i, 'rate': (25, 1), 'duration': (1, 25), 'labels': [],
                        'f': f, 'data': None if t == 'event' else b"grain %d" % i})
        return out

    def attempt(self, fn, verdict, excs, what):
        """verdict: True must work, False must be refused, None may be either; returns (worked, value)"""
        try:
            r = fn()
        except excs as e:
            if verdict is True:
                fail("{} was refused: {!r}", what, e)
            self.forbidden += 1
            return False, None
        if verdict is False:
            fail("{} was accepted", what)
        return True, r

    def do(self, op):
        from mediagrains.gsf import GSFEncodeError, GSFEncodeAddToActiveDump
        kind = op[0]
        m = self.m
        if kind == 'tag':
            tgt, outer = self.target(op[1])
            # the outer object may refuse header changes for as long as the encoder is open at all
            verdict = False if self.active else (None if (outer and self.open is not None) else True)
            ok, _ = self.attempt(lambda: tgt.add_tag(op[2], op[3]), verdict, GSFEncodeAddToActiveDump, "adding a tag")
            if ok:
                m.tags.append((op[2], op[3]))
        elif kind == 'seg':
            tgt, outer = self.target(op[1])
            sid = None if op[2] is None else IDS[op[2]]
            dup = op[3] is not None and op[3] in m.segs
            verdict = False if (self.active or dup) else (None if (outer and self.open is not None) else True)
            ok, seg = self.attempt(lambda: tgt.add_segment(id=None if sid is None else UUID(bytes=sid), local_id=op[3], tags=op[4]), verdict,
                                   GSFEncodeError if dup else GSFEncodeAddToActiveDump, "adding segment {}".format(op[3]))
            if ok:
                if op[3] is not None:
                    eq(seg.local_id, op[3], "number of the added segment")
                else:
                    true(seg.local_id not in m.segs, "the number {} given to a new segment was already in use".format(seg.local_id))
                lid = m.add(seg.id.bytes, seg.local_id, op[4])
                if sid is not None:
                    eq(seg.id.bytes, sid, "id of the added segment")
                self.segobj[lid] = seg
                eq(tuple((t.key, t.value) for t in seg.tags), tuple(op[4] or ()), "tags of the added segment")
        elif kind in ('segtag', 'segflow'):
            if not m.segs:
                return
            lid = sorted(m.segs)[op[1] % len(m.segs)]
            seg = self.seg(lid)
            verdict = not self.active
            if kind == 'segtag':
                ok, _ = self.attempt(lambda: seg.add_tag(op[2], op[3]), verdict, GSFEncodeAddToActiveDump, "adding a segment tag")
                if ok:
                    m.segs[lid]['tags'].append((op[2], op[3]))
            elif op[2] is not None:
                f = op[2]
                ok, _ = self.attempt(lambda: seg.add_flow(UUID(bytes=f[0]), UUID(bytes=f[1]), f[2], f[3]), verdict, GSFEncodeAddToActiveDump, "adding a flow")
                if ok:
                    m.segs[lid]['flow'] = tuple(f)
        elif kind == 'grains':
            self.grains(op)

    def view(self):
        """What the encoder says of itself."""
        o = self.open or self.enc
        m = self.m
        eq([(t.key, t.value) for t in o.tags], m.tags, "tags the encoder has")
        true(type(o.tags) is tuple and all(t == (k, v) and not t == (k + 'x', v) for t, (k, v) in zip(o.tags, m.tags)), "the encoder's tags are {!r}".format(o.tags))
        eq(sorted(o.segments), sorted(m.segs), "segments the encoder has")
        for lid, w in m.segs.items():
            s = o.segments[lid]
            eq((s.id.bytes, s.local_id), (w['id'], lid), "id and number of segment {}".format(lid))
            eq([(t.key, t.value) for t in s.tags], w['tags'], "tags segment {} has".format(lid))
            if not self.dumped:
                eq(s.count, len(w['grains']), "count of segment {}".format(lid))

    def seg(self, lid):
        if lid not in self.segobj:
            self.segobj[lid] = (self.open or self.enc).segments[lid]
        return self.segobj[lid]

    def target(self, v):
        if v == 'open' and self.open is not None:
            return self.open, False
        return self.enc, True

    def grains(self, op):
        from mediagrains.gsf import GSFEncodeError
        m = self.m
        _, v, s, n, plural = op
        if not plural:
            n = 1
        specs = self.new_grains(n)
        objs = [gen.build(x) for x in specs]
        if v == 'seg':
            if not m.segs:
                return
            lid = sorted(m.segs)[(s[1] if len(s) > 1 else 0) % len(m.segs)]
            seg = self.seg(lid)
            if plural:
                seg.add_grains(iter(objs))
            else:
                seg.add_grain(objs[0])
            m.segs[lid]['grains'] += specs
            label('via segment object while active', self.active)
            return
        lid, sid, want_lid = m.select(s)
        tgt, outer = self.target(v)
        kw = {}
        if sid is not None:
            kw['segment_id'] = UUID(bytes=sid)
        if want_lid is not None:
            kw['segment_local_id'] = want_lid

        def call():
            if plural:
                r = tgt.add_grains(iter(objs) if n % 2 else list(objs), **kw)
            else:
                r = tgt.add_grain(objs[0], **kw)
            if not outer and self.is_async:
                aio.run(r)
        if lid is not None:
            verdict = True
        elif self.active:
            verdict = False
        else:
            verdict = None if (outer and self.open is not None) else True
        ok, _ = self.attempt(call, verdict, GSFEncodeError, "adding grains with {}".format(kw))
        if not ok:
            return
        if lid is None:
            now = (self.open or self.enc).segments
            new = set(now) - set(m.segs)
            eq(len(new), 1, "segments created for grains without one")
            lid = new.pop()
            if want_lid is not None:
                eq(lid, want_lid, "number of the segment created for grains")
            if sid is not None:
                eq(now[lid].id.bytes, sid, "id of the segment created for grains")
            m.add(now[lid].id.bytes, lid, [])
        m.segs[lid]['grains'] += specs

    def session(self, style, ops):
        self.is_async = style.startswith('actx')
        streaming = style.endswith('stream')
        self.enc.streaming = streaming
        if style == 'dump':
            for op in ops:
                self.do(op)
                self.view()
            self.enc.dump()
        elif style == 'start_dump':
            self.enc.start_dump()
            self.open = self.enc        # the opened encoder is the encoder itself here
            self.active = True
            for op in ops:
                self.do(op)
                self.view()
            self.enc.end_dump()
        elif self.is_async:
            async def enter():
                return await self.enc.__aenter__()

            async def leave():
                return await self.enc.__aexit__(None, None, None)
            self.open = aio.run(enter())
            self.active = streaming
            for op in ops:
                self.do(op)
                self.view()
            aio.run(leave())
        else:
            with self.enc as o:
                self.open = o
                self.active = streaming
                for op in ops:
                    self.do(op)
                    self.view()
        self.open = None
        self.active = False
        self.view()
        self.dumped = True

    def verify(self, raw, minus_one, old=None, what=""):
        from .c02 import compare_spec
        m = self.m
        try:
            f = gsfref.parse_one(raw)
        except (gsfref.BadFile, UnicodeDecodeError, ValueError) as e:
            fail("{}not a conforming file: {!r}", what, e)
        eq(f['id'], self.fid, what + "file id")
        eq(f['created'], created_utc(self.created), what + "creation time")
        eq(f['major'], self.case['major'], what + "version")
        true(f['terminated'], what + "no terminator")
        eq(f['tags'], m.tags, what + "file tags")
        eq(sorted(s['local_id'] for s in f['segments']), sorted(m.segs), what + "segments in the header")
        for s in f['segments']:
            w = m.segs[s['local_id']]
            eq(s['id'], w['id'], what + "segment id")
            eq(s['tags'], w['tags'], what + "segment tags")
            eq(s['flow'], w['flow'], what + "segment flow")
        got = {}
        for lid, g in f['grains']:
            got.setdefault(lid, []).append(g)
        true(set(got) <= set(m.segs), what + "grains of unknown segments")
        for s in f['segments']:
            lid = s['local_id']
            mine = got.get(lid, [])
            want = m.segs[lid]['grains']
            if old is not None and len(mine) == len(old[lid]) + len(want):
                want = old[lid] + want
            eq(len(mine), len(want), "{}grains of segment {} in the file".format(what, lid))
            for i, (g, spec) in enumerate(zip(mine, want)):
                compare_spec(g, spec, "{}segment {} grain {}".format(what, lid, i))
            eq(s['count'], -1 if minus_one else len(want), "{}count of segment {} in the header".format(what, lid))


def check(case):
    label('style:' + case['style'])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = Run(case)
        for op in case['pre']:
            r.do(op)
            r.view()
        r.session(case['style'], case['during'])
        total = sum(len(s['grains']) for s in r.m.segs.values())
        label('forbidden', r.forbidden)
        nontrivial(total or r.forbidden)
        r.verify(r.getvalue(), (not r.seekable) and case['style'] in ('ctx-stream', 'actx-stream', 'start_dump'))
        if case['second'] is not None and r.seekable:
            style, ops = case['second']
            if style.startswith('actx') != case['style'].startswith('actx'):
                style = 'actx' if case['style'].startswith('actx') else 'ctx'
            label('second dump')
            old = {k: v['grains'] for k, v in r.m.segs.items()}
            for v in r.m.segs.values():
                v['grains'] = []
            before = set(r.m.segs)
            r.session(style, ops)
            for k in set(r.m.segs) - before:
                old[k] = []
            r.verify(r.getvalue(), False, old, "second dump: ")


# ---------------------------------------------------------------- several tasks that write one file

def strat_tasks():
    op = st.tuples(st.integers(1, 3), st.integers(1, 3), st.booleans(), st.one_of(st.integers(0, 40), st.integers(0, 5000)), st.integers(0, 2))
    return st.tuples(st.sampled_from([9, 8, 7]), gen.weighted((4, st.just(True)), (1, st.just(False))), st.sampled_from(['slow', 'slow', 'abytes', 'wrapper', 'file']), st.integers(0, 2),
                     st.lists(st.lists(op, min_size=1, max_size=3), min_size=2, max_size=4))


def check_tasks(case):
    """Tasks that add grains to an encoder at the same time: the file has them all, whole, and those of each task in its order."""
    import asyncio
    import os
    import tempfile
    from mediagrains.grains import CodedVideoGrain
    from mediagrains.gsf import GSFEncoder
    from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncFileWrapper
    major, streaming, kind, queued, tasks = case
    close = lambda: None                                                                                # noqa: E731
    if kind == 'slow':
        f = aio.slow_file()
        value = lambda: f.f.getvalue()                                                                  # noqa: E731
    elif kind == 'abytes':
        f = AsyncBytesIO(b"")
        value = lambda: f.value()                                                                       # noqa: E731
    elif kind == 'wrapper':
        inner = BytesIO()
        f = AsyncFileWrapper(inner)
        value = inner.getvalue
    else:
        inner = tempfile.TemporaryFile(dir=os.environ.get('VERIF_SCRATCH'))
        f = AsyncFileWrapper(inner)
        close = inner.close

        def value():
            inner.seek(0)
            return inner.read()
    want = {}               # per segment and task, the grains in order

    def make(lid, task, size):
        mine = want.setdefault(lid, {}).setdefault(task, [])
        g = CodedVideoGrain(src_id=UUID(int=task), flow_id=UUID(int=lid), origin_timestamp=gen.mk_ts(len(mine)), creation_timestamp=gen.mk_ts(0), data=bytes([task * 16 + len(mine) & 255]) * size)
        mine.append(bytes(g.data))
        return g

    async def work(enc, t, ops):
        for lid, n, whole, size, pause in ops:
            for _ in range(pause):
                await asyncio.sleep(0)
            grains = [make(lid, t, size + k) for k in range(n)]
            if whole:
                await enc.add_grains(grains, segment_local_id=lid)
            else:
                for g in grains:
                    await enc.add_grain(g, segment_local_id=lid)

    async def go():
        e = GSFEncoder(f, major=major, id=UUID(int=9), streaming=streaming)
        for lid in (1, 2, 3):
            e.add_segment(local_id=lid, id=UUID(int=100 + lid))
        async with e as enc:
            for k in range(queued):
                enc.segments[1 + k].add_grains([make(1 + k, 0, 5)])
            await asyncio.gather(*[work(enc, t + 1, ops) for t, ops in enumerate(tasks)])
    aio.run(go())
    data = value()
    close()
    what = "{} tasks writing to a {}: ".format(len(tasks), kind)
    m = gsfref.parse_one(data)
    true(m['terminated'], what + "no terminator")
    got = {}
    for lid, spec in m['grains']:
        got.setdefault(lid, {}).setdefault(UUID(bytes=spec['src']).int, []).append(bytes(spec['data']))
    eq(got, want, what + "grains by segment and task")
    for x in m['segments']:
        eq(x['count'], sum(len(v) for v in want.get(x['local_id'], {}).values()), what + "count of segment {}".format(x['local_id']))
    nontrivial(streaming)
    label(kind)


def strat_bad():
    return st.tuples(st.sampled_from(['tags', 'segments', 'segtags']), st.sampled_from([5, None, ('a',), 1.5, object]), st.integers(0, 2))


def check_bad(c):
    from mediagrains.gsf import GSFEncoder, GSFEncodeError
    where, junk, k = c
    nontrivial()
    good = [('a', 'b')] * k
    if where == 'tags':
        raises(GSFEncodeError, lambda: GSFEncoder(BytesIO(), tags=good + [junk]), "malformed tag")
    elif where == 'segtags':
        raises(GSFEncodeError, lambda: GSFEncoder(BytesIO()).add_segment(tags=good + [junk]), "malformed segment tag")
    else:
        raises(GSFEncodeError, lambda: GSFEncoder(BytesIO(), segments=[{}] * k + [junk]), "malformed segment")


TARGETS = [
    Target('tasks', strat_tasks, check_tasks, quick=600, thorough=20000),
    Target('history', strat, check, quick=6000, thorough=240000),
    Target('malformed', strat_bad, check_bad, quick=60, thorough=60, shards=1),
]
