"""C24: asynchronous binary files behave like ordinary binary files."""
import asyncio
from array import array
import io
import os
import tempfile

from hypothesis import strategies as st

from .. import gen
from ..aio import run
from ..core import Target, eq, fail, label, nontrivial, raises, true

RULE = ("base: reads through a generated class of one's own, whose readinto is interrupted; bytes: sequences of operations on an asynchronous byte buffer and on a real unbuffered file with the same contents, compared after each (results, position, contents); files: the same on wrapped byte buffers and real files "
        "of all modes and bufferings, compared with an unwrapped twin; reader: a wrapped stream fed in generated pieces at generated moments, compared with a model; writer: a wrapped stream written and sought. "
        "Non-trivial: sequences that move the position and read or write.")
ASSUMPTIONS = ["sizes to read are -1 or not negative", "asking an asynchronous byte buffer for more than is left raises EOFError, or gives what is left", "streams are either read or written"]

size = st.one_of(st.integers(0, 12), st.integers(0, 40), st.just(-1))
offset = st.one_of(st.integers(0, 20), st.integers(-12, 40))
# what is written from or read into: plain bytes, or another object that holds bytes, in items of one byte or more
held = gen.weighted((5, st.just('plain')), (3, st.sampled_from(['bytearray', 'view', 'items', 'rows'])))
op = gen.weighted(
    (4, st.tuples(st.just('read'), size)), (1, st.just(('read', ))), (2, st.tuples(st.just('readinto'), st.integers(0, 20), held)), (1, st.tuples(st.just('readall'))), (4, st.tuples(st.just('write'), st.binary(max_size=12), held)),
    (5, st.tuples(st.just('seek'), offset, st.integers(0, 2))), (1, st.tuples(st.just('seek'), st.sampled_from([4095, 4096, 5000, 20000]), st.integers(0, 1))), (1, st.tuples(st.just('tell'))), (2, st.tuples(st.just('truncate'), st.one_of(st.none(), st.integers(0, 40), st.just(-1)))), (1, st.tuples(st.just('reopen'))))
ops = st.lists(op, max_size=25)


def real_file(data, mode='w+b', buffering=0):
    fd, name = tempfile.mkstemp(dir=os.environ.get('VERIF_SCRATCH'))
    os.write(fd, data)
    os.close(fd)
    f = open(name, 'r+b' if mode == 'w+b' else mode, buffering=buffering)
    return f, name


async def attempt(coro):
    try:
        return 'gave', await coro
    except (OSError, ValueError, EOFError) as e:
        return 'raised', e


def sync(f, *args):
    try:
        return 'gave', f(*args)
    except (OSError, ValueError) as e:
        return 'raised', e


def holder(content, kind, into=False):
    """(object that holds the content, function giving what it and what is around it hold)"""
    if kind == 'plain' and not into:
        return content, lambda: content
    if kind == 'items' and len(content) % 2 == 0:
        b = array('H', content)
        return b, b.tobytes
    if kind == 'rows' and len(content) % 4 == 0 and content:
        b = array('H', content)
        return memoryview(b).cast('B').cast('H', (len(content) // 4, 2)) if not into else memoryview(b).cast('B').cast('I'), b.tobytes
    if kind in ('view', 'items', 'rows'):
        b = bytearray(b"<<" + content + b">>>")
        return memoryview(b)[2:2 + len(content)], lambda: bytes(b)
    b = bytearray(content)
    return b, lambda: bytes(b)


def spoil(b):
    """What was written is the writer's own again."""
    if isinstance(b, (bytearray, array)):
        for i in range(len(b)):
            b[i] ^= 85
    elif isinstance(b, memoryview) and b.format == 'B':
        b[:] = bytes(len(b))


def do_sync(f, o):
    """The operation on an ordinary file."""
    if o[0] == 'readinto':
        b, content = holder(b"\xee" * o[1], o[2], True)
        how, r = sync(f.readinto, b)
        return how, (r, content()) if how == 'gave' else r
    if o[0] == 'write':
        b, _ = holder(o[1], o[2])
        r = sync(f.write, b)
        spoil(b)
        return r
    if o[0] == 'readall':
        return sync(f.read, -1)
    return sync(getattr(f, o[0]), *o[1:])


async def do_async(f, o):
    if o[0] == 'readinto':
        b, content = holder(b"\xee" * o[1], o[2], True)
        how, r = await attempt(f.readinto(b))
        return how, (r, content()) if how == 'gave' else r
    if o[0] == 'write':
        b, _ = holder(o[1], o[2])
        r = await attempt(f.write(b))
        spoil(b)
        return r
    if o[0] in ('seek', 'tell'):
        return sync(getattr(f, o[0]), *o[1:])
    return await attempt(getattr(f, o[0])(*o[1:]))


def used(done):
    moved = False
    for o in done:
        if o[0] == 'seek':
            moved = True
        elif moved and o[0] in ('read', 'write', 'readinto', 'readall', 'truncate'):
            return True
    return False


def check_bytes(case):
    from mediagrains.utils.asyncbinaryio import AsyncBytesIO
    data, seq, kind = case
    b, _ = holder(data, kind)
    outer = AsyncBytesIO(b)
    spoil(b)
    run(bytes_case(outer, data, seq))
    label(kind)
    nontrivial(used(seq))


async def bytes_case(outer, data, seq):
    f, name = real_file(data)
    try:
        inner = await outer.__aenter__()
        for flag in ('seekable', 'readable', 'writable', 'seekable_forwards', 'seekable_backwards'):
            true(getattr(inner, flag)() is True, flag)
        for i, o in enumerate(seq):
            what = "operation {} {}: ".format(i, o)
            if o[0] == 'reopen':
                await outer.__aexit__(None, None, None)
                inner = await outer.__aenter__()
                f.seek(0)
            else:
                pos = f.tell()
                want = do_sync(f, o)
                got = await do_async(inner, o)
                if got[0] == 'raised' and isinstance(got[1], EOFError):
                    true(o[0] == 'read' and len(o) > 1 and o[1] > 0 and want[0] == 'gave' and len(want[1]) < o[1], what + "end of file was raised, want {}".format(want))
                    true(inner.tell() in (pos, f.tell()), what + "position {} after the end of file at {}, was {}".format(inner.tell(), f.tell(), pos))
                    f.seek(inner.tell())
                    label('end of file')
                elif want[0] == 'raised':
                    eq(got[0], 'raised', what + "should be refused, but gave {}".format(got[1]))
                    label('refused')
                else:
                    eq(got, want, what + "result")
                    if o[0] in ('read', 'readall'):
                        true(type(got[1]) is bytes, what + "gave {}".format(type(got[1])))
            eq(inner.tell(), f.tell(), what + "position")
            with open(name, 'rb') as r:
                content = r.read()
            eq(outer.getvalue(), content, what + "contents")
        eq((outer.value(), bytes(outer.getbuffer()), inner.getvalue(), bytes(inner.getbuffer())), (content, ) * 4 if seq else (data, ) * 4, "contents")
        await outer.__aexit__(None, None, None)
        eq(outer.getvalue(), content if seq else data, "contents when closed")
    finally:
        f.close()
        os.unlink(name)


KINDS = [('bytesio', 'file'), ('bytesio', 'bytes'), ('r+b', 'file'), ('rb', 'file'), ('r+b raw', 'file'), ('rb raw', 'file'), ('wb', 'file'), ('wb raw', 'file'), ('w+b', 'file'), ('ab', 'file')]


def check_files(case):
    (kind, wrapper), data, seq = case
    run(files_case(kind, wrapper, data, seq))
    nontrivial(used(seq))
    label(kind)


async def files_case(kind, wrapper, data, seq):
    from mediagrains.utils.asyncbinaryio import AsyncBytesIOWrapper, AsyncFileWrapper
    names = []

    def make():
        if kind == 'bytesio':
            return io.BytesIO(data)
        mode, raw = kind.split(' ')[0], kind.endswith('raw')
        f, name = real_file(data, mode.replace('w+b', 'r+b'), 0 if raw else -1)
        names.append(name)
        return f

    def content(f):
        if kind == 'bytesio':
            return f.getvalue()
        f.flush()
        with open(f.name, 'rb') as r:
            return r.read()
    a, b = make(), make()
    try:
        outer = (AsyncBytesIOWrapper if wrapper == 'bytes' else AsyncFileWrapper)(a)
        true(outer.fp is a, "fp")
        inner = await outer.__aenter__()
        true(inner.getsync() is a, "getsync")
        for flag in ('seekable', 'readable', 'writable'):
            eq(getattr(inner, flag)(), getattr(b, flag)(), flag)
        for i, o in enumerate(seq):
            what = "{} operation {} {}: ".format(kind, i, o)
            if o[0] == 'reopen':
                await outer.__aexit__(None, None, None)
                true(not a.closed, what + "closed what it doesn't own")
                inner = await outer.__aenter__()
                continue
            want = do_sync(b, o)
            got = await do_async(inner, o)
            if want[0] == 'raised':
                eq(got[0], 'raised', what + "should be refused, but gave {}".format(got[1]))
                true(type(got[1]) is type(want[1]), what + "raised {!r}, want {!r}".format(got[1], want[1]))
                label('refused')
            else:
                eq(got, want, what + "result")
            eq((inner.tell(), a.tell()), (b.tell(), ) * 2, what + "position")
            if o[0] in ('write', 'truncate'):
                eq(content(a), content(b), what + "contents")
        await outer.__aexit__(None, None, None)
        true(not a.closed, "closed what it doesn't own")
        eq(content(a), content(b), "contents")
    finally:
        a.close()
        b.close()
        for n in names:
            os.unlink(n)


# distances beyond any buffer or block size in use, and either side of the usual ones
far = st.one_of(st.sampled_from([4096, 8192, 16384, 32768, 65536, 131072]).flatmap(lambda n: st.integers(n - 2, n + 2)), st.integers(1000, 200000))
rop = gen.weighted((5, st.tuples(st.just('read'), size)), (1, st.just(('read', ))), (2, st.tuples(st.just('readinto'), st.integers(0, 20), held)), (1, st.tuples(st.just('readall'))), (4, st.tuples(st.just('seek'), st.integers(-3, 40), st.sampled_from([0, 1, 1, 1, 2]))),
                   (1, st.tuples(st.just('tell'))), (1, st.tuples(st.just('write'), st.binary(max_size=2))), (1, st.tuples(st.just('truncate'), st.just(3))), (1, st.tuples(st.just('skip'), st.integers(0, 9))),
                   (1, st.tuples(st.just('skip'), far)), (1, st.tuples(st.just('read'), far)))
# a long piece is given as its length
piece = gen.weighted((5, st.binary(max_size=15)), (1, far))


def long_piece(n):
    return (bytes(range(251)) * (n // 251 + 1))[:n]


def check_reader(case):
    pieces, seq = case
    pieces = [(p if isinstance(p, bytes) else long_piece(p), wait) for p, wait in pieces]
    run(reader_case(pieces, seq))
    nontrivial(sum(len(p) for p, _ in pieces) > 0 and any(o[0] == 'skip' or o[0] == 'seek' and o[1] for o in seq))


async def reader_case(pieces, seq):
    from mediagrains.utils.asyncbinaryio import AsyncStreamWrapper
    reader = asyncio.StreamReader()
    data = b''.join(p for p, _ in pieces)

    async def feed():
        for p, wait in pieces:
            for _ in range(wait):
                await asyncio.sleep(0)
            if p:
                reader.feed_data(p)
        reader.feed_eof()
    task = asyncio.ensure_future(feed())
    try:
        outer = AsyncStreamWrapper(reader=reader)
        inner = await outer.__aenter__()
        eq((inner.seekable(), inner.readable(), inner.writable(), inner.seekable_forwards(), inner.seekable_backwards()), (False, True, False, True, False), "flags")
        eq((outer.getstream(), inner.getstream()), ((reader, None), ) * 2, "stream")
        pos = 0         # where the next read is
        consumed = 0    # what cannot be read again
        for i, o in enumerate(seq):
            what = "operation {} {} at {} of {}: ".format(i, o, pos, len(data))
            if o[0] in ('write', 'truncate'):
                e = (await attempt(getattr(inner, o[0])(o[1])))
                true(e[0] == 'raised' and isinstance(e[1], io.UnsupportedOperation), what + "not refused: {}".format(e))
            elif o[0] == 'skip':
                eq(inner.seek(inner.tell() + o[1]), pos + o[1], what + "result")
                pos += o[1]
            elif o[0] == 'seek':
                to = {0: 0, 1: pos, 2: None}[o[2]]
                if to is None or to + o[1] < consumed:
                    raises(OSError, lambda: inner.seek(o[1], o[2]), what)
                else:
                    eq(inner.seek(o[1], o[2]), to + o[1], what + "result")
                    pos = to + o[1]
            elif o[0] != 'tell':
                left = data[pos:]
                n = o[1] if len(o) > 1 and o[1] >= 0 else len(left)
                want = left[:n]
                got = await do_async(inner, o)
                if o[0] == 'readinto':
                    b, content = holder(want + b"\xee" * (o[1] - len(want)), o[2], True)
                    want = (len(want), content())
                eq(got, ('gave', want), what + "result")
                pos += min(n, len(left))
                consumed = pos
            eq(inner.tell(), pos, what + "position")
        await outer.__aexit__(None, None, None)
    finally:
        task.cancel()
        try:
            await task
        except asyncio.CancelledError:
            pass


class Sink(asyncio.Transport):
    def __init__(self):
        super().__init__()
        self.out, self.closed = bytearray(), False

    def write(self, data):
        true(not self.closed, "written when closed")
        self.out += data

    def close(self):
        self.closed = True

    def is_closing(self):
        return self.closed


wop = gen.weighted((5, st.tuples(st.just('write'), st.binary(max_size=12), held)), (1, st.tuples(st.just('seek'), far, st.just(1))), (1, st.tuples(st.just('write'), far)), (4, st.tuples(st.just('seek'), st.integers(-3, 40), st.sampled_from([0, 1, 1, 1, 2]))), (1, st.tuples(st.just('read'), size)), (1, st.tuples(st.just('readinto'), size, st.just('plain'))),
                   (1, st.tuples(st.just('readall'))), (1, st.tuples(st.just('truncate'), st.just(3))), (1, st.tuples(st.just('tell'))))


def check_writer(case):
    case = [(o[0], long_piece(o[1]), 'plain') if o[0] == 'write' and not isinstance(o[1], bytes) else o for o in case]
    run(writer_case(case))
    nontrivial(any(o[0] == 'write' and o[1] for o in case) and any(o[0] == 'seek' for o in case))


async def writer_case(seq):
    from asyncio.streams import FlowControlMixin
    from mediagrains.utils.asyncbinaryio import AsyncStreamWrapper
    loop = asyncio.get_event_loop()
    sink = Sink()
    writer = asyncio.StreamWriter(sink, FlowControlMixin(loop=loop), None, loop)
    outer = AsyncStreamWrapper(writer=writer)
    inner = await outer.__aenter__()
    eq((inner.seekable(), inner.readable(), inner.writable(), inner.seekable_forwards(), inner.seekable_backwards()), (False, False, True, True, False), "flags")
    pos = 0
    for i, o in enumerate(seq):
        what = "operation {} {} at {}: ".format(i, o, pos)
        before = bytes(sink.out)
        if o[0] in ('read', 'readinto', 'readall', 'truncate'):
            e = await do_async(inner, (o[0], 3, 'plain') if o[0] == 'readinto' else o)
            true(e[0] == 'raised' and isinstance(e[1], io.UnsupportedOperation), what + "not refused: {}".format(e))
        elif o[0] == 'seek':
            to = {0: 0, 1: pos, 2: None}[o[2]]
            if to is None or to + o[1] < len(before):
                raises(OSError, lambda: inner.seek(o[1], o[2]), what)
            else:
                eq(inner.seek(o[1], o[2]), to + o[1], what + "result")
                pos = to + o[1]
        elif o[0] == 'write':
            eq(await do_async(inner, o), ('gave', len(o[1])), what + "result")
            want = before + bytes(pos - len(before)) + o[1]
            if o[1]:
                eq(bytes(sink.out), want, what + "contents")
            else:
                true(bytes(sink.out) in (before, want), what + "contents")
            pos += len(o[1])
        eq(inner.tell(), pos, what + "position")
    out = bytes(sink.out)
    await outer.__aexit__(None, None, None)
    true(sink.closed, "the stream is closed with it")
    eq(bytes(sink.out), out, "contents when closed")


def check_base(case):
    """What the base class makes of the operations a class of one's own has: each step says what the next
    readinto does, None or a number of bytes."""
    from mediagrains.utils.asyncbinaryio import AsyncBinaryIO, OpenAsyncBinaryIO
    data, seekable, seq = case
    log = []

    class Own(OpenAsyncBinaryIO):
        def __init__(self, b, seekable=None):
            self.b, self.pos, self.nones, self._seekable = b, 0, 0, seekable

        async def readinto(self, b):
            if self.nones > 0:
                self.nones -= 1
                # nothing that it left in the buffer counts
                b[:] = b"\xdd" * len(b)
                return None
            got = self.b[self.pos:self.pos + len(b)]
            b[:len(got)] = got
            self.pos += len(got)
            return len(got)

        async def readall(self):
            got = self.b[self.pos:]
            self.pos = len(self.b)
            return got

        async def write(self, b):
            raise io.UnsupportedOperation("no")

        async def truncate(self, s=None):
            raise io.UnsupportedOperation("no")

        def tell(self):
            return self.pos

        def seek(self, offset, whence=0):
            self.pos = offset

        def seekable(self):
            return self._seekable

        def readable(self):
            return True

        def writable(self):
            return False

    class Hooked(Own):
        async def __open__(self):
            log.append('open')

        async def __close__(self):
            log.append('close')

    async def go():
        outer = AsyncBinaryIO(Hooked if len(seq) % 2 else Own, data, seekable=seekable)
        async with outer as inner:
            eq((inner.seekable_forwards(), inner.seekable_backwards()), (seekable, ) * 2, "seekable by default")
            pos = 0
            for i, (nones, o) in enumerate(seq):
                what = "operation {} {} with {} interruptions at {} of {}: ".format(i, o, nones, pos, len(data))
                inner.nones = nones
                got = await attempt(getattr(inner, o[0])(*o[1:]))
                n = o[1] if len(o) > 1 and o[1] >= 0 else len(data) - pos
                if n > len(data) - pos:
                    true(got[0] == 'raised' and isinstance(got[1], EOFError), what + "not the end of file: {}".format(got))
                    inner.seek(pos)
                    label('end of file')
                else:
                    eq(got, ('gave', data[pos:pos + n]), what + "result")
                    pos += n
        eq(log, ['open', 'close'] if len(seq) % 2 else [], "opened and closed")
    run(go())
    nontrivial(any(n and len(o) > 1 and o[1] > 0 for n, o in seq))


base_op = gen.weighted((5, st.tuples(st.just('read'), size)), (1, st.just(('read', ))), (1, st.just(('readall', ))))
TARGETS = [Target('base', lambda: st.tuples(st.binary(max_size=60), st.booleans(), st.lists(st.tuples(st.sampled_from([0, 0, 1, 3]), base_op), max_size=8)), check_base, quick=1000, thorough=30000),
           Target('bytes', lambda: st.tuples(st.binary(max_size=30), ops, held), check_bytes, quick=2500, thorough=100000),
           Target('files', lambda: st.tuples(st.sampled_from(KINDS), st.binary(max_size=30), ops), check_files, quick=2500, thorough=100000),
           Target('reader', lambda: st.tuples(st.lists(st.tuples(piece, st.integers(0, 3)), max_size=5), st.lists(rop, max_size=12)), check_reader, quick=3000, thorough=150000),
           Target('writer', lambda: st.lists(wop, max_size=12), check_writer, quick=2000, thorough=100000)]
