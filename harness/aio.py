"""Running coroutines to completion on one event loop per worker, and simple file objects."""
import asyncio
import io

_loop = None


def run(coro):
    global _loop
    if _loop is None:
        _loop = asyncio.new_event_loop()
        asyncio.set_event_loop(_loop)
    return _loop.run_until_complete(coro)


class Pipe(io.RawIOBase):
    """A write-only file that cannot seek."""
    def __init__(self):
        super().__init__()
        self.out = bytearray()

    def writable(self):
        return True

    def seekable(self):
        return False

    def write(self, b):
        self.out += bytes(b)
        return len(b)

    def getvalue(self):
        return bytes(self.out)


class Stream(io.BufferedIOBase):
    """A read-only file that cannot seek but can tell how much was read (like a buffered pipe reader wrapped by a program)."""
    def __init__(self, b):
        super().__init__()
        self._b = io.BytesIO(b)

    def readable(self):
        return True

    def seekable(self):
        return False

    def read(self, n=-1):
        return self._b.read(n)

    def tell(self):
        return self._b.tell()


def slow_file(content=b"", pauses=(1,)):
    """An open asynchronous seekable file that lets others go on before and after it reads or writes."""
    from itertools import cycle
    from mediagrains.utils.asyncbinaryio import OpenAsyncBinaryIO

    class Slow(OpenAsyncBinaryIO):
        def __init__(self):
            self.f = io.BytesIO(content)
            self.pauses = cycle(pauses)

        async def _pause(self):
            for _ in range(next(self.pauses)):
                await asyncio.sleep(0)

        async def readinto(self, b):
            await self._pause()
            n = self.f.readinto(b)
            await self._pause()
            return n

        async def readall(self):
            await self._pause()
            r = self.f.read()
            await self._pause()
            return r

        async def write(self, b):
            await self._pause()
            n = self.f.write(b)
            await self._pause()
            return n

        async def truncate(self, size=None):
            return self.f.truncate(size)

        def tell(self):
            return self.f.tell()

        def seek(self, offset, whence=0):
            return self.f.seek(offset, whence)

        def seekable(self):
            return True

        def readable(self):
            return True

        def writable(self):
            return True

    return Slow()
