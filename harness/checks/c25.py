"""C25: lazily loaded payloads are indistinguishable from the bytes they stand for."""
import io
import operator
import os
import random
import tempfile

from hypothesis import strategies as st

from .. import gen
from ..core import Target, eq, fail, label, nontrivial, true

RULE = ("bytes: several ranges of one source (in memory, or a real file) used by sequences of operations with arguments of all kinds, each compared with the same operation on real bytes, while the source is moved about and some "
        "reads fail; reads of each range are counted. large: ranges of up to 150000 bytes. pairs: two ranges at the same or a nearby place of two sources that differ in one byte or none, compared before either is loaded; ranges of a source that changed. objects: any lazily loaded object used by sequences of accesses compared with the object itself. Non-trivial: sequences which load and use what was loaded again; pairs of which neither was loaded.")
ASSUMPTIONS = ["the range is within the source", "operations needing the C buffer protocol, and + and *, are not supported (bytes() of the object is to be used), as documented"]


class Broken(Exception):
    pass


class Source:
    """Counts reads, some of which fail."""
    def __init__(self, f, failing):
        self.f, self.failing, self.reads, self.calls = f, list(failing), [], 0

    def tell(self):
        return self.f.tell()

    def seek(self, *a):
        return self.f.seek(*a)

    def read(self, n=-1):
        self.calls += 1
        if self.failing:
            how = self.failing.pop(0)
            if how == 1:
                raise Broken()
            if how == 2:
                self.f.read(n)
                raise OSError("broken")
        at = self.f.tell()
        r = self.f.read(n)
        self.reads.append((at, n))
        return r


METHODS = [('find', 'b'), ('rfind', 'b'), ('count', 'b'), ('index', 'b'), ('index', 'i'), ('startswith', 'b'), ('endswith', 'b'), ('split', 'b'), ('partition', 'b'), ('rpartition', 'b'), ('replace', 'bb'), ('strip', 'b'), ('lstrip', ''),
           ('hex', ''), ('decode', ''), ('upper', ''), ('lower', ''), ('isdigit', ''), ('center', 'i'), ('splitlines', ''), ('zfill', 'i'), ('count', 'i'), ('find', 'bi'), ('title', ''), ('removeprefix', 'b'), ('rsplit', ''), ('no_such_method', '')]
index = st.one_of(st.integers(-8, 8), st.integers(-40, 40))
bound = st.one_of(st.none(), index)
other = st.sampled_from(['same', 'prefix', 'more', 'part', 'changed', 'none', 'str', 'int', 'list'])
kind = st.sampled_from(['bytes', 'bytes', 'bytearray', 'memoryview', 'lazy', 'lazy there', 'self'])
op = gen.weighted(
    (1, st.just(('len',))), (1, st.just(('bool',))), (1, st.just(('repr',))), (3, st.tuples(st.just('item'), index)), (3, st.tuples(st.just('slice'), bound, bound, st.one_of(st.none(), st.integers(-3, 3)))), (1, st.just(('iter',))),
    (1, st.just(('reversed',))), (2, st.tuples(st.just('in'), st.one_of(st.integers(-1, 256), st.binary(max_size=2)))), (4, st.tuples(st.just('compare'), st.sampled_from(['eq', 'ne', 'lt', 'le', 'gt', 'ge']), other, kind, st.booleans())),
    (1, st.just(('hash',))), (1, st.just(('str',))), (2, st.just(('bytes',))), (1, st.just(('bytearray',))), (1, st.just(('key',))), (3, st.tuples(st.just('method'), st.sampled_from(METHODS), st.binary(max_size=2), index)),
    (1, st.just(('assign',))), (2, st.tuples(st.just('seek'), st.integers(0, 60))), (1, st.just(('format',))), (1, st.just(('unpack',))), (1, st.just(('write',))), (1, st.just(('sorted',))))


def strat_bytes():
    # a source of few values, so that searches find something
    src = st.one_of(st.binary(max_size=40), st.lists(st.sampled_from(b"ab \n1\0"), max_size=40).map(bytes))
    return st.tuples(src, st.lists(st.tuples(st.integers(0, 60), st.integers(0, 60)), min_size=1, max_size=3), st.sampled_from(['memory', 'memory', 'file', 'raw']), st.integers(0, 60),
                     st.one_of(st.just([]), st.lists(st.integers(0, 2), max_size=4)), st.lists(st.tuples(st.integers(0, 2), op), max_size=14))


def outcome(f):
    try:
        return 'gave', f()
    except (Broken, OSError) as e:
        return 'broken', type(e)
    except Exception as e:
        return 'raised', type(e)


def operand(what, kind, b, s):
    v = {'same': b, 'prefix': b[:-1], 'more': b + b"\0", 'part': b[1:], 'changed': bytes([b[0] ^ 1]) + b[1:] if b else b"\1", 'none': None, 'str': repr(b), 'int': 3, 'list': list(b)}[what]
    if not isinstance(v, bytes) or kind == 'bytes':
        return v, v
    if kind in ('lazy', 'lazy there'):
        # the latter at the same position, of another source
        from mediagrains.utils.iobytes import IOBytes
        s = 2 if kind == 'lazy' else s
        return v, IOBytes(io.BytesIO(bytes(s) + v + b"ss"), s, len(v))
    r = {'bytearray': bytearray, 'memoryview': memoryview, 'self': bytes}[kind](v)
    return r, r


def perform(o, x, b, s=0):
    """(outcome with x, outcome with b); for lazy x and real b"""
    if o[0] == 'compare':
        _, name, what, kind, swap = o
        f = getattr(operator, name)
        if kind == 'self':
            return outcome(lambda: f(x, x)), outcome(lambda: f(b, b))
        real, mine = operand(what, kind, b, s)
        if swap:
            return outcome(lambda: f(mine, x)), outcome(lambda: f(real, b))
        return outcome(lambda: f(x, mine)), outcome(lambda: f(b, real))
    if o[0] == 'assign':
        def assign(y):
            y[0] = 1
        got = outcome(lambda: assign(x))
        return (got if got[0] != 'raised' else ('raised', TypeError)), outcome(lambda: assign(b))
    if o[0] == 'method':
        (name, params), bs, i = o[1], o[2], o[3]
        args = [bs if p == 'b' else i for p in params]
        return outcome(lambda: getattr(x, name)(*args)), outcome(lambda: getattr(b, name)(*args))

    def do(y):
        if o[0] == 'item':
            return y[o[1]]
        if o[0] == 'slice':
            return y[slice(*o[1:])]
        if o[0] == 'in':
            return o[1] in y
        if o[0] == 'iter':
            return [v for v in y]
        if o[0] == 'key':
            return {bytes(y): 1, y: 2}
        if o[0] == 'format':
            return "{}|%s".format(y) % (y, )
        if o[0] == 'unpack':
            first, *rest = y
            return first, rest
        if o[0] == 'write':
            f = io.BytesIO()
            f.write(bytes(y))
            return f.getvalue()
        return {'len': len, 'bool': bool, 'repr': repr, 'reversed': lambda v: list(reversed(v)), 'hash': hash, 'str': str, 'bytes': bytes, 'bytearray': bytearray, 'sorted': sorted}[o[0]](y)
    return outcome(lambda: do(x)), outcome(lambda: do(b))


def check_bytes(case):
    from mediagrains.utils.iobytes import IOBytes
    data, ranges, how, pos, failing, seq = case
    name = None
    if how == 'memory':
        f = io.BytesIO(data)
    else:
        fd, name = tempfile.mkstemp(dir=os.environ.get('VERIF_SCRATCH'))
        os.write(fd, data)
        os.close(fd)
        f = open(name, 'rb', buffering=0 if how == 'raw' else -1)
    try:
        f.seek(pos)
        src = Source(f, failing)
        lazy = []
        for s, n in ranges:
            s %= len(data) + 1
            n = n % (len(data) - s + 1)
            lazy.append([IOBytes(src, s, n), data[s:s + n], False, s])
        eq(src.calls, 0, "reads before anything was used")
        loads = uses = 0
        for k, o in seq:
            if o[0] == 'seek':
                f.seek(o[1])
                continue
            item = lazy[k % len(lazy)]
            x, b, loaded, s = item
            at, calls, reads, fails = f.tell(), src.calls, len(src.reads), len([v for v in src.failing if v])
            got, want = perform(o, x, b, s)
            what = "{} of {}: ".format(o, b if len(b) < 200 else "{} bytes".format(len(b)))
            eq(f.tell(), at, what + "position of the source")
            if got[0] == 'broken':
                true(not loaded and len([v for v in src.failing if v]) < fails, what + "failed with {} though its contents are known".format(got))
                label('load failed')
                continue
            if o[0] == 'repr' and not loaded:
                eq((got[0], src.calls), ('gave', calls), what + "representation of what isn't loaded")
                true("IOBytes(" in got[1], what + "representation " + got[1])
                continue
            eq(got, want, what + "result")
            if want[0] == 'gave':
                true(type(got[1]) is type(want[1]), what + "gave {}, want {}".format(type(got[1]), type(want[1])))
            if o[0] in ('len', 'bool') or loaded:
                eq(src.calls, calls, what + "reads of the source")
            else:
                true(src.calls <= calls + 1, what + "read the source {} times".format(src.calls - calls))
            if len(src.reads) > reads:
                eq(src.reads[-1][0], s, what + "position of the read")
                item[2] = True
                loads += 1
            uses += 1
        nontrivial(loads and uses > loads)
        label(how)
    finally:
        f.close()
        if name:
            os.unlink(name)


def strat_large():
    n = st.sampled_from([255, 256, 257, 4096, 8191, 8192, 8193, 20000, 65535, 65536, 65537, 150000])
    far = st.one_of(st.integers(0, 60), st.integers(0, 200000), st.sampled_from([4096, 8192, 65536]))
    where = st.one_of(index, st.integers(-160000, 160000))
    far_op = st.one_of(op, op, st.tuples(st.just('item'), where), st.tuples(st.just('slice'), st.one_of(st.none(), where), st.one_of(st.none(), where), st.one_of(st.none(), st.integers(-3, 3))), st.tuples(st.just('seek'), far))
    return st.tuples(st.tuples(n, st.integers(0, 2**32)), st.lists(st.tuples(far, far), min_size=1, max_size=2), st.sampled_from(['memory', 'file', 'raw']), far, st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 2), max_size=3)),
                     st.lists(st.tuples(st.integers(0, 2), far_op), min_size=1, max_size=5))


def check_large(case):
    (n, seed), ranges, *rest = case
    whole = seed & 1    # one range is all of it
    check_bytes((random.Random(seed).randbytes(n), ([(0, n)] if whole else []) + ranges, *rest))


def strat_pairs():
    return st.tuples(st.binary(min_size=1, max_size=24), st.integers(0, 2**16), st.integers(0, 30), st.integers(0, 30), st.integers(0, 3), st.integers(-2, 2), st.sampled_from(['eq', 'ne', 'lt', 'le', 'gt', 'ge']),
                     st.sampled_from(['neither', 'neither', 'first', 'second']), st.booleans())


def check_pairs(case):
    """Two ranges of two sources that are almost the same, at almost the same place; neither was used before, or one was."""
    from mediagrains.utils.iobytes import IOBytes
    data, change, start, length, kind, move, name, used, kept = case
    start %= len(data)
    length = 1 + length % (len(data) - start)
    theirs = bytearray(data)
    if kind:
        theirs[start + change % length if kind > 1 else change % len(data)] ^= 1 + (change >> 8) % 255
    theirs = bytes(theirs)
    start2, length2 = start, length
    if kind == 3 and 0 <= start + move and start + move + length <= len(data):
        start2 = start + move
    f1, f2 = io.BytesIO(data), io.BytesIO(theirs)
    x, y = IOBytes(f1, start, length), IOBytes(f1 if kind == 0 else f2, start2, length2)
    b, c = data[start:start + length], theirs[start2:start2 + length2]
    if used == 'first':
        eq(bytes(x), b, "bytes")
    elif used == 'second':
        eq(bytes(y), c, "bytes")
    f = getattr(operator, name)
    nontrivial(used == 'neither')
    label('equal' if b == c else 'different')
    what = "{!r} and {!r}, used: {}: ".format(b, c, used)
    eq(f(x, y), f(b, c), what + name)
    eq(x in [y], b in [c], what + "membership")
    if kept:
        # a source that has changed since
        eq(bytes(x), b, what + "bytes")
        f1.seek(0)
        f1.write(theirs)
        eq(bytes(x), b, what + "what was loaded before the source changed")
        eq(bytes(IOBytes(f1, start, length)), theirs[start:start + length], what + "range made after the source changed")


class Thing:
    kind = 'class attribute'

    def __init__(self, v):
        self.v = v

    def twice(self, *a, **k):
        return self.v, a, k

    def __eq__(self, other):
        return self.v == other.v if isinstance(other, Thing) else NotImplemented

    def __lt__(self, other):
        return self.v < other.v if isinstance(other, Thing) else NotImplemented

    def __hash__(self):
        return 7

    def __str__(self):
        return "thing {}".format(self.v)

    def __repr__(self):
        return "Thing({})".format(self.v)

    def __contains__(self, v):
        return v == self.v

    def __getitem__(self, k):
        return k, self.v


value = st.one_of(st.lists(st.integers(0, 3), max_size=3), st.dictionaries(st.integers(0, 3), st.integers(0, 3), max_size=3), st.text(max_size=3), st.integers(-2, 2), st.binary(max_size=3), st.tuples(st.integers(0, 3)).map(lambda t: ('thing', t[0])))
oop = gen.weighted((2, st.tuples(st.just('get'), st.sampled_from(['v', 'kind', 'missing', 'real', '__doc__']))), (2, st.tuples(st.just('set'), st.sampled_from(['v', 'new']), st.integers(0, 3))), (2, st.tuples(st.just('item'), st.integers(-1, 3))),
                   (1, st.tuples(st.just('setitem'), st.integers(0, 3))), (2, st.tuples(st.just('in'), st.integers(0, 3))), (1, st.just(('str',))), (1, st.just(('repr',))), (1, st.just(('hash',))), (1, st.just(('bool',))),
                   (3, st.tuples(st.just('compare'), st.sampled_from(['eq', 'ne', 'lt', 'le', 'gt', 'ge']), value, st.booleans(), st.booleans())), (2, st.tuples(st.just('call'), st.sampled_from(['twice', 'keys', 'append', 'upper', 'bit_length']), st.integers(0, 3))))


def make(v):
    if isinstance(v, tuple):
        return Thing(v[1])
    return type(v)(v)


def plain(r):
    if isinstance(r, tuple) and len(r) == 2 and r[0] == 'gave' and (callable(r[1]) or isinstance(r[1], type({}.keys()))):
        return 'gave', type(r[1]), list(r[1]) if not callable(r[1]) else None
    return r


def check_objects(case):
    from mediagrains.utils.iobytes import LazyLoader
    v, own, seq = case
    ref, real, calls = make(v), make(v), []

    class Sub(LazyLoader):
        _attributes = ['own']

    def loader():
        calls.append(1)
        return real
    x = Sub(loader) if own else LazyLoader(loader)
    if own:
        x.own = 5
        eq((x.own, len(calls)), (5, 0), "an attribute of its own")
    for o in seq:
        before = len(calls)

        def do(y):
            if o[0] == 'get':
                return getattr(y, o[1])
            if o[0] == 'set':
                return setattr(y, o[1], o[2])
            if o[0] == 'item':
                return y[o[1]]
            if o[0] == 'setitem':
                y[o[1]] = 9
                return None
            if o[0] == 'in':
                return o[1] in y
            if o[0] == 'call':
                return getattr(y, o[1])(o[2]) if o[1] in ('twice', 'append') else getattr(y, o[1])()
            return {'str': str, 'repr': repr, 'hash': hash, 'bool': bool}[o[0]](y)
        if o[0] == 'compare':
            f = getattr(operator, o[1])
            w = make(o[2])
            mine = LazyLoader(lambda: w) if o[3] else w
            got = outcome(lambda: f(mine, x) if o[4] else f(x, mine))
            want = outcome(lambda: f(w, ref) if o[4] else f(ref, w))
        else:
            got, want = outcome(lambda: do(x)), outcome(lambda: do(ref))
        what = "{} of lazily loaded {}: ".format(o, ref)
        if o[0] == 'repr' and not before:
            eq((got[0], len(calls)), ('gave', 0), what + "representation of what isn't loaded")
            continue
        if got[0] == want[0] == 'raised' and o[0] in ('item', 'setitem', 'in', 'hash'):
            pass    # an operation it doesn't have may be refused with an AttributeError
        else:
            eq(plain(got), plain(want), what + "result")
        eq(len(calls), 1, what + "number of loads")
        eq(repr(real), repr(ref), what + "the object")
    if own:
        eq(x.own, 5, "an attribute of its own")
    nontrivial(len(seq) > 1 and calls)


TARGETS = [Target('large', strat_large, check_large, quick=400, thorough=16000), Target('bytes', strat_bytes, check_bytes, quick=6000, thorough=250000), Target('pairs', strat_pairs, check_pairs, quick=1500, thorough=60000), Target('objects', lambda: st.tuples(value, st.booleans(), st.lists(oop, max_size=6)), check_objects, quick=4000, thorough=150000)]
