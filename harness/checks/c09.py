"""C09: an event grain's JSON payload and its event fields are one and the same."""
import json
from copy import deepcopy
from functools import lru_cache

from hypothesis import strategies as st

from .. import aio, gen
from ..core import Target, eq, fail, label, nontrivial, true

RULE = ("histories of 2-16 edits (payload assigned as bytes, text or bytearray; events appended, assigned, edited by attribute or item, values removed; type and topic set; refused "
        "payloads) on event grains built in six ways, compared with a plain model after each; long: the same with hundreds of events or texts of up to 70000 characters; non-trivial: an event with a pre or post value was edited or carried over.")
ASSUMPTIONS = ["JSON values without NaN and infinities", "object keys other than path, pre and post of an event and type, topic and data of the payload carry no meaning"]


@lru_cache(None)
def text():
    return st.one_of(st.text(max_size=8), st.sampled_from(["", "urn:x-ipstudio:format:event.notify", "/path", "\ud800", "\u2028\x00\"\\", "é😀"]))


@lru_cache(None)
def datum():
    return st.fixed_dictionaries({'path': text()}, optional={'pre': gen.json_values(), 'post': gen.json_values()})


@lru_cache(None)
def payload_st():
    return st.fixed_dictionaries({'type': text(), 'topic': text(), 'data': st.lists(datum(), max_size=3)})


BAD = [b"", b"{", b"null", b"[]", b"5", b'"type topic data"', b'["type","topic","data"]', b'{"type":"","topic":""}', b'{"type":"","data":[]}', b'{"topic":"","data":[]}',
       b'{"type":"","topic":"","data":{}}', b'{"type":"","topic":"","data":null}', b'{"type":"x","topic":"y","data":[{"path":"p"},{"pre":1}]}',
       b'{"type":"x","topic":"y","data":[1]}', b'{"type":"x","topic":"y","data":["path"]}', b'{"type":"x","topic":"y","data":[[]]}', b"\xff\xfe", b'{"type":"a"}x']


@lru_cache(None)
def op_st(reach=5):
    val = gen.json_values()
    which = st.integers(0, reach)
    return gen.weighted(
        (3, st.tuples(st.just('data'), payload_st(), st.sampled_from(['bytes', 'str', 'bytearray', 'await', 'indent', 'reorder']))),
        (3, st.tuples(st.just('append'), text(), val, val, st.sampled_from(['pos', 'kw', 'none']))),
        (3, st.tuples(st.just('attr'), which, st.sampled_from(['pre', 'post', 'path']), val, text())),
        (2, st.tuples(st.just('attr-none'), which, st.sampled_from(['pre', 'post']))),
        (2, st.tuples(st.just('item'), which, st.sampled_from(['pre', 'post', 'path']), val, text())),
        (2, st.tuples(st.just('del'), which, st.sampled_from(['pre', 'post']))),
        (3, st.tuples(st.just('inside'), which, st.sampled_from(['pre', 'post']), val)),
        (1, st.tuples(st.just('type'), text())), (1, st.tuples(st.just('topic'), text())),
        (2, st.tuples(st.just('event_data'), st.lists(datum(), max_size=3), st.booleans())),
        (1, st.tuples(st.just('self'), st.sampled_from(['data', 'event_data', 'drop', 'deepcopy']))),
        (1, st.tuples(st.just('bad'), st.sampled_from(BAD))))


def strat():
    return st.tuples(st.sampled_from(['kw', 'meta', 'meta-data', 'factory', 'bare', 'bare-data', 'data-type']), payload_st(), st.lists(op_st(), min_size=2, max_size=16))



def strat_long():
    long_text = st.one_of(st.tuples(text(), st.sampled_from([100, 256, 1000, 70000])).map(lambda t: (t[0] * t[1])[:t[1] + 5]))
    many = st.tuples(payload_st(), st.sampled_from([1, 8, 50, 100, 128, 256, 300]), st.one_of(st.none(), st.tuples(st.sampled_from(['type', 'topic', 'path', 'post']), long_text))).map(lengthen)
    return st.tuples(st.sampled_from(['kw', 'meta', 'meta-data', 'factory', 'bare', 'bare-data', 'data-type']), many,
                     st.lists(st.one_of(op_st(600), st.tuples(st.just('data'), many, st.sampled_from(['bytes', 'str', 'bytearray', 'await', 'indent', 'reorder']))), min_size=1, max_size=5))


def lengthen(t):
    p, n, extra = t
    data = [dict(d, path="{}{}".format(d['path'], i) if i else d['path']) for i in range(n) for d in p['data']]
    if extra is not None and extra[0] in ('type', 'topic'):
        return dict(p, data=data, **{extra[0]: extra[1]})
    if extra is not None and data:
        data[len(data) // 2] = dict(data[len(data) // 2], **{extra[0]: extra[1]})
    return dict(p, data=data)


def as_bytes(p):
    return json.dumps(p).encode()


class B:
    def __init__(self, b):
        self.b = b

    def __bytes__(self):
        return self.b


def construct(how, p):
    from mediagrains import EventGrain, GrainFactory
    p = deepcopy(p)
    if how == 'kw':
        g = EventGrain(event_type=p['type'], topic=p['topic'])
        return g, dict(p, data=[])
    if how == 'meta':
        return EventGrain({'grain': {'grain_type': 'event', 'event_payload': p}}), deepcopy(p)
    if how == 'meta-data':
        return EventGrain({'grain': {'event_payload': {'type': 'old', 'topic': 'old', 'data': [{'path': 'old'}]}}}, as_bytes(p)), p
    if how == 'factory':
        return GrainFactory({'grain': {'grain_type': 'event', 'event_payload': p}}, B(as_bytes(p))), deepcopy(p)
    if how == 'bare':
        return EventGrain({'grain': {}}), {'type': '', 'topic': '', 'data': []}
    if how == 'bare-data':
        return EventGrain({}, bytearray(as_bytes(p))), p
    return GrainFactory({'grain': {'grain_type': 'data'}}, as_bytes(p)), p


def same(a, b):
    return gen.strict_eq(a, b)


def compare(g, m, what):
    from mediagrains import EventGrain
    true(type(g) is EventGrain and g.grain_type == 'event', what + "kind of grain")
    raw = g.data
    true(type(raw) is bytes, what + "payload is {!r}".format(type(raw)))
    got = json.loads(raw.decode('utf-8'))
    if not same(got, m):
        fail("{}payload is {!r}, want {!r}", what, got, m)
    if g.event_type != m['type'] or g.topic != m['topic']:
        fail("{}type and topic are {!r} {!r}, want {!r} {!r}", what, g.event_type, g.topic, m['type'], m['topic'])
    ev = g.event_data
    eq(len(ev), len(m['data']), what + "number of events")
    for i, (d, w) in enumerate(zip(ev, m['data'])):
        if not same(dict(d), w):
            fail("{}event {} is {!r}, want {!r}", what, i, dict(d), w)
        true(d == w and not (d != w), what + "event not equal to its dictionary")
        true(d != dict(w, path=w['path'] + "x") and not (d == dict(w, path=w['path'] + "x")), what + "event equal to another")
        eq(len(d), len(w), what + "size of the event")
        eq(set(d), set(w), what + "keys of the event")
        eq(d.path, w['path'], what + "path")
        if not same(d.pre, w.get('pre')) or not same(d.post, w.get('post')):
            fail("{}pre and post are {!r} {!r} for {!r}", what, d.pre, d.post, w)
        eq(('pre' in d, 'post' in d), ('pre' in w, 'post' in w), what + "presence of pre and post")
        for k in w:
            true(same(d[k], w[k]), what + "item " + k)
    eq(g.length, len(raw), what + "length")
    eq(g.expected_length, len(raw), what + "expected length")
    true(g.has_data(), what + "has no data")
    eq(bytes(g), raw, what + "bytes(grain)")
    p = g.meta['grain']['event_payload']
    eq((p['type'], p['topic']), (m['type'], m['topic']), what + "metadata")
    true(same([dict(x) for x in p['data']], m['data']), what + "events in the metadata")


def transfer(g, m, what):
    """Another grain given the payload bytes has the same contents."""
    from mediagrains import EventGrain
    h = EventGrain(event_type="other", topic="other")
    h.append("other", 1, 2)
    h.data = g.data
    compare(h, m, what + "transferred: ")
    eq(h.data, g.data, what + "payload given back")


async def _wait(g):
    return await g


def fresh(x):
    """The same of parts of its own: generators may use one list at several places."""
    if isinstance(x, dict):
        return {k: fresh(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(map(fresh, x))
    return x


def check(case):
    how, p, ops = fresh(case)
    label('built:' + how)
    g, m = construct(how, p)
    compare(g, m, "at first: ")
    other, om = construct(how, p)
    given = []          # payload texts, what they say, and another grain that was given each
    for n, op in enumerate(ops):
        what = "after operation {} {!r}: ".format(n, op)
        k = op[0]
        label('op:' + k)
        rich = any('pre' in d or 'post' in d for d in m['data'])
        nontrivial(rich)
        ev = m['data']
        if k == 'data':
            m = deepcopy(op[1])
            src = m
            if op[2] == 'reorder':
                src = {x: m[x] for x in ('data', 'topic', 'type')}
                src['data'] = [{x: d[x] for x in reversed(list(d))} for d in m['data']]
            text = json.dumps(src, indent=2 if op[2] == 'indent' else None, ensure_ascii=op[2] != 'indent' or '\\ud800' in json.dumps(src))
            raw = text.encode()
            if op[2] == 'await':
                async def load(raw=raw):
                    return raw
                g.data = raw if n % 2 else bytearray(raw)
                from mediagrains import EventGrain
                h = EventGrain({}, load())
                eq(json.loads(aio.run(_wait(h))), m, what + "awaited payload")
                compare(h, m, what + "awaited: ")
            else:
                value = text if op[2] == 'str' else bytearray(raw) if op[2] == 'bytearray' else raw
                g.data = value
                if n % 2:
                    twin = deepcopy(other)
                    twin.data = value
                    given.append((value, deepcopy(m), twin))
        elif k == 'append':
            path, pre, post = op[1], deepcopy(op[2]), deepcopy(op[3])
            if op[4] == 'none':
                g.append(path)
                pre = post = None
            elif op[4] == 'kw':
                g.append(path, post=post)
                pre = None
            else:
                g.append(path, pre, post)
            d = {'path': path}
            if pre is not None:
                d['pre'] = deepcopy(pre)
            if post is not None:
                d['post'] = deepcopy(post)
            ev.append(d)
        elif k in ('attr', 'item'):
            if not ev:
                continue
            i = op[1] % len(ev)
            v = op[4] if op[2] == 'path' else deepcopy(op[3])
            if k == 'attr':
                if v is None:
                    continue
                setattr(g.event_data[i], op[2], v)
            else:
                g.event_data[i][op[2]] = v
            ev[i][op[2]] = deepcopy(v)
        elif k == 'attr-none':
            if not ev:
                continue
            i = op[1] % len(ev)
            setattr(g.event_data[i], op[2], None)
            ev[i].pop(op[2], None)
        elif k == 'del':
            if not ev:
                continue
            i = op[1] % len(ev)
            try:
                del g.event_data[i][op[2]]
                gone = True
            except KeyError:
                gone = False
            eq(gone, op[2] in ev[i], what + "removed")
            ev[i].pop(op[2], None)
        elif k == 'inside':
            # the value itself is changed
            if not ev:
                continue
            i = op[1] % len(ev)
            for v in (getattr(g.event_data[i], op[2]), ev[i].get(op[2])):
                if isinstance(v, list):
                    v.append(deepcopy(op[3]))
                elif isinstance(v, dict):
                    v['inside'] = deepcopy(op[3])
        elif k == 'type':
            g.event_type = m['type'] = op[1]
        elif k == 'topic':
            g.topic = m['topic'] = op[1]
        elif k == 'event_data':
            events = deepcopy(op[1])
            if op[2]:
                h, _ = construct('meta', dict(m, data=events))
                g.event_data = h.event_data
            else:
                g.event_data = events
            m['data'] = deepcopy(op[1])
        elif k == 'self':
            if op[1] == 'data':
                g.data = g.data
            elif op[1] == 'event_data':
                g.event_data = g.event_data
            elif op[1] == 'drop':
                g.event_data = g.event_data[1:]
                m['data'] = ev[1:]
            else:
                h = deepcopy(g)
                compare(h, m, what + "copy: ")
                h.append("more")
                h.topic += "more"
                for d in h.event_data:
                    d.path += "x"
                    d['pre'] = "changed"
        elif k == 'bad':
            bad = op[1]
            try:
                g.data = bad
            except ValueError:
                pass
            else:
                fail("{}payload {!r} is accepted", what, bad)
        compare(g, m, what)
        transfer(g, m, what)
    compare(other, om, "grain that was not touched: ")
    for value, w, twin in given:
        compare(twin, w, "grain given the same payload: ")
        other.data = value
        compare(other, w, "grain given the same payload later: ")


TARGETS = [Target('long', strat_long, check, quick=300, thorough=12000), Target('history', strat, check, quick=8000, thorough=250000)]
