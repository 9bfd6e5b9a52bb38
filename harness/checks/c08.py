"""C08: list-valued grain attributes behave as ordinary mutable lists."""
import json
from fractions import Fraction
from functools import lru_cache

from hypothesis import strategies as st

from .. import gen
from ..core import Target, eq, fail, label, nontrivial, true

RULE = ("histories of 2-25 list operations, on fresh and on held views, compared one by one with the same operations on a Python list (results, error kinds, contents and "
        "metadata); long: 1-6 operations on lists of up to 400 items; non-trivial: at least one mutation took place on a list of two or more items or on one emptied before.")
ASSUMPTIONS = ["the operations of collections.abc.MutableSequence are meant, plus slices; an absent metadata entry and an empty list are the same",
               "items put in are complete items and are not put in twice as the same object"]

KINDS = ['timelabels', 'unit_offsets', 'components']


def label_meta(x):
    tag, count, rate, drop = x
    return {'tag': tag, 'timelabel': {'frames_since_midnight': count, 'frame_rate_numerator': rate[0], 'frame_rate_denominator': rate[1], 'drop_frame': drop}}


def comp_meta(x):
    return dict(zip(('width', 'height', 'stride', 'length', 'offset'), x))


@lru_cache(None)
def item_st(kind):
    if kind == 'unit_offsets':
        return st.integers(0, 4) | gen.u32
    if kind == 'components':
        return st.tuples(*[st.integers(0, 3)] * 5)
    return st.tuples(st.sampled_from(["a", "b", ""]), st.integers(0, 2), st.sampled_from([(25, 1), (30000, 1001)]), st.booleans())


def model_item(kind, x):
    return x if kind == 'unit_offsets' else comp_meta(x) if kind == 'components' else label_meta(x)


def code_item(kind, x, how):
    from mediagrains import Grain, VideoGrain
    if kind == 'unit_offsets':
        return x
    if kind == 'components':
        return comp_meta(x) if how % 2 else VideoGrain.COMPONENT(comp_meta(x))
    if how % 2:
        return label_meta(x)
    tl = Grain.TIMELABEL()
    tl.tag, tl.count, tl.rate, tl.drop_frame = x[0], x[1], Fraction(*x[2]), x[3]
    return tl


IDX = st.integers(-4, 4) | st.integers(-9, 9)
OI = st.one_of(st.none(), IDX)
SLICES = st.tuples(OI, OI, st.one_of(st.none(), st.sampled_from([1, -1, 2, -2, 3])))


@lru_cache(None)
def op_st(kind, reach=None):
    it = item_st(kind)
    items = st.lists(it, max_size=4)
    idx, oi, slices = IDX, OI, SLICES
    if reach is not None:
        idx = st.one_of(IDX, st.integers(-reach, reach))
        oi = st.one_of(st.none(), idx)
        slices = st.tuples(oi, oi, st.one_of(st.none(), st.sampled_from([1, -1, 2, -2, 3, 100])))
        items = st.one_of(items, st.tuples(items.filter(len), st.sampled_from([1, 30, 64, 100])).map(lambda t: (t[0] * t[1])[:130]))
    how = st.integers(0, 7)
    return st.tuples(st.booleans(), how, gen.weighted(
        (2, st.tuples(st.just('get'), idx)), (1, st.tuples(st.just('getslice'), slices)),
        (2, st.tuples(st.just('set'), idx, it)), (2, st.tuples(st.just('setslice'), slices, items)),
        (2, st.tuples(st.just('del'), idx)), (1, st.tuples(st.just('delslice'), slices)),
        (2, st.tuples(st.just('append'), it)), (2, st.tuples(st.just('insert'), idx, it)), (1, st.tuples(st.just('extend'), items)),
        (1, st.tuples(st.just('iadd'), items)), (1, st.tuples(st.sampled_from(['extend-self', 'iadd-self', 'assign-self', 'reverse', 'clear', 'assign-view-slice']))),
        (1, st.tuples(st.just('pop'), oi)), (1, st.tuples(st.sampled_from(['remove', 'index', 'count', 'contains']), it)),
        (1, st.tuples(st.sampled_from(['assign', 'assign-iter', 'assign-tuple']), items)),
        (2, st.tuples(st.just('edit'), idx, st.integers(0, 4), st.integers(0, 99)))))


def strat():
    return st.sampled_from(KINDS).flatmap(lambda k: st.tuples(st.just(k), st.sampled_from(['bytes', 'np']), st.sampled_from(['absent', 'given', 'kw']),
                                                              st.lists(item_st(k), max_size=4), st.lists(op_st(k), min_size=2, max_size=25)))



def strat_long():
    def more(t):
        k, n = t
        return st.tuples(st.just(k), st.sampled_from(['bytes', 'np']), st.sampled_from(['given', 'kw']), st.just(n), st.lists(op_st(k, n + 5), min_size=1, max_size=6))
    return st.tuples(st.sampled_from(KINDS), st.one_of(st.sampled_from([31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]), st.integers(10, 400))).flatmap(more)


def check_long(case):
    """The same on lists of tens to hundreds of items."""
    kind, arrays, start, n, ops = case
    items = [i * 37 % 251 if kind == 'unit_offsets' else (i % 7, i, i * 3, i % 11, i * 5) if kind == 'components' else ("l{}".format(i % 50), i, (25, 1 + i % 3), i % 4 == 0) for i in range(n)]
    check((kind, arrays, start, items, ops))


def make(kind, arrays, start, items):
    from mediagrains import VideoGrain, CodedVideoGrain, GrainFactory
    from mediagrains.numpy import VideoGrain as NPVideo
    m = [model_item(kind, x) for x in items] if start != 'absent' else []
    if kind == 'components':
        md = {'grain': {'grain_type': 'video', 'cog_frame': {'format': 0x2906, 'width': 1, 'height': 1, 'layout': 0, 'extension': 0, 'components': [dict(x) for x in m]}}}
        return (NPVideo if arrays == 'np' else VideoGrain)(md, b"\0" * 128), m
    if kind == 'unit_offsets':
        if start == 'kw':
            given = list(m) if len(m) % 2 else tuple(m)
            g = CodedVideoGrain(unit_offsets=given, origin_width=1, origin_height=1)
            g.given = (given, list(m))
            return g, m
        md = {'grain': {'grain_type': 'coded_video', 'cog_coded_frame': {'format': 0x204}}}
        if start == 'given' and m:
            md['grain']['cog_coded_frame']['unit_offsets'] = list(m)
        return CodedVideoGrain(md, b""), m
    md = {'grain': {'grain_type': 'empty'}}
    if m:
        md['grain']['timelabels'] = [label_meta(x) for x in items]
    return GrainFactory(md, b""), m


def plain(kind, v):
    if kind == 'unit_offsets':
        true(type(v) is int, "item {!r} is no int".format(v))
        return v
    d = dict(v)
    if kind == 'components':
        eq({k: getattr(v, k) for k in d}, d, "attributes of a component")
        eq({k: v[k] for k in d}, d, "items of a component")
        eq(len(v), len(d), "length of a component")
        return d
    t = d['timelabel']
    eq((v.tag, v.count, v.rate, v.drop_frame), (d['tag'], t['frames_since_midnight'], Fraction(t['frame_rate_numerator'], t['frame_rate_denominator']), t['drop_frame']),
       "attributes of a time label")
    eq((v['tag'], v['timelabel'], len(v)), (d['tag'], t, 2), "items of a time label")
    return {'tag': d['tag'], 'timelabel': dict(t)}


def metadata(kind, g):
    m = g.meta['grain']
    if kind == 'timelabels':
        return m.get('timelabels', [])
    if kind == 'components':
        return m['cog_frame']['components']
    return m['cog_coded_frame'].get('unit_offsets', [])


def compare(kind, g, views, m, what):
    eq(json.loads(json.dumps(metadata(kind, g))), m, what + "metadata as JSON")
    if kind == 'unit_offsets':
        eq(list(metadata(kind, g)), m, what + "metadata")
    else:
        eq([dict(x) for x in metadata(kind, g)], m, what + "metadata")
    for v in views:
        eq(len(v), len(m), what + "length")
        eq([plain(kind, x) for x in v], m, what + "contents")
        eq([plain(kind, x) for x in reversed(v)], m[::-1], what + "reversed contents")
        for i in range(-len(m), len(m)):
            eq(plain(kind, v[i]), m[i], what + "item {}".format(i))
        for i in (len(m), -len(m) - 1, len(m) + 5):
            try:
                v[i]
            except IndexError:
                continue
            fail("{}index {} of {} does not raise IndexError", what, i, len(m))
        true(v == m and not (v != m), what + "not equal to the list of its contents")
        true(m == v and not (m != v), what + "list of its contents not equal to it")
        true(v != m + [model_item(kind, NEVER[kind])] and not (v == m + [model_item(kind, NEVER[kind])]), what + "equal to a longer list")
        true(bool(v) == bool(m), what + "truth")


NEVER = {'unit_offsets': 2**33, 'components': (77, 77, 77, 77, 77), 'timelabels': ("never", 7, (7, 1), False)}


def attempt(fn):
    try:
        return ('ok', fn())
    except (IndexError, ValueError) as e:
        return ('err', type(e))


def do_model(kind, m, op):
    k = op[0]
    mi = lambda x: model_item(kind, x)      # noqa: E731
    if k == 'get':
        return m[op[1]]
    if k == 'getslice':
        return m[slice(*op[1])]
    if k == 'set':
        m[op[1]] = mi(op[2])
    elif k == 'setslice':
        m[slice(*op[1])] = [mi(x) for x in op[2]]
    elif k == 'del':
        del m[op[1]]
    elif k == 'delslice':
        del m[slice(*op[1])]
    elif k == 'append':
        m.append(mi(op[1]))
    elif k == 'insert':
        m.insert(op[1], mi(op[2]))
    elif k in ('extend', 'iadd'):
        m.extend(mi(x) for x in op[1])
    elif k in ('extend-self', 'iadd-self'):
        m.extend(_fresh(x) for x in list(m))
    elif k == 'reverse':
        m.reverse()
    elif k == 'clear':
        m.clear()
    elif k == 'pop':
        return m.pop() if op[1] is None else m.pop(op[1])
    elif k == 'remove':
        m.remove(mi(op[1]))
    elif k == 'index':
        return m.index(mi(op[1]))
    elif k == 'count':
        return m.count(mi(op[1]))
    elif k == 'contains':
        return mi(op[1]) in m
    elif k.startswith('assign') and len(op) > 1:
        m[:] = [mi(x) for x in op[1]]
    elif k == 'assign-view-slice':
        m[:] = m[1:]
    elif k == 'edit':
        x = m[op[1]]
        if kind == 'unit_offsets':
            m[op[1]] += op[3]
            return
        if kind == 'components':
            x[('width', 'height', 'stride', 'length', 'offset')[op[2]]] = op[3]
        elif op[2] == 0:
            x['tag'] = str(op[3])
        elif op[2] == 1:
            x['timelabel']['frames_since_midnight'] = op[3]
        elif op[2] == 2:
            r = Fraction(op[3], 4)
            x['timelabel']['frame_rate_numerator'], x['timelabel']['frame_rate_denominator'] = r.numerator, r.denominator
        elif op[2] == 3:
            x['timelabel']['drop_frame'] = bool(op[3] % 2)
        else:
            x['tag'] = "by item"


def _fresh(x):
    if isinstance(x, dict):
        return {k: _fresh(v) for k, v in x.items()}
    return x


def do_code(kind, g, v, op, how):
    k = op[0]
    ci = lambda x: code_item(kind, x, how)      # noqa: E731
    if k == 'get':
        return plain(kind, v[op[1]])
    if k == 'getslice':
        r = v[slice(*op[1])]
        true(isinstance(r, list), "slice is {!r}".format(r))
        return [plain(kind, x) for x in r]
    if k == 'set':
        v[op[1]] = ci(op[2])
    elif k == 'setslice':
        vals = [ci(x) for x in op[2]]
        v[slice(*op[1])] = iter(vals) if how & 2 else vals
    elif k == 'del':
        del v[op[1]]
    elif k == 'delslice':
        del v[slice(*op[1])]
    elif k == 'append':
        v.append(ci(op[1]))
    elif k == 'insert':
        v.insert(op[1], ci(op[2]))
    elif k == 'extend':
        v.extend([ci(x) for x in op[1]])
    elif k == 'iadd':
        vals = [ci(x) for x in op[1]]
        if kind == 'timelabels':
            g.timelabels += vals
        elif kind == 'components':
            g.components += vals
        else:
            g.unit_offsets += vals
    elif k in ('extend-self', 'iadd-self'):
        want = [plain(kind, x) for x in v] * 2
        if k == 'extend-self':
            v.extend(getattr(g, kind))
        elif kind == 'unit_offsets':
            g.unit_offsets += g.unit_offsets
        elif kind == 'timelabels':
            g.timelabels += g.timelabels
        else:
            g.components += g.components
        eq([plain(kind, x) for x in v], want, "list extended by itself")
        if kind != 'unit_offsets':
            setattr(g, kind, [_fresh(x) for x in want])     # as distinct items
    elif k == 'reverse':
        v.reverse()
    elif k == 'clear':
        v.clear()
    elif k == 'pop':
        return plain(kind, v.pop() if op[1] is None else v.pop(op[1]))
    elif k == 'remove':
        v.remove(ci(op[1]))
    elif k == 'index':
        return v.index(ci(op[1]))
    elif k == 'count':
        return v.count(ci(op[1]))
    elif k == 'contains':
        return ci(op[1]) in v
    elif k == 'assign':
        setattr(g, kind, [ci(x) for x in op[1]])
    elif k == 'assign-iter':
        setattr(g, kind, iter([ci(x) for x in op[1]]))
    elif k == 'assign-tuple':
        setattr(g, kind, tuple(ci(x) for x in op[1]))
    elif k == 'assign-self':
        setattr(g, kind, getattr(g, kind))
    elif k == 'assign-view-slice':
        setattr(g, kind, getattr(g, kind)[1:])
    elif k == 'edit':
        x = v[op[1]]
        if kind == 'unit_offsets':
            v[op[1]] += op[3]
        elif kind == 'components':
            n = ('width', 'height', 'stride', 'length', 'offset')[op[2]]
            if how % 2:
                setattr(x, n, op[3])
            else:
                x[n] = op[3]
        elif op[2] == 0:
            x.tag = str(op[3])
        elif op[2] == 1:
            x.count = op[3]
        elif op[2] == 2:
            x.rate = Fraction(op[3], 4)
        elif op[2] == 3:
            x.drop_frame = bool(op[3] % 2)
        else:
            x['tag'] = "by item"


MUTATE = {'set', 'setslice', 'del', 'delslice', 'append', 'insert', 'extend', 'iadd', 'extend-self', 'iadd-self', 'reverse', 'clear', 'pop', 'remove', 'assign',
          'assign-iter', 'assign-tuple', 'assign-self', 'assign-view-slice', 'edit'}


def check(case):
    kind, arrays, start, items, ops = case
    label('list:' + kind)
    g, m = make(kind, arrays, start, items)
    other, om = make(kind, arrays, start, items)
    held = getattr(g, kind)
    compare(kind, g, [held], m, "at first: ")
    emptied = False
    for n, (fresh, how, op) in enumerate(ops):
        what = "after operation {} {!r} on {!r}: ".format(n, op, m)
        v = getattr(g, kind) if fresh else held
        nontrivial(op[0] in MUTATE and (len(m) >= 2 or emptied))
        label('op:' + op[0])
        want = attempt(lambda: do_model(kind, m, op))
        got = attempt(lambda: do_code(kind, g, v, op, how))
        if op[0] not in ('iadd', 'iadd-self') or got[0] == 'err':
            eq(got, want, what + "result")
        compare(kind, g, [held, getattr(g, kind)], m, what)
        if hasattr(g, 'given'):
            eq(list(g.given[0]), g.given[1], what + "list the grain was made from")
        emptied = emptied or not m
    compare(kind, other, [getattr(other, kind)], om, "grain that was not touched: ")


TARGETS = [Target('long', strat_long, check_long, quick=300, thorough=12000), Target('history', strat, check, quick=12000, thorough=400000)]
