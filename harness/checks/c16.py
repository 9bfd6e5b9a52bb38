"""C16: comparison options and sequence comparison change results only as stated."""
import operator
import re

from hypothesis import strategies as st

from .. import compare_model as M, gen
from ..core import Target, eq, label, nontrivial, raises, true

RULE = ("options: a grain against one with up to four edits, compared under generated sets of exclusions (by either name), inclusions and expected differences (relations combined with & and |); "
        "reuse: three grains and two sets of options used over and over, up to 6 times; combine: expected differences combined with each other in turn, each judged afterwards; sequences: two lists of grains with edits, insertions and cuts, given as lists, generators or endless iterators, under exclusions, kept whole or last only; long: sequences of up to 300 grains. "
        "Non-trivial: an attribute named by an option differs, or one of several comparisons matches and another does not, or the sequences differ or have at least two entries.")
ASSUMPTIONS = ["payloads of different formats or grain types cannot be compared, so excluding the format (or type) leaves the payload out too",
               "the length of an event grain is that of its JSON form, so excluding an event field leaves the length out too",
               "an expected difference concerns integers, rates and timestamps that are set in both grains"]
OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
FORMAT_ATTRS = {'cog_frame_format', 'cog_audio_format'}


def names(t):
    out = list(M.attributes(t))
    for alias, attrs in M.ALIASES.items():
        if set(attrs) & set(out):
            out.append(alias)
    return out


def relation(scale):
    leaf = st.tuples(st.sampled_from(sorted(OPS)), st.sampled_from([0, 1, -1, 5, -5, 256, 65536, 40000000, 10**9, -10**9]) if scale else st.sampled_from([0, 1, -1, 2, 5, -5, 16, 256, -256, 65536]))
    return st.recursive(leaf, lambda c: st.tuples(st.sampled_from('&|'), c, c), max_leaves=3)


def option(t):
    numeric = [x for x in M.attributes(t) if x in M.INTEGERS]
    kinds = [(5, st.tuples(st.just('exclude'), st.sampled_from(names(t)))), (2, st.just(('include', 'creation_timestamp'))), (1, st.tuples(st.just('include'), st.sampled_from(names(t)))),
             (2, st.tuples(st.just('expect'), st.sampled_from(M.TIMES), relation(True)))]
    kinds.append((2, st.tuples(st.just('expect'), st.sampled_from(numeric), relation(False))))
    kinds.append((1, st.tuples(st.just('exclude'), st.sampled_from(['width', 'priming', 'events', 'nothing', 'data', 'topic']))))
    return gen.weighted(*kinds)


def real(o):
    from mediagrains.comparison.options import CompareOnlyMetadata, Exclude, ExpectedDifference, Include
    from mediatimestamp.immutable import TimeOffset
    if o[0] == 'exclude':
        return CompareOnlyMetadata if o[1] == 'data' else getattr(Exclude, o[1])
    if o[0] == 'include':
        return getattr(Include, o[1])

    def mk(rel):
        if rel[0] in '&|':
            x, y = mk(rel[1]), mk(rel[2])
            return x & y if rel[0] == '&' else x | y
        v = TimeOffset.from_nanosec(rel[1]) if o[1] in M.TIMES else rel[1]
        return OPS[rel[0]](getattr(ExpectedDifference, o[1]), v)
    return mk(o[2])


def holds(rel, d):
    if rel[0] == '&':
        return holds(rel[1], d) and holds(rel[2], d)
    if rel[0] == '|':
        return holds(rel[1], d) or holds(rel[2], d)
    return OPS[rel[0]](d, rel[1])


def model(a, la, b, lb, options):
    """{attribute: (accepted, excluded)} or None where it cannot be said."""
    diff = M.differing(a, la, b, lb)
    if None in diff:
        return None
    same_type = a['type'] == b['type']
    attrs = M.attributes(a['type']) if same_type else M.COMMON + ['data']
    excluded = set()
    for o in options:
        if o[0] == 'exclude':
            excluded |= set(M.ALIASES.get(o[1], [])) | {o[1]}
    if ('include', 'creation_timestamp') not in options:
        excluded.add('creation_timestamp')
    if not same_type or diff & FORMAT_ATTRS:
        excluded.add('data')
    if same_type and a['type'] == 'event' and excluded & {'event_type', 'topic', 'event_data'}:
        excluded.add('length')
    out = {}
    for x in attrs:
        ok = x not in diff
        rels = [o[2] for o in options if o[0] == 'expect' and o[1] == x]
        if rels:
            va, vb = M.value(a, la, x), M.value(b, lb, x)
            if va is not None and vb is not None:
                ok = all(holds(r, va - vb) for r in rels)
        out[x] = (ok, x in excluded)
    return out


def strat_options():
    return M.specs().flatmap(lambda s: st.tuples(st.just(s), st.lists(M.edit_for(s), max_size=4), st.lists(option(s['type']), max_size=5), st.booleans()))


def edited(a, edits):
    for e in edits:
        a = M.apply(a, e)
    return a


def check_options(case):
    from mediagrains.comparison import compare_grain
    a, edits, options, narrow = case
    b = edited(a, edits)
    if narrow:
        # leave only what some option speaks of, so that options decide
        keep = {o[1] for o in options}
        keep |= {x for k in list(keep) for x in M.ALIASES.get(k, [])}
        for at, key in list(M.SPEC_KEYS.items()):
            if at not in keep:
                b[key] = a[key]
        for at, key in M.SPECIFIC[a['type']].items():
            if at not in keep:
                b['f'][key] = a['f'][key]
        if not keep & {'data', 'length'}:
            b['data'] = a['data']
    if not M.timestamps_ok(a, b):
        return
    ga, gb = gen.build(a), gen.build(b)
    want = model(a, ga.length, b, gb.length, options)
    if want is None:
        return
    opts = [real(o) for o in options]
    before = [repr(o) for o in opts]
    r = compare_grain(ga, gb, *opts)
    what = "{!r} under {!r}: ".format(edits, options)[:600]
    str(r), r.msg
    for at, (ok, excl) in want.items():
        c = getattr(r, at)
        if not (excl and at == 'data'):
            true(bool(c) is ok, what + "{} counts as {}".format(at, "accepted" if c else "different"))
        true(c.excluded() is excl, what + "{} excluded is {}".format(at, c.excluded()))
        if not ok:
            label('excluded difference' if excl else 'difference')
    eq(len(r.children), len(want), what + "number of attributes compared")
    true(bool(r) is all(ok or excl for ok, excl in want.values()), what + "result {} for {}".format(bool(r), {k: v for k, v in want.items() if v != (True, False)}))
    eq([repr(o) for o in opts], before, what + "options afterwards")
    true(bool(compare_grain(ga, gb, *opts)) is bool(r), what + "comparing again")
    touched = {x for o in options for x in [o[1]] + M.ALIASES.get(o[1], [])}
    nontrivial(any(not ok and at in touched for at, (ok, _) in want.items()) or any(o[0] == 'expect' for o in options))
    label('match' if r else 'no match')
    label('expected difference', any(o[0] == 'expect' for o in options))


def strat_reuse():
    def more(s):
        o = option(s['type'])
        edits = st.lists(M.edit_for(s), max_size=2)
        step = st.tuples(st.integers(0, 2), st.integers(0, 2), st.integers(0, 2))
        return st.tuples(st.just(s), st.lists(edits, min_size=3, max_size=3), st.lists(st.lists(o, max_size=3), min_size=2, max_size=2), st.lists(step, min_size=3, max_size=6))
    return M.specs().flatmap(more)


def check_reuse(case):
    """Three grains and two sets of option objects (or none) used over and over: what was compared before makes no difference."""
    from mediagrains.comparison import compare_grain, compare_grains_pairwise
    s, edits, optsets, steps = case
    specs = [edited(s, e) for e in edits]
    if not M.timestamps_ok(*specs):
        return
    grains = [gen.build(x) for x in specs]
    optsets = optsets + [[]]
    reals = [[real(o) for o in os] for os in optsets]
    verdicts = {}
    used = set()
    for k, (i, j, n) in enumerate(steps):
        what = "step {} of {!r}, {!r} under {!r}: ".format(k, steps, edits, optsets)[:600]
        want = model(specs[i], grains[i].length, specs[j], grains[j].length, optsets[n])
        if want is None:
            continue
        ok = all(a or e for a, e in want.values())
        r = compare_grain(grains[i], grains[j], *reals[n])
        p = compare_grains_pairwise(grains[i:i + 1], grains[j:j + 1], *reals[n])
        for at, (a, e) in want.items():
            c = getattr(r, at)
            if not (e and at == 'data'):
                true(bool(c) is a, what + "{} counts as {}".format(at, "accepted" if c else "different"))
            true(c.excluded() is e, what + "{} excluded is {}".format(at, c.excluded()))
        true(bool(r) is ok, what + "result {} for {}".format(bool(r), {x: v for x, v in want.items() if v != (True, False)}))
        true(bool(p) is ok, what + "result for sequences of these grains {}".format(bool(p)))
        str(r), str(p)
        verdicts[i, j, n] = ok
        used.add(n)
    nontrivial(len(used) > 1 and len(set(verdicts.values())) > 1)
    label('sets of options used: {}'.format(len(used)))


def strat_combine():
    leaf = st.tuples(st.sampled_from(sorted(OPS)), st.integers(-3, 3))
    how = st.tuples(st.sampled_from('&|'), st.integers(0, 5), st.integers(0, 5))
    return st.tuples(st.sampled_from(['samples', 'sample_rate', 'sync_timestamp', 'origin_timestamp']), st.lists(leaf, min_size=1, max_size=3), st.lists(how, min_size=1, max_size=4), st.lists(st.integers(-4, 4), min_size=1, max_size=3),
                     st.lists(st.integers(0, 6), max_size=4))


def check_combine(case):
    """Expected differences that are combined with each other in turn: each still stands for what it was made of."""
    import mediagrains.grains as P
    from mediagrains.cogenums import CogAudioFormat
    from mediagrains.comparison import compare_grain
    from mediagrains.comparison.options import Exclude, ExpectedDifference
    from mediatimestamp.immutable import TimeOffset
    attr, leaves, hows, diffs, early = case
    times = attr in M.TIMES
    pool = [(r, OPS[r[0]](getattr(ExpectedDifference, attr), TimeOffset.from_nanosec(r[1]) if times else r[1])) for r in leaves]
    kw = {'samples': 100, 'sample_rate': 48000, 'sync_timestamp': gen.mk_ts(10**9), 'origin_timestamp': gen.mk_ts(10**9)}

    def grain(d):
        v = gen.mk_ts(10**9 + d) if times else kw[attr] + d
        return P.AudioGrain(src_id=gen.UUID(int=1), flow_id=gen.UUID(int=2), creation_timestamp=gen.mk_ts(5), channels=1, cog_audio_format=CogAudioFormat.S16_INTERLEAVED, **dict(kw, **{attr: v}))
    against = grain(0)

    def judge(which, what):
        for d in diffs:
            a = grain(d)
            for k in which:
                rel, o = pool[k % len(pool)]
                r = compare_grain(a, against, o, Exclude.data, Exclude.length)
                true(bool(r) is holds(rel, d), "{}a difference of {} {} under {}".format(what, d, "passes" if r else "fails", rel))
                str(r)
                seen.add(bool(r))
    seen = set()
    judge(early, "before all: ")
    for op, i, j in hows:
        (p, x), (q, y) = pool[i % len(pool)], pool[j % len(pool)]
        pool.append(((op, p, q), x & y if op == '&' else x | y))
    judge(range(len(pool)), "after {!r}: ".format(hows))
    nontrivial(len(seen) == 2)
    label('attribute:' + attr)


def strat_refused():
    return st.tuples(st.sampled_from(M.TIMES + M.INTEGERS), st.sampled_from(M.TIMES + M.INTEGERS), st.sampled_from('&|'), st.sampled_from([0, None, 'x', True]))


def check_refused(case):
    x, y, op, other = case
    from mediagrains.comparison.options import ExpectedDifference
    p, q = getattr(ExpectedDifference, x) > 1, getattr(ExpectedDifference, y) < 5
    f = {'&': operator.and_, '|': operator.or_}[op]
    nontrivial()
    if x != y:
        raises(ValueError, lambda: f(p, q), "combining expected differences of two attributes")
    else:
        eq(f(p, q).path, p.path, "attribute of a combination")
    raises((ValueError, TypeError), lambda: f(p, other), "combining an expected difference with something else")


def strat_sequences():
    def rest(base):
        def more(s):
            edit = M.edit_for(s[0])
            n = len(s)
            change = st.one_of(st.tuples(st.just('edit'), st.integers(0, n), edit), st.tuples(st.just('both'), st.integers(0, n), edit, edit), st.tuples(st.just('cut'), st.integers(0, n)),
                               st.tuples(st.just('drop'), st.integers(0, n)), st.tuples(st.just('add'), st.integers(0, n)))
            return st.tuples(st.just(s), st.lists(change, max_size=3), st.lists(option(s[0]['type']), max_size=3), st.booleans(), st.sampled_from(['list', 'generator', 'endless']),
                             st.sampled_from(['list', 'generator', 'endless']))
        return st.lists(M.edit_for(base), min_size=0, max_size=5).map(lambda es: [M.apply(base, e) for e in es]).flatmap(lambda s: more([base] + s) if s else st.one_of(more([base]), more([base, base])))
    def forgiven(s):
        # Some entries differ in ways that are excluded, which must not affect the entries after them
        key = ('f', 'format') if 'format' in s['f'] else None
        edits = M.edit_for(s)
        first = edits if key is None else st.one_of(edits, edits.map(lambda e: e), st.sampled_from(FORMATS[s['type']]).map(lambda f: (key, ('to', f))))
        last = edits if s['type'] == 'event' else st.one_of(edits, st.tuples(st.just('data'), st.tuples(st.just('data'), M.payload_edit())))
        return st.tuples(st.integers(2, 4), st.lists(st.tuples(st.integers(0, 3), first), min_size=1, max_size=2), st.integers(0, 3), last, st.booleans()).map(
            lambda t: ([s] * t[0], [('edit', i, e) for i, e in t[1]] + [('edit', t[2], t[3])], ['forgive'], t[4], 'list', 'list'))
    return gen.weighted((6, M.specs().flatmap(rest)), (4, M.specs([t for t in gen.GRAIN_TYPES if t != 'empty']).flatmap(forgiven)), (1, st.tuples(st.lists(M.specs(), max_size=3), st.just([]), st.just([]), st.booleans(), st.sampled_from(['list', 'generator']),
                                                                     st.sampled_from(['list', 'generator']))))



def strat_long():
    def more(s):
        n = st.one_of(st.sampled_from([16, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]), st.integers(6, 300))
        change = st.one_of(st.tuples(st.just('edit'), M.edit_for(s)), st.just(('cut', None)), st.just(('drop', None)), st.just(('add', None)))
        return st.tuples(st.just(s), n, st.lists(st.tuples(st.integers(0, 300), change), max_size=2), st.lists(option(s['type']), max_size=1), st.booleans(), st.sampled_from(['list', 'generator', 'endless']),
                         st.sampled_from(['list', 'generator', 'endless']))
    return M.specs().flatmap(more)


def check_long(case):
    """The same on tens to hundreds of grains."""
    s, n, changes, *rest = case
    check_sequences(([s] * n, [(c[0], i % n, *c[1:]) if c[0] == 'edit' else (c[0], i % n) for i, c in changes], *rest))


FORMATS = {'video': gen.VIDEO_FORMATS, 'coded_video': gen.CODED_FORMATS, 'audio': gen.AUDIO_FORMATS, 'coded_audio': gen.CODED_AUDIO_FORMATS}


def check_sequences(case):
    from mediagrains.comparison import compare_grains_pairwise
    A, changes, options, last_only, kind_a, kind_b = case
    B = list(A)
    if options == ['forgive']:
        forgive = set()
        for c in changes[:-1]:
            forgive |= M.differing(A[0], 0, M.apply(A[0], c[2]), 0) - {None, 'data', 'length'}
        options = [('exclude', x) for x in sorted(forgive)]
        label('excluded differences before others')
    for c in changes:
        if c[0] == 'cut':
            del B[c[1]:]
        elif c[0] == 'add':
            B.insert(c[1], A[0])
        elif B:
            i = c[1] % len(B)
            if c[0] == 'edit':
                B[i] = M.apply(B[i], c[2])
            elif c[0] == 'both':
                B[i] = M.apply(B[i], c[2])
                if i + 1 < len(B):
                    B[i + 1] = M.apply(B[i + 1], c[3])
            else:
                del B[i]
    if not M.timestamps_ok(*A, *B):
        return
    ga, gb = [gen.build(s) for s in A], [gen.build(s) for s in B]
    taken = [0, 0]

    def given(kind, grains, which):
        if kind == 'list':
            return grains

        def g():
            for x in grains:
                taken[which] += 1
                yield x
            while kind == 'endless':
                taken[which] += 1
                yield grains[0] if grains else gen.build(gen_spec_empty())
        return g()
    if kind_a == 'endless' and kind_b == 'endless' or (kind_a == 'endless' and not A) or (kind_b == 'endless' and not B):
        kind_a = kind_b = 'list'
    la = len(A) if kind_a != 'endless' else 10**9
    lb = len(B) if kind_b != 'endless' else 10**9

    def at(seq, i):
        return seq[i] if i < len(seq) else seq[0]
    first = None
    n = 0
    verdicts = []
    while True:
        if n >= la and n >= lb:
            break
        if n >= la or n >= lb:
            first = n
            break
        m = model(at(A, n), at(ga, n).length, at(B, n), at(gb, n).length, options)
        if m is None:
            return
        verdicts.append(all(ok or excl for ok, excl in m.values()))
        if not verdicts[-1]:
            first = n
            break
        n += 1
    opts = [real(o) for o in options]
    r = compare_grains_pairwise(given(kind_a, ga, 0), given(kind_b, gb, 1), *opts, return_last_only=last_only)
    what = "{} against {} grains, {!r} under {!r}: ".format(len(A), len(B), changes, options)[:600]
    true(bool(r) is (first is None), what + "result is {}, first difference {}".format(bool(r), first))
    shown = n + (first is not None)
    eq(len(r), shown, what + "number of entries compared")
    want = list(range(shown))[-1:] if last_only else list(range(shown))
    eq([c.key for c in r.children], want, what + "entries reported")
    eq(r.failing_keys(), [] if first is None else [first], what + "entries that differ")
    for k in want:
        true(r[k] is r.children[want.index(k)], what + "entry {}".format(k))
    text = str(r).split('\n')[0]
    if first is not None:
        eq(re.findall(r'\d+', text), [str(first)], what + "entry named in " + text)
    for k in (0, 1):
        true(taken[k] <= shown, what + "{} grains taken to compare {}".format(taken[k], shown))
    nontrivial(first is not None or shown > 1)
    label('differ' if first is not None else 'match')
    label('last only', last_only)


def gen_spec_empty():
    return {'type': 'empty', 'src': bytes(16), 'flow': bytes(16), 'ots': 0, 'sts': 0, 'cts': 0, 'rate': (0, 1), 'duration': (0, 1), 'labels': [], 'f': {}, 'data': b""}


TARGETS = [
    Target('options', strat_options, check_options, quick=4000, thorough=200000),
    Target('reuse', strat_reuse, check_reuse, quick=700, thorough=40000),
    Target('combine', strat_combine, check_combine, quick=800, thorough=40000),
    Target('refused', strat_refused, check_refused, quick=200, thorough=2000),
    Target('long', strat_long, check_long, quick=150, thorough=6000),
    Target('sequences', strat_sequences, check_sequences, quick=1500, thorough=60000),
]
