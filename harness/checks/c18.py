"""C18: pattern generators deliver the same grain for an instant however it is asked for."""
import itertools
import uuid
from fractions import Fraction

from hypothesis import strategies as st

from .. import formats as F, gen
from ..core import Target, eq, fail, label, nontrivial, raises, true

RULE = ("history: a generator of a generated kind and configuration and a sequence of requests by timestamp (on and between its instants), count, time value with and without rates, object with a time or "
        "time range, ranges of every kind, bound style and rate, slices with steps given as numbers or times, membership and defaults, requests to be refused, with the grains delivered modified in "
        "between; the grains are compared with an enumeration of the instants and with those of a fresh generator; defaults: generators made with some of their arguments, by position or name, against those made with all of them. Non-trivial: at least two requests deliver grains.")
ASSUMPTIONS = ["a slice stands for the inclusive range from its start to its stop", "a range with a rate is stepped through at that rate and gives the grains of those of its instants which are instants of the generator",
               "a step given as a time is the duration of a whole number of grains", "creation timestamps are not compared", "instants are rounded to nanoseconds towards zero"]
RATES = [(25, 1), (50, 1), (30000, 1001), (24000, 1001), (60000, 1001), (1, 1), (10, 1), (1, 2), (30, 1), (120, 1)]
SRC, FLOW = uuid.UUID(int=0x1234), uuid.UUID(int=0x5678 << 64)
PATTERN_FORMATS = [F.PLANAR[n][0] for n in F.PLANAR if not n.startswith('S32') and 'RGB' not in n]
TAKE = 6


class HasTime:
    def __init__(self, ts):
        self.ts = ts

    def __mediatimestamp__(self):
        return self.ts


class HasRange:
    def __init__(self, rng):
        self.rng = rng

    def __mediatimerange__(self):
        return self.rng


video_conf = st.fixed_dictionaries({'rate': st.sampled_from(RATES), 'w': st.sampled_from([8, 16, 24, 6, 10]), 'h': st.sampled_from([2, 4, 6]), 'fmt': st.sampled_from(PATTERN_FORMATS)})
still_conf = st.fixed_dictionaries({'rate': st.sampled_from(RATES), 'w': st.sampled_from([2, 4, 8]), 'h': st.sampled_from([2, 4]),
                                    'fmt': st.sampled_from(sorted(list(F.PLANAR_BY_VALUE) + list(F.PACKED_BY_VALUE) + [F.V210])), 'pad': st.sampled_from([0, 0, 4]), 'seed': st.integers(0, 255),
                                    'labels': st.lists(gen.timelabel(), max_size=2), 'numpy': st.booleans(), 'ots': st.sampled_from([0, 5 * 10**9]), 'near': st.one_of(st.none(), st.integers(-3, 8))})
audio_conf = st.fixed_dictionaries({'samples': st.sampled_from([1920, 48, 1601, 7, 1, 1024, 480]), 'sample_rate': st.sampled_from([48000, 44100, 96000, 8000]), 'channels': st.integers(1, 3),
                                    'fmt': st.sampled_from(sorted(F.AUDIO_BY_VALUE)), 'freq': st.sampled_from([1000, 440, 997, 3000]), 'volume': st.sampled_from([0.5, 0.1, 1.0])})
basic = st.one_of(st.tuples(st.just('luma'), video_conf), st.tuples(st.just('bars'), video_conf, st.sampled_from([0.75, 1.0, 0.5])), st.tuples(st.just('still'), still_conf))
generators = st.one_of(basic, st.tuples(st.just('overlay'), basic, st.integers(0, 7), st.sampled_from([1.0, 0.5, 2, -1.0, 0.3])), st.tuples(st.just('tone'), audio_conf), st.tuples(st.just('silence'), audio_conf))

# counts are relative to a base count.  A point in time: ('ts', count, ns off) or ('count', count) or ('tv', count, rate) etc
OFFS = st.sampled_from([0, 0, 0, 0, 0, 1, -1, 1000, -1000, 'third', '-third'])
points = st.one_of(st.tuples(st.just('ts'), st.integers(-3, 8), OFFS), st.tuples(st.just('tvts'), st.integers(-3, 8), OFFS), st.tuples(st.just('int'), st.integers(-3, 8)),
                   st.tuples(st.just('tvint'), st.integers(-3, 8)), st.tuples(st.just('tvown'), st.integers(-3, 8)), st.tuples(st.just('tvrate'), st.integers(-3, 8), OFFS, st.sampled_from(RATES + [(1000, 1), (48000, 1)])),
                   st.tuples(st.just('obj'), st.integers(-3, 8), OFFS))
bounds = st.tuples(st.integers(-3, 8), OFFS)
opt_end = st.one_of(st.none(), bounds)
ranges = st.one_of(
    st.tuples(st.sampled_from(['TimeRange', 'TimeValueRange', 'obj', 'ofTimeRange']), bounds, opt_end, st.integers(0, 3)),
    st.tuples(st.sampled_from(['CountRange', 'tvrcount', 'tvrown']), st.tuples(st.integers(-3, 8), st.just(0)), st.one_of(st.none(), st.tuples(st.integers(-3, 8), st.just(0))), st.integers(0, 3)),
    st.tuples(st.just('tvrrate'), bounds, bounds, st.integers(0, 3), st.sampled_from(RATES)))
slices = st.tuples(st.sampled_from(['ts', 'tvts', 'int', 'tvint', 'tvown', 'obj']), bounds, opt_end, st.one_of(st.none(), st.tuples(st.sampled_from(['int', 'ts', 'tv', 'tvint']), st.integers(1, 4))))
requests = st.one_of(st.tuples(st.just('point'), points), st.tuples(st.just('point'), points), st.tuples(st.just('range'), ranges, st.integers(1, 3)), st.tuples(st.just('slice'), slices),
                     st.tuples(st.just('in'), points), st.tuples(st.just('get'), points), st.tuples(st.just('bad'), st.integers(0, 9)))


def strat_history():
    return st.tuples(generators, gen.weighted((3, st.just(0)), (2, st.integers(-5, 5)), (3, st.integers(0, 10**10)), (1, st.integers(-10**9, 0))), st.lists(st.tuples(requests, st.booleans()), min_size=1, max_size=6))


def make(spec, base=0):
    """A generator and (rate, expected observation of its grains with the instant left out or None)"""
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
    from mediagrains.patterngenerators.audio import Silence, Tone
    from mediagrains.patterngenerators.video import ColourBars, LumaSteps, MovingBarOverlay, StillPatternGenerator
    kind, c = spec[0], spec[1]
    if kind == 'overlay':
        source, rate, obs, supported = make(c, base)
        if not supported:
            raises(ValueError, lambda: MovingBarOverlay(source, height=spec[2], speed=spec[3]), "overlay of an unsupported format")
            return source, rate, obs, False
        return MovingBarOverlay(source, height=spec[2], speed=spec[3]), rate, obs, True
    if kind in ('tone', 'silence'):
        kw = dict(samples=c['samples'], channels=c['channels'], cog_audio_format=CogAudioFormat(c['fmt']), sample_rate=c['sample_rate'])
        rate = Fraction(c['sample_rate'], c['samples'])
        g = Silence(SRC, FLOW, **kw) if kind == 'silence' else Tone(SRC, FLOW, frequency=c['freq'], volume=c['volume'], **kw)
        obs = {'class': 'AudioGrain', 'type': 'audio', 'labels': [], 'f': {'format': c['fmt'], 'channels': c['channels'], 'samples': c['samples'], 'sample_rate': c['sample_rate']}}
    else:
        rate = Fraction(*c['rate'])
        if kind == 'luma':
            g = LumaSteps(SRC, FLOW, c['w'], c['h'], rate=rate, cog_frame_format=CogFrameFormat(c['fmt']))
        elif kind == 'bars':
            g = ColourBars(SRC, FLOW, c['w'], c['h'], intensity=spec[2], rate=rate, cog_frame_format=CogFrameFormat(c['fmt']))
        else:
            template = still_template(c, base)
            g = StillPatternGenerator(template)
            obs = gen.observe(template)
        if kind != 'still':
            comps, _, _ = F.layout(c['fmt'], c['w'], c['h'], 0)
            obs = {'class': 'VideoGrain', 'type': 'video', 'labels': [],
                   'f': {'format': c['fmt'], 'layout': 0, 'width': c['w'], 'height': c['h'], 'extension': 0, 'sar': None, 'par': None, 'components': comps}}
    obs = dict(obs, src=SRC.bytes, flow=FLOW.bytes, rate=(rate.numerator, rate.denominator), duration=((1 / rate).numerator, (1 / rate).denominator))
    return g, rate, obs, c['fmt'] in PATTERN_FORMATS


def still_template(c, base=0):
    import mediagrains.grains as P
    import mediagrains.numpy as N
    comps, size, _ = F.layout(c['fmt'], c['w'], c['h'], c['pad'] if c['fmt'] != F.V210 else 0)
    rate = Fraction(*c['rate'])
    ots, sts = c['ots'], 7
    if c.get('near') is not None:
        ots = sts = Clock(rate).at(base + c['near'])    # one of the instants asked for
    meta = {'@_ns': 'urn:x-ipstudio:ns:0.1', 'grain': {
        'grain_type': 'video', 'source_id': str(SRC), 'flow_id': str(FLOW), 'origin_timestamp': gen.mk_ts(ots), 'sync_timestamp': gen.mk_ts(sts), 'creation_timestamp': gen.mk_ts(8),
        'rate': rate, 'duration': 1 / rate,
        'cog_frame': {'format': c['fmt'], 'layout': 0, 'width': c['w'], 'height': c['h'], 'extension': 0, 'components': comps}}}
    if c['labels']:
        meta['grain']['timelabels'] = [{'tag': tag, 'timelabel': {'frames_since_midnight': k, 'frame_rate_numerator': n, 'frame_rate_denominator': d, 'drop_frame': drop}}
                                       for (tag, k, (n, d), drop) in c['labels']]
    # numpy grains of formats without array views would be refused
    numpy = c['numpy'] and c['fmt'] != F.V210
    data = bytes((i * 37 + c['seed']) & 255 for i in range(size))
    return (N if numpy else P).VideoGrain(meta, data if c['seed'] & 1 else bytearray(data))


class Clock:
    """The instants of a rate, in nanoseconds."""
    def __init__(self, rate):
        self.rate = rate

    def at(self, n):
        a = Fraction(abs(n) * 10**9) / self.rate
        ns = a.numerator // a.denominator
        return -ns if n < 0 else ns

    def count(self, ns):
        """The instant that is exactly at ns, or None."""
        n = int(Fraction(ns) * self.rate / 10**9)
        for m in (n - 1, n, n + 1):
            if self.at(m) == ns:
                return m
        return None

    def first(self, ns):
        n = int(Fraction(ns) * self.rate / 10**9) - 2
        while self.at(n) < ns:
            n += 1
        return n


class Run:
    def __init__(self, spec, base):
        self.spec = spec
        self.base = base
        self.g, self.rate, self.obs, _ = make(spec, base)
        self.clock = Clock(self.rate)
        self.reference = {}
        self.delivered = 0

    def ns(self, b):
        """Nanoseconds of (count relative to base, offset)."""
        k, off = b
        if off == 'third':
            off = int(10**9 / self.rate / 3)
        elif off == '-third':
            off = -int(10**9 / self.rate / 3)
        return self.clock.at(self.base + k) + off

    def expect(self, n):
        """What a grain handed out for count n has to be: that of a generator never used before."""
        if n not in self.reference:
            g = make(self.spec)[0][gen.mk_ts(self.clock.at(n))]
            self.reference[n] = (gen.observe(g), bytes(g.data))
        return self.reference[n]

    def grain(self, g, n, what, spoil):
        self.delivered += 1
        want = dict(self.obs, ots=self.clock.at(n), sts=self.clock.at(n))
        got = gen.observe(g)
        for k in want:
            eq(got[k], want[k], "{}: {} of the grain for instant {}".format(what, k, n))
        ref = self.expect(n)
        eq(got, ref[0], "{}: the grain for instant {} beside that of a fresh generator".format(what, n))
        true(bytes(g.data) == ref[1], "{}: the payload of the grain for instant {} is not that of a fresh generator".format(what, n))
        if spoil:
            if isinstance(g.data, bytearray):
                for i in range(len(g.data)):
                    g.data[i] ^= 0x5a
            elif not isinstance(g.data, bytes):
                g.data[:] = 0
            g.origin_timestamp = gen.mk_ts(1)
            g.flow_id = uuid.UUID(int=9)
            g.rate = Fraction(7, 3)
            g.add_timelabel('spoilt', 1, Fraction(25, 1))
            if g.grain_type == 'video':
                g.width += 2
                g.components[0].stride += 1

    def point(self, p):
        """(key, the instant it stands for or None)"""
        from mediatimestamp import TimeValue
        kind = p[0]
        if kind in ('int', 'tvint', 'tvown'):
            n = self.base + p[1]
            return {'int': lambda: n, 'tvint': lambda: TimeValue(n), 'tvown': lambda: TimeValue(n, rate=self.rate)}[kind](), n
        ns = self.ns(p[1:3])
        ts = gen.mk_ts(ns)
        n = self.clock.count(ns)
        if kind == 'ts':
            return ts, n
        if kind == 'tvts':
            return TimeValue(ts), n
        if kind == 'obj':
            return HasTime(ts), n
        rate = Fraction(*p[3])
        tv = TimeValue(ts, rate=rate)
        return tv, self.clock.count(Clock(rate).at(tv.as_count()))

    def between(self, lo, lo_in, hi, hi_in):
        """The counts of instants from lo to hi (ns)."""
        n = self.clock.first(lo)
        while True:
            t = self.clock.at(n)
            if hi is not None and (t > hi or (t == hi and not hi_in)):
                return
            if t > lo or lo_in:
                yield n
            n += 1

    def range_of(self, r):
        from mediatimestamp import CountRange, TimeRange, TimeValue, TimeValueRange
        kind, lo, hi, inc = r[:4]
        lo_in, hi_in = bool(inc & 1), bool(inc & 2)
        if kind in ('CountRange', 'tvrcount', 'tvrown'):
            a, b = self.base + lo[0], None if hi is None else self.base + hi[0]
            if kind == 'CountRange':
                rng = CountRange(a, b, inc)
            else:
                rng = TimeValueRange(a, b, inc, rate=self.rate if kind == 'tvrown' else None)
            return rng, itertools.islice(itertools.count(a + (not lo_in)), None if b is None else max(0, b - a - (not lo_in) + hi_in))
        a, b = self.ns(lo), None if hi is None else self.ns(hi)
        ta, tb = gen.mk_ts(a), None if hi is None else gen.mk_ts(b)
        if kind == 'tvrrate':
            rate = Fraction(*r[4])
            rng = TimeValueRange(ta, tb, inc, rate=rate)
            other = Clock(rate)
            return rng, (self.clock.count(other.at(tv.as_count())) for tv in rng)
        if kind == 'TimeRange':
            rng = TimeRange(ta, tb, TimeRange.Inclusivity(inc))
        elif kind == 'obj':
            rng = HasRange(TimeRange(ta, tb, TimeRange.Inclusivity(inc)))
        elif kind == 'ofTimeRange':
            rng = TimeValueRange(TimeRange(ta, tb, TimeRange.Inclusivity(inc)))
        else:
            rng = TimeValueRange(ta, tb, inc)
        if b is not None and (a > b or (a == b and inc != 3)):
            return rng, iter(())
        return rng, self.between(a, lo_in, b, hi_in)

    def slice_of(self, s):
        from mediatimestamp import TimeValue
        kind, lo, hi, step = s
        if kind in ('int', 'tvint', 'tvown'):
            lo, hi = (lo[0], 0), hi and (hi[0], 0)
        p = ('ts' if kind not in ('int', 'tvint', 'tvown', 'obj', 'tvts') else kind,)
        start, _ = self.point(p + lo)
        stop = None if hi is None else self.point(p + hi)[0]
        a, b = self.ns(lo), None if hi is None else self.ns(hi)
        counts = self.between(a, True, b, True)
        k = 1
        stepkey = None
        if step is not None:
            k = step[1]
            stepkey = {'int': lambda: k, 'ts': lambda: gen.mk_ts(self.clock.at(k)), 'tv': lambda: TimeValue(gen.mk_ts(self.clock.at(k))), 'tvint': lambda: TimeValue(k, rate=self.rate)}[step[0]]()
        return slice(start, stop, stepkey), itertools.islice(counts, 0, None, k)

    def series(self, it, counts, what, spoil):
        for i in range(TAKE):
            n = next(counts, 'end')
            while n is None:
                n = next(counts, 'end')
            if n == 'end':
                g = next(it, None)
                true(g is None, "{}: delivered a grain at {} beyond the {} expected".format(what, g and g.origin_timestamp, i))
                return
            g = next(it, None)
            true(g is not None, "{}: ended after {} grains without the one for instant {} ({} ns)".format(what, i, n, self.clock.at(n)))
            self.grain(g, n, "{} grain {}".format(what, i), spoil)

    def refused(self, i):
        from mediatimestamp import CountRange, TimeRange, TimeValueRange
        g = self.g
        ts = gen.mk_ts(self.clock.at(self.base))
        bad = [lambda: g[:], lambda: g[:ts], lambda: g[TimeRange.eternity()], lambda: g[TimeRange.from_end(ts)], lambda: g[CountRange(None, 3)], lambda: g[TimeValueRange.from_end(ts)],
               lambda: g['0:0'], lambda: g[None], lambda: g[1.5], lambda: g[('a', 1):]]
        raises((ValueError, TypeError), bad[i], "{}: request {} to be refused".format(self.spec[0], i))

    def request(self, req, spoil):
        kind = req[0]
        what = "{} at base {}: {}".format(self.spec[0], self.base, req)
        label(kind if kind != 'range' else 'range:' + req[1][0])
        if kind in ('point', 'in', 'get'):
            key, n = self.point(req[1])
            label(kind + (':' + req[1][0] if n is not None else ':between instants'))
            if kind == 'in':
                eq(key in self.g, n is not None, what)
            elif kind == 'get':
                from mediatimestamp import TimeValue
                key = TimeValue(key)
                if n is None:
                    default = object()
                    true(self.g.get(key) is None, what + " gives something by default")
                    true(self.g.get(key, default) is default, what + " does not give the default")
                    true(self.g.get(key, default=default) is default, what + " does not give the default")
                else:
                    g = self.g.get(key)
                    true(g is not None, what + " gives nothing")
                    self.grain(g, n, what, spoil)
            elif n is None:
                raises(KeyError, lambda: self.g[key], what)
            else:
                self.grain(self.g[key], n, what, spoil)
        elif kind == 'range':
            rng, counts = self.range_of(req[1])
            it = self.g[rng]
            if req[2] > 1:
                from mediatimestamp import TimeValueRange
                if req[1][0] in ('TimeValueRange', 'tvrcount', 'tvrown', 'ofTimeRange', 'tvrrate'):
                    it = self.g.get_range(rng, skip=req[2])
                    counts = itertools.islice(counts, 0, None, req[2])
            self.series(iter(it), counts, what, spoil)
        elif kind == 'slice':
            sl, counts = self.slice_of(req[1])
            self.series(iter(self.g[sl]), counts, what, spoil)
        else:
            self.refused(req[1])


def check_history(case):
    spec, base, reqs = case
    run = Run(spec, base)
    label('generator:' + spec[0])
    eq(run.g.rate, run.rate, "rate of the generator")
    eq((run.g.src_id, run.g.flow_id), (SRC, FLOW), "ids of the generator")
    for req, spoil in reqs:
        run.request(req, spoil)
    nontrivial(run.delivered >= 2)


def strat_defaults():
    audio = st.fixed_dictionaries({}, optional={'samples': st.sampled_from([1920, 48, 1601, 1024]), 'channels': st.integers(1, 3), 'cog_audio_format': st.sampled_from(sorted(F.AUDIO_BY_VALUE)),
                                                'sample_rate': st.sampled_from([48000, 44100, 8000]), 'frequency': st.sampled_from([1000, 440]), 'volume': st.sampled_from([0.5, 0.1])})
    video = st.fixed_dictionaries({}, optional={'rate': st.sampled_from([Fraction(*r) for r in RATES]), 'cog_frame_format': st.sampled_from(PATTERN_FORMATS), 'intensity': st.sampled_from([0.75, 1.0]),
                                                'height': st.integers(0, 9), 'speed': st.sampled_from([0.5, 2.0])})
    return st.one_of(st.tuples(st.sampled_from(['Tone', 'Tone1K', 'Silence']), audio), st.tuples(st.sampled_from(['LumaSteps', 'ColourBars', 'MovingBarOverlay']), video),
                     ).flatmap(lambda t: st.tuples(st.just(t[0]), st.just(t[1]), st.integers(0, len(t[1])), st.integers(-3, 100), st.integers(1, 12), st.sampled_from([2, 4, 110])))


DEFAULTS = {'samples': 1920, 'channels': 1, 'cog_audio_format': 4, 'sample_rate': 48000, 'frequency': 1000, 'volume': 0.5,
            'rate': Fraction(25), 'cog_frame_format': None, 'intensity': 0.75, 'height': 100, 'speed': 1.0}
ORDER = {'Tone': ['samples', 'channels', 'cog_audio_format', 'sample_rate', 'frequency', 'volume'], 'Tone1K': ['samples', 'channels', 'cog_audio_format', 'sample_rate', 'volume'],
         'Silence': ['samples', 'channels', 'cog_audio_format', 'sample_rate'], 'LumaSteps': ['rate', 'cog_frame_format'], 'ColourBars': ['intensity', 'rate', 'cog_frame_format'], 'MovingBarOverlay': ['height', 'speed']}


def check_defaults(case):
    """A generator made with some of its arguments, in either way of giving them, is that made with all of them."""
    import mediagrains.patterngenerators.audio as A
    import mediagrains.patterngenerators.video as V
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
    name, given, positional, n, w, h = case
    label(name)
    defaults = dict(DEFAULTS, cog_frame_format=CogFrameFormat.U8_444, cog_audio_format=CogAudioFormat.S16_INTERLEAVED)
    order = ORDER[name]
    given = {k: v for k, v in given.items() if k in order}
    for k, e in (('cog_frame_format', CogFrameFormat), ('cog_audio_format', CogAudioFormat)):
        if k in given:
            given[k] = e(given[k])
    full = dict(defaults, **given)
    cls = getattr(A if name in ('Tone', 'Tone1K', 'Silence') else V, name)
    if name == 'MovingBarOverlay':
        first = (V.LumaSteps(SRC, FLOW, w, h),)
        full.update(width=w, height=h)
        attrs = ['width', 'height', 'rate', 'cog_frame_format']
        bar = dict(defaults, **given)
        explicit = {'height': bar['height'], 'speed': bar['speed']}
    elif cls is getattr(V, name, None):
        first = (SRC, FLOW, w, h)
        full.update(width=w, height=h)
        attrs = ['width', 'height', 'rate', 'cog_frame_format']
        explicit = {k: full[k] for k in order}
    else:
        first = (SRC, FLOW)
        attrs = ['samples', 'channels', 'cog_audio_format', 'sample_rate']
        explicit = {k: full[k] for k in order}
        full['rate'] = Fraction(full['sample_rate'], full['samples'])
    # the leading ones may be given by position
    lead = []
    while len(lead) < positional and len(lead) < len(order) and order[len(lead)] in given:
        lead.append(given[order[len(lead)]])
    kw = {k: v for k, v in given.items() if k not in order[:len(lead)]}
    nontrivial(len(given) < len(order))
    label('by position', len(lead))
    g, e = cls(*first, *lead, **kw), cls(*first, **explicit)
    what = "{}({})".format(name, given)
    eq((g.src_id, g.flow_id), (SRC, FLOW), what + " ids")
    for k in attrs + ['rate']:
        eq(getattr(g, k), full[k], "{}: {} of the generator".format(what, k))
    a, b = gen.observe(g[n]), gen.observe(e[n])
    for o in (a, b):
        o.pop('cts', None)
    eq(a, b, what + ": grain")
    if 'samples' in attrs:
        eq(a['f'], {'format': int(full['cog_audio_format']), 'channels': full['channels'], 'samples': full['samples'], 'sample_rate': full['sample_rate']}, what + ": fields of the grain")
    else:
        eq((a['f']['format'], a['f']['width'], a['f']['height']), (int(full['cog_frame_format']), w, h), what + ": fields of the grain")
    eq(a['rate'], (full['rate'].numerator, full['rate'].denominator), what + ": rate of the grain")


TARGETS = [Target('history', strat_history, check_history, quick=6000, thorough=200000),
           Target('defaults', strat_defaults, check_defaults, quick=600, thorough=10000)]
