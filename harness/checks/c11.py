"""C11: a grain's time ranges follow exactly from its timestamps, rate and content."""
import time
from fractions import Fraction
from uuid import UUID

from hypothesis import strategies as st

from .. import gen
from ..core import Target, eq, fail, label, nontrivial, true

RULE = ("ranges: a grain of any type with generated timestamps, rate, sample count and temporal offset, changed through its attributes and observed after every change; normalise: times and "
        "ranges converted to the grain's rate; defaults: constructors and metadata with every subset of timestamps. Non-trivial: a range of more than an instant, a shifted "
        "presentation time, a time that is not on a media unit, or a missing timestamp.")
ASSUMPTIONS = ["the instant of media unit k at a rate is k/rate cut to whole nanoseconds towards zero (the timestamp library's convention)",
               "times are kept far enough from the library's limits for results to be representable",
               "a grain without samples covers no time at all; one without a (sample) rate covers the instant of its origin",
               "normalising to the nearest unit may go either way within 2 ns (plus the cut of the units themselves) of the middle"]

NS = 10**9
MAX = (1 << 47) * NS
RATES = [(25, 1), (50, 1), (30000, 1001), (24000, 1001), (60000, 1001), (375, 8), (1, 1), (1, 10), (48000, 1), (44100, 1), (24, 1), (120, 1), (1000, 3)]


def rates():
    return st.one_of(st.sampled_from(RATES), st.tuples(st.integers(1, 100000), st.integers(1, 1001)).map(lambda t: (Fraction(*t).numerator, Fraction(*t).denominator)))


def times():
    return st.one_of(gen.ts_ns(True, (1 << 47) - 1), st.integers(-10 * NS, 10 * NS), st.integers(0, 2 * 10**9 * NS))


SRATES = [48000, 44100, 96000, 44056, 32000, 8000, 1, 3, 7, 0]
samples = st.one_of(st.integers(0, 5), st.sampled_from([1024, 1920, 1601, 1602, 48000, 960]), st.integers(0, 200000))
srate = st.one_of(st.sampled_from(SRATES), st.integers(1, 200000))
toff = st.one_of(st.none(), st.integers(-5, 5), st.integers(-2000, 2000), st.sampled_from([-2**31, 2**31 - 2]))


def strat_ranges():
    update = st.one_of(
        st.tuples(st.just('ots'), times(), st.sampled_from(['ts', 'str', 'offset'])),
        st.tuples(st.just('sts'), times(), st.sampled_from(['ts', 'str', 'offset'])),
        st.tuples(st.just('rate'), st.one_of(rates(), st.just((0, 1))), st.sampled_from(['fraction', 'int', 'str'])),
        st.tuples(st.just('duration'), rates(), st.just('fraction')),
        st.tuples(st.just('samples'), samples, st.just('')), st.tuples(st.just('srate'), srate, st.just('')), st.tuples(st.just('toff'), toff, st.just('')))
    return st.tuples(st.sampled_from(gen.GRAIN_TYPES), st.sampled_from(['kw', 'meta']), times(), times(), st.one_of(rates(), st.just((0, 1))), samples, srate, toff,
                     st.lists(update, max_size=5))


def unit_ns(k, rate):
    """Nanosecond of media unit k at a rate (num, den)."""
    v = abs(k) * rate[1] * NS // rate[0]
    return -v if k < 0 else v


def make(t, how, ots, sts, rate, ns, sr, off):
    import mediagrains
    src, flow = UUID(int=1), UUID(int=2)
    ts = dict(origin_timestamp=gen.mk_ts(ots), sync_timestamp=gen.mk_ts(sts), creation_timestamp=gen.mk_ts(5))
    if how == 'kw':
        kw = dict(ts, src_id=src, flow_id=flow, rate=Fraction(*rate), duration=Fraction(1, 25))
        if t == 'video':
            return mediagrains.VideoGrain(cog_frame_format=0x2000, width=2, height=2, **kw)
        if t == 'coded_video':
            return mediagrains.CodedVideoGrain(temporal_offset=off, cog_frame_format=0x204, **kw)
        if t == 'audio':
            return mediagrains.AudioGrain(cog_audio_format=0x200, channels=1, samples=ns, sample_rate=sr, **kw)
        if t == 'coded_audio':
            return mediagrains.CodedAudioGrain(cog_audio_format=0x201, channels=1, samples=ns, sample_rate=sr, **kw)
        if t == 'event':
            return mediagrains.EventGrain(**kw)
        return mediagrains.GrainFactory(**kw)
    g = {'grain_type': t, 'source_id': str(src), 'flow_id': str(flow), 'rate': {'numerator': rate[0], 'denominator': rate[1]},
         'duration': {'numerator': 1, 'denominator': 25}}
    g.update({k: str(v) for k, v in ts.items()})
    if t == 'coded_video':
        g['cog_coded_frame'] = {'format': 0x204}
        if off is not None:
            g['cog_coded_frame']['temporal_offset'] = off
    if t == 'audio':
        g['cog_audio'] = {'format': 0x200, 'channels': 1, 'samples': ns, 'sample_rate': sr}
    if t == 'coded_audio':
        g['cog_coded_audio'] = {'format': 0x201, 'channels': 1, 'samples': ns, 'sample_rate': sr}
    return mediagrains.GrainFactory({'@_ns': 'urn:x-ipstudio:ns:0.1', 'grain': g}, None if t == 'event' else b"")


def rng(tr):
    from mediatimestamp.immutable import TimeRange
    if tr.is_empty():
        return 'never'
    return (gen.ts_to_ns(tr.start), gen.ts_to_ns(tr.end), tr.inclusivity == TimeRange.INCLUSIVE)


def check_ranges(case):
    from mediatimestamp.immutable import TimeOffset
    t, how, ots, sts, rate, n, sr, off, updates = case
    g = make(t, how, ots, sts, rate, n, sr, off)
    state = {'ots': ots, 'sts': sts, 'rate': rate, 'samples': n, 'srate': sr, 'toff': off if t == 'coded_video' else None, 'duration': (1, 25)}
    label('type:' + t)
    verify(t, g, state, "made")
    for what, v, form in updates:
        if what in ('samples', 'srate') and t not in ('audio', 'coded_audio'):
            continue
        if what == 'toff' and t != 'coded_video':
            continue
        state[what] = v
        if what in ('ots', 'sts'):
            x = gen.mk_ts(v)
            if form == 'str':
                x = x.to_sec_nsec()
            elif form == 'offset':
                x = TimeOffset(abs(v) // NS, abs(v) % NS, -1 if v < 0 else 1)
            setattr(g, 'origin_timestamp' if what == 'ots' else 'sync_timestamp', x)
        elif what in ('rate', 'duration'):
            x = Fraction(*v)
            if form == 'int' and x.denominator == 1:
                x = int(x)
            elif form == 'str':
                x = str(x)
            setattr(g, what, x)
        elif what == 'samples':
            g.samples = v
        elif what == 'srate':
            g.sample_rate = v
        elif what == 'toff':
            g.temporal_offset = v
        verify(t, g, state, "after {} = {!r}".format(what, v))


def verify(t, g, s, what):
    what = "{} {}: ".format(t, what)
    ots, rate = s['ots'], s['rate']
    audio = t in ('audio', 'coded_audio')
    last = 0
    if audio and s['srate']:
        last = unit_ns(s['samples'] - 1, (s['srate'], 1))
    shift = 0
    if s['toff'] is not None and rate[0]:
        shift = unit_ns(s['toff'], rate)
    nontrivial(last > 0 or shift != 0)
    label('shifted', shift != 0)
    label('span', last > 0)
    label('no samples', last < 0)
    if audio:
        mr = (s['srate'], 1) if s['srate'] else None
    elif t in ('video', 'coded_video'):
        mr = rate if rate[0] else None
    else:
        mr = None
    got = g.media_rate
    eq(None if got is None else (got.numerator, got.denominator), mr, what + "media rate")
    eq(gen.ts_to_ns(g.origin_timestamp), ots, what + "origin timestamp")
    eq(gen.ts_to_ns(g.sync_timestamp), s['sts'], what + "sync timestamp")
    eq((g.rate.numerator, g.rate.denominator), rate, what + "rate")
    eq((g.duration.numerator, g.duration.denominator), s['duration'], what + "duration")
    eq(gen.ts_to_ns(g.final_origin_timestamp()), ots + last, what + "final origin timestamp")
    want = 'never' if last < 0 else (ots, ots + last, True)
    eq(rng(g.origin_timerange()), want, what + "origin time range")
    if want != 'never':
        eq((g.origin_timerange().start, g.origin_timerange().end), (g.origin_timestamp, g.final_origin_timestamp()), what + "bounds of the origin time range")
    if abs(ots + shift) + abs(last) >= (1 << 48) * NS:
        return
    eq(gen.ts_to_ns(g.presentation_origin_timestamp), ots + shift, what + "presentation origin timestamp")
    eq(gen.ts_to_ns(g.final_presentation_origin_timestamp()), ots + shift + last, what + "final presentation origin timestamp")
    eq(rng(g.presentation_origin_timerange()), want if want == 'never' else (ots + shift, ots + shift + last, True), what + "presentation time range")


# ---------------------------------------------------------------- normalising

def strat_norm():
    k = st.one_of(st.integers(-50, 50), st.integers(0, 10**9))
    tm = st.one_of(st.tuples(st.just('ns'), st.one_of(st.integers(-10**4 * NS, 10**4 * NS), st.integers(0, 2 * 10**9 * NS))),
                   st.tuples(st.just('unit'), k, st.sampled_from([0, 0, 1, -1, 2, -2])),
                   st.tuples(st.just('half'), k, st.sampled_from([0, 3, -3, 10, -10])))
    return st.tuples(st.sampled_from(gen.GRAIN_TYPES), st.one_of(rates(), st.just((0, 1))), st.one_of(st.sampled_from(SRATES), st.integers(1, 100000)),
                     st.one_of(st.tuples(st.just('ts'), tm), st.tuples(st.just('offset'), tm), st.tuples(st.just('range'), st.one_of(st.none(), tm), st.one_of(st.none(), tm),
                                                                                                  st.sampled_from([0, 1, 2, 3]))))


def _ns(tm, mr):
    if tm is None:
        return None
    if tm[0] == 'ns':
        return tm[1]
    if tm[0] == 'unit':
        return unit_ns(tm[1], mr) + tm[2]
    return (unit_ns(tm[1], mr) + unit_ns(tm[1] + 1, mr)) // 2 + tm[2]


def nearest(ns, mr):
    """The set of acceptable nearest units of a time."""
    k = Fraction(ns * mr[0], mr[1] * NS)
    lo = k.numerator // k.denominator
    ok = set()
    best = min(abs(ns - unit_ns(x, mr)) for x in (lo, lo + 1))
    for x in (lo - 1, lo, lo + 1, lo + 2):
        if abs(ns - unit_ns(x, mr)) <= best + 4:
            ok.add(x)
    return ok


def check_norm(case):
    from mediatimestamp.immutable import TimeOffset, TimeRange, Timestamp
    t, rate, sr, val = case
    g = make(t, 'kw', 0, 0, rate, 1, sr, None)
    if t in ('audio', 'coded_audio'):
        mr = (sr, 1) if sr else None
    elif t in ('video', 'coded_video'):
        mr = rate if rate[0] else None
    else:
        mr = None
    gmr = mr or (25, 1)
    what = "{} at {}: ".format(t, mr)
    if val[0] in ('ts', 'offset'):
        ns = _ns(val[1], gmr)
        if val[0] == 'ts':
            x = gen.mk_ts(ns)
        else:
            x = TimeOffset(abs(ns) // NS, abs(ns) % NS, -1 if ns < 0 else 1)
        got = g.normalise_time(x)
        gns = gen.ts_to_ns(got)
        if mr is None:
            eq(gns, ns, what + "time without a media rate")
            return
        ok = {unit_ns(k, mr) for k in nearest(ns, mr)}
        nontrivial(ns not in ok)
        label('on a unit', ns in ok)
        true(gns in ok, what + "{} ns went to {} ns, want one of {}".format(ns, gns, sorted(ok)))
        eq(gen.ts_to_ns(g.normalise_time(got)), gns, what + "normalised twice")
        return
    a, b = _ns(val[1], gmr), _ns(val[2], gmr)
    if a is not None and b is not None and a > b:
        a, b = b, a
    tr = TimeRange(None if a is None else gen.mk_ts(a), None if b is None else gen.mk_ts(b), TimeRange.Inclusivity(val[3]))
    got = g.normalise_time(tr)
    if mr is None:
        eq(got, tr, what + "range without a media rate")
        return
    if tr.is_empty():
        true(got.is_empty(), what + "empty range became {}".format(got))
        return
    nontrivial()
    label('range')
    inc = tr.inclusivity
    starts = None if a is None else {k + (0 if inc & TimeRange.INCLUDE_START else 1) for k in nearest(a, mr)}
    ends = None if b is None else {k + (1 if inc & TimeRange.INCLUDE_END else 0) for k in nearest(b, mr)}
    if got.is_empty():
        true(starts is not None and ends is not None and max(starts) >= min(ends), what + "range {} became empty".format(tr))
        return
    if starts is None:
        eq(got.start, None, what + "start of {}".format(tr))
    else:
        true(gen.ts_to_ns(got.start) in {unit_ns(k, mr) for k in starts}, what + "start of {} went to {}".format(tr, got.start))
        true(got.includes_start(), what + "start included")
    if ends is None:
        eq(got.end, None, what + "end of {}".format(tr))
    else:
        true(gen.ts_to_ns(got.end) in {unit_ns(k, mr) for k in ends}, what + "end of {} went to {}".format(tr, got.end))
        true(not got.includes_end(), what + "end excluded")


# ---------------------------------------------------------------- defaults

def strat_defaults():
    o = st.one_of(st.none(), times())
    return st.tuples(st.sampled_from(gen.GRAIN_TYPES), st.sampled_from(['kw', 'meta', 'metats']), o, o, o)


def check_defaults(case):
    import mediagrains
    t, how, cts, ots, sts = case
    nontrivial(None in (cts, ots, sts))
    names = [('creation_timestamp', cts), ('origin_timestamp', ots), ('sync_timestamp', sts)]
    before = time.time() - 2
    if how == 'kw':
        kw = {k: gen.mk_ts(v) for k, v in names if v is not None}
        kw.update(src_id=UUID(int=1), flow_id=UUID(int=2))
        cls = {'video': mediagrains.VideoGrain, 'coded_video': mediagrains.CodedVideoGrain, 'audio': mediagrains.AudioGrain,
               'coded_audio': mediagrains.CodedAudioGrain, 'event': mediagrains.EventGrain, 'empty': mediagrains.GrainFactory}[t]
        g = cls(**kw)
    else:
        m = {'grain_type': t}
        m.update({k: gen.mk_ts(v) if how == 'metats' else gen.mk_ts(v).to_sec_nsec() for k, v in names if v is not None})
        g = mediagrains.GrainFactory({'grain': m}, None if t == 'event' else b"")
        eq(g.rate if t != 'event' else 0, 0, "rate when not given")
    after = time.time() + 2
    what = "{} {} {}: ".format(t, how, names)
    c = gen.ts_to_ns(g.creation_timestamp)
    if cts is not None:
        eq(c, cts, what + "creation timestamp")
    else:
        # TAI is ahead of UTC by a few tens of seconds
        true((before - 1) * NS <= c <= (after + 60) * NS, what + "creation timestamp {} is not now".format(g.creation_timestamp))
    o = gen.ts_to_ns(g.origin_timestamp)
    eq(o, ots if ots is not None else c, what + "origin timestamp")
    eq(gen.ts_to_ns(g.sync_timestamp), sts if sts is not None else o, what + "sync timestamp")


TARGETS = [
    Target('ranges', strat_ranges, check_ranges, quick=6000, thorough=300000),
    Target('normalise', strat_norm, check_norm, quick=8000, thorough=400000),
    Target('defaults', strat_defaults, check_defaults, quick=3000, thorough=80000),
]
