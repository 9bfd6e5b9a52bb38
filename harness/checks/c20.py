"""C20: generated audio is one continuous signal in every format."""
import math
import struct
from fractions import Fraction

from hypothesis import strategies as st

from .. import formats as F
from .. import gen
from ..core import Target, eq, label, nontrivial, raises, true
from .c18 import FLOW, SRC

RULE = ("signal: a tone, 1 kHz tone or silence generator of generated format, rate, channel count, length, frequency and volume; a stretch of its timeline is taken in generated portions (single grains, ranges, "
        "slices, in any order) and every sample of every channel is compared with the sine of its absolute position; many: up to 257 channels, or grains of up to 65537 samples; refused: formats which aren't raw audio. Non-trivial: at least two grains of a signal that "
        "is not silent.")
ASSUMPTIONS = ["integer samples agree to one unit, floating point ones to 1e-9 (double) or 1e-6 (float)", "frequencies are non-negative integers and volumes between 0 and 1",
               "full scale is 2^(bits-1), limited to the largest value", "samples of 24 bit planes are in the low bits of 32", "the unpaired half of an odd number of channels in pairs is not looked at"]

formats = st.sampled_from(sorted(F.AUDIO_BY_VALUE))
rates = st.one_of(st.sampled_from([1000, 8000, 100, 48, 7]), st.integers(1, 200), st.sampled_from([1000, 8000, 11025]), st.sampled_from([8000, 44100, 48000, 96000]))


@st.composite
def signals(draw):
    kind = draw(st.sampled_from(['tone', 'tone', 'tone', 'tone1k', 'silence']))
    sr = draw(rates)
    divisors = [d for d in range(1, min(sr, 3000) + 1) if sr % d == 0]
    freq = draw(st.one_of(st.sampled_from(divisors), st.integers(1, 2 * sr), st.sampled_from([0, 440, 1000, 997, sr, sr // 2])))
    samples = draw(st.one_of(st.integers(1, 64), st.sampled_from([1, 2, 480, 147, 160]), st.sampled_from([sr // 25 or 1, sr // 100 or 1])))
    channels = draw(st.integers(1, 5))
    if draw(st.integers(0, 15)) == 9:
        samples, channels = draw(st.one_of(st.sampled_from([1024, 1152, 1601, 1602, 1920]), st.integers(1000, 5000))), 1
    return {'kind': kind, 'rate': sr, 'freq': freq, 'samples': samples, 'channels': channels, 'fmt': draw(formats),
            'volume': draw(st.one_of(st.sampled_from([0.5, 0.5, 1.0, 0.0, 0.1, 1]), st.floats(0, 1, allow_subnormal=False)))}



def strat_many():
    counts = st.sampled_from([6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 64, 65, 100, 128, 256, 257])
    small = st.tuples(signals(), counts, st.integers(1, 24)).map(lambda t: dict(t[0], channels=t[1], samples=t[2]))
    long = st.tuples(signals(), st.sampled_from([1601, 4096, 8192, 16384, 32767, 32768, 32769, 44100, 48000, 65536, 65537])).map(lambda t: dict(t[0], channels=1, samples=t[1]))
    return st.tuples(gen.weighted((4, small), (1, long)), st.one_of(st.just(0), st.integers(0, 200), st.integers(0, 10**7)), st.lists(st.tuples(st.sampled_from(['point', 'range', 'slice', 'steps']), st.integers(1, 2)), min_size=1, max_size=2),
                     st.booleans())


def strat_signal():
    return st.tuples(signals(), st.one_of(st.just(0), st.integers(0, 200), st.integers(-20, 0), st.integers(0, 10**9)), st.lists(st.tuples(st.sampled_from(['point', 'range', 'slice', 'steps']), st.integers(1, 3)), min_size=1, max_size=4),
                     st.booleans())


def decode(fmt, raw):
    name, arrangement, nb, kind = F.AUDIO_BY_VALUE[fmt]
    if kind != 'int':
        return struct.unpack('<f' if kind == 'float' else '<d', raw)[0]
    v = int.from_bytes(raw[:3] if name == 'S24_PLANES' else raw, 'little')
    bits = depth(fmt)
    return v - (1 << bits) if v >= 1 << (bits - 1) else v


def depth(fmt):
    return int(F.AUDIO_BY_VALUE[fmt][0][1:3])


def check_signal(case):
    from mediatimestamp import TimeValue, TimeValueRange
    from mediagrains.cogenums import CogAudioFormat
    from mediagrains.patterngenerators.audio import Silence, Tone, Tone1K
    s, base, portions, backwards = case
    fmt, sr, samples, channels = s['fmt'], s['rate'], s['samples'], s['channels']
    name, arrangement, nb, kind = F.AUDIO_BY_VALUE[fmt]
    kw = dict(samples=samples, channels=channels, cog_audio_format=CogAudioFormat(fmt), sample_rate=sr)
    freq, volume = s['freq'], s['volume']
    if s['kind'] == 'silence':
        g = Silence(SRC, FLOW, **kw)
        freq, volume = 0, 0
    elif s['kind'] == 'tone1k':
        g = Tone1K(SRC, FLOW, volume=volume, **kw)
        freq = 1000
    else:
        g = Tone(SRC, FLOW, frequency=freq, volume=volume, **kw)
    rate = Fraction(sr, samples)
    what = "{} {} Hz at {} Hz, {} x {} in {}: ".format(s['kind'], freq, sr, samples, channels, name)
    eq((g.rate, g.samples, g.channels, int(g.cog_audio_format), g.sample_rate), (rate, samples, channels, fmt, sr), what + "attributes of the generator")
    n = base
    jobs = []
    for how, k in portions:
        jobs.append((how, n, k))
        n += k * (2 if how == 'steps' else 1)
    if backwards:
        jobs.reverse()
    scale = 1.0 if kind != 'int' else float(1 << (depth(fmt) - 1))
    tolerance = 1.0001 if kind == 'int' else 1e-9 if kind == 'double' else 1e-6
    top = math.inf if kind != 'int' else (1 << (depth(fmt) - 1)) - 1
    for how, n, k in jobs:
        tv = TimeValue(n, rate=rate)
        if how == 'point':
            grains = [(n + i, g[TimeValue(n + i, rate=rate)]) for i in range(k)]
        elif how == 'range':
            grains = list(enumerate(g[TimeValueRange(n, n + k, TimeValueRange.INCLUDE_START, rate=rate)], n))
        elif how == 'slice':
            grains = list(enumerate(g[tv.as_timestamp():TimeValue(n + k - 1, rate=rate).as_timestamp()], n))
        else:
            grains = [(n + 2 * i, x) for i, x in enumerate(g[n:n + 2 * k - 1:2])]
        eq(len(grains), k, what + "grains of {} {} from {}".format(k, how, n))
        for m, grain in grains:
            at = what + "grain {} ".format(m)
            eq((int(grain.cog_audio_format), grain.samples, grain.channels, grain.sample_rate, grain.rate), (fmt, samples, channels, sr, rate), at + "attributes")
            eq(grain.origin_timestamp, TimeValue(m, rate=rate).as_timestamp(), at + "timestamp")
            data = bytes(grain.data)
            eq(len(data), F.audio_size(fmt, channels, samples), at + "payload size")
            for i in range(samples):
                phase = ((m * samples + i) * freq) % sr
                want = min(volume * math.sin(2 * math.pi * phase / sr) * scale, top)
                for c in range(channels):
                    o = F.audio_offset(fmt, channels, samples, c, i)
                    got = decode(fmt, data[o:o + nb])
                    if abs(got - want) > tolerance:
                        true(False, at + "channel {} sample {} is {}, not {}".format(c, i, got, want))
    nontrivial(freq % sr != 0 and volume > 0 and sum(k for _, k in portions) > 1)
    label(name)
    label('frequency not dividing the rate', freq and sr % freq)
    label('full scale', volume >= 1 and kind == 'int')
    label('odd pairs', arrangement == 'pairs' and channels % 2)


def cases_refused(tier):
    return [(k, v) for k in ('tone', 'tone1k', 'silence') for v in sorted(F.AUDIO_OTHER.values())]


def check_refused(case):
    from mediagrains.cogenums import CogAudioFormat
    from mediagrains.patterngenerators.audio import Silence, Tone, Tone1K
    nontrivial()
    raises(ValueError, lambda: {'tone': Tone, 'tone1k': Tone1K, 'silence': Silence}[case[0]](SRC, FLOW, cog_audio_format=CogAudioFormat(case[1])), "{} in {:#x}".format(*case))


TARGETS = [Target('refused', lambda: st.sampled_from(cases_refused('quick')), check_refused, quick=20, thorough=50, enumerate=cases_refused),
           Target('many', strat_many, check_signal, quick=300, thorough=10000),
           Target('signal', strat_signal, check_signal, quick=4000, thorough=100000)]
