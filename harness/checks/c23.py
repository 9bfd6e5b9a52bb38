"""C23: AAC ADTS streams are split into frames exactly, with the right properties."""
import uuid
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen
from ..core import Target, eq, fail, label, nontrivial, raises, true
from .c21 import INPUTS, open_input

RULE = ("header: ADTS headers composed bit by bit from generated field values, followed by generated bytes; every field reported has to be the one encoded, and headers with invalid fields refused; "
        "stream: generated frames wrapped from any kind of input with generated templates; damage: streams with a byte changed, cut short or followed by other bytes, which have to give an error or the "
        "frames an independent splitter finds. Non-trivial: accepted headers, streams of more than one frame, damage that is met.")
ASSUMPTIONS = ["channels are 0 for configuration 0 (given in the stream itself)", "frames are of the template's number of samples, 1024 if it has none, and all grains have the properties of the first frame",
               "a last frame cut short may be delivered as it is or refused", "the CRC is not verified", "a start between the instants of the frame rate means the next of those"]
FREQS = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350]
CHANS = [0, 1, 2, 3, 4, 5, 6, 8]


def header(f):
    """The 7 bytes of a header from its fields."""
    bits = 0
    for name, n in (('sync', 12), ('id', 1), ('layer', 2), ('absent', 1), ('profile', 2), ('freq', 4), ('private', 1), ('chan', 3), ('orig', 1), ('home', 1), ('cid', 1), ('cstart', 1), ('length', 13),
                    ('full', 11), ('blocks', 2)):
        assert 0 <= f[name] < 1 << n
        bits = bits << n | f[name]
    return bits.to_bytes(7, 'big')


def fields(freq=st.integers(0, 12), length=st.integers(7, 8191), sync=st.just(0xfff), layer=st.just(0)):
    one = st.integers(0, 1)
    return st.fixed_dictionaries({'sync': sync, 'id': one, 'layer': layer, 'absent': one, 'profile': st.integers(0, 3), 'freq': freq, 'private': one, 'chan': st.integers(0, 7), 'orig': one, 'home': one, 'cid': one,
                                  'cstart': one, 'length': length, 'full': st.integers(0, 2047), 'blocks': st.integers(0, 3)})


def strat_header():
    return st.tuples(fields(st.integers(0, 15), st.one_of(st.integers(7, 8191), st.integers(0, 8191), st.integers(0, 8)), gen.weighted((6, st.just(0xfff)), (1, st.integers(0, 0xfff)), (1, st.sampled_from([0xffe, 0x7ff, 0xfef, 0]))),
                            gen.weighted((6, st.just(0)), (1, st.integers(1, 3)))), st.binary(max_size=4), st.sampled_from([None] * 6 + [0, 1, 6]))


def check_header(case):
    from mediagrains.utils.adts_aac_parser import ADTSAACParser
    f, tail, cut = case
    data = header(f) + tail
    if cut is not None:
        data = data[:cut]
    what = "header {}: ".format(f)
    if cut is not None or f['sync'] != 0xfff or f['layer'] or f['freq'] > 12 or f['length'] < 7:
        raises(ValueError, lambda: ADTSAACParser().parse_header(data), what)
        return
    for kind in (bytes, bytearray):
        info = ADTSAACParser().parse_header(kind(data))
        eq((info.frame_size, info.object_type, info.sample_rate, info.channels), (f['length'], f['profile'], FREQS[f['freq']], CHANS[f['chan']]), what)
    nontrivial()


frame = st.tuples(fields(length=st.just(0)), st.one_of(st.binary(max_size=30), st.builds(lambda n, b: bytes([b]) * n, st.integers(0, 8184), st.integers(0, 255)), st.just(b"\xff\xf1\x4c\x80\x02\x1f\xfc")))


def strat_stream():
    return st.tuples(st.lists(frame, max_size=5), st.sampled_from(INPUTS), st.lists(st.integers(1, 60), min_size=1, max_size=4),
                     st.fixed_dictionaries({'samples': st.sampled_from([1024, 2048, 0, 960]), 'start': st.one_of(st.just(0), st.integers(0, 10**6), st.integers(10**6, 10**11)), 'off': st.sampled_from([0, 0, 0, 1, 100, 959]),
                                            'rate': st.sampled_from([48000, 0, 44100]), 'channels': st.integers(0, 3), 'labels': st.lists(gen.timelabel(), max_size=1), 'priming': st.sampled_from([0, 2112])}))


def build_frames(frames):
    out = []
    for f, payload in frames:
        f = dict(f, length=7 + len(payload))
        out.append((header(f) + payload, f))
    return out


def template_of(t, ots):
    from mediagrains.cogenums import CogAudioFormat
    from mediagrains.grains import CodedAudioGrain
    g = CodedAudioGrain(src_id=uuid.UUID(int=5), flow_id=uuid.UUID(int=6), origin_timestamp=gen.mk_ts(ots), sync_timestamp=gen.mk_ts(ots + 5), creation_timestamp=gen.mk_ts(1), rate=Fraction(0, 1), duration=Fraction(1, 25),
                        cog_audio_format=CogAudioFormat.AAC, samples=t['samples'], channels=t['channels'], priming=t['priming'], remainder=3, sample_rate=t['rate'])
    for tag, c, (n, d), drop in t['labels']:
        if n:
            g.add_timelabel(tag, c, Fraction(n, d), drop)
    return g


def sample_time(k, rate):
    ns = abs(k) * 10**9 // rate
    return -ns if k < 0 else ns


def check_grains(grains, frames, t, template, k, what):
    """Compare grains with [(bytes, fields)], the first at sample k; yields nothing, spoils the grains."""
    before = gen.observe(template)
    rate = FREQS[frames[0][1]['freq']]
    chans = CHANS[frames[0][1]['chan']]
    samples = t['samples'] or 1024
    count, kept = 0, []
    for i, g in enumerate(grains):
        true(i < len(frames), what + "more grains than frames")
        ns = sample_time(k + i * samples, rate)
        fr = Fraction(rate, samples)
        want = dict(before, ots=ns, sts=ns, rate=(fr.numerator, fr.denominator), duration=(fr.denominator, fr.numerator), f=dict(before['f'], sample_rate=rate, channels=chans, samples=samples))
        eq(gen.observe(g), want, what + "metadata of grain {}".format(i))
        eq(bytes(g.data), frames[i][0], what + "payload of grain {}".format(i))
        if len(frames[0][0]) & 1:
            g.origin_timestamp = gen.mk_ts(3)
            g.channels += 1
            g.add_timelabel('spoilt', 1, Fraction(25, 1))
        else:
            kept.append((g, want))
        count += 1
    for i, (g, want) in enumerate(kept):
        eq(bytes(g.data), frames[i][0], what + "payload of grain {} after the others were made".format(i))
        eq(gen.observe(g), want, what + "metadata of grain {} after the others were made".format(i))
    eq(count, len(frames), what + "number of grains")
    eq(gen.observe(template), before, what + "the template afterwards")


def check_stream(case):
    from mediagrains.utils import ADTSAACGrainWrapper
    frames, how, sizes, t = case
    frames = build_frames(frames)
    data = b''.join(f for f, _ in frames)
    rate = FREQS[frames[0][1]['freq']] if frames else 48000
    samples = t['samples'] or 1024
    k = t['start'] * samples + t['off']
    ots = sample_time(k, rate)
    k = -(-k // samples) * samples  # off the instants of frames, the first comes at the next one
    template = template_of(t, ots)
    src, close = open_input(how, data, sizes)
    if how == 'raises':
        src, close = open_input('stdin', data, sizes)
    what = "{} frames of {} Hz from {}: ".format(len(frames), rate, how)
    try:
        grains = ADTSAACGrainWrapper(template, src).grains()
        if not frames:
            eq(list(grains), [], what + "grains of an empty stream")
        else:
            check_grains(grains, frames, t, template, k, what)
    finally:
        if close:
            close()
    nontrivial(len(frames) > 1)
    label(how)
    label('rates change', len({f['freq'] for _, f in frames}) > 1)


def strat_damage():
    return st.tuples(st.lists(frame, min_size=1, max_size=4), st.one_of(st.tuples(st.just('cut'), st.integers(0, 10**6)), st.tuples(st.just('change'), st.integers(0, 3), st.integers(0, 9), st.integers(0, 255)),
                                                                        st.tuples(st.just('append'), st.binary(min_size=1, max_size=20)), st.tuples(st.just('prepend'), st.binary(min_size=1, max_size=20))))


def split(data):
    """(frames, how the stream ends: 'end', 'error' or 'cut')"""
    out = []
    while data:
        v = int.from_bytes(data[:7], 'big')
        if len(data) < 7 or v >> 44 != 0xfff or (v >> 41) & 3 or ((v >> 34) & 15) > 12:
            return out, 'error'
        n = (v >> 13) & 0x1fff
        if n < 7:
            return out, 'error'
        if n > len(data):
            return out + [data], 'cut'
        out.append(data[:n])
        data = data[n:]
    return out, 'end'


def check_damage(case):
    from mediagrains.utils import ADTSAACGrainWrapper
    frames, dmg = case
    frames = [f for f, _ in build_frames(frames)]
    data = b''.join(frames)
    if dmg[0] == 'cut':
        data = data[:dmg[1] % (len(data) + 1)]
    elif dmg[0] == 'change':
        i = dmg[1] % len(frames)
        o = sum(map(len, frames[:i])) + min(dmg[2], len(frames[i]) - 1)
        data = data[:o] + bytes([dmg[3]]) + data[o + 1:]
    elif dmg[0] == 'append':
        data += dmg[1]
    else:
        data = dmg[1] + data
    want, end = split(data)
    template = template_of({'samples': 1024, 'rate': 48000, 'channels': 2, 'labels': [], 'priming': 0}, 0)
    src, _ = open_input('buffer', data, [])
    got, err = [], None
    try:
        for g in ADTSAACGrainWrapper(template, src).grains():
            got.append(bytes(g.data))
    except ValueError as e:
        err = e
    what = "{}: ".format(dmg)
    label(dmg[0] + ':' + end)
    nontrivial(end != 'end')
    if end == 'end':
        true(err is None, what + "refused with {!r}".format(err))
        eq(got, want, what + "frames")
    elif end == 'error':
        true(err is not None, what + "bytes that aren't ADTS were not refused: {} grains".format(len(got)))
        # the frame met before the error may be withheld
        true(got in (want, want[:-1]), what + "frames before the error")
    else:
        if err is None:
            eq(got, want, what + "frames")
        else:
            true(got in (want[:-1], want[:-2]), what + "frames before the cut")


TARGETS = [Target('header', strat_header, check_header, quick=6000, thorough=200000), Target('stream', strat_stream, check_stream, quick=3000, thorough=100000), Target('damage', strat_damage, check_damage, quick=4000, thorough=100000)]
