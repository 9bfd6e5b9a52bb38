"""C21: wrapping raw essence into grains conserves every byte and advances time evenly."""
import io
import os
import tempfile
import uuid
from fractions import Fraction

from hypothesis import strategies as st

from .. import formats as F, gen
from ..core import Target, eq, fail, label, nontrivial, true
from .c18 import Clock, RATES

RULE = ("wrap: a raw picture or sound template of generated format, size, rate, start and metadata and a stream of generated length, read from a buffer, a file, a pipe, an input that gives less than asked for, "
        "one that raises EOFError at its end, or the tools' wrapper of standard input; all grains are compared with the template and the stream, and modified while more are made; large: the same for grains and streams of real sizes. "
        "Non-trivial: more than one grain or a partial one.")
ASSUMPTIONS = ["the template starts on an instant of its rate", "the size of a grain is that of its format", "inputs are at their end when they give no bytes"]


class Short:
    """An input giving at most so many bytes at a time."""
    def __init__(self, data, sizes):
        self.data, self.pos, self.sizes, self.i = data, 0, sizes, 0

    def read(self, n=-1):
        if n < 0:
            n = len(self.data)
        n = min(n, self.sizes[self.i % len(self.sizes)])
        self.i += 1
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out


class Raises:
    """An input which raises EOFError at its end, as some wrappers do."""
    def __init__(self, data):
        self.f = io.BytesIO(data)

    def read(self, n=-1):
        out = self.f.read(n)
        if not out:
            raise EOFError
        return out


def open_input(kind, data, sizes):
    """(input, function to close it)"""
    if kind == 'buffer':
        return io.BytesIO(data), None
    if kind == 'short':
        return Short(data, sizes), None
    if kind == 'raises':
        return Raises(data), None
    if kind == 'stdin':
        try:
            from mediagrains.tools._file_or_pipe import InputStreamWrapper
        except ImportError:             # an internal class, used where there is one
            return Raises(data), None
        return InputStreamWrapper(Short(data, sizes) if sizes[0] & 1 else io.BytesIO(data)), None
    if kind == 'file':
        f = tempfile.TemporaryFile(dir=os.environ.get('VERIF_SCRATCH'))
        f.write(data)
        f.seek(0)
        return f, f.close
    if len(data) > 60000:
        return io.BytesIO(data), None
    r, w = os.pipe()
    os.write(w, data)
    os.close(w)
    f = open(r, 'rb', buffering=0 if kind == 'rawpipe' else -1)
    return f, f.close


INPUTS = ['buffer', 'short', 'raises', 'stdin', 'file', 'pipe', 'rawpipe']
video = st.tuples(st.just('video'), st.sampled_from(sorted(list(F.PLANAR_BY_VALUE) + list(F.PACKED_BY_VALUE) + [F.V210])), st.integers(1, 9), st.integers(1, 6), st.sampled_from([0, 0, 0, 3]))
audio = st.tuples(st.just('audio'), st.sampled_from(sorted(F.AUDIO_BY_VALUE)), st.integers(1, 5), st.integers(1, 60), st.sampled_from([48000, 44100, 8000]))


def strat_wrap():
    return st.tuples(st.one_of(video, audio), st.sampled_from(RATES + [(48000, 1601)]), st.one_of(st.just(0), st.integers(-5, 5), st.integers(0, 10**10)), st.lists(gen.timelabel(), max_size=2), st.sampled_from(INPUTS),
                     st.lists(st.integers(1, 200), min_size=1, max_size=4), st.integers(0, 4), st.integers(-2, 40), st.booleans(), st.booleans())


def template_of(kind, rate, ots, sts, cts, labels, numpy, plain):
    import mediagrains.grains as P
    import mediagrains.numpy as N
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat, CogFrameLayout
    mod = N if numpy and kind[1] != F.V210 else P
    ids = dict(src_id=uuid.UUID(int=77), flow_id=uuid.UUID(int=78 << 100))
    times = dict(origin_timestamp=gen.mk_ts(ots), sync_timestamp=gen.mk_ts(sts), creation_timestamp=gen.mk_ts(cts))
    if kind[0] == 'video':
        _, fmt, w, h, pad = kind
        if fmt in F.PLANAR_BY_VALUE or fmt in F.PACKED_BY_VALUE:
            if fmt in F.PACKED_BY_VALUE or F.PLANAR_BY_VALUE[fmt][1] in ('422', '420'):
                w, h = w + w % 2, h + h % 2
        if plain:
            pad = 0
        comps, size, _ = F.layout(fmt, w, h, pad if fmt in F.PLANAR_BY_VALUE else 0)
        if plain:
            g = mod.VideoGrain(rate=rate, duration=1 / rate, width=w, height=h, cog_frame_format=CogFrameFormat(fmt), cog_frame_layout=CogFrameLayout.FULL_FRAME, **ids, **times)
        else:
            meta = {'@_ns': 'urn:x-ipstudio:ns:0.1', 'grain': dict({
                'grain_type': 'video', 'source_id': str(ids['src_id']), 'flow_id': str(ids['flow_id']), 'rate': rate, 'duration': 1 / rate,
                'cog_frame': {'format': fmt, 'layout': 0, 'width': w, 'height': h, 'extension': 0, 'components': comps, 'source_aspect_ratio': {'numerator': 16, 'denominator': 9}}}, **times)}
            g = mod.VideoGrain(meta, None)
    else:
        _, fmt, channels, samples, sample_rate = kind
        size = F.audio_size(fmt, channels, samples)
        g = mod.AudioGrain(rate=rate, duration=1 / rate, cog_audio_format=CogAudioFormat(fmt), channels=channels, samples=samples, sample_rate=sample_rate, **ids, **times)
    for tag, c, (n, d), drop in labels:
        g.add_timelabel(tag, c, Fraction(n, d), drop)
    return g, size


def check_wrap(case):
    from mediagrains.utils import GrainWrapper
    kind, rate, n, labels, how, sizes, whole, extra, numpy, plain = case
    rate = Fraction(*rate)
    clock = Clock(rate)
    template, size = template_of(kind, rate, clock.at(n), clock.at(n) + 7, 99, [lab for lab in labels if lab[2][0]], numpy, plain)
    eq(template.expected_length, size, "expected length of the template")
    if numpy:
        extra = 0  # arrays are not made of parts of a grain
    length = max(0, whole * size + (extra if extra < size else extra % size))
    data = bytes((i * 31 + i // 251) & 255 for i in range(length))
    before = gen.observe(template), None if template.data is None else bytes(template.data), gen.ts_to_ns(template.creation_timestamp)
    src, close = open_input(how, data, sizes)
    what = "{} from {} of {} bytes, {} per grain: ".format(kind, how, length, size)
    try:
        got, kept = [], []
        for i, g in enumerate(GrainWrapper(template, src).grains()):
            true(i * size < length, what + "grain {} beyond the end of the stream".format(i))
            want = dict(before[0], ots=clock.at(n + i), sts=clock.at(n + i))
            eq(gen.observe(g), want, what + "metadata of grain {}".format(i))
            eq(gen.ts_to_ns(g.creation_timestamp), before[2], what + "creation timestamp of grain {}".format(i))
            payload = bytes(g.data)
            eq(len(payload), min(size, length - i * size), what + "size of grain {}".format(i))
            eq(g.length, len(payload), what + "length of grain {}".format(i))
            got.append(payload)
            if (n + length) & 1:
                # spoil what was handed out
                g.origin_timestamp = gen.mk_ts(3)
                g.rate = Fraction(1, 7)
                g.add_timelabel('spoilt', 1, Fraction(25, 1))
                if kind[0] == 'video':
                    g.components[0].stride += 1
                    g.width += 1
                else:
                    g.channels += 1
                if not numpy:
                    g.data = b"spoilt!!" * 8
            else:
                kept.append((g, want, payload))
            if i > 50:
                fail(what + "does not end")
    finally:
        if close:
            close()
    true(b''.join(got) == data, what + "the payloads together are not the stream")
    for i, (g, want, payload) in enumerate(kept):
        true(bytes(g.data) == payload, what + "payload of grain {} after the others were made".format(i))
        eq(gen.observe(g), want, what + "metadata of grain {} after the others were made".format(i))
    eq((gen.observe(template), None if template.data is None else bytes(template.data), gen.ts_to_ns(template.creation_timestamp)), before, what + "the template afterwards")
    nontrivial(length > size or length % size)
    label(kind[0])
    label(how)
    label('partial', length % size)


def strat_large():
    big_video = st.tuples(st.just('video'), st.sampled_from(sorted(list(F.PLANAR_BY_VALUE) + list(F.PACKED_BY_VALUE) + [F.V210])), st.sampled_from(F.LARGE), st.sampled_from([0, 0, 0, 3])).map(
        lambda t: (*t[:2], *t[2], t[3]))
    big_audio = st.tuples(st.just('audio'), st.sampled_from(sorted(F.AUDIO_BY_VALUE)), st.integers(1, 5), st.sampled_from(F.LONG), st.sampled_from([48000, 44100, 8000]))
    return st.tuples(st.one_of(big_video, big_audio), st.sampled_from(RATES + [(48000, 1601)]), st.one_of(st.just(0), st.integers(0, 10**10)), st.lists(gen.timelabel(), max_size=2), st.sampled_from(INPUTS),
                     st.lists(st.one_of(st.integers(200, 20000), st.sampled_from([4095, 4096, 8192, 65536, 100000])), min_size=1, max_size=4), st.integers(0, 3), st.integers(-2, 20000), st.booleans(), st.booleans())


TARGETS = [Target('large', strat_large, check_wrap, quick=250, thorough=10000), Target('wrap', strat_wrap, check_wrap, quick=4000, thorough=150000)]
