"""C22: H.264 streams are split into pictures exactly, however they arrive."""
import uuid
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen, h264w as W
from ..core import Target, eq, label, nontrivial, raises, true
from .c18 import Clock
from .c21 import open_input

RULE = ("streams written bit by bit by an independent writer from generated parameter sets (all profiles with chroma formats, scaling lists, picture order count types, cropping and VUI; slice groups of all types), pictures "
        "(consecutive ones often differ in a single field that tells them apart, or only in what comes between), slices (several, data partitioned, redundant, fields, colour planes), other NAL units, start codes of three or "
        "four bytes, padding and emulation prevention. stream: wrapped from all kinds of input and compared with what was written; parser: the parser is given the stream picture by picture and cut short anywhere; turns: several "
        "parsers and wrappers at work in turns on streams of their own, with what they gave looked at again later. "
        "Non-trivial: more than one picture.")
ASSUMPTIONS = ["the first picture has the parameter sets and the rate", "NAL units of scalable and multiview extensions (14, 20, 21) are not in the stream", "rate is that of frames at two ticks, or of fields if the stream starts with a field"]

bit = st.integers(0, 1)
small = st.integers(0, 5)
uev = st.one_of(st.integers(0, 8), st.integers(0, 70000))
sev = st.one_of(st.integers(-4, 4), st.integers(-(1 << 15), 1 << 15), st.integers(1 - (1 << 31), (1 << 31) - 1))
TIMING = [(1, 50, 1), (1, 25, 0), (1001, 60000, 1), (1001, 48000, 0), (1, 60, 1), (1000, 59940, 0), (3, 100, 1), (1, 2, 1), (0x10000, 0x300000, 1), (1, 3, 0), (256, 25600, 0)]

timing_s = gen.weighted((4, st.sampled_from(TIMING)), (1, st.tuples(st.integers(1, 10**7), st.integers(1, 10**9), bit)), (1, st.tuples(st.integers(1, 2**32 - 1), st.integers(1, 2**32 - 1), bit)))
crop_s = st.one_of(st.tuples(small, small, small, small), st.tuples(*[st.integers(0, 9000)] * 4))


def sps_strategy():
    return st.fixed_dictionaries({
        'profile': st.sampled_from(list(W.HIGH) + [66, 77, 88, 66, 77]), 'flags': st.integers(0, 255), 'level': st.sampled_from([0, 9, 10, 40, 51]), 'id': st.one_of(st.integers(0, 3), st.integers(0, 31)), 'chroma': st.integers(0, 3), 'planes': bit,
        'depth_y': st.integers(0, 6), 'depth_c': st.integers(0, 6), 'bypass': bit,
        'scaling': st.one_of(st.none(), st.none(), st.lists(st.lists(st.one_of(st.integers(-8, 8), st.integers(-128, 127)), max_size=3), min_size=1, max_size=3)),
        'log2_frame_num': st.integers(0, 12), 'poc_type': st.integers(0, 2), 'log2_poc': st.integers(0, 12), 'always_zero': bit, 'off1': sev, 'off2': sev, 'cycle': gen.weighted((9, st.lists(sev, max_size=3)), (1, st.lists(small, min_size=4, max_size=255))), 'refs': small, 'gaps': bit,
        'mbs_w': st.one_of(st.integers(0, 3), st.sampled_from([119, 44]), st.integers(0, 500)), 'mbs_h': st.one_of(st.integers(0, 3), st.sampled_from([67, 33]), st.integers(0, 500)), 'frame_mbs_only': bit, 'mbaff': bit, 'direct8': bit,
        'crop': st.one_of(st.none(), crop_s),
        'vui': st.one_of(st.none(), st.fixed_dictionaries({
            'sar': st.one_of(st.none(), st.tuples(st.one_of(st.integers(0, 20), st.just(255), st.just(255)), st.one_of(st.integers(0, 300), st.integers(0, 65535)), st.one_of(st.integers(0, 300), st.integers(0, 65535)))),
            'overscan': st.integers(0, 2), 'signal': st.one_of(st.none(), st.tuples(st.integers(0, 7), bit, st.one_of(st.none(), st.tuples(*[st.integers(0, 255)] * 3)))),
            'loc': st.one_of(st.none(), st.tuples(small, small)), 'timing': st.one_of(st.none(), timing_s, timing_s), 'pic_struct': bit}))})


def pps_strategy():
    return st.fixed_dictionaries({
        'id': st.one_of(st.integers(0, 3), st.integers(0, 255)), 'sps': st.integers(0, 3), 'cabac': bit, 'bottom_poc': bit,
        'groups': st.one_of(st.none(), st.none(), st.tuples(st.integers(1, 7), st.integers(0, 6), st.lists(st.integers(0, 40), min_size=2, max_size=4))),
        'l0': small, 'l1': small, 'weighted': bit, 'bipred': st.integers(0, 2), 'qp': st.integers(-26, 25), 'qs': st.integers(-26, 25), 'cqp': st.integers(-12, 12), 'deblock': bit, 'intra': bit, 'redundant': bit, 'ext': bit})


payload = gen.weighted((4, st.binary(max_size=6)), (2, st.lists(st.sampled_from([0, 0, 0, 1, 2, 3, 255]), max_size=10).map(bytes)), (1, st.just(b"\0" * 5)))
slice_s = st.fixed_dictionaries({'first_mb': uev, 'type': gen.weighted((3, st.sampled_from([2, 7])), (1, st.sampled_from([4, 9])), (2, st.integers(0, 9))), 'part': gen.weighted((5, st.just(0)), (1, st.integers(1, 3))), 'ref': st.integers(1, 3),
                                 'payload': payload, 'padding': gen.weighted((5, st.just(0)), (1, st.integers(1, 3))), 'code': st.sampled_from([3, 4])})
PARTS_BEFORE = ['aud', 'sei', 'sps', 'pps', 'reserved15', 'reserved16', 'reserved17', 'reserved18', 'aud', 'sps ext']
PARTS_AFTER = ['end of seq', 'end of stream', 'filler', 'aux', 'unspecified0', 'unspecified24', 'unspecified31', 'reserved22', 'redundant', 'redundant']
other = lambda kinds: st.tuples(st.sampled_from(kinds), payload, st.sampled_from([3, 4]), gen.weighted((6, st.just(0)), (1, st.integers(1, 2))), st.integers(0, 3), st.integers(0, 9))
CHANGES = ['none', 'frame_num', 'pps', 'field', 'bottom', 'ref', 'idr', 'idr_pic_id', 'poc', 'poc_bottom', 'delta0', 'delta1', 'all']
picture = st.fixed_dictionaries({
    'change': st.sampled_from(CHANGES), 'step': st.sampled_from([1, -1, 1, 2, 16, 256]), 'slices': st.lists(slice_s, min_size=1, max_size=3), 'before': gen.weighted((3, st.just([])), (2, st.lists(other(PARTS_BEFORE), max_size=3))),
    'after': gen.weighted((3, st.just([])), (2, st.lists(other(PARTS_AFTER), max_size=2))), 'between': gen.weighted((5, st.just([])), (1, st.lists(other(['filler', 'unspecified24', 'aux']), max_size=2))), 'new_sps': gen.weighted((6, st.none()), (1, sps_strategy())),
    'zero_ref': bit, 'long': gen.weighted((9, st.just(0)), (1, st.sampled_from([1, 2, 3])))})


def strat_stream():
    return st.fixed_dictionaries({'sps': st.lists(sps_strategy(), min_size=1, max_size=2, unique_by=lambda s: s['id']), 'pps': st.lists(pps_strategy(), min_size=1, max_size=3, unique_by=lambda p: p['id']), 'first_pps': st.integers(0, 2),
                                  'start': st.fixed_dictionaries({'frame_num': st.integers(0, 70000), 'field': bit, 'bottom': bit, 'idr': gen.weighted((3, st.just(1)), (1, st.just(0))), 'idr_pic_id': st.integers(0, 65534), 'poc': st.integers(0, 70000),
                                                                  'poc_bottom': sev, 'delta0': sev, 'delta1': sev}),
                                  'leading': gen.weighted((4, st.just(0)), (1, st.integers(1, 3))), 'trailing': gen.weighted((6, st.just(0)), (1, st.integers(1, 3))), 'pictures': st.lists(picture, min_size=1, max_size=5),
                                  'how': st.sampled_from(['buffer', 'short', 'stdin', 'file', 'rawpipe']), 'reads': st.lists(st.integers(1, 20), min_size=1, max_size=3),
                                  'template': st.tuples(st.sampled_from([(25, 1), (30000, 1001)]), st.one_of(st.just(0), st.integers(0, 100), st.integers(0, 10**7)), st.lists(gen.timelabel(), max_size=1), bit), 'cuts': st.lists(st.integers(0, 10**6), max_size=4)})


class Writer:
    def __init__(self, leading):
        self.out = bytearray(leading)
        self.prefixes = []      # positions of 000001
        self.starts = []        # of pictures

    def unit(self, data, code, padding=0, new=False):
        if code == 4:
            self.out.append(0)
        if new and self.prefixes:
            n = len(self.out)
            self.starts.append(n - 1 if self.out[n - 1] == 0 else n)
        self.prefixes.append(len(self.out))
        self.out += b"\0\0\1" + data + bytes(padding)


def normal(case):
    """Make the parameter sets fit together."""
    spss = []
    for s in case['sps']:
        spss.append(fix_sps(s))
    ppss = [dict(p, sps=spss[p['sps'] % len(spss)]['id']) for p in case['pps']]
    return spss, ppss


def fix_sps(s):
    s = dict(s)
    if s['crop']:
        mul = 2 - s['frame_mbs_only']
        cx, cy = W.crop_unit(s)
        l, r, t, b = s['crop']
        w, h = (s['mbs_w'] + 1) * 16 // cx, (s['mbs_h'] + 1) * 16 * mul // cy
        l, t = l % w, t % h
        s['crop'] = (l, r % (w - l), t, b % (h - t))
    return s


def write(case):
    """(bytes, [picture start], [prefix positions], [expectations of each picture])"""
    spss, ppss = normal(case)
    spss = {s['id']: s for s in spss}
    w = Writer(case['leading'])
    for s in list(spss.values()):
        w.unit(W.nal(3, 7, W.sps(s).rbsp()), 4)
    for p in ppss:
        w.unit(W.nal(3, 8, W.pps(p).rbsp()), 3)
    pic = dict(case['start'])
    p = ppss[case['first_pps'] % len(ppss)]
    ref = 1
    prev = None
    want = []
    for i, pd in enumerate(case['pictures']):
        if i:
            ch = pd['change']
            for name in ('frame_num', 'idr_pic_id', 'poc', 'poc_bottom', 'delta0', 'delta1'):
                if ch in (name, 'all'):
                    v = pic[name] + pd['step']
                    pic[name] = v % 65535 if name in ('idr_pic_id',) else (abs(v) if name in ('frame_num', 'poc') else v)
            for name in ('field', 'bottom', 'idr'):
                if ch in (name, 'all'):
                    pic[name] = 1 - pic[name]
            if ch == 'ref':
                ref = 0 if ref else 1 + pd['step'] % 3
            if ch in ('pps', 'all'):
                p = ppss[(ppss.index(p) + 1) % len(ppss)]
        if pic['idr'] and ref == 0:
            ref = 2
        before = list(pd['before'])
        if pd['new_sps'] and pic['idr'] and i:
            # another sequence with the same id
            s = fix_sps(dict(pd['new_sps'], id=p['sps']))
            spss[s['id']] = s
            before.append(('sps', b'', 4, 0, 1, 0))
        elif i and want and not pic['idr'] and want[-1]['sps_id'] != p['sps']:
            # only an IDR picture may start using another sequence parameter set
            pic['idr'] = 1
            ref = ref or 1
        s = spss[p['sps']]
        fields = W.first_vcl_fields(s, p, pic, ref)
        delimited = any(b[0] in ('aud', 'sei', 'sps', 'pps', 'reserved15', 'reserved16', 'reserved17', 'reserved18') for b in before)
        if i and fields == prev and not delimited:
            before = [('aud', b'\xf0', 4, 0, 0, 0)] + before
        if before and before[0][0] == 'sps ext':
            before = before[1:] if i == 0 or len(before) == 1 else [('aud', b'\xf0', 4, 0, 0, 0)] + before
        label('told by one field', i and not before and len(set(fields) ^ set(prev)) == 2)
        prev = fields
        new = i > 0
        for kind, data, code, padding, a, b in before:
            if kind == 'sps':
                unit = W.nal(1 + a % 3, 7, W.sps(spss[p['sps']]).rbsp())
            elif kind == 'pps':
                unit = W.nal(1 + a % 3, 8, W.pps(p).rbsp())
            elif kind == 'aud':
                unit = W.nal(0, 9, b"\xf0")
            elif kind == 'sei':
                unit = W.nal(0, 6, bytes([5, len(data)]) + data + b"\x80")
            elif kind == 'sps ext':
                unit = W.nal(1, 13, W.Bits().ue(p['sps']).ue(0).u(1, 0).rbsp())
            else:
                unit = W.nal(a, int(kind[8:]), data + b"\x80")
            w.unit(unit, code, padding, new)
            new = False
        types = []
        dp_ok = not pic['idr'] and s['profile'] in (88, 66, 77, 100)
        for k, sl in enumerate(pd['slices']):
            r = sl['ref'] if ref else 0
            if k == 0:
                r = ref
            hdr = W.slice_header(s, p, pic, sl, 0)
            types.append(sl['type'])
            body = sl['payload'] + (b"\x55" * (pd['long'] * 5000) if k == 0 else b"")
            if sl['part'] and dp_ok:
                label('partitions')
                w.unit(W.nal(r, 2, hdr.ue(k).rbsp(body)), sl['code'], sl['padding'], new)
                if sl['part'] & 1:
                    w.unit(W.nal(r, 3, W.Bits().ue(k).rbsp(sl['payload'])), 3)
                if sl['part'] & 2:
                    w.unit(W.nal(r, 4, W.Bits().ue(k).rbsp(sl['payload'])), 4)
            else:
                w.unit(W.nal(r, 5 if pic['idr'] else 1, hdr.rbsp(body)), sl['code'], sl['padding'], new)
            new = False
            if k == 0:
                extra(w, pd['between'], s, p, pic, ref)
        extra(w, pd['after'], s, p, pic, ref)
        v = s['vui'] or {}
        rate = None
        if v.get('timing'):
            units, scale, fixed = v['timing']
            field = pic['field'] and not s['frame_mbs_only']
            rate = Fraction(scale, units * (1 if field else 2))
        sar = v.get('sar')
        if not sar:
            ratio = Fraction(0, 1)
        elif sar[0] == 255:
            ratio = Fraction(sar[1], sar[2]) if sar[2] else Fraction(0, 1)
        else:
            ratio = Fraction(*W.SAR[sar[0]]) if sar[0] < len(W.SAR) else None
        cw, ch, width, height = W.sizes(s)
        want.append({'sps_id': p['sps'], 'profile': s['profile'], 'flags': s['flags'], 'level': s['level'], 'depth': 8 + (s['depth_y'] if s['profile'] in W.HIGH else 0), 'cw': cw, 'ch': ch, 'w': width, 'h': height, 'rate': rate,
                     'fixed': bool(v['timing'][2]) if rate else None, 'sar': ratio, 'key': all(t in (2, 4, 7, 9) for t in types)})
    w.out += bytes(case['trailing'])
    return bytes(w.out), [0] + w.starts, w.prefixes, want


def extra(w, units, s, p, pic, ref):
    for kind, data, code, padding, a, b in units:
        if kind == 'end of seq':
            unit = W.nal(0, 10, b'')
        elif kind == 'end of stream':
            unit = W.nal(0, 11, b'')
        elif kind == 'filler':
            unit = W.nal(0, 12, b"\xff" * (a + b) + b"\x80")
        elif kind == 'aux':
            unit = W.nal(a, 19, data + b"\x80")
        elif kind == 'redundant':
            if not p['redundant']:
                continue
            label('redundant')
            # a redundant picture: its slices don't count
            unit = W.nal(ref, 5 if pic['idr'] else 1, W.slice_header(s, p, pic, {'first_mb': a, 'type': b}, 1 + a).rbsp(data))
        else:
            unit = W.nal(a, int(kind.lstrip('undospecifrv')), data + b"\x80")
        w.unit(unit, code, padding)


def expected_frames(data, starts, prefixes):
    out = []
    for a, b in zip(starts, starts[1:] + [len(data)]):
        out.append((data[a:b], [x - a for x in prefixes if a <= x < b]))
    return out


def check_stream(case):
    from mediagrains.cogenums import CogFrameFormat
    from mediagrains.grains import CodedVideoGrain
    from mediagrains.utils import H264GrainWrapper
    data, starts, prefixes, want = write(case)
    frames = expected_frames(data, starts, prefixes)
    trate, n, labels, avci = case['template']
    rate = want[0]['rate'] or Fraction(*trate)
    clock = Clock(rate)
    template = CodedVideoGrain(src_id=uuid.UUID(int=5), flow_id=uuid.UUID(int=6), origin_timestamp=gen.mk_ts(clock.at(n)), sync_timestamp=gen.mk_ts(77), creation_timestamp=gen.mk_ts(1), rate=Fraction(*trate), duration=1 / Fraction(*trate),
                               cog_frame_format=CogFrameFormat.AVCI if avci else CogFrameFormat.H264, origin_width=3, origin_height=4, coded_width=5, coded_height=6, is_key_frame=True, temporal_offset=3)
    for tag, c, (a, b), drop in labels:
        if a:
            template.add_timelabel(tag, c, Fraction(a, b), drop)
    before = gen.observe(template)
    unit = max(1, len(data) // 150)
    src, close = open_input(case['how'], data, [max(1, x * unit) for x in case['reads']])
    what = "{} pictures in {} bytes from {}: ".format(len(want), len(data), case['how'])
    got, kept = 0, []
    try:
        for i, g in enumerate(H264GrainWrapper(template, src).grains()):
            true(i < len(want), what + "more grains than pictures")
            true(bytes(g.data) == frames[i][0], what + "picture {} of {} bytes has {} bytes".format(i, len(frames[i][0]), len(g.data)))
            fr = want[0]['rate']
            f = dict(before['f'], origin_width=want[0]['w'], origin_height=want[0]['h'], coded_width=want[0]['cw'], coded_height=want[0]['ch'], key=want[i]["key"], toff=None, units=frames[i][1])
            ns = clock.at(n + i)
            exp = dict(before, ots=ns, sts=ns, f=f)
            if fr:
                exp.update(rate=(fr.numerator, fr.denominator), duration=(fr.denominator, fr.numerator))
            eq(gen.observe(g), exp, what + "metadata of picture {}".format(i))
            if (n + len(data)) & 1:
                g.unit_offsets = [1]
                g.add_timelabel('spoilt', 1, Fraction(25, 1))
                g.origin_timestamp = gen.mk_ts(3)
            else:
                kept.append((g, exp, frames[i][0]))
            got += 1
    finally:
        if close:
            close()
    for i, (g, exp, payload) in enumerate(kept):
        true(bytes(g.data) == payload, what + "payload of picture {} after the others were made".format(i))
        eq(gen.observe(g), exp, what + "metadata of picture {} after the others were made".format(i))
    eq(got, len(want), what + "number of grains")
    eq(gen.observe(template), before, what + "the template afterwards")
    nontrivial(len(want) > 1)
    label(case['how'])
    label('long', len(data) > 8192)
    label('several formats', len({(x['w'], x['h']) for x in want}) > 1)


def info_of(f):
    return {'profile': f.profile, 'flags': f.flags, 'level': f.level, 'depth': f.bit_depth, 'cw': f.coded_width, 'ch': f.coded_height, 'w': f.width, 'h': f.height, 'rate': f.frame_rate, 'fixed': f.fixed_frame_rate,
            'sar': f.sample_aspect_ratio, 'key': f.key_frame}


def check_parser(case):
    from mediagrains.utils.h264_parser import H264Parser
    data, starts, prefixes, want = write(case)
    frames = expected_frames(data, starts, prefixes)
    eq(list(H264Parser.get_nalu_byte_offsets(data)), prefixes, "positions of NAL units")
    parser, again = H264Parser(), H264Parser()
    for i, (a, (frame, units)) in enumerate(zip(starts, frames)):
        exp = {k: v for k, v in want[i].items() if k != 'sps_id'}
        what = "picture {} of {}: ".format(i, len(want))
        size, offsets, info = parser.parse_frame(data[a:])
        if i == len(want) - 1:
            eq((size, offsets, info), (None, None, None), what + "end of the last picture, which isn't known")
        else:
            eq((size, list(offsets)), (len(frame), units), what + "size and units")
            eq(info_of(info), exp, what + "info")
        by_units = case['cuts'] and case['cuts'][0] & 1
        eq(info_of(again.parse_frame_info(bytearray(frame) if by_units else frame, units if by_units else None)), exp, what + "info on its own")
    # with any part of it, either the same answer or none yet
    for c in case['cuts']:
        c %= len(data) + 1
        if not c:
            continue
        size, offsets, info = H264Parser().parse_frame(data[:c])
        if size is not None:
            true(len(frames) > 1 and c > len(frames[0][0]), "an end of the first picture was found in its first {} bytes of {}".format(c, len(frames[0][0])))
            eq((size, list(offsets)), (len(frames[0][0]), frames[0][1]), "size and units of the first picture in {} bytes".format(c))
            eq(info_of(info), {k: v for k, v in want[0].items() if k != 'sps_id'}, "info in {} bytes".format(c))
    # without its parameter sets
    if len(want) > 1 and not any(b[0] in ('sps', 'pps') for b in case['pictures'][1]['before']) and not case['pictures'][1]['new_sps']:
        raises(ValueError, lambda: H264Parser().parse_frame(data[starts[1]:]), "a picture without parameter sets")
    nontrivial(len(want) > 1)
    label('sar', want[0]['sar'])
    label('rate', want[0]['rate'] is not None)


def strat_turns():
    return st.tuples(st.lists(strat_stream(), min_size=2, max_size=3), st.lists(st.tuples(st.integers(0, 2), bit), min_size=2, max_size=12))


def check_turns(case):
    """Several parsers and wrappers at work in turns don't know of each other; what they gave stays as it was."""
    from mediagrains.cogenums import CogFrameFormat
    from mediagrains.grains import CodedVideoGrain
    from mediagrains.utils import H264GrainWrapper
    from mediagrains.utils.h264_parser import H264Parser
    streams, order = case
    works = []
    for i, c in enumerate(streams):
        data, starts, prefixes, want = write(c)
        template = CodedVideoGrain(src_id=uuid.UUID(int=i), flow_id=uuid.UUID(int=6), origin_timestamp=gen.mk_ts(0), rate=Fraction(25, 1), cog_frame_format=CogFrameFormat.H264)
        src, close = open_input('buffer', data, [1])
        works.append({'data': data, 'starts': starts, 'frames': expected_frames(data, starts, prefixes), 'want': want, 'parser': H264Parser(), 'at': 0, 'grains': H264GrainWrapper(template, src).grains(), 'got': 0})
    kept = []
    before = None
    mixed = 0

    def verify():
        for what, info, exp in kept:
            eq(info_of(info), exp, what + ", asked for again later")

    for k, wrapper in order:
        w = works[k % len(works)]
        what = "stream {} in turn with others: ".format(k % len(works))
        if wrapper:
            g = next(w['grains'], None)
            n = w['got']
            if n == len(w['want']):
                eq(g, None, what + "a grain after the last")
                continue
            true(g is not None, what + "no grain for picture {} of {}".format(n, len(w['want'])))
            eq(bytes(g.data), w['frames'][n][0], what + "bytes of picture {}".format(n))
            first = w['want'][0]
            eq((g.origin_width, g.origin_height, g.coded_width, g.coded_height, g.is_key_frame, g.src_id.int, list(g.unit_offsets)),
               (first['w'], first['h'], first['cw'], first['ch'], w['want'][n]['key'], k % len(works), w['frames'][n][1]), what + "metadata of picture {}".format(n))
            w['got'] += 1
        else:
            n = w['at']
            if n == len(w['want']):
                continue
            exp = {x: v for x, v in w['want'][n].items() if x != 'sps_id'}
            what += "info of picture {}".format(n)
            if n == len(w['want']) - 1:
                info = w['parser'].parse_frame_info(w['frames'][n][0])
            else:
                size, offsets, info = w['parser'].parse_frame(w['data'][w['starts'][n]:])
                eq((size, list(offsets)), (len(w['frames'][n][0]), w['frames'][n][1]), what + ": size and units")
            eq(info_of(info), exp, what)
            kept.append((what, info, exp))
            w['at'] += 1
        if before is not None and before != k % len(works):
            mixed += 1
        before = k % len(works)
        verify()
    one = H264Parser()
    for k, w in enumerate(works):
        for n, (frame, _) in enumerate(w['frames']):
            eq(info_of(one.parse_frame_info(frame)), {x: v for x, v in w['want'][n].items() if x != 'sps_id'}, "a parser given stream {} after others: info of picture {}".format(k, n))
    nontrivial(mixed > 1)
    label('formats differ', len({tuple(sorted((k, str(v)) for k, v in w['want'][0].items() if k in ('w', 'h'))) for w in works}) > 1)


TARGETS = [Target('turns', strat_turns, check_turns, quick=600, thorough=15000), Target('stream', strat_stream, check_stream, quick=1500, thorough=40000), Target('parser', strat_stream, check_parser, quick=1500, thorough=40000)]
