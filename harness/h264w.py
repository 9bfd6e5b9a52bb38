"""An independent writer of H.264 byte streams (Annex B) from plain data, after ITU-T H.264 clauses 7.3 and E.1.1."""

HIGH = (100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135)
SAR = [(0, 1), (1, 1), (12, 11), (10, 11), (16, 11), (40, 33), (24, 11), (20, 11), (32, 11), (80, 33), (18, 11), (15, 11), (64, 33), (160, 99), (4, 3), (3, 2), (2, 1)]


class Bits:
    def __init__(self):
        self.b = []

    def u(self, n, v):
        assert 0 <= v < 1 << n, (n, v)
        self.b.extend((v >> i) & 1 for i in range(n - 1, -1, -1))
        return self

    def ue(self, v):
        n = (v + 1).bit_length()
        return self.u(2 * n - 1, v + 1)

    def se(self, v):
        return self.ue(2 * v - 1 if v > 0 else -2 * v)

    def rbsp(self, more=b''):
        """With trailing bits; more are bytes of payload put before those (from the current bit on)."""
        b = list(self.b)
        for x in more:
            b.extend((x >> i) & 1 for i in range(7, -1, -1))
        b.append(1)
        b.extend([0] * (-len(b) % 8))
        out = bytearray()
        for i in range(0, len(b), 8):
            v = 0
            for x in b[i:i + 8]:
                v = v << 1 | x
            out.append(v)
        return bytes(out)


def escape(rbsp):
    """Emulation prevention."""
    out, zeros = bytearray(), 0
    for x in rbsp:
        if zeros >= 2 and x <= 3:
            out.append(3)
            zeros = 0
        out.append(x)
        zeros = zeros + 1 if x == 0 else 0
    if out and out[-1] == 0:
        out.append(3)
    return bytes(out)


def nal(ref, typ, rbsp):
    return escape(bytes([ref << 5 | typ]) + rbsp)      # the header too: it is zero for an unspecified unit of type 0


def chroma_format(s):
    return s['chroma'] if s['profile'] in HIGH else 1


def sps(s):
    w = Bits().u(8, s['profile']).u(8, s['flags']).u(8, s['level']).ue(s['id'])
    if s['profile'] in HIGH:
        w.ue(s['chroma'])
        if s['chroma'] == 3:
            w.u(1, s['planes'])
        w.ue(s['depth_y']).ue(s['depth_c']).u(1, s['bypass'])
        w.u(1, 1 if s['scaling'] else 0)
        if s['scaling']:
            for i in range(12 if s['chroma'] == 3 else 8):
                deltas = s['scaling'][i % len(s['scaling'])]
                w.u(1, 1 if deltas else 0)
                if deltas:
                    last = nxt = 8
                    for j in range(16 if i < 6 else 64):
                        if nxt != 0:
                            d = deltas[j % len(deltas)]
                            w.se(d)
                            nxt = (last + d + 256) % 256
                        last = last if nxt == 0 else nxt
    w.ue(s['log2_frame_num']).ue(s['poc_type'])
    if s['poc_type'] == 0:
        w.ue(s['log2_poc'])
    elif s['poc_type'] == 1:
        w.u(1, s['always_zero']).se(s['off1']).se(s['off2']).ue(len(s['cycle']))
        for x in s['cycle']:
            w.se(x)
    w.ue(s['refs']).u(1, s['gaps']).ue(s['mbs_w']).ue(s['mbs_h']).u(1, s['frame_mbs_only'])
    if not s['frame_mbs_only']:
        w.u(1, s['mbaff'])
    w.u(1, s['direct8'])
    w.u(1, 1 if s['crop'] else 0)
    if s['crop']:
        for x in s['crop']:     # left, right, top, bottom
            w.ue(x)
    v = s['vui']
    w.u(1, 1 if v else 0)
    if v:
        w.u(1, 1 if v['sar'] else 0)
        if v['sar']:
            w.u(8, v['sar'][0])
            if v['sar'][0] == 255:
                w.u(16, v['sar'][1]).u(16, v['sar'][2])
        w.u(1, 1 if v['overscan'] else 0)
        if v['overscan']:
            w.u(1, v['overscan'] - 1)
        w.u(1, 1 if v['signal'] else 0)
        if v['signal']:
            w.u(3, v['signal'][0]).u(1, v['signal'][1]).u(1, 1 if v['signal'][2] else 0)
            if v['signal'][2]:
                for x in v['signal'][2]:
                    w.u(8, x)
        w.u(1, 1 if v['loc'] else 0)
        if v['loc']:
            w.ue(v['loc'][0]).ue(v['loc'][1])
        w.u(1, 1 if v['timing'] else 0)
        if v['timing']:
            w.u(32, v['timing'][0]).u(32, v['timing'][1]).u(1, v['timing'][2])
        w.u(1, 0).u(1, 0).u(1, v['pic_struct']).u(1, 0)
    return w


def pps(p):
    w = Bits().ue(p['id']).ue(p['sps']).u(1, p['cabac']).u(1, p['bottom_poc'])
    g = p['groups']
    if not g:
        w.ue(0)
    else:
        n, kind, vals = g       # number of groups minus one (1 to 7)
        w.ue(n).ue(kind)
        val = lambda i: vals[i % len(vals)]
        if kind == 0:
            for i in range(n + 1):
                w.ue(val(i))
        elif kind == 2:
            for i in range(n):
                w.ue(val(2 * i)).ue(val(2 * i) + val(2 * i + 1))
        elif kind in (3, 4, 5):
            w.u(1, val(0) & 1).ue(val(1))
        elif kind == 6:
            size = val(0) % 24
            w.ue(size)
            bits = 1
            while 1 << bits < n + 1:
                bits += 1
            for i in range(size + 1):
                w.u(bits, val(i) % (n + 1))
    w.ue(p['l0']).ue(p['l1']).u(1, p['weighted']).u(2, p['bipred']).se(p['qp']).se(p['qs']).se(p['cqp']).u(1, p['deblock']).u(1, p['intra']).u(1, p['redundant'])
    if p['ext']:
        w.u(1, 1).u(1, 0).se(p['cqp'])
    return w


def slice_header(s, p, pic, sl, redundant):
    """pic: fields common to the slices of a picture; sl: of this slice."""
    w = Bits().ue(sl['first_mb']).ue(sl['type']).ue(p['id'])
    if s['profile'] in HIGH and s['chroma'] == 3 and s['planes']:
        w.u(2, sl['first_mb'] % 3)
    w.u(s['log2_frame_num'] + 4, pic['frame_num'] % (1 << (s['log2_frame_num'] + 4)))
    field = pic['field'] and not s['frame_mbs_only']
    if not s['frame_mbs_only']:
        w.u(1, field)
        if field:
            w.u(1, pic['bottom'])
    if pic['idr']:
        w.ue(pic['idr_pic_id'])
    if s['poc_type'] == 0:
        w.u(s['log2_poc'] + 4, pic['poc'] % (1 << (s['log2_poc'] + 4)))
        if p['bottom_poc'] and not field:
            w.se(pic['poc_bottom'])
    if s['poc_type'] == 1 and not s['always_zero']:
        w.se(pic['delta0'])
        if p['bottom_poc'] and not field:
            w.se(pic['delta1'])
    if p['redundant']:
        w.ue(redundant)
    return w


def first_vcl_fields(s, p, pic, ref):
    """What 7.4.1.2.4 compares to tell a new picture (the reference indication only as zero or not)."""
    field = pic['field'] and not s['frame_mbs_only']
    out = [('pps', p['id']), ('frame_num', pic['frame_num'] % (1 << (s['log2_frame_num'] + 4))), ('field', field), ('bottom', pic['bottom'] if field else 0), ('ref', ref != 0), ('idr', pic['idr']),
           ('idr_pic_id', pic['idr_pic_id'] if pic['idr'] else 0)]
    if s['poc_type'] == 0:
        out += [('poc', pic['poc'] % (1 << (s['log2_poc'] + 4))), ('poc_bottom', pic['poc_bottom'] if p['bottom_poc'] and not field else 0)]
    if s['poc_type'] == 1:
        out += [('delta0', 0 if s['always_zero'] else pic['delta0']), ('delta1', pic['delta1'] if not s['always_zero'] and p['bottom_poc'] and not field else 0)]
    return out


def sizes(s):
    """coded width, coded height, width, height"""
    mul = 2 - s['frame_mbs_only']
    cw, ch = (s['mbs_w'] + 1) * 16, (s['mbs_h'] + 1) * 16 * mul
    cx, cy = crop_unit(s)
    left, right, top, bottom = s['crop'] or (0, 0, 0, 0)
    return cw, ch, cw - cx * (left + right), ch - cy * (top + bottom)


def crop_unit(s):
    c = chroma_format(s)
    if c == 3 and s['planes']:
        c = 0
    cx, cy = {0: (1, 1), 1: (2, 2), 2: (2, 1), 3: (1, 1)}[c]
    return cx, cy * (2 - s['frame_mbs_only'])
