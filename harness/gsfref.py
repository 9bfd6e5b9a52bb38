"""Independent reading and writing of the published GSF/SSB format (gsf_docs/ssb.md, gsf_docs/gsf.md).  Shares no code with the package.

A file model is a dict:
  major, minor, id(16 bytes), created (y, mo, d, h, mi, s) or None,
  segments [{local_id, id, count, flow: None|(src, flow, format, data bytes), tags [(k, v)]}], tags [(k, v)],
  grains [(local_id, grain spec)], terminated
"""
import json
import random


class BadFile(Exception):
    pass


def need(cond, msg, *a):
    if not cond:
        raise BadFile(msg.format(*a))


class Cur:
    def __init__(self, buf, pos, end, what):
        self.b, self.p, self.end, self.what = buf, pos, end, what

    def take(self, n):
        need(self.p + n <= self.end, "{}: {} bytes wanted at {} but block ends at {}", self.what, n, self.p, self.end)
        r = self.b[self.p:self.p + n]
        self.p += n
        return bytes(r)

    def u(self, n):
        return int.from_bytes(self.take(n), "little")

    def s(self, n):
        return int.from_bytes(self.take(n), "little", signed=True)

    def left(self):
        return self.end - self.p

    def rational(self):
        n, d = self.u(4), self.u(4)
        return (n, d)

    def ts(self, v7):
        sign = 1
        if not v7:
            b = self.u(1)
            need(b in (0, 1), "timestamp sign byte {}", b)
            sign = 1 if b else -1
        sec, ns = self.u(6), self.u(4)
        need(ns < 10**9, "nanoseconds {}", ns)
        return sign * (sec * 10**9 + ns)

    def fix(self, n):
        return self.take(n).split(b"\0", 1)[0].decode("utf-8")

    def var(self):
        return self.fix(self.u(2))

    def blocks(self):
        """Child blocks up to the end of this one; sizes must fit exactly."""
        while self.p < self.end:
            start = self.p
            tag = self.take(4).decode("ascii")
            size = self.u(4)
            if self.what == "file" and tag == "grai" and size == 0:
                yield (tag, None, start)
                continue
            need(size >= 8, "{}: block {} at {} has size {}", self.what, tag, start, size)
            need(start + size <= self.end, "{}: block {} at {} of size {} leaves its parent ending at {}", self.what, tag, start, size, self.end)
            yield (tag, Cur(self.b, self.p, start + size, tag), start)
            self.p = start + size

    def done(self):
        need(self.p == self.end, "{}: {} unused bytes", self.what, self.left())


def _tag(c):
    r = (c.var(), c.var())
    c.done()
    return r


def parse_one(buf, pos=0):
    """Strict reading of a single file: everything must be a known block with exactly its documented content."""
    c = Cur(buf, pos, len(buf), "file")
    need(c.take(8) == b"SSBBgrsg", "bad signature")
    m = {'major': c.u(2), 'minor': c.u(2), 'segments': [], 'tags': [], 'grains': [], 'terminated': False, 'count_pos': {}, 'block_counts': {}}
    v7 = m['major'] == 7
    first = True
    for (tag, b, start) in c.blocks():
        need(not m['terminated'], "block {} after the terminator", tag)
        if first:
            need(tag == "head", "first block is {}", tag)
            first = False
            _head(m, b)
        elif tag == "grai" and b is None:
            m['terminated'] = True
        else:
            need(tag == "grai", "unexpected top level block {}", tag)
            lid, spec = _grai(b, v7, m['major'])
            m['grains'].append((lid, spec))
            m['block_counts'][lid] = m['block_counts'].get(lid, 0) + 1
    need(not first, "no head block")
    return m


def _head(m, b):
    m['id'] = b.take(16)
    m['created'] = (b.s(2), b.u(1), b.u(1), b.u(1), b.u(1), b.u(1))
    for (tag, c, _) in b.blocks():
        if tag == "segm":
            s = {'local_id': c.u(2), 'id': c.take(16)}
            m['count_pos'][s['local_id']] = c.p
            s['count'] = c.s(8)
            s['tags'] = []
            s['flow'] = None
            for (t2, d, _) in c.blocks():
                if t2 == "tag ":
                    s['tags'].append(_tag(d))
                elif t2 == "flow":
                    need(s['flow'] is None, "two flow blocks")
                    s['flow'] = (d.take(16), d.take(16), d.fix(64), d.take(d.u(4)))
                    d.done()
                else:
                    need(False, "unknown block {} in segm", t2)
            m['segments'].append(s)
        elif tag == "tag ":
            m['tags'].append(_tag(c))
        else:
            need(False, "unknown block {} in head", tag)


def _grai(b, v7, major):
    lid = b.u(2)
    kids = list(b.blocks())
    need([k[0] for k in kids] == ["gbhd", "grdt"], "grai children are {}", [k[0] for k in kids])
    c = kids[0][1]
    g = {'src': c.take(16), 'flow': c.take(16)}
    if v7:
        c.take(16)
    g['ots'], g['sts'], g['rate'], g['duration'] = c.ts(v7), c.ts(v7), c.rational(), c.rational()
    g['labels'] = []
    g['type'], g['f'] = 'empty', {}
    seen = []
    for (tag, d, _) in c.blocks():
        need(tag not in seen, "two {} blocks", tag)
        seen.append(tag)
        if tag == "tils":
            n = d.u(2)
            need(n > 0, "tils block without labels")
            for _ in range(n):
                lab, cnt, rate, drop = d.fix(16), d.u(4), d.rational(), d.u(1)
                need(drop in (0, 1), "drop flag {}", drop)
                g['labels'].append((lab, cnt, rate, bool(drop)))
            d.done()
            continue
        need(g['type'] == 'empty', "two type headers {}", seen)
        f = {}
        if tag == "vghd":
            g['type'] = 'video'
            for k in ('format', 'layout', 'width', 'height', 'extension'):
                f[k] = d.u(4)
            for k in ('sar', 'par'):
                r = d.rational()
                f[k] = None if r[0] == 0 else r
            f['components'] = []
            for (t2, e, _) in d.blocks():
                need(t2 == "comp" and not f['components'], "block {} in vghd", t2)
                n = e.u(2)
                need(n > 0, "empty comp block")
                f['components'] = [tuple(e.u(4) for _ in range(4)) for _ in range(n)]
                e.done()
        elif tag == "cghd":
            g['type'] = 'coded_video'
            for k in ('format', 'layout', 'origin_width', 'origin_height', 'coded_width', 'coded_height'):
                f[k] = d.u(4)
            kf = d.u(1)
            f['key'] = bool(kf) if kf < 2 else None
            to = d.s(4)
            f['toff'] = None if (to == 0x7fffffff) else to
            f['units'] = []
            for (t2, e, _) in d.blocks():
                need(t2 == "unof" and not f['units'], "block {} in cghd", t2)
                n = e.u(2)
                need(n > 0, "empty unof block")
                f['units'] = [e.u(4) for _ in range(n)]
                e.done()
        elif tag == "aghd":
            g['type'] = 'audio'
            f.update(format=d.u(4), channels=d.u(2), samples=d.u(4), sample_rate=d.u(4))
        elif tag == "cahd":
            g['type'] = 'coded_audio'
            f.update(format=d.u(4), channels=d.u(2), samples=d.u(4), priming=d.u(4), remainder=d.u(4), sample_rate=d.u(4))
        elif tag == "eghd":
            g['type'] = 'event'
            need(d.u(1) == 0, "event payload type")
        else:
            need(False, "unknown block {} in gbhd", tag)
        d.done()
        g['f'] = f
    e = kids[1][1]
    data = e.take(e.left())
    if g['type'] == 'event':
        j = json.loads(data.decode("utf-8"))
        need(isinstance(j, dict) and set(j) == {'type', 'topic', 'data'}, "event payload {}", j)
        g['f'] = {'event_type': j['type'], 'topic': j['topic'], 'events': j['data']}
        g['data'] = None
    else:
        g['data'] = data
    return lid, g


# ---------------------------------------------------------------------------------------------------------------- writing

def u(v, n):
    return int(v).to_bytes(n, "little")


def s(v, n):
    return int(v).to_bytes(n, "little", signed=True)


def block(tag, body):
    return tag.encode("ascii") + u(8 + len(body), 4) + body


def rat(r, zero=(0, 1)):
    if r is None or r[0] == 0:
        r = zero
    return u(r[0], 4) + u(r[1], 4)


def ts(ns, v7, true=1):
    a = abs(ns)
    return (b"" if v7 else u(true if ns >= 0 else 0, 1)) + u(a // 10**9, 6) + u(a % 10**9, 4)


def fixstr(t, n, junk=b""):
    b = t.encode("utf-8")
    if len(b) < n:
        b = b + b"\0" + junk
    return (b + b"\0" * n)[:n]


def varstr(t, junk=b""):
    b = t.encode("utf-8")
    if junk:
        b += (b"\0" + junk)[:max(0, 65535 - len(b))]
    return u(len(b), 2) + b


class Plan:
    """How to use the freedom the format gives: choices are zero (the plain way) except that each is drawn at random with
    probability density/16 from a generator with the given seed."""
    def __init__(self, seed=0, density=0, big=None):
        """big: (n, size): the n-th place where an unknown block may stand has one of that size."""
        self.r = random.Random(seed)
        self.big = big
        self.places = 0
        self.d = density / 16
        self.used = set()

    def pick(self, n):
        if self.d and self.r.random() < self.d:
            return self.r.randrange(n)
        return 0

    def unknown(self):
        """Zero or more blocks a reader must ignore."""
        self.places += 1
        if self.big and self.places - 1 == self.big[0]:
            self.used.add("big")
            return block("fill" if self.big[1] & 1 else "xtra", self.r.randbytes(self.big[1]))
        k = self.pick(8)
        if k < 5:
            return b""
        self.used.add("unknown")
        if k == 5:
            return block("fill", b"\0" * self.pick(20))
        if k == 6:
            return block("xtra", b"grai\0\0\0\0SSBBgrsg" + bytes([self.pick(256)]) * self.pick(9)) + self.unknown()
        return block("Zz9 ", b"")

    def extra(self):
        k = self.pick(6)
        if k < 4:
            return b""
        self.used.add("extra")
        return b"\x01\x02\x03" if k == 4 else b"fill\x08\0\0\0\xff" * 2

    def true(self):
        v = [1, 1, 1, 2, 255][self.pick(5)]
        if v != 1:
            self.used.add("bool")
        return v

    def junk(self):
        v = [b"", b"", b"", b"junk", b"\xff\xfe\0x"][self.pick(5)]
        if v:
            self.used.add("junk")
        return v

    def zero(self):
        v = [(0, 1), (0, 1), (0, 0), (5, 0), (0, 77)][self.pick(5)]
        if v != (0, 1):
            self.used.add("nullrat")
        return v

    def order(self, items):
        items = list(items)
        if self.pick(3) == 2 and len(items) > 1:
            self.used.add("order")
            k = self.pick(len(items))
            items = items[k:] + items[:k]
        return items

    def scale(self, r):
        """The same rational with a common factor."""
        k = [1, 1, 1, 2, 3][self.pick(5)]
        if r is not None and r[0] * k <= 0xFFFFFFFF and r[1] * k <= 0xFFFFFFFF:
            if k > 1:
                self.used.add("unreduced")
            return (r[0] * k, r[1] * k)
        return r


def write(m, plan=None):
    p = plan or Plan()
    out = b"SSBBgrsg" + u(m['major'], 2) + u(m['minor'], 2)
    out += p.unknown()
    cr = m['created'] or (0, 0, 0, 0, 0, 0)
    body = m['id'] + s(cr[0], 2) + bytes(cr[1:])
    segs = [_w_segm(x, p) for x in m['segments']]
    tags = [_w_tag(t, p) for t in m['tags']]
    kids = segs + tags
    if p.pick(3) == 2:      # interleave tags and segments, each kept in order
        p.used.add("order")
        kids = []
        a, b = list(segs), list(tags)
        while a or b:
            if b and (not a or p.pick(2)):
                kids.append(b.pop(0))
            else:
                kids.append(a.pop(0))
    for k in kids:
        body += p.unknown() + k
    body += p.unknown()
    out += block("head", body)
    for (lid, g) in m['grains']:
        out += p.unknown()
        out += _w_grai(lid, g, m['major'], p)
    out += p.unknown()
    if m.get('terminated', True):
        out += b"grai" + u(0, 4)
    return out


def _w_tag(t, p):
    return block("tag ", varstr(t[0], p.junk()) + varstr(t[1], p.junk()) + p.extra())


def _w_segm(x, p):
    body = u(x['local_id'], 2) + x['id'] + s(x['count'], 8)
    tags = [_w_tag(t, p) for t in x['tags']]
    if x['flow'] is not None:
        f = x['flow']
        fb = block("flow", f[0] + f[1] + fixstr(f[2], 64, p.junk()) + u(len(f[3]), 4) + f[3] + p.extra())
        k = p.pick(len(tags) + 1)
        tags = tags[:k] + [fb] + tags[k:]
    for t in tags:
        body += p.unknown() + t
    return block("segm", body + p.unknown())


def _w_grai(lid, g, major, p):
    v7 = major == 7
    head = g['src'] + g['flow']
    if v7:
        head += bytes([p.pick(256)]) * 16
    head += ts(g['ots'], v7, p.true()) + ts(g['sts'], v7, p.true())
    head += rat(p.scale(g['rate']), p.zero()) + rat(p.scale(g['duration']), p.zero())
    kids = []
    if g['labels']:
        b = u(len(g['labels']), 2)
        for (tag, cnt, r, drop) in g['labels']:
            b += fixstr(tag, 16, p.junk()) + u(cnt, 4) + rat(p.scale(r), p.zero()) + u(p.true() if drop else 0, 1)
        kids.append(block("tils", b + p.extra()))
    f = g['f']
    t = g['type']
    if t == 'video':
        b = b"".join(u(f[k], 4) for k in ('format', 'layout', 'width', 'height', 'extension'))
        b += rat(p.scale(f['sar']), p.zero()) + rat(p.scale(f['par']), p.zero()) + p.unknown()
        if f['components'] or p.pick(4) == 3:
            cb = u(len(f['components']), 2) + b"".join(u(v, 4) for comp in f['components'] for v in comp)
            b += block("comp", cb + p.extra()) + p.unknown()
        kids.append(block("vghd", b))
    elif t == 'coded_video':
        b = b"".join(u(f[k], 4) for k in ('format', 'layout', 'origin_width', 'origin_height', 'coded_width', 'coded_height'))
        if f['key'] is None:
            kf = [3, 2, 255][p.pick(3)]
        elif f['key']:
            kf = 1 if major >= 9 else p.true()
        else:
            kf = 0
        b += u(kf, 1) + s(0x7fffffff if f['toff'] is None else f['toff'], 4) + p.unknown()
        if f['units'] or p.pick(4) == 3:
            ub = u(len(f['units']), 2) + b"".join(u(v, 4) for v in f['units'])
            b += block("unof", ub + p.extra()) + p.unknown()
        kids.append(block("cghd", b))
    elif t == 'audio':
        kids.append(block("aghd", u(f['format'], 4) + u(f['channels'], 2) + u(f['samples'], 4) + u(f['sample_rate'], 4) + p.extra()))
    elif t == 'coded_audio':
        kids.append(block("cahd", u(f['format'], 4) + u(f['channels'], 2) + u(f['samples'], 4) + u(f['priming'], 4) + u(f['remainder'], 4)
                          + u(f['sample_rate'], 4) + p.extra()))
    elif t == 'event':
        kids.append(block("eghd", b"\0" + p.extra()))
    hb = head
    for k in p.order(kids):
        hb += p.unknown() + k
    hb += p.unknown()
    if t == 'event':
        j = {'type': f['event_type'], 'topic': f['topic'], 'data': f['events']}
        data = json.dumps(j, ensure_ascii=bool(p.pick(2) == 0)).encode("utf-8")
    else:
        data = g['data'] or b""
    return block("grai", u(lid, 2) + block("gbhd", hb) + p.unknown() + block("grdt", data) + p.unknown())
