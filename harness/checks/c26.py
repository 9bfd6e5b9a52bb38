"""C26: the command line tools carry essence in and out of GSF without loss."""
import io
import json
import os
import subprocess
import sys
import tempfile
import threading
import uuid
from contextlib import contextmanager
from fractions import Fraction

from hypothesis import strategies as st

from .. import formats as F, gen, gsfcase
from ..core import Target, eq, fail, label, nontrivial, true
from . import c21, c22, c23
from .c18 import Clock

RULE = ("raw: raw video and audio of generated formats, dimensions, rates, lengths and options wrapped and extracted with the tools, through files and real pipes fed in pieces, and the file compared with the options and the input; "
        "coded: the same for the H.264 and AAC streams of C22 and C23; extract: generated files of several segments extracted whole and by segment numbers; probe: the report on generated files compared with their contents; input: operations on standard input that gives pieces of any size against a file with the same contents; "
        "raw-large, extract-large, probe-large: the same for pictures, sounds and files of real sizes or of which one part is long or numerous; process: the same in processes of their own. Non-trivial: at least two grains.")
ASSUMPTIONS = ["the start is an instant of the rate (or the first grain comes at the next one)", "probe: files whose grains have a time range"]
TOOLS = ['wrap_video_in_gsf', 'wrap_audio_in_gsf', 'extract_gsf_essence', 'gsf_probe']


class Std:
    """Stands for sys.stdin or sys.stdout."""
    def __init__(self, buffer):
        self.buffer = buffer
        self.text = io.TextIOWrapper(buffer, encoding='utf-8', write_through=True)

    def write(self, s):
        return self.text.write(s)

    def flush(self):
        self.text.flush()


@contextmanager
def standard(stdin, pieces):
    """Real pipes for the standard streams; yields a function giving what was written, to be called when done."""
    old = sys.stdin, sys.stdout, sys.stderr, sys.argv
    r, w = os.pipe()
    r2, w2 = os.pipe()
    got = []

    def feed():
        at, i = 0, 0
        try:
            while at < len(stdin):
                n = pieces[i % len(pieces)]
                os.write(w, stdin[at:at + n])
                at += n
                i += 1
        except BrokenPipeError:
            pass
        finally:
            os.close(w)

    def collect():
        while True:
            b = os.read(r2, 65536)
            if not b:
                break
            got.append(b)
    threads = [threading.Thread(target=feed, daemon=True), threading.Thread(target=collect, daemon=True)]
    # sometimes reads give what there is
    fin, fout = os.fdopen(r, 'rb', -1 if pieces[-1] % 3 else 0), os.fdopen(w2, 'wb')
    sys.stdin, sys.stdout, sys.stderr = Std(fin), Std(fout), io.StringIO()
    for t in threads:
        t.start()

    def finish():
        if not fout.closed:
            fout.flush()
            fout.close()
        fin.close()
        for t in threads:
            t.join(20)
        os.close(r2)
        return b''.join(got)
    done = []
    try:
        yield lambda: done.append(finish()) or done[0]
    finally:
        sys.stdin, sys.stdout, sys.stderr, sys.argv = old
        if not done:
            finish()


def tool(name, args, stdin=b'', pieces=(4096, ), process=False):
    """Run a tool, return what it wrote to its standard output."""
    if process:
        from ..core import ROOT
        import mediagrains
        env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(mediagrains.__file__))))
        p = subprocess.run([sys.executable, '-c', 'import mediagrains.tools as t; t.{}()'.format(name)] + args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=ROOT)
        true(p.returncode == 0, "{} {} failed: {}".format(name, args, p.stderr.decode(errors='replace')[-300:]))
        return p.stdout
    import mediagrains.tools as tools
    with standard(stdin, pieces) as finish:
        sys.argv = [name] + args
        try:
            getattr(tools, name)()
        except SystemExit as e:
            fail("{} {} ended with {}: {}".format(name, args, e.code, sys.stderr.getvalue()[-300:]))
        return finish()


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
        self.names = []
        return self

    def file(self, data=None):
        name = os.path.join(self.dir, 'f{}'.format(len(self.names)))
        self.names.append(name)
        if data is not None:
            with open(name, 'wb') as f:
                f.write(data)
        return name

    def __exit__(self, *a):
        for n in self.names:
            if os.path.exists(n):
                os.unlink(n)
        os.rmdir(self.dir)


def pump(scratch, name, data, args, pipes, pieces, process=False):
    """Run a tool with an input and an output, which are files or pipes."""
    args = list(args)
    src = '-' if pipes[0] else scratch.file(data)
    # The output file may exist already and is replaced then
    dst = '-' if pipes[1] else scratch.file(b'stale' * 4000 if pieces[0] & 1 else None)
    out = tool(name, [src, dst] + args, data if pipes[0] else b'', pieces, process)
    if pipes[1]:
        return out
    eq(out, b'', "standard output of {}".format(name))
    with open(dst, 'rb') as f:
        return f.read()


how = st.fixed_dictionaries({'wrap': st.tuples(st.booleans(), st.booleans()), 'extract': st.tuples(st.booleans(), st.booleans()), 'pieces': st.lists(st.integers(1, 5000), min_size=1, max_size=3),
                             'flow': st.one_of(st.none(), gen.uuid_bytes()), 'source': st.one_of(st.none(), gen.uuid_bytes())})
RAW = sorted(list(F.PLANAR_BY_VALUE) + list(F.PACKED_BY_VALUE) + [F.V210])
video = st.fixed_dictionaries({'kind': st.just('video'), 'format': st.one_of(st.none(), st.sampled_from(RAW)), 'size': st.one_of(st.none(), st.tuples(st.integers(1, 20), st.integers(1, 6)), st.tuples(st.integers(1, 20), st.integers(1, 6))),
                               'rate': st.one_of(st.none(), st.sampled_from([25, 50, 30, 24, 7, 1])), 'start': st.one_of(st.none(), st.integers(0, 10**6))})
audio = st.fixed_dictionaries({'kind': st.just('audio'), 'format': st.one_of(st.none(), st.sampled_from(sorted(F.AUDIO_BY_VALUE))), 'channels': st.one_of(st.none(), st.integers(1, 6)), 'samples': st.one_of(st.none(), st.integers(1, 100)),
                               'rate': st.one_of(st.none(), st.sampled_from([48000, 44100, 8000, 96000])), 'start': st.one_of(st.none(), st.integers(0, 10**6))})


def strat_raw():
    return st.tuples(st.one_of(video, audio), st.integers(0, 3), st.integers(-2, 30), how)


def common(h, start, clock):
    args, want = [], {}
    for name, key in (('flow', 'flow'), ('source', 'src')):
        if h[name] is not None:
            # an id of zeros is one too
            args += ['--{}-id'.format(name), str(uuid.UUID(bytes=h[name]))]
            want[key] = h[name]
    n = start or 0
    if start is not None:
        ns = clock.at(start)
        args += ['--start-ts', '{}:{}'.format(ns // 10**9, ns % 10**9)]
    return args, want, n


def describe(c):
    """(arguments, expected type, size of a grain, expected fields, rate)"""
    if c['kind'] == 'video':
        from mediagrains.cogenums import CogFrameFormat
        fmt = c['format'] if c['format'] is not None else int(CogFrameFormat.S16_422_10BIT)
        w, h = c['size'] or (1920, 1080)
        if fmt in F.PACKED_BY_VALUE or fmt == F.V210 or F.PLANAR_BY_VALUE[fmt][1] in ('422', '420'):
            w, h = w + w % 2, h + h % 2
        args = []
        if c['format'] is not None:
            args += ['--format', CogFrameFormat(fmt).name]
        if c['size']:
            args += ['--size', '{}x{}'.format(w, h)]
        if c['rate']:
            args += ['--rate', str(c['rate'])]
        comps, size, _ = F.layout(fmt, w, h, 0)
        return args, 'video', size, {'format': fmt, 'width': w, 'height': h, 'components': comps}, Fraction(c['rate'] or 25)
    from mediagrains.cogenums import CogAudioFormat
    fmt = c['format'] if c['format'] is not None else int(CogAudioFormat.S16_PLANES)
    channels, samples, rate = c['channels'] or 2, c['samples'] or 1920, c['rate'] or 48000
    args = []
    for name, v in (('format', c['format'] is not None and CogAudioFormat(fmt).name), ('channels', c['channels']), ('samples-per-grain', c['samples']), ('sample-rate', c['rate'])):
        if v:
            args += ['--' + name, str(v)]
    return args, 'audio', F.audio_size(fmt, channels, samples), {'format': fmt, 'channels': channels, 'samples': samples, 'sample_rate': rate}, Fraction(rate, samples)


def check_file(gsf, want, flow):
    """The head of a wrapped file; returns its grains."""
    from mediagrains.gsf import loads
    head, segs = loads(gsf)
    eq([s['local_id'] for s in head['segments']], [1], "segments")
    true(set(segs) <= {1}, "segments with grains")
    grains = segs.get(1, [])
    if flow is not None:
        eq(head['segments'][0]['id'].bytes, flow, "id of the segment")
    for g in grains:
        eq(g.flow_id, head['segments'][0]['id'], "id of the segment")
    return head, grains


def check_raw(case, process=False):
    c, whole, extra, h = case
    args, typ, size, fields, rate = describe(c)
    if size > 100000:
        whole = min(whole, 1)
    length = max(0, whole * size + (extra if extra < size else extra % size))
    data = (bytes(range(251)) * (length // 251 + 1))[:length]
    clock = Clock(rate)
    more, want, n = common(h, c['start'], clock)
    tool_name = 'wrap_{}_in_gsf'.format(c['kind'])
    what = "{} {} of {} bytes: ".format(tool_name, args + more, length)
    with Scratch() as scratch:
        gsf = pump(scratch, tool_name, data, args + more, h['wrap'], h['pieces'] if length < 20000 else [30000], process)
        head, grains = check_file(gsf, want, h['flow'])
        # a count isn't known while writing to a pipe
        eq(head['segments'][0]['count'], -1 if h['wrap'][1] else len(grains), what + "count")
        eq(len(grains), -(-length // size), what + "number of grains")
        srcs = set()
        for i, g in enumerate(grains):
            o = gen.observe(g)
            exp = dict(want, type=typ, ots=clock.at(n + i), sts=clock.at(n + i), rate=(rate.numerator, rate.denominator), duration=(rate.denominator, rate.numerator), labels=[])
            eq({k: o[k] for k in exp}, exp, what + "grain {}".format(i))
            eq({k: o['f'][k] for k in fields}, fields, what + "grain {}".format(i))
            true(gen.payload(g) == data[i * size:(i + 1) * size], what + "payload of grain {}".format(i))
            srcs.add(o['src'])
        true(len(srcs) <= 1, what + "source ids")
        out = pump(scratch, 'extract_gsf_essence', gsf, [], h['extract'], h['pieces'] if length < 20000 else [30000], process)
        true(out == data, what + "extracted {} bytes which aren't what was wrapped".format(len(out)))
    nontrivial(len(grains) > 1)
    label(c['kind'])
    label('pipes', h['wrap'][0])


def strat_coded():
    return st.tuples(st.one_of(st.tuples(st.just('h264'), c22.strat_stream()), st.tuples(st.just('aac'), st.lists(c23.frame, max_size=4))), how, st.one_of(st.none(), st.integers(0, 10**6)),
                     st.fixed_dictionaries({'samples': st.sampled_from([None, 1024, 2048]), 'rate': st.sampled_from([None, 50, 48000]), 'avci': st.booleans(), 'given': st.booleans()}))


def check_coded(case):
    from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
    (kind, stream), h, start, opt = case
    if kind == 'h264':
        data, starts, prefixes, pics = c22.write(stream)
        frames = c22.expected_frames(data, starts, prefixes)
        args = ['--format', 'AVCI' if opt['avci'] else 'H264']
        if opt['rate'] == 50:
            args += ['--rate', '50']
        if opt['given']:
            args += ['--size', '64x48']
        rate = pics[0]['rate'] or Fraction(50 if opt['rate'] == 50 else 25)
        name = 'wrap_video_in_gsf'
        wants = [{'format': int(CogFrameFormat.AVCI if opt['avci'] else CogFrameFormat.H264), 'origin_width': pics[0]['w'], 'origin_height': pics[0]['h'], 'coded_width': pics[0]['cw'], 'coded_height': pics[0]['ch'], 'units': f[1],
                  'key': p['key']} for f, p in zip(frames, pics)]
        payloads = [f[0] for f in frames]
    else:
        frames = c23.build_frames(stream)
        data = b''.join(f for f, _ in frames)
        payloads = [f for f, _ in frames]
        args = ['--format', 'AAC']
        samples = opt['samples'] or 1024
        if opt['samples']:
            args += ['--samples-per-grain', str(samples)]
        if opt['rate'] == 48000:
            args += ['--sample-rate', '48000']
        if opt['given']:
            args += ['--channels', '6']
        sr = c23.FREQS[frames[0][1]['freq']] if frames else 48000
        rate = Fraction(sr, samples)
        name = 'wrap_audio_in_gsf'
        wants = [{'format': int(CogAudioFormat.AAC), 'sample_rate': sr, 'samples': samples, 'channels': c23.CHANS[frames[0][1]['chan']]} for _ in frames]
    clock = Clock(rate)
    more, want, n = common(h, start, clock)
    what = "{} {} of {} bytes: ".format(name, args + more, len(data))
    pieces = [max(p, len(data) // 100 + 1) for p in h['pieces']]
    with Scratch() as scratch:
        gsf = pump(scratch, name, data, args + more, h['wrap'], pieces)
        head, grains = check_file(gsf, want, h['flow'])
        eq(len(grains), len(payloads), what + "number of grains")
        for i, g in enumerate(grains):
            o = gen.observe(g)
            exp = dict(want, ots=clock.at(n + i), sts=clock.at(n + i), rate=(rate.numerator, rate.denominator), duration=(rate.denominator, rate.numerator), labels=[])
            eq({k: o[k] for k in exp}, exp, what + "grain {}".format(i))
            eq({k: o['f'][k] for k in wants[i]}, wants[i], what + "grain {}".format(i))
            true(gen.payload(g) == payloads[i], what + "payload of grain {}".format(i))
        out = pump(scratch, 'extract_gsf_essence', gsf, [], h['extract'], pieces)
        true(out == data, what + "extracted {} bytes which aren't what was wrapped".format(len(out)))
    nontrivial(len(grains) > 1)
    label(kind)


def strat_extract():
    return st.tuples(gsfcase.file_case(max_grains=6), st.booleans(), st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=1, max_size=3)), how)


def check_extract(case):
    c, streaming, only, h = case
    gsf = gsfcase.encode(c, streaming)
    if not streaming:
        # segment by segment
        order = [s['local_id'] for s in c['segments']]
        c = dict(c, grains=sorted(c['grains'], key=lambda g: order.index(g[0])))
    ids = [s['local_id'] for s in c['segments']] + [4711]
    chosen = None if only is None else {ids[min(i, len(ids) - 1)] for i in only}
    args = [] if chosen is None else [a for i in sorted(chosen) for a in ('--only-id', str(i))]
    want = b''.join(gen.payload(gen.build(spec)) for lid, spec in c['grains'] if chosen is None or lid in chosen)
    with Scratch() as scratch:
        out = pump(scratch, 'extract_gsf_essence', gsf, args, h['extract'], h['pieces'])
    events = any(spec['type'] == 'event' for lid, spec in c['grains'])
    if events:
        # the text of an event is only determined as JSON
        for lid, spec in c['grains']:
            if chosen is None or lid in chosen:
                if spec['type'] == 'event':
                    try:
                        v, n = json.JSONDecoder().raw_decode(out.decode('utf-8', 'surrogateescape'))
                    except ValueError:
                        fail("{}: an event was to come at {}".format(args, out[:60]))
                    true(gen.strict_eq(v, gen.event_json(spec['f'])), "{}: event {} is not {}".format(args, v, spec['f']))
                    out = out[len(out.decode('utf-8', 'surrogateescape')[:n].encode('utf-8', 'surrogateescape')):]
                else:
                    d = spec['data'] or b''
                    true(out.startswith(d), "{}: {} was to come at {}".format(args, d, out[:60]))
                    out = out[len(d):]
        eq(out, b'', "{}: more than was to come".format(args))
    else:
        true(out == want, "{}: extracted {} want {}".format(args, out[:100], want[:100]))
    nontrivial(len(c['grains']) > 1)
    label('by id', only is not None)


def strat_extract_large():
    return st.tuples(strat_extract(), gsfcase.scale_st())


def check_extract_large(case):
    """The same with a file of which one part is made long or numerous."""
    (c, streaming, only, h), scale = case
    label('{} of {}'.format(*scale[:2]))
    check_extract((gsfcase.scaled(c, scale), streaming, only, dict(h, pieces=[max(p, 500) * 100 for p in h['pieces']])))


def strat_probe():
    return st.tuples(gsfcase.file_case(max_grains=6), st.booleans(), st.booleans(), st.booleans(), st.booleans(), st.lists(st.integers(1, 500), min_size=1, max_size=3), st.booleans())


def ns_of(text):
    neg = text.startswith('-')
    s, n = text.lstrip('-').split(':')
    v = int(s) * 10**9 + int(n)
    return -v if neg else v


def check_probe(case):
    from mediagrains.grains import GrainFactory
    c, streaming, grains, stamps, pipe, pieces, longopt = case
    try:
        ranges = [gen.build(spec).origin_timerange() for _, spec in c['grains']]
    except Exception:
        label('no time range')
        return
    gsf = gsfcase.encode(c, streaming)
    args = (['--all-grains' if longopt else '-g'] if grains else []) + (['--all-timestamps' if longopt else '-a'] if stamps else [])
    with Scratch() as scratch:
        out = tool('gsf_probe', ['-' if pipe else scratch.file(gsf)] + args, gsf if pipe else b'', pieces)
    report = json.loads(out.decode('utf-8'))
    what = "probe {}: ".format(args)
    eq(str(report['id']), str(uuid.UUID(bytes=c['id'])), what + "id")
    y, mo, d, hh, mi, ss = gsfcase.created_utc(c['created'])
    eq(str(report['created']), "{:04}-{:02}-{:02} {:02}:{:02}:{:02}+00:00".format(y, mo, d, hh, mi, ss), what + "created")
    eq([tuple(t) for t in report['tags']], [tuple(t) for t in c['tags']], what + "tags")
    eq(set(report['segments']), {str(s['local_id']) for s in c['segments']}, what + "segments")
    counts = gsfcase.counts_of(c)
    for s in c['segments']:
        lid = s['local_id']
        w = what + "segment {}: ".format(lid)
        seg = report['segments'][str(lid)]
        eq((str(seg['id']), seg['local_id'], [tuple(t) for t in seg['tags']]), (str(uuid.UUID(bytes=s['id'])), lid, [tuple(t) for t in s['tags']]), w + "identity")
        eq(seg['count'], counts[lid] if not streaming else -1 if seg['count'] == -1 else counts[lid], w + "count")
        mine = [(r, spec) for r, (g, spec) in zip(ranges, c['grains']) if g == lid]
        if not mine:
            true(not ({'timerange', 'grain_data', 'grain_timestamps'} & set(seg)), w + "has grains")
            continue
        r = mine[0][0]
        for x, _ in mine[1:]:
            r = r.extend_to_encompass_timerange(x)
        eq(seg['timerange'], r.to_sec_nsec_range(), w + "time range")
        got = seg['grain_data'] if grains else [seg['grain_data']]
        eq(len(got), len(mine) if grains else 1, w + "number of grains")
        for m, (_, spec) in zip(got, mine):
            g = GrainFactory({'@_ns': 'urn:x-ipstudio:ns:0.1', 'grain': m}, None)
            o, e = gen.observe(g), gen.expected(spec)
            if spec['type'] == 'event':
                # the report does not go into the payload
                o['f'] = e['f'] = {}
            eq(o, e, w + "grain")
        if stamps:
            eq([(ns_of(t['origin_timestamp']), ns_of(t['sync_timestamp'])) for t in seg['grain_timestamps']], [(spec['ots'], spec['sts']) for _, spec in mine], w + "timestamps")
            # not kept in the file, but the report agrees with itself
            eq([t['creation_timestamp'] for t in seg['grain_timestamps']][:len(got)], [m['creation_timestamp'] for m in got], w + "creation timestamps")
        else:
            true('grain_timestamps' not in seg, w + "has timestamps")
    nontrivial(len(c['grains']) > 1)
    label('several segments', len({lid for lid, _ in c['grains']}) > 1)
    label('pipe', pipe)


iop = gen.weighted((5, st.tuples(st.just('read'), st.one_of(st.integers(0, 40), st.integers(-1, 300), st.none()))), (4, st.tuples(st.just('skip'), st.one_of(st.integers(0, 3), st.integers(0, 60)))), (2, st.tuples(st.just('to'), st.one_of(st.integers(-1, 2), st.integers(-2, 60)))),
                   (1, st.tuples(st.just('back'), st.integers(1, 20))), (1, st.tuples(st.just('end'), st.integers(-5, 5))))


def check_input(case):
    """What is read from standard input against a file of the same contents."""
    from mediagrains.tools import file_or_pipe
    data, sizes, kind, seq = case
    f = io.BytesIO(data)
    old = sys.stdin
    src, close = c21.open_input(kind, data, sizes)
    try:
        sys.stdin = type('Stdin', (), {'buffer': src})
        with file_or_pipe('-', 'rb') as fp:
            for i, o in enumerate(seq):
                what = "operation {} {} at {} of {}: ".format(i, o, f.tell(), len(data))
                if o[0] == 'read':
                    if kind == 'short' and (o[1] is None or o[1] < 0):
                        continue
                    got = fp.read(o[1]) if i % 3 or o[1] is not None else fp.read()
                    want = f.read(o[1])
                    true(type(got) is bytes, what + "gave {}".format(type(got)))
                    eq(got, want, what + "result")
                elif o[0] == 'skip':
                    eq(fp.seek(o[1], 1), f.seek(o[1], 1), what + "result")
                elif o[0] == 'to':
                    eq(fp.seek(f.tell() + max(0, o[1])), f.seek(f.tell() + max(0, o[1])), what + "result")
                else:
                    if o[0] == 'back' and f.tell() < o[1]:
                        continue
                    try:
                        fp.seek(*((f.tell() - o[1], ) if o[0] == 'back' else (o[1], 2)))
                        fail("{}not refused".format(what))
                    except (NotImplementedError, OSError):
                        pass
                eq(fp.tell(), f.tell(), what + "position")
    finally:
        sys.stdin = old
        if close:
            close()
    nontrivial(any(o[0] == 'read' and o[1] for o in seq) and any(o[0] in ('skip', 'to') and o[1] > 0 for o in seq) and len(data) > 0)
    label(kind)


def strat_input():
    return st.tuples(st.binary(max_size=300), st.lists(st.integers(1, 40), min_size=1, max_size=4), st.sampled_from(['buffer', 'short', 'short', 'pipe', 'file']), st.lists(iop, max_size=12))


def processes(tier):
    base = {'wrap': (True, True), 'extract': (True, True), 'pieces': [100], 'flow': bytes(range(16)), 'source': None}
    v = {'kind': 'video', 'format': None, 'size': (16, 4), 'rate': None, 'start': 7}
    a = {'kind': 'audio', 'format': None, 'channels': None, 'samples': None, 'rate': 44100, 'start': None}
    return [(v, 3, 5, base), (a, 2, 7, base), (dict(v, rate=50), 2, 0, dict(base, wrap=(False, False), extract=(False, True))), (dict(a, samples=100, channels=1), 3, 1, dict(base, wrap=(True, False), extract=(False, False)))]


def strat_probe_large():
    return st.tuples(strat_probe(), gsfcase.scale_st())


def check_probe_large(case):
    (c, streaming, grains, stamps, pipe, pieces, longopt), scale = case
    label('{} of {}'.format(*scale[:2]))
    check_probe((gsfcase.scaled(c, scale), streaming, grains, stamps, pipe, [p * 200 for p in pieces], longopt))


def strat_raw_large():
    big = st.one_of(video.flatmap(lambda c: st.sampled_from(F.LARGE).map(lambda s: dict(c, size=s))), audio.flatmap(lambda c: st.sampled_from(F.LONG).map(lambda n: dict(c, samples=n))))
    return st.tuples(big, st.integers(0, 3), st.integers(-2, 3000), how)


TARGETS = [Target('raw-large', strat_raw_large, check_raw, quick=80, thorough=3000), Target('extract-large', strat_extract_large, check_extract_large, quick=150, thorough=6000),
           Target('probe-large', strat_probe_large, check_probe_large, quick=150, thorough=6000),
           Target('input', strat_input, check_input, quick=1500, thorough=60000),
           Target('raw', strat_raw, check_raw, quick=900, thorough=30000), Target('coded', strat_coded, check_coded, quick=600, thorough=20000), Target('extract', strat_extract, check_extract, quick=1000, thorough=40000),
           Target('probe', strat_probe, check_probe, quick=1000, thorough=40000), Target('process', lambda: st.nothing(), lambda c: check_raw(c, True), quick=0, thorough=0, enumerate=processes)]
