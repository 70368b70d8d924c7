"""The caption inserter adds every caption to the frame whose time it has, and changes nothing else."""
import contextlib
import io
import os
import shutil
import struct
import sys
from fractions import Fraction as F

from vlib import assets, isobmff as mp4
from vlib.runner import Violation

PLAN = {'quick': {'cases': 10000, 'wall': 240}, 'thorough': {'cases': 250000, 'wall': 600}}
RULE = ('A case = generated H.264-like video (NAL unit patterns, box layouts, default or explicit durations) and a generated caption file, processed in a '
        'scratch directory, and every written segment compared with the original and the captions due; shape = layout, words per caption, captions per '
        'frame, field, limit, NAL pattern.')
MIN = {'cues_in_first_hour': 100, 'cues_in_later': 100, 'segments_written': 133, 'captions': 500, 'frames_without': 333, 'nals': 1000, 'segments_without': 6}
ASSUMPTIONS = ['H.264 in one unencrypted video representation with one trun per segment and sample sizes in it; captions belong to the frame in decode order.']


def nal(t, payload):
    return struct.pack('>I', 1 + len(payload)) + bytes([0x60 | t]) + payload


def frame(rng, rid, nr, j, pattern):
    tag = ('%s/%d/%d|' % (rid, nr, j)).encode()
    rb = lambda k: bytes(rng.randrange(256) for _ in range(k))
    out = []
    if 'aud' in pattern:
        out.append(nal(9, b'\xf0'))
    if 'ps' in pattern and j == 0:
        out += [nal(7, rb(9)), nal(8, rb(4))]
    if 'sei' in pattern:
        out.append(nal(6, bytes([5, 3]) + rb(3) + b'\x80'))
    for k in range(rng.choice([1, 1, 2, 3])):
        out.append(nal(5 if j == 0 else rng.choice([1, 1, 1, 2, 3, 4]), tag + rb(rng.randrange(0, 30))))
    if 'fill' in pattern:
        out.append(nal(12, b'\xff' * rng.randrange(1, 5)))
    return b''.join(out)


def split(data, what):
    out, p = [], 0
    while p < len(data):
        if p + 4 > len(data):
            raise Violation(what + 'NAL unit length cut', 'nal')
        n = struct.unpack('>I', data[p:p + 4])[0]
        if n < 1 or p + 4 + n > len(data):
            raise Violation(what + 'NAL unit of %d bytes at %d of %d' % (n, p, len(data)), 'nal')
        out.append(data[p + 4:p + 4 + n])
        p += 4 + n
    return out


def captions(n, what):
    """the (field, byte, byte) list of a caption SEI"""
    if n[0] & 0x9f != 6 or n[1] != 4:
        raise Violation(what + 'inserted NAL %s' % n[:12].hex(), 'sei')
    size = n[2]
    p = n[3:3 + size]
    if len(p) != size or n[3 + size:] != b'\x80' or p[:8] != b'\xb5\x00\x31GA94\x03':
        raise Violation(what + 'inserted NAL %s' % n.hex(), 'sei')
    cnt = p[8] & 31
    if p[8] & 0xc0 != 0xc0 or p[9] != 0xff or len(p) != 8 + 2 + 3 * cnt + 1 or p[-1] != 0xff:
        raise Violation(what + 'caption data %s' % p.hex(), 'sei')
    out = []
    for i in range(cnt):
        a, b, c = p[10 + 3 * i:13 + 3 * i]
        if a & 0xfc != 0xfc:
            raise Violation(what + 'caption flags %x' % a, 'sei')
        out.append((a & 3, b, c))
    return out


def build(rng, root):
    sd = rng.choice([1, 2, 2, 3, 4])
    n = rng.choice([1, 2, 3, 4, 6])
    a = assets.Asset(rng.choice(['cc', 'test-pic', 'x.y']), sd, n, rng.choice([0, 1, 1, 5]), 60)
    a.prefix = rng.choice(['', '', 'm/'])
    a.base = rng.choice([0, 0, 0, 0, 57, 59, 598, 3598, 7195, 35997])        # the content does not begin at 0
    v = assets.Rep(rng.choice(['V1', 'video_a']), 'video', 1, 0)
    au = assets.Rep('A1', 'audio', 2, 48000)
    ts, fr = rng.choice([(90000, 6006), (90000, 9000), (25, 1), (50, 3), (30000, 2002), (1000, 40), (12800, 512), (600, 50)])
    v.timescale = ts
    for r, tsc, f in ((v, ts, fr), (au, 48000, 12000)):
        o = r.opt = assets.sample_opts(rng, r.ctype)
        o.update({'multi_trun': False, 'cenc': None})
        if r is v:
            o['size'] = 'trun'
        o['trex'] = (f if o['dur'] == 'trex' else 0, 0, 0)
        o['flags_trex'] = False
        pattern = rng.choice([(), ('aud',), ('aud', 'ps'), ('ps', 'sei'), ('aud', 'sei', 'fill'), ('fill',)])
        for i in range(n):
            b0, b1 = -(-i * sd * tsc // f), -(-(i + 1) * sd * tsc // f)
            sm = []
            for j in range(b1 - b0):
                d = f
                if r is v and o['dur'] == 'trun' and f % 2 == 0 and (b0 + j) % 4 == 1:
                    d = f // 2
                if r is v and o['dur'] == 'trun' and f % 2 == 0 and (b0 + j) % 4 == 2:
                    d = f + f // 2
                cto = 0 if not o['cto'] else f * (j % 3) if o['cto'] == 'unsigned' else f * (j % 3 - 1)
                data = frame(rng, r.id, a.first + i, j, pattern) if r is v else assets.fill(rng, r.id, a.first + i, j, const=40 if o['size'] == 'tfhd' else None)
                sm.append((d, assets.SYNC if j == 0 or r is au else assets.NONSYNC, cto, data))
            st = a.base * tsc + b0 * f if not r.segs else r.segs[-1].start + r.segs[-1].dur
            r.segs.append(assets.Seg(a.first + i, st, sum(x[0] for x in sm), sm))
        assets.finish(a, r, rng)
        a.reps[r.id] = r
        a.order.append(r)
        r.opt['desc'] = str(pattern)
    assets.write(a, root, rng)
    return a, v


def captionfile(ctx, rng, a, v, path):
    """[(exact time, [words])]"""
    cues = []
    end = v.segs[-1].start + v.segs[-1].dur
    lines = ['Scenarist_SCC V1.0', '']
    t = a.base * 30 + rng.choice([0, 0, 0, 7])
    while t < end * 30 // v.timescale + 20 and len(cues) < 60:
        words = ['%04x' % rng.randrange(65536) for _ in range(rng.choice([1, 2, 5, 14, 30, 31, 32, 62, 63, 70]))]
        s, f = divmod(t, 30)
        lines.append('%02d:%02d:%02d:%02d %s%s' % (s // 3600, s // 60 % 60, s % 60, f, ' '.join(words), rng.choice(['', '', ' ', '\t'])))
        lines += [''] * rng.choice([0, 1, 1, 2])
        ctx.count('cues_in_%s' % ('first_minute' if s < 60 else 'first_hour' if s < 3600 else 'later'))
        cues.append((F(s) + F(min(int(f * 1000 / 29.97), 999), 1000), words))
        t += rng.choice([0, 1, 2, 3, 7, 15, 30, 30 - f, 61])
    with open(path, 'w', newline=rng.choice(['\n', '\n', '\r\n'])) as fh:
        fh.write('\n'.join(lines) + rng.choice(['', '\n', '\n\n']))
    return cues


def case(ctx, i):
    rng = ctx.rng
    root = os.path.join(ctx.tmp, 'c%d' % i)
    os.makedirs(root)
    try:
        one(ctx, rng, root)
    finally:
        shutil.rmtree(root)


def one(ctx, rng, root):
    from dashlivesim.cc_inserter import cc_inserter
    a, v = build(rng, root)
    base = os.path.join(a.content_root, a.name)
    scc = os.path.join(root, 'x.scc')
    cues = captionfile(ctx, rng, a, v, scc)
    out = os.path.join(root, 'out')
    os.makedirs(out)
    if rng.random() < .3:
        for f in rng.sample(['99.m4s.bak', 'x1.m4s', '%d.m4sx' % (a.first + 1), 'readme', '77.mp4'], 2):
            open(os.path.join(base, a.prefix + v.id, f), 'w').close()
    hole = None
    if rng.random() < .06 and a.n > 2:
        hole = rng.choice(v.segs[1:-1])
        os.remove(os.path.join(base, a.prefix + v.id, '%d.m4s' % hole.nr))
    limit = rng.choice([-1, -1, -1, 0, 1, 2, a.n, a.n + 3])
    field = rng.choice([1, 1, 2])
    before = {f: open(f, 'rb').read() for b, _, fs in os.walk(a.content_root) for f in [os.path.join(b, x) for x in fs]}
    w = '%s, %d captions, limit %d: ' % (a.describe(), len(cues), limit)
    argv = sys.argv
    text = io.StringIO()
    err = None
    with contextlib.redirect_stdout(text):
        try:
            mpd = os.path.join(base, 'av_single.mpd')
            if rng.random() < .9:
                sys.argv = ['cc_inserter'] + rng.choice([['-m', str(limit)], ['--max', str(limit)]]) + rng.choice([['-f', str(field)], ['--field', str(field)]]) + \
                    rng.choice([[], ['-v'], ['--verbose']]) + [mpd, scc, out]
                cc_inserter.main()
            else:
                cc_inserter.CCInserter(mpd, scc, out, limit, field, rng.choice([0, 1])).analyze()
        except cc_inserter.CCInserterError as e:
            err = str(e)
        except (Exception, SystemExit) as e:
            raise Violation(w + 'fails: %r' % e, 'crash')
        finally:
            sys.argv = argv
    after = {f: open(f, 'rb').read() for b, _, fs in os.walk(a.content_root) for f in [os.path.join(b, x) for x in fs]}
    ctx.judge(before == after, w + 'content changed', 'content')
    if hole is not None:
        ctx.judge(err is not None and 'missing' in err, w + 'segment %d is missing, it says %s' % (hole.nr, err), 'hole')
        ctx.count('holes')
        return
    ctx.judge(err is None, w + 'fails: %s' % err, 'error')
    written = set(os.listdir(out))
    want = set()
    used = 0
    for s in v.segs[:limit if limit > 0 else None]:
        due = []
        t = s.start
        for d, _, _, _ in s.samples:
            lo, hi = F(t, v.timescale), F(t + d, v.timescale)
            due.append([c for c in cues if lo <= c[0] < hi])
            t += d
        if not any(due):
            ctx.count('segments_without')
            continue
        name = '%d.m4s' % s.nr
        want.add(name)
        ctx.judge(name in written, w + '%s is not written, although %d captions are due' % (name, sum(map(len, due))), 'missing')
        with open(os.path.join(out, name), 'rb') as f:
            compare(ctx, w + name + ': ', v, s, f.read(), due, field)
        ctx.count('segments_written')
        ctx.shape(v.opt['dur'], v.opt['styp'], v.opt['sidx'], v.opt['cto'], v.opt['tfdt'], v.opt['sdi'], v.opt['desc'], field, limit > 0, v.timescale,
                  max(len(x) for x in due), max(len(c[1]) for x in due for c in x) // 31)
    ctx.judge(written == want, w + 'writes %s instead of %s' % (sorted(written), sorted(want)), 'files')


def compare(ctx, w, v, s, body, due, field):
    old, new = mp4.parse(s.data), mp4.parse(body)
    ctx.judge([b.type for b in old] == [b.type for b in new], w + 'boxes %s' % [b.type for b in new], 'boxes')
    trex = {v.track: tuple(v.opt['trex'])}
    so, sn = mp4.samples(s.data, trex, old), mp4.samples(body, trex, new)
    ctx.judge(len(so) == len(sn), w + '%d samples instead of %d' % (len(sn), len(so)), 'samples')
    for j, (x, y) in enumerate(zip(so, sn)):
        ww = w + 'frame %d: ' % j
        ctx.judge((x.dur, x.flags, x.cto) == (y.dur, y.flags, y.cto), ww + 'duration, flags, offset %s instead of %s' % (
            (y.dur, y.flags, y.cto), (x.dur, x.flags, x.cto)), 'attributes')
        a, b = split(x.data, ww), split(y.data, ww)
        ctx.count('nals', len(b))
        if not due[j]:
            ctx.judge(a == b, ww + 'no caption is due but the frame differs', 'frame')
            ctx.count('frames_without')
            continue
        k = next(i for i, n in enumerate(a) if n[0] & 31 < 6)
        ctx.judge(b[:k] == a[:k] and len(b) > len(a) and b[len(b) - (len(a) - k):] == a[k:], ww + 'original NAL units %s, now %s' % (
            [n[0] & 31 for n in a], [n[0] & 31 for n in b]), 'frame')
        got = []
        for n in b[k:len(b) - (len(a) - k)]:
            got += captions(n, ww)
        want = [(field - 1, int(x, 16) >> 8, int(x, 16) & 255) for c in due[j] for x in c[1]]
        ctx.judge(got == want, ww + 'captions %s instead of %s' % (got[:40], want[:40]), 'captions')
        ctx.count('captions', len(due[j]))
    # other boxes
    sizes = {b.type: b.size for b in new if b.type in (b'moof', b'mdat')}
    for x, y in zip(old, new):
        if x.type == b'sidx':
            i, j = mp4.sidx(x), mp4.sidx(y)
            grow = len(body) - len(s.data)
            ctx.judge(y.raw == patched(x.raw, grow), w + 'sidx %s, original %s, %d bytes added' % (j, i, grow), 'sidx')
            ctx.count('sidx')
        elif x.type == b'moof':
            strip = lambda b: [(p, c.raw) for p, c in leaves(b) if c.type != b'trun']
            ctx.judge(strip(x) == strip(y), w + 'other boxes in moof changed', 'moof')
        elif x.type != b'mdat':
            ctx.judge(x.raw == y.raw, w + '%s changed' % x.type, 'boxes')
    ctx.judge(sizes[b'mdat'] == 8 + sum(len(y.data) for y in sn), w + 'mdat of %d bytes for %d bytes of samples' % (
        sizes[b'mdat'], sum(len(y.data) for y in sn)), 'mdat')


def leaves(b, path=()):
    if not b.kids:
        yield path, b
    for k in b.kids or []:
        yield from leaves(k, path + (b.type,))


def patched(box, grow):
    p = 32 if box[8] == 0 else 40
    return box[:p] + struct.pack('>I', struct.unpack('>I', box[p:p + 4])[0] + grow) + box[p + 4:]
