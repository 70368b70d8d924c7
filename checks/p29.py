"""Generated subtitle content is valid, has the timing asked for, and can be served."""
import contextlib
import io
import os
import re
import shutil
import struct
import sys
import xml.etree.ElementTree as ET

from vlib import isobmff as mp4
from vlib import oracle, pool
from vlib.model import S, url
from vlib.runner import Violation
from checks.p16 import NS, ms

PLAN = {'quick': {'cases': 6250, 'wall': 240}, 'thorough': {'cases': 156250, 'wall': 600}}
RULE = ('A case = one run of the generator (number and duration of segments, cue resolution, language, track id, file names), all files parsed with an '
        'independent reader, single init and media segments with more parameters, and for some the content served by the simulator; '
        'shape = duration, resolution, count, language, track, name, how it is run.')
MIN = {'generated': 83, 'segments': 500, 'cues': 1666, 'inits': 133, 'served': 10}
ASSUMPTIONS = ['jinja2 is installed (the generator needs it).']
NA = 24


def run(ctx, args, cli):
    from dashlivesim.dashlib.stpp_generator import make_stpp_segments as g
    argv = sys.argv
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if cli:
                sys.argv = ['make', '-d', str(args['dur']), '-n', str(args['n']), '-o', args['out']]
                if ctx.rng.random() < .5:
                    sys.argv = ['make', '--segment_duration', str(args['dur']), '--number_of_segments=%d' % args['n'], '--output_path', args['out']]
                long = ctx.rng.random() < .5
                for k, x in (('--resolution', 'res'), ('--language', 'lang'), ('--trackid', 'track'), ('--segment_name_format', 'fmt')) if long else (
                        ('-r', 'res'), ('-l', 'lang'), ('-t', 'track'), ('-f', 'fmt')):
                    if args[x] is not None:
                        sys.argv += [k, str(args[x])]
                g.main()
            else:
                g.SegmentCreator(args['n'], args['dur'], args['res'] or 1000, args['fmt'] or '%d', args['lang'] or 'eng', args['track'] or 3, args['out']).create_segments()
    except (Exception, SystemExit) as e:
        raise Violation('generator fails with %s: %r' % (args, e), 'crash')
    finally:
        sys.argv = argv


def check_init(ctx, data, w, lang, track, timescale, name=None, t=None):
    i = mp4.init_info(data)
    tr = i['tracks']
    ctx.judge(list(tr) == [track] and list(i['trex']) == [track], w + 'tracks %s, trex %s' % (list(tr), list(i['trex'])), 'init')
    x = tr[track]
    ctx.judge((x['timescale'], x['handler'], x['tkhd_dur'], x['mdhd_dur'], i['mvhd_dur']) == (timescale, b'subt', 0, 0, 0), w + 'track %s' % x, 'init')
    moov = [b for b in i['boxes'] if b.type == b'moov'][0]
    md = moov.one(b'trak', b'mdia', b'mdhd').body
    code = struct.unpack('>H', md[-4:-2])[0]
    got = ''.join(chr(96 + (code >> s & 31)) for s in (10, 5, 0))
    ctx.judge(got == lang and md[0] == 0, w + 'language %s' % got, 'language')
    mv = moov.one(b'mvhd').body
    ctx.judge(struct.unpack('>I', mv[-4:])[0] > track, w + 'next track id %d' % struct.unpack('>I', mv[-4:])[0], 'nexttrack')
    h = moov.one(b'trak', b'mdia', b'hdlr').body
    ctx.judge(h[24:] == ((name if name else 'DASH-IF TTML').encode('utf-8') + b'\0'), w + 'handler name %r' % h[24:], 'handler')
    if t:
        for b, o in ((mv, 4), (md, 4), (moov.one(b'trak', b'tkhd').body, 4)):
            ctx.judge(struct.unpack('>II', b[o:o + 8]) == (t, t), w + 'creation times %s' % (struct.unpack('>II', b[o:o + 8]),), 'creation')
    stsd = moov.one(b'trak', b'mdia', b'minf', b'stbl', b'stsd').body
    ctx.judge(stsd[4:8] == b'\0\0\0\1' and stsd[12:16] == b'stpp', w + 'sample entry %r' % stsd[:20], 'stsd')
    ctx.count('inits')


def check_media(ctx, data, w, track, seq, dur, tfdt):
    boxes = mp4.parse(data)
    ctx.judge([b.type for b in boxes] == [b'styp', b'moof', b'mdat'], w + 'boxes %s' % [b.type for b in boxes], 'boxes')
    sm = mp4.samples(data, {}, boxes)
    ctx.judge(len(sm) == 1 and sm[0].dur == dur, w + '%d samples, duration %s' % (len(sm), [x.dur for x in sm]), 'sample')
    moof = boxes[1]
    ctx.judge((mp4.mfhd_seq(moof), mp4.tfdt(moof.one(b'traf', b'tfdt')), mp4.tfhd(moof.one(b'traf', b'tfhd')).track) == (seq, tfdt, track), w + 'number %d, time %d' % (
        mp4.mfhd_seq(moof), mp4.tfdt(moof.one(b'traf', b'tfdt'))), 'header')
    body = [b for b in boxes if b.type == b'mdat'][0].body
    ctx.judge(sm[0].data == body, w + 'sample is not the whole mdat', 'sample')
    return body


def case(ctx, i):
    rng = ctx.rng
    out = os.path.join(ctx.tmp, 'g%d' % i)
    try:
        one(ctx, rng, i, out)
    finally:
        if os.path.exists(out):
            shutil.rmtree(out)


def one(ctx, rng, i, out):
    serve = i % 4 == 0
    a = None
    if serve:
        a, srv = pool.asset(ctx, i // 4 % NA, subs=True, first=1, n=rng.choice([1, 2, 3]) if False else None, version='1.0')
        rep = a.by_type('subtitles')[0]
        if rep.timescale != 1000:
            serve = False
    args = {'n': rng.choice([1, 2, 3, 5, 8]), 'dur': rng.choice([1000, 2000, 2000, 6000, 500, 1920, 10000, 2500, 40, 3600000]), 'res': rng.choice([None, 1000, 500, 2000, 250, 40, 333]),
            'lang': rng.choice([None, 'eng', 'swe', 'zho', 'aaa', 'zzz']), 'track': rng.choice([None, 3, 1, 2, 77, 65536, 2 ** 31]),
            'fmt': rng.choice([None, None, '%d', 'seg_%d', '%05d', 'x%dy']), 'out': out}
    if args['dur'] == 3600000:
        args['res'] = 600000
        args['n'] = rng.choice([args['n'], 30])
    if serve:
        args.update(n=a.n, dur=a.seg_dur * 1000, fmt=None, track=rep.track)
    if rng.random() < .3:
        os.mkdir(out)
    cli = rng.random() < .9
    run(ctx, args, cli)
    res, lang, track, fmt = args['res'] or 1000, args['lang'] or 'eng', args['track'] or 3, args['fmt'] or '%d'
    w = '%s: ' % {k: v for k, v in args.items() if k != 'out'}
    want = {'init.mp4'} | {fmt % k + '.m4s' for k in range(1, args['n'] + 1)}
    ctx.judge(set(os.listdir(out)) == want, w + 'files %s instead of %s' % (sorted(os.listdir(out)), sorted(want)), 'files')
    with open(os.path.join(out, 'init.mp4'), 'rb') as f:
        check_init(ctx, f.read(), w, lang, track, 1000)
    ids = set()
    for k in range(1, args['n'] + 1):
        with open(os.path.join(out, fmt % k + '.m4s'), 'rb') as f:
            data = f.read()
        ww = w + 'segment %d: ' % k
        t0 = (k - 1) * args['dur']
        body = check_media(ctx, data, ww, track, k, args['dur'], t0)
        cues = document(ctx, ww, body)
        expect = []
        for rel in range(0, args['dur'], res):
            expect.append(t0 + rel)
        ctx.judge([c[1] for c in cues] == expect, ww + 'cues begin at %s instead of %s' % ([c[1] for c in cues][:9], expect[:9]), 'begin')
        for xid, b, e, text in cues:
            ends = {b + res, min(b + res, t0 + args['dur'])}
            ctx.judge(e in ends, ww + 'cue at %d ends at %d' % (b, e), 'end')
            ctx.judge(xid not in ids, ww + 'id %s used twice' % xid, 'id')
            ids.add(xid)
            h, m, s, x = b // 3600000, b // 60000 % 60, b // 1000 % 60, b % 1000
            ctx.judge(text == '%s : %02d:%02d:%02d.%03d' % (lang, h, m, s, x), ww + 'cue at %d says %r' % (b, text), 'text')
            ctx.count('cues')
        ctx.count('segments')
    ctx.count('generated')
    ctx.shape(args['dur'], res, args['n'], lang, track, fmt, cli)
    more(ctx, rng)
    if serve:
        served(ctx, rng, a, srv, rep, out, w)


def document(ctx, w, body):
    ctx.judge(body.startswith(b'<?xml'), w + 'document begins with %r' % body[:20], 'xml')
    try:
        x = ET.fromstring(body)
    except ET.ParseError as e:
        raise Violation(w + 'not XML: %s' % e, 'xml')
    regions = {r.get('{http://www.w3.org/XML/1998/namespace}id') for r in x.iter(NS + 'region')}
    styles = {r.get('{http://www.w3.org/XML/1998/namespace}id') for r in x.iter(NS + 'style')}
    for e in x.iter():
        ctx.judge(e.get('region') is None or e.get('region') in regions, w + 'region %s undefined' % e.get('region'), 'refs')
        ctx.judge(e.get('style') is None or e.get('style') in styles, w + 'style %s undefined' % e.get('style'), 'refs')
    out = []
    for p in x.iter(NS + 'p'):
        out.append((p.get('{http://www.w3.org/XML/1998/namespace}id'), ms(p.get('begin')), ms(p.get('end')), ''.join(p.itertext()).strip()))
    return out


def more(ctx, rng):
    """single segments with other parameters"""
    from dashlivesim.dashlib.stpp_generator import stpp_creator as c
    lang, track, ts = rng.choice(['nor', 'und', 'fra']), rng.randrange(1, 2 ** 16), rng.choice([1, 1000, 90000, 10 ** 7])
    t = rng.choice([None, rng.randrange(1, 2 ** 32)])
    name = rng.choice([None, 'x', 'Undertexter \u00e5\u00e4\u00f6', 'a' * 300])
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            d = c.create_init_segment(lang, track, ts, t, name)
    except Exception as e:
        raise Violation('init segment for %s: %r' % ((lang, track, ts, t, name), e), 'crash')
    check_init(ctx, d, '%s: ' % ((lang, track, ts, t, name),), lang, track, ts, name, t)
    doc = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 100, 5000])))
    seq, dur, tm = rng.randrange(2 ** 32), rng.randrange(1, 2 ** 32), rng.randrange(2 ** rng.choice([10, 32, 33, 63]))
    d = c.create_media_segment(track, seq, dur, tm, doc)
    w = 'media segment %s: ' % ((track, seq, dur, tm, len(doc)),)
    ctx.judge(check_media(ctx, d, w, track, seq, dur, tm) == doc, w + 'document changed', 'document')


def served(ctx, rng, a, srv, rep, out, w):
    d = os.path.join(a.content_root, a.name, a.prefix + rep.id)
    for f in os.listdir(out):
        shutil.copy(os.path.join(out, f), os.path.join(d, f))
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, kinds=('plain', 'start'), ato=False)
    s = S(a, o, now)
    if now < s.ast:
        return
    r = oracle.fetch_ok(ctx, srv, url(a, o, a.path(rep, 'init.mp4'), rng), now)
    with open(os.path.join(out, 'init.mp4'), 'rb') as f:
        ctx.judge(r.body == f.read(), w + 'init segment served differs', 'serve')
    for k in range(max(0, s.last_avail(now) - 2), s.last_avail(now) + 1):
        if s.reasons(k, now) or s.nr(k) >= 2 ** 32:
            continue
        p = url(a, o, a.path(rep, '%d.m4s' % s.nr(k)), rng)
        r = oracle.fetch_ok(ctx, srv, p, now)
        vnr, off = s.vod(k)
        ww = w + '%s at %r: ' % (p, now)
        t0 = (vnr - 1) * a.seg_dur * 1000 + off * 1000
        boxes = mp4.parse(r.body)
        moof = [b for b in boxes if b.type == b'moof'][0]
        ctx.judge(mp4.tfdt(moof.one(b'traf', b'tfdt')) == t0 and mp4.mfhd_seq(moof) == s.nr(k), ww + 'time %d instead of %d' % (mp4.tfdt(moof.one(b'traf', b'tfdt')), t0), 'serve')
        sm = mp4.samples(r.body, {}, boxes)
        cues = document(ctx, ww, sm[0].data)
        with open(os.path.join(out, '%d.m4s' % vnr), 'rb') as f:
            vod = document(ctx, ww, [b for b in mp4.parse(f.read()) if b.type == b'mdat'][0].body)
        ctx.judge([(x[0], x[1] - off * 1000, x[2] - off * 1000) for x in cues] == [x[:3] for x in vod], ww + 'cues %s, VoD %s, offset %d s' % (cues[:3], vod[:3], off), 'serve')
        ctx.count('served')
