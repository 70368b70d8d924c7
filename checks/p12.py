"""The start number only relabels segments."""
import struct

from vlib import isobmff, mpdcmp, oracle, pool
from vlib.model import S, url
from vlib.mpd import Mpd

PLAN = {'quick': {'cases': 22500, 'wall': 240}, 'thorough': {'cases': 562500, 'wall': 600}}
RULE = ('A case = the same session requested with two different snr options (and without any): MPDs and segments compared pairwise '
        'after relabelling; shape = snr values, session kind, options, media type, outcome.')
MIN = {'pairs': 2000, 'both_served': 833, 'both_refused': 333}
NA = 60


def relabel(body):
    """body with the sequence numbers (and the number shown in subtitles) masked"""
    out = bytearray(body)
    for b in isobmff.parse(body):
        for x in b.walk():
            if x.type == b'mfhd':
                out[x.off + 12:x.off + 16] = b'\0\0\0\0'
    return bytes(out)


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any', version='1.1', free=True)
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, snr=False)
    extra = rng.choice([[], [], ['sidx_1'], ['scte35_2'], ['segtimeline_1'], ['segtimelinenr_1'], ['periods_60'], ['init_3']])
    if extra == ['periods_60'] and (60 % a.seg_dur or o['_kind'] not in ('plain', 'start', 'tfdt')):
        extra = []
    long = 'stop' in o and o['stop'] - o['start'] > 500 * a.seg_dur or o.get('tsbd', 0) > 1000
    if extra in (['segtimeline_1'], ['segtimelinenr_1']) and (long or o['_kind'] == 'tfdt' and o.get('timeoffset')):
        extra = []
    pool.bounded(o, extra, a, 7200)
    x, y = rng.sample([None, 0, 1, -1, 2, 17, 1000, rng.randrange(10 ** 6)], 2)

    def with_snr(v):
        d = dict(o)
        if v is not None:
            d['snr'] = v
        return d
    ox, oy = with_snr(x), with_snr(y)
    bx, by = [0 if v is None else 1 if v == -1 else v for v in (x, y)]
    # MPD
    name = rng.choice(['Manifest.mpd', 'av_single.mpd']) if 'segtime' in ''.join(extra) else rng.choice(sorted(a.mpds))
    px, py = url(a, ox, name, rng, extra=extra), url(a, oy, name, rng, extra=extra)
    rx, ry = srv.get(px, now), srv.get(py, now)
    oracle.judge_http(ctx, rx)
    oracle.judge_http(ctx, ry)
    w = '%s and %s at %r: ' % (px, py, now)
    ctx.judge(rx.status == 200 and ry.status == 200, w + '%s / %s' % (rx.brief(), ry.brief()), 'status')
    mx, my = Mpd(rx.text, 'http://h' + px), Mpd(ry.text, 'http://h' + py)
    s0 = S(a, o, now)
    for (pa, pb) in zip(mx.periods, my.periods):
        for sa, sb in zip(pa.sets, pb.sets):
            if 'segtimeline_1' in extra:
                ctx.judge(not sa.t.has_start_number and not sb.t.has_start_number, w + 'startNumber with $Time$', 'startNumber')
                continue
            ctx.judge(sa.t.start_number - bx == sb.t.start_number - by, w + 'startNumber %d and %d' % (sa.t.start_number, sb.t.start_number),
                      'startNumber')
            if len(mx.periods) == 1 and not extra:
                ctx.judge(sa.t.start_number == bx + s0.media_at_ast // a.seg_dur, w + 'startNumber %d' % sa.t.start_number, 'startNumber')
            for v, st in ((x, sa), (y, sb)):
                ctx.judge(st.t.has_start_number or v == -1 and st.t.start_number == 1, w + 'startNumber absent', 'startNumber')
                if v == -1 and not s0.media_at_ast and len(mx.periods) == 1 and not extra:
                    ctx.judge(not st.t.has_start_number, w + 'snr_-1 must not write startNumber', 'startNumber')
    drop = ('startNumber',)
    cx, cy = [mpdcmp.canon(m.root, (), ('BaseURL', 'Location'), drop) for m in (mx, my)]

    def strip(c):
        return (c[0], c[1], c[2], tuple(strip(k) if k[0] == 'Period' else
                                        k if k[0] != 'AdaptationSet' else k for k in c[3]))
    dx = [e for e in mx.root.iter()]
    dy = [e for e in my.root.iter()]
    ctx.judge(len(dx) == len(dy), w + 'different structure', 'mpd')
    for ea, eb in zip(dx, dy):
        same = ea.tag == eb.tag and {k: v for k, v in ea.attrib.items() if k != 'startNumber'} == \
            {k: v for k, v in eb.attrib.items() if k != 'startNumber'}
        if same and not ea.tag.endswith(('BaseURL', 'Location')):
            same = (ea.text or '').strip() == (eb.text or '').strip()
        ctx.judge(same, w + '%s %s / %s %s' % (ea.tag[-20:], ea.attrib, eb.tag[-20:], eb.attrib), 'mpd')
    # segments
    last = s0.last_avail(now) if s0.ato is not None else 3
    ks = [last, last + 1, last - 1, 0, -1]
    if s0.last_k is not None:
        ks += [s0.last_k, s0.last_k + 1]
    if s0.stop is not None:
        ks += [s0.stop_k - 1, s0.stop_k]
    for k in rng.sample(ks, 4):
        rep = rng.choice([r for r in a.order if r.ctype != 'image' or rng.random() < .5])
        na, nb = S(a, ox, now).nr(k), S(a, oy, now).nr(k)
        if na < 0 or nb < 0:
            continue
        ex = [e for e in extra if not (rep.ctype == 'image' and 'segtime' in e)]
        ua = url(a, ox, a.path(rep, '%d%s' % (na, rep.ext)), rng, extra=ex)
        ub = url(a, oy, a.path(rep, '%d%s' % (nb, rep.ext)), rng, extra=ex)
        ga, gb = srv.get(ua, now), srv.get(ub, now)
        oracle.judge_http(ctx, ga)
        oracle.judge_http(ctx, gb)
        ctx.count('pairs')
        w = '%s and %s at %r: ' % (ua, ub, now)
        ctx.judge(ga.status == gb.status, w + '%s / %s' % (ga.brief(), gb.brief()), 'status')
        ctx.shape(x, y, o['_kind'], rep.ctype, ga.status, tuple(extra))
        if ga.status != 200:
            ctx.count('both_refused')
            ctx.judge(oracle.classify(ga.text) == oracle.classify(gb.text), w + '%s / %s' % (ga.brief(), gb.brief()), 'status')
            continue
        ctx.count('both_served')
        if rep.ctype == 'image':
            ctx.judge(ga.body == gb.body, w + 'different pictures', 'content')
            continue
        for n, g in ((na, ga), (nb, gb)):
            mo = [b for b in isobmff.parse(g.body) if b.type == b'moof'][0]
            ctx.judge(isobmff.mfhd_seq(mo) == n, w + 'sequence number %d for %d' % (isobmff.mfhd_seq(mo), n), 'sequence')
        if rep.ctype == 'subtitles':
            vnr, off = s0.vod(k)
            for n, g in ((na, ga), (nb, gb)):
                oracle.media(ctx, a, rep, oracle.vod_seg(a, rep, vnr), off, n, g.body, sidx='sidx_1' in extra, what=w)
                if b'Segment # ' in g.body:
                    ctx.judge(b'Segment # %d' % n in g.body, w + 'segment number in text', 'subtitle-number')
        else:
            ctx.judge(relabel(ga.body) == relabel(gb.body), w + 'payloads differ', 'content')


__all__ = ['struct']
