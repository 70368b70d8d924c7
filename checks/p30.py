"""Thumbnails: available with the media segment of the same number, and always the picture of the same place in the loop."""
from fractions import Fraction as F

from vlib import oracle, pool
from vlib.client import identify
from vlib.model import S, url

PLAN = {'quick': {'cases': 31250, 'wall': 240}, 'thorough': {'cases': 781250, 'wall': 500}}
RULE = ('A case = one session and time; pictures and the media segments of the same numbers requested, also at the exact borders of their window '
        '(+-1/64 s); shape = session kind, ato/snr/timeoffset, reasons, companion options, position in the loop.')
MIN = {'served': 200, 'refused': 200, 'edge_requests': 66, 'compared_with_media': 333}
NA = 40
EPS = F(1, 64)
MORE = [[], [], [], [], ['chunkdur_0.5'], ['scte35_2'], ['sidx_1'], ['utc_direct'], ['periods_60'], ['baseurl_u10_d20'], ['init_9'], ['sts_5']]


def ask(ctx, a, srv, o, more, k, now, rng):
    s = S(a, o, now)
    nr = s.nr(k)
    if nr < 0 or s.media_time(k) < 0 and k >= 0:
        return
    rep = a.by_type('image')[0]
    u = url(a, o, a.path(rep, '%d.jpg' % nr), rng, extra=more)
    r = srv.get(u, float(now))
    oracle.judge_http(ctx, r)
    why = s.reasons(k, now)
    w = '%s at %s (k=%d): ' % (u, float(now), k)
    ctx.shape(o['_kind'], 'ato' in o, 'snr' in o, 'timeoffset' in o, tuple(sorted(why)), more and more[0].split('_')[0], s.vod(k)[0] == a.first)
    if not why:
        ctx.count('served')
        ctx.judge(r.status == 200, w + 'available %s, but %s' % ([str(x) for x in s.avail(k)], r.brief()), 'refused')
        want = oracle.vod_seg(a, rep, s.vod(k)[0]).data
        ctx.judge(r.body == want, w + 'got %r, expected picture %d of the loop' % (r.body[:60], s.vod(k)[0]), 'picture')
        ctx.judge(r.header('Content-Type') == 'image/jpeg', w + 'Content-Type %s' % r.header('Content-Type'), 'type')
    else:
        ctx.count('refused')
        ctx.judge(r.status == 404, w + 'not available (%s), but %s' % (sorted(why), r.brief()), 'served')
        ctx.judge(oracle.classify(r.text) in why, w + 'reason %r, true %s' % (r.text[:90], sorted(why)), 'reason')
    if rng.random() < .5 and not any(x.startswith(('baseurl', 'chunkdur')) for x in more):
        v = rng.choice([x for x in a.order if x.ctype in ('video', 'audio')])
        g = srv.get(url(a, o, a.path(v, '%d.m4s' % nr), rng, extra=more), float(now))
        ctx.count('compared_with_media')
        ctx.judge(g.status == r.status, w + 'picture %s, but media segment %s' % (r.brief(), g.brief()), 'media-differs')
        if g.status == 200:
            src = identify(a, v, g.body)[0]
            ctx.judge(oracle.vod_seg(a, rep, src.nr).data == r.body, w + 'media is from VoD segment %d, the picture not' % src.nr, 'media-place')


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any', image=True)
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, long=True)
    more = rng.choice(MORE)
    s = S(a, o, now)
    last = s.last_avail(now) if s.ato is not None else pool.sec(now - s.ast) // s.sd
    ks = [last, last + 1, last - rng.randrange(0, 5), 0, -1, last - 1 - s.tsbd // s.sd - rng.randrange(0, 2)]
    if s.last_k is not None:
        ks += [s.last_k, s.last_k + 1]
    if s.stop is not None:
        ks += [s.stop_k - 1, s.stop_k]
    for k in rng.sample(ks, 4):
        ask(ctx, a, srv, o, more, k, now, rng)
    if o['_kind'] not in ('rel', 'tfdt', 'modulo') and 'timeoffset' not in o:
        k = rng.choice(ks)
        es = [x for x in s.avail(k) if x is not None] + [s.ast] + ([s.aet + 61, s.aet + 60] if s.aet is not None else [])
        e = rng.choice(es)
        for t in (e, e - EPS, e + EPS):
            if t > 0 and F(t).denominator in (1, 2, 4, 8, 16, 32, 64):
                ctx.count('edge_requests')
                ask(ctx, a, srv, o, more, k, t, rng)
