"""Served media segments stay valid files: only number, decode time, last-segment brand and the offsets that follow change."""
from vlib import oracle, pool
from vlib.model import S, url

PLAN = {'quick': {'cases': 31250, 'wall': 240}, 'thorough': {'cases': 781250, 'wall': 600}}
RULE = ('A case = one segment of every representation of a generated content (box layout options drawn at random) at one live time; '
        'shape = the layout options of the segment x (offset crosses 32 bits) x last-segment flag.')
MIN = {'segments': 1000, 'encrypted': 100, 'grown_to_64bit': 33, 'last_segments': 33}
NA = 120


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any', free=True)
    reps = [r for r in a.order if r.ctype != 'image']
    rep0 = rng.choice(reps)
    now = pool.sec(pool.pick_now(rng, a))
    if rng.random() < .3:
        now = max(1, 2 ** 32 // rep0.timescale + rng.randrange(-a.loop, a.loop))
    o = pool.session(rng, a, now, kinds=('plain', 'plain', 'start', 'dur', 'dur', 'tfdt', 'modulo', 'modulo', 'stop'), inf=False, ato=False)
    o.setdefault('tsbd', 60)
    s = S(a, o, now)
    k = max(0, s.last_avail(now) - rng.randrange(0, 3))
    if s.last_k is not None and (rng.random() < .7 or k > s.last_k):
        k = s.last_k - (rng.random() < .2)
    if s.stop is not None:
        k = min(k, s.stop_k - 1)
    t = float(s.avail(k)[0]) + rng.choice([0, .5, 1])
    s = S(a, o, t)
    if k < 0 or s.reasons(k, t):
        ctx.count('skipped')
        return
    for rep in reps:
        vnr, off = s.vod(k)
        src = oracle.vod_seg(a, rep, vnr)
        r = oracle.fetch_ok(ctx, srv, url(a, o, a.path(rep, '%d.m4s' % s.nr(k)), rng, extra=pool.neutral(rng)), t)
        ctx.count('segments')
        lm = s.lmsg_k is not None and k == s.lmsg_k
        res = oracle.media(ctx, a, rep, src, off, s.nr(k), r.body, lmsg=lm, emsg=False, what=r.url)
        ctx.judge(True, '')
        if lm:
            ctx.count('last_segments')
        if rep.opt.get('cenc'):
            ctx.count('encrypted')
        grown = res['tfdt'] >= 2 ** 32 and not rep.opt['tfdt']
        if grown:
            ctx.count('grown_to_64bit')
        op = rep.opt
        ctx.shape(rep.ctype, op['dur'], op['size'], op['flags'], op['cto'], op['styp'], op['sidx'], op['prft'], op['cenc'],
                  op['saio_ver'] if op['cenc'] else None, op['tfdt'], grown, lm)
