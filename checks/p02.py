"""Endless, gap-free looping of the VoD content."""
from vlib import oracle, pool
from vlib.model import S, url

PLAN = {'quick': {'cases': 7200, 'wall': 240}, 'thorough': {'cases': 180000, 'wall': 600}}
RULE = ('A case = a history of consecutive segments (at least one wrap of the content) of every representation, each requested at its '
        'own time as a player would; shape = session kind, loops crossed, uneven/even segments, tfdt width before/after, media type.')
MIN = {'segments': 1333, 'wraps': 66, 'exactly_2_to_32': 5}
NA = 40


def start_time(rng, a, rep):
    """wall clock around which the history runs; sometimes where the decode time leaves 32 bits"""
    if rng.random() < .25:
        t = 2 ** 32 // rep.timescale
        if t > 3 * a.loop + 100:
            return t + rng.randrange(-2 * a.loop, a.loop)
    return pool.sec(pool.pick_now(rng, a, frac=False))


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any', free=True)
    exact = i % 12 == 11                      # a decode time of exactly 2^32
    if exact:
        a, srv = pool.asset(ctx, 'p%d' % (i // 12 % 6), vtable=((16384, 4096), (65536, 16384), (1024, 256)), seg_dur=[1, 2, 4][i // 12 % 3], free=True)
    reps = [r for r in a.order if r.ctype != 'image']
    now = start_time(rng, a, rng.choice(reps))
    if exact:
        now = 2 ** 32 // reps[0].timescale + rng.randrange(0, 2 * a.loop)
    o = pool.session(rng, a, now, kinds=('plain', 'plain', 'start', 'tfdt'), tsbd=False, inf=False)
    extra = pool.neutral(rng)
    s = S(a, o, now)
    o['tsbd'] = rng.choice([a.loop * 3 + 50, 100000])
    count = a.n + rng.randrange(2, 5)
    first = s.last_avail(now) - rng.randrange(0, count)
    if first < 0:
        first = 0
    if s.media_time(first) < 0:
        return
    ctx.count('histories')
    ends = {}
    for k in range(first, first + count):
        t = float(s.avail(k)[0]) + rng.choice([0.25, 1, rng.randrange(0, a.seg_dur + 1) + .5])
        if S(a, o, t).ast != s.ast:
            break
        vnr, off = s.vod(k)
        if vnr == a.first and k > first:
            ctx.count('wraps')
        for rep in reps:
            src = oracle.vod_seg(a, rep, vnr)
            r = oracle.fetch_ok(ctx, srv, url(a, o, a.path(rep, '%d.m4s' % s.nr(k)), rng, extra=extra), t)
            ctx.count('segments')
            res = oracle.media(ctx, a, rep, src, off, s.nr(k), r.body, emsg=False, what=r.url)
            ctx.judge(rep.id not in ends or ends[rep.id] == res['tfdt'],
                      '%s: starts at %d but the preceding segment ended at %s' % (r.url, res['tfdt'], ends.get(rep.id)), 'gap')
            # presentation time agrees with the position in the session within a segment
            nominal = s.media_time(k) * rep.timescale
            ctx.judge(abs(res['tfdt'] - nominal) < a.seg_dur * rep.timescale,
                      '%s: decode time %d is far from its position %d' % (r.url, res['tfdt'], nominal), 'position')
            ends[rep.id] = res['end']
            ctx.count('exactly_2_to_32', res['tfdt'] == 2 ** 32)
            ctx.shape(o['_kind'], rep.ctype, vnr == a.first, off > 0, res['tfdt'] >= 2 ** 32, src.start >= 2 ** 32,
                      len({x.dur for x in rep.segs}) > 1, rep.opt['tfdt'], 'snr' in o, 'timeoffset' in o)
            if rng.random() < .15:     # the same segment later in its window is the same
                r2 = srv.get(r.url, float(s.avail(k)[0]) + rng.randrange(0, a.loop * 2))
                if S(a, o, r2.now).ast == s.ast:
                    ctx.judge(r2.body == r.body, '%s: another response at %r than at %r' % (r.url, r2.now, t), 'unstable')
    # muxed pair
    for rep in a.by_type('image'):
        k = first
        if S(a, o, float(s.avail(k)[0]) + 1).ast != s.ast:
            continue
        r = oracle.fetch_ok(ctx, srv, url(a, o, a.path(rep, '%d.jpg' % s.nr(k)), rng), float(s.avail(k)[0]) + 1)
        ctx.judge(r.body == oracle.vod_seg(a, rep, s.vod(k)[0]).data, '%s: wrong picture' % r.url, 'picture')
