"""Chunks come out in real time: never before they could exist, and without needless delay."""
from fractions import Fraction as F

from vlib import oracle, pool, vclock
from vlib.model import S, url

PLAN = {'quick': {'cases': 56000, 'wall': 240}, 'thorough': {'cases': 1400000, 'wall': 600}}
RULE = ('A case = one chunked segment read by a client with injected delays (slow reads, oversleeping, clock jumps), the virtual time of each '
        'chunk recorded; shape = phase of the request relative to the segment, chunk duration, faults, number of waits, kind.')
MIN = {'chunks': 2000, 'waits': 666, 'segments': 400, 'late_requests': 50, 'no_wait': 66}
NA = 50
EPS = 1e-3


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, fine=True, cenc=False)
    sd = a.seg_dur
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, kinds=('plain', 'plain', 'start', 'stop', 'tfdt', 'dur', 'modulo'))
    o['ato'] = rng.choice([0, sd, sd - 0.5, sd * 2, 'inf', sd / 2])
    if o['ato'] != 'inf' and o['ato'] == int(o['ato']):
        o['ato'] = int(o['ato'])
    now += rng.choice([0, 0, 0.125, 0.375, 0.905, 0.899])
    s = S(a, o, now)
    cd = rng.choice(['0.5', '0.25', '1', '2', '0.2', '0.1', '0.05', '0.3', '3', '100'])
    base = int(now - s.ast) // sd
    ks = [k for k in (base + d for d in (-3, -2, -1, -1, 0, 0, 0, 1, 1, 2, 5)) if not s.reasons(k, now) and 0 <= s.nr(k) < 2 ** 32]
    if not ks:
        return
    k = rng.choice(ks)
    start = s.ast + k * sd
    rep = rng.choice(a.order)
    fault = rng.choice([None, None, 'slow', 'oversleep', 'undersleep', 'jump', 'back'])
    clk = vclock.CLOCK
    gaps = []       # (time after the consumer took chunk i)

    def on_piece(r):
        if fault == 'slow':
            clk.now += rng.choice([0, 0, 0.01, float(cd), 2 * float(cd), 7.3])
        elif fault == 'jump' and rng.random() < .2:
            clk.now += 30
        elif fault == 'back' and rng.random() < .3:     # the clock is corrected
            clk.now -= rng.choice([0.125, 0.5, 2])
        gaps.append(clk.now)

    def on_sleep(x):
        if fault == 'oversleep':
            clk.now += rng.choice([0, 0.002, 0.05, 1.5])
    clk.on_sleep = on_sleep
    w = ''
    try:
        u = url(a, o, a.path(rep, '%d%s' % (s.nr(k), rep.ext)), rng, extra=['chunkdur_%s' % cd])
        r = srv.get(u, now, on_piece=on_piece)
        sleeps = list(clk.sleeps)
    finally:
        clk.on_sleep = None
    oracle.judge_http(ctx, r)
    w = '%s at %r (segment starts at %d, %s): ' % (u, now, start, fault)
    ctx.judge(r.status == 200, w + r.brief(), 'not-served')
    if rep.ctype == 'image':
        ctx.judge(not sleeps, w + 'slept %s' % sleeps, 'delayed')
        return
    ctx.count('segments')
    d = F(cd)
    prev = now
    waits = 0
    for c, (t, piece) in enumerate(r.pieces, 1):
        ctx.count('chunks')
        due = start + c * d - F(1, 10)
        ctx.judge(t >= due - F(EPS), w + 'chunk %d released at %.3f, not complete before %.3f' % (c, t, due), 'early')
        slack = EPS + (2 if fault == 'oversleep' else 0)
        lim = max(float(due), prev) + slack
        ctx.judge(t <= lim, w + 'chunk %d released at %.3f, could have been at %.3f' % (c, t, max(float(due), prev)), 'delayed')
        if float(due) > prev + EPS:
            waits += 1
            ctx.count('waits')
        prev = gaps[c - 1]
    if not waits:
        ctx.count('no_wait')
        ctx.judge(all(x[1] <= 2 * EPS for x in sleeps), w + 'slept %s although everything was complete' % sleeps, 'delayed')
    if now >= start + sd:
        ctx.count('late_requests')
    phase = 'before' if now < start else 'during' if now < start + sd else 'after'
    ctx.shape(phase, cd, fault, min(waits, 8), o['_kind'], rep.ctype, len(r.pieces) if len(r.pieces) < 9 else 9)
    # without chunks nothing waits
    if rng.random() < .3:
        path = rng.choice([url(a, o, a.path(rep, '%d%s' % (s.nr(k), rep.ext)), rng), url(a, o, a.path(rep, 'init.mp4'), rng, extra=['chunkdur_1']),
                           url(a, o, 'Manifest.mpd', rng, extra=['chunkdur_1'])])
        g = srv.get(path, now)
        oracle.judge_http(ctx, g)
        ctx.judge(not clk.sleeps and clk.now == now, '%s at %r slept %s' % (path, now, clk.sleeps), 'delayed')
