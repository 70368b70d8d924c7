"""Modulo sessions: one growing session per modulo period."""
from fractions import Fraction as F

from vlib import oracle, pool
from vlib.model import S, q, url
from vlib.mpd import Mpd

PLAN = {'quick': {'cases': 2250, 'wall': 240}, 'thorough': {'cases': 60000, 'wall': 600}}
RULE = ('A case = one modulo period followed over time (MPD and segments at every switching instant and in between); '
        'shape = modulo, phase of the period, segment role, outcome.')
MIN = {'mpds': 2666, 'segments': 3333, 'last_segments': 100}
NA = 60


def case(ctx, i):
    rng = ctx.rng
    sd = [1, 2, 3, 4, 6, 12, 2, 8, 5, 7][i % NA % 10]
    a, srv = pool.asset(ctx, i % NA, only='any', seg_dur=sd, styp=1)
    whole = rng.random() < .6                    # else the last segment may be a part of one
    m_ = rng.choice([m for m in (1, 2, 3, 5, 10, 15, 20, 30, 60) if not whole or (12 * m) % sd == 0] or [1, 2, 7, 60])
    P = 60 * m_
    base = q(pool.sec(pool.pick_now(rng, a)), P)
    o = {'_kind': 'modulo', 'modulo': m_}
    if rng.random() < .5:
        o['tsbd'] = rng.choice([1, sd, 30, 300, 7200])
    if rng.random() < .3:
        o['snr'] = rng.choice([-1, 0, 1, 99])
    name = rng.choice(sorted(a.mpds))
    p = url(a, o, name, rng)
    rep = rng.choice([x for x in a.order if x.ctype != 'image'])
    marks = [base + F(P * x, 100) for x in (0, 10, 20, 30, 40, 50, 60, 70, 80, 85, 90, 95, 100)]
    ts = set()
    for x in rng.sample(marks, 6):
        ts |= {x, x - 1, x + F(rng.randrange(0, 8), 8)}
    for _ in range(3):
        ts.add(base + F(rng.randrange(0, P * 4), 4))
    prev = {}
    for t in sorted(ts):
        t = float(t)
        if t < 1:
            continue
        s = S(a, o, t)
        r = oracle.fetch_ok(ctx, srv, p, t)
        m = Mpd(r.text, 'http://%s%s' % (srv.host, p))
        ctx.count('mpds')
        w = '%s at %r (%.1f%% of the period): ' % (p, t, (t - base) * 100 / P)
        for nm, got, want in (('availabilityStartTime', m.ast, s.ast), ('availabilityEndTime', m.aet, s.aet),
                              ('mediaPresentationDuration', m.mpdur, s.mpdur), ('minimumUpdatePeriod', m.mup, s.mup),
                              ('type', m.type, 'dynamic')):
            ctx.judge(got == want, w + '%s is %s, expected %s' % (nm, got, want), nm)
        for st in m.periods[0].sets:
            ctx.judge(st.t.start_number == s.first_nr and st.t.pto == 0, w + 'startNumber %s' % st.t.start_number, 'startNumber')
        ctx.judge(m.aet >= prev.get(m.ast, 0), w + 'the end of the session moved back', 'back')
        ctx.judge(m.ast % P == 0 and (m.ast > t or m.ast + P > t), w + 'not the session of this or the next period', 'session')
        prev[m.ast] = m.aet
        ctx.shape(m_, s.mpdur * 10 // P, int((t - base) * 20 // P))
        last = s.last_k
        lk = s.last_avail(t)
        for k in {0, lk, lk + 1, last, last + 1, last - 1, rng.randrange(0, last + 1)}:
            if s.nr(k) < 0:
                continue
            u = url(a, o, a.path(rep, '%d.m4s' % s.nr(k)), rng)
            g = srv.get(u, t)
            oracle.judge_http(ctx, g)
            why = s.reasons(k, t)
            wg = '%s at %r (k=%d, last %d): ' % (u, t, k, last)
            ctx.judge((g.status == 200) == (not why), wg + 'expected %s, got %s' % (sorted(why) or '200', g.brief()), 'availability')
            ctx.count('segments')
            if g.status == 200:
                vnr, off = s.vod(k)
                lm = k == last
                if lm:
                    ctx.count('last_segments')
                oracle.media(ctx, a, rep, oracle.vod_seg(a, rep, vnr), off, s.nr(k), g.body, lmsg=lm, emsg=False, what=wg)
            ctx.shape('seg', k == last, k > last, k < 0, tuple(sorted(why)))
