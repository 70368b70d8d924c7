"""Sessions with a start and one or more durations: announced ends, last segment, and what is left afterwards."""
from vlib import oracle, pool
from vlib.isobmff import brands
from vlib.model import S, q, url
from vlib.mpd import Mpd

PLAN = {'quick': {'cases': 6250, 'wall': 240}, 'thorough': {'cases': 156250, 'wall': 600}}
RULE = ('A case = a whole session: the MPD polled and segments fetched in time order from before its start until after its end, plus the '
        'exact switching instants; shape = number of durations, mup class, phase, segment role, outcome.')
MIN = {'mpds': 2666, 'last_segments': 333, 'after_end': 333}
NA = 60


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any', styp=[1, 2, None][i % NA % 3])
    sd = a.seg_dur
    start = pool.sec(pool.pick_now(rng, a))
    durs = [rng.choice([sd, 2 * sd, rng.randrange(1, 90), 30, 60, rng.randrange(1, 4000)]) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    if rng.random() < .1:
        durs[0] = rng.choice([3600, 86400, 172800])
    if q(start + sum(durs), sd) <= q(start, sd):
        durs.append(2 * sd)
    o = {'_kind': 'dur', 'start': start, 'dur': durs}
    if rng.random() < .6:
        o['mup'] = rng.choice([0, 1, 2, 5, 15, 30, 120])
    if rng.random() < .5:
        o['tsbd'] = rng.choice([2, sd, 30, 300, 10000])
    if rng.random() < .3:
        o['snr'] = rng.choice([0, 1, -1, 40])
    if rng.random() < .15:
        o['ato'] = rng.choice([0.5, 1, 3])
    if rng.random() < .15 and start > 10 ** 6:
        o['timeoffset'] = q(start, sd) - sd * rng.randrange(0, 10 ** 5)
    s0 = S(a, o, start)
    ast, mup = s0.ast, s0.mup
    ends = s0.ends
    ts = {ast - 1, ast, ast + sd, start, ends[-1], ends[-1] - 1, ends[-1] + 1, ends[-1] + 60, ends[-1] + 61, ends[-1] + 5000}
    for e in ends:
        ts |= {e - 2 * mup, e - 2 * mup + 1, e - 2 * mup - 1, e, e - mup}
    for _ in range(6):
        ts.add(rng.randrange(ast, ends[-1] + 70))
    ts = sorted(t for t in ts if t > 0)
    if len(ts) > 16:
        ts = sorted(rng.sample(ts, 16))
    prev_end = None
    p = url(a, o, rng.choice(sorted(a.mpds)), rng)
    for t in ts:
        r = oracle.fetch_ok(ctx, srv, p, t + rng.choice([0, 0, .5]))
        m = Mpd(r.text, 'http://%s%s' % (srv.host, p))
        ctx.count('mpds')
        s = S(a, o, t)
        w = '%s at %d (ends %s): ' % (p, t, ends)
        ctx.judge(m.type == 'dynamic' and m.ast == ast, w + 'type %s ast %s' % (m.type, m.ast), 'base')
        ctx.judge(m.aet == s.aet, w + 'availabilityEndTime %s, expected %s' % (m.aet, s.aet), 'aet')
        ctx.judge(m.mpdur == m.aet - ast, w + 'mediaPresentationDuration %s' % m.mpdur, 'mpdur')
        ctx.judge(m.mup == mup, w + 'minimumUpdatePeriod %s' % m.mup, 'mup')
        # consequences a player relies on
        ctx.judge(prev_end is None or m.aet >= prev_end, w + 'the announced end moved back from %s to %s' % (prev_end, m.aet), 'back')
        ctx.judge(m.aet == ends[-1] or t <= m.aet - 2 * mup, w + 'the extension is announced too late', 'late-extension')
        prev_end = m.aet
        ctx.shape(len(durs), mup, ends.index(m.aet), t > ends[-1] + 60)
    # segments
    last = s0.last_k
    rep = rng.choice([x for x in a.order if x.ctype != 'image'])
    for k in {last, last - 1, 0, last + 1, rng.randrange(0, last + 1)}:
        if k < 0:
            continue
        for t in {float(s0.avail(k)[0]), float(s0.avail(k)[0]) + .5, ends[-1] + rng.choice([0, 59, 60, 61, 62, 1000]),
                  rng.randrange(ast, ends[-1] + 130)}:
            if t <= 0:
                continue
            s = S(a, o, t)
            u = url(a, o, a.path(rep, '%d.m4s' % s.nr(k)), rng)
            g = srv.get(u, t)
            oracle.judge_http(ctx, g)
            why = s.reasons(k, t)
            w = '%s at %r (k=%d, last %d, ends %s): ' % (u, t, k, last, ends)
            ctx.judge((g.status == 200) == (not why), w + 'expected %s, got %s' % (sorted(why) or '200', g.brief()), 'availability')
            if why:
                ctx.judge(oracle.classify(g.text) in why, w + 'reason %r' % g.text[:80], 'reason')
            if t // 1 > ends[-1] + 60:
                ctx.count('after_end')
            if g.status == 200:
                vnr, off = s.vod(k)
                res = oracle.media(ctx, a, rep, oracle.vod_seg(a, rep, vnr), off, s.nr(k), g.body, lmsg=k == last, emsg=False, what=w)
                has = [b'lmsg' in brands(b)[2] for b in res['boxes'] if b.type == b'styp']
                if has and k == last:
                    ctx.count('last_segments')
            ctx.shape('seg', k == last, k > last, tuple(sorted(why)), 'ato' in o, 'snr' in o, rep.ctype)
    ctx.count('sessions')
