"""timeoffset moves only the media time: the session then shows what the plain service showed that much earlier (or shows later)."""
from vlib import isobmff, mpdcmp, oracle, pool
from vlib.client import decode_time, identify
from vlib.model import S, url
from vlib.mpd import NS, Mpd

PLAN = {'quick': {'cases': 18750, 'wall': 240}, 'thorough': {'cases': 468750, 'wall': 500}}
RULE = ('A case = one session with a timeoffset, compared with (a) the plain service at the time now - timeoffset: same numbers, bytes, answers and '
        'timelines, (b) the same session without timeoffset now: same MPD but for numbers and presentationTimeOffset, same availability; '
        'shape = session kind, sign of the offset, options, media type, outcome.')
MIN = {'twins': 1000, 'twins_served': 400, 'twins_refused': 166, 'mpd_pairs': 266, 'timelines': 66, 'future_offsets': 16, 'offsets_between': 100}
NA = 60


def offset(ctx, rng, a, s):
    """A multiple of the segment duration, which leaves media times and numbers >= 0"""
    sd = a.seg_dur
    lim = s.ast // sd
    r = rng.random()
    if r < .15 or lim < 100:
        ctx.count('future_offsets')
        return -sd * rng.choice([0, 1, a.n, a.n * 3 + 1, rng.randrange(0, 10 ** 6)])     # media ahead of wall-clock
    return s.ast - sd * rng.choice([0, 1, a.n, a.n - 1, rng.randrange(0, 60), rng.randrange(0, min(lim, 10 ** 5)), lim - 60, lim])


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any', version='1.1', free=True)
    sd = a.seg_dur
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, kinds=('plain', 'start', 'start', 'dur', 'stop', 'modulo'), timeoffset=False)
    if o['_kind'] == 'plain' and rng.random() < .7:
        t = sd * rng.choice([1, a.n, rng.randrange(1, 50), rng.randrange(0, max(1, int(now) // sd)), -1, -a.n, -rng.randrange(0, 10 ** 6)])
        if t < 0:
            ctx.count('future_offsets')
        if t < 0 and (now - t) / sd > 2 ** 32 - 10 ** 7:
            t = -t
    else:
        t = offset(ctx, rng, a, S(a, o, now))
    ot = dict(o, timeoffset=t)
    s, s0 = S(a, ot, now), S(a, o, now)
    extra = rng.choice([[], [], [], ['sidx_1'], ['scte35_2'], ['init_3'], ['chunkdur_0.5'], ['spd_4']])
    twin = {k: v for k, v in o.items() if k in ('tsbd', 'ato', 'snr', '_kind')}
    # (a) media against the plain service
    then = now - t
    last = s.last_avail(now) if s.ato is not None else int(now - s.ast) // sd
    ks = {last, last + 1, last - 1, last - rng.randrange(2, 9), rng.randrange(0, 3), last - 1 - s.tsbd // sd, last - 2 - s.tsbd // sd}
    if s.last_k is not None:
        ks |= {s.last_k, s.last_k + 1}
    for k in rng.sample(sorted(ks), 4):
        if s.media_time(k) < 0 or s.nr(k) < 0 or k < 0 or then <= 0:
            continue
        rep = rng.choice([r for r in a.order])
        x = [e for e in extra if rep.ctype != 'image']
        tail = a.path(rep, '%d%s' % (s.nr(k), rep.ext))
        p = url(a, ot, tail, rng, extra=x)
        r = srv.get(p, now)
        oracle.judge_http(ctx, r)
        w = '%s at %r (k=%d): ' % (p, now, k)
        why = s.reasons(k, now)
        ctx.judge((r.status == 200) == (not why), w + 'expected %s, got %s' % (sorted(why) or 200, r.brief()), 'availability')
        # (b') wall-clock availability is that of the session without timeoffset
        p0 = url(a, o, a.path(rep, '%d%s' % (s0.nr(k), rep.ext)), rng, extra=x)
        r0 = srv.get(p0, now)
        ctx.judge(r0.status == r.status, w + '%s, but without timeoffset %s' % (r.brief(), r0.brief()), 'availability')
        # the twin
        q = url(a, twin, tail, rng, extra=x)
        g = srv.get(q, then)
        oracle.judge_http(ctx, g)
        ctx.count('twins')
        ctx.shape(o['_kind'], t < 0, tuple(sorted(twin)), rep.ctype, r.status, g.status, tuple(x))
        if o['_kind'] in ('plain', 'start'):
            if s0.ato is not None:
                ctx.judge(r.status == g.status, w + '%s, but %s at %r: %s' % (r.brief(), q, then, g.brief()), 'twin-status')
        if r.status != 200:
            ctx.count('twins_refused')
            ctx.judge(oracle.classify(r.text) in why, w + 'reason %r, true %s' % (r.text[:90], sorted(why)), 'reason')
            continue
        ctx.count('twins_served')
        vnr, off = s.vod(k)
        if rep.ctype == 'image':
            ctx.judge(r.body == oracle.vod_seg(a, rep, vnr).data, w + 'wrong picture', 'twin-body')
        elif 'chunkdur_0.5' not in x:
            src, boxes, _ = identify(a, rep, r.body)
            ctx.judge(src.nr == vnr, w + 'VoD segment %d, expected %d' % (src.nr, vnr), 'media')
            ctx.judge(decode_time(boxes) == src.start + off * rep.timescale, w + 'decode time %d' % decode_time(boxes), 'tfdt')
            if not x:
                oracle.media(ctx, a, rep, src, off, s.nr(k), r.body, lmsg=k == s.lmsg_k, what=w)
        if g.status == 200 and (k != s.lmsg_k or rep.ctype == 'image'):
            ctx.judge(r.body == g.body, w + 'differs from %s at %r' % (q, then), 'twin-body')
    # (b) the MPD
    more = [e for e in extra if not e.startswith(('sidx', 'init'))] + rng.choice([[], [], ['periods_60']] if o['_kind'] in ('plain', 'start') and not 60 % sd and s.tsbd < 40000 else [[]])
    name = rng.choice(sorted(a.mpds))
    pt, p0 = url(a, ot, name, None, extra=more), url(a, o, name, None, extra=more)
    rt, r0 = oracle.fetch_ok(ctx, srv, pt, now), oracle.fetch_ok(ctx, srv, p0, now)
    mt, m0 = Mpd(rt.text, 'http://h' + pt), Mpd(r0.text, 'http://h' + p0)
    w = '%s at %r: ' % (pt, now)
    ctx.count('mpd_pairs')
    for m in (mt, m0):
        for e in m.root.iter(NS + 'ProducerReferenceTime'):
            e.attrib.pop('wallClockTime', None)          # judged by P33
    d = mpdcmp.diff(mpdcmp.canon(m0.root, (), ('BaseURL', 'Location'), ('startNumber', 'presentationTimeOffset')),
                    mpdcmp.canon(mt.root, (), ('BaseURL', 'Location'), ('startNumber', 'presentationTimeOffset')))
    ctx.judge(d is None, w + 'timeoffset changes %s' % d, 'mpd')
    shift = s.media_at_ast
    for pa, pb in zip(m0.periods, mt.periods):
        for x, y in zip(pa.sets, pb.sets):
            ctx.judge(y.t.pto - x.t.pto == shift * y.t.timescale, w + 'presentationTimeOffset %d, without %d, AST-timeoffset %d' % (y.t.pto, x.t.pto, shift), 'pto')
            if s.media_at_ast < 0:                      # the media starts later than the session: no valid number to announce
                continue
            ctx.judge(y.t.start_number - x.t.start_number == shift // sd, w + 'startNumber %d, without %d' % (y.t.start_number, x.t.start_number), 'startNumber')
    if sd > 1 and rng.random() < .3:
        between(ctx, rng, a, srv, o, s0, now)
    # (c) the timeline
    if o['_kind'] in ('plain', 'start') and 'ato' not in o and (then > s.tsbd + 3 * sd or s.media_at_ast >= 0) and then > 0 and o.get('tsbd', a.tsbd) <= 600:
        mode = rng.choice(['segtimeline_1', 'segtimelinenr_1'])
        name = rng.choice(['Manifest.mpd', 'av_single.mpd'])
        pt, pp = url(a, ot, name, rng, extra=[mode]), url(a, twin, name, rng, extra=[mode])
        x = Mpd(oracle.fetch_ok(ctx, srv, pt, now).text)
        y = Mpd(oracle.fetch_ok(ctx, srv, pp, then).text)
        w = '%s at %r against %s at %r: ' % (pt, now, pp, then)
        ctx.count('timelines')
        for u, v in zip(x.periods[0].sets, y.periods[0].sets):
            e, f = u.t.entries(), v.t.entries()
            same = e and f and e[0] == f[0]
            if o['_kind'] == 'start' or now < 2 * s.tsbd:           # the session starts later than the plain service
                f = [z for z in f if z in e or z[0] >= (s.media_at_ast + (F2 if u.ctype else 0)) * u.t.timescale]
            ctx.judge(e == f, w + '%s lists %s, expected %s' % (u.ctype, e[:3] + e[-2:], f[:3] + f[-2:]), 'timeline')
            if mode == 'segtimelinenr_1' and same and o.get('snr') is None:
                ctx.judge(u.t.start_number == v.t.start_number, w + 'startNumber %d / %d' % (u.t.start_number, v.t.start_number), 'timeline-nr')


def between(ctx, rng, a, srv, o, s0, now):
    """An offset that is no multiple of the segment duration away from the start: numbers and media still belong together"""
    if o['_kind'] not in ('plain', 'start') or s0.ato is None or now < s0.ast + 4 * sd_of(a):
        return
    sd = sd_of(a)
    t = s0.ast - rng.choice([rng.randrange(0, 4 * sd), rng.randrange(0, 10 ** 5)]) - rng.randrange(1, sd)
    if t < 0 and s0.ast > 0:
        return
    ot = {k: v for k, v in o.items() if k in ('tsbd', 'snr', 'start', '_kind')}
    twin = {k: v for k, v in ot.items() if k in ('tsbd', 'snr')}
    ot['timeoffset'] = t
    m = Mpd(oracle.fetch_ok(ctx, srv, url(a, ot, 'Manifest.mpd', None), now).text)
    x = m.periods[0].sets[0].t
    snr = o.get('snr', 0)
    first = 1 if snr == -1 else snr
    ctx.judge(x.pto == (s0.ast - t) * x.timescale, 'timeoffset %d: presentationTimeOffset %d' % (t, x.pto), 'pto')
    for nr in {x.start_number + int(now - s0.ast) // sd - 1 - rng.choice([0, 0, 1, 2]) for _ in range(2)}:
        if nr < x.start_number + int(now - s0.ast) // sd - 1 - o.get('tsbd', a.tsbd) // sd or nr < x.start_number:
            continue
        rep = rng.choice([r for r in a.order])
        p = url(a, ot, a.path(rep, '%d%s' % (nr, rep.ext)), rng)
        r = oracle.fetch_ok(ctx, srv, p, now)
        q = url(a, twin, a.path(rep, '%d%s' % (nr, rep.ext)), rng)
        g = oracle.fetch_ok(ctx, srv, q, (nr - first + 1) * sd + .5)
        ctx.count('offsets_between')
        ctx.judge(r.body == g.body, '%s at %r differs from %s, the segment with that number' % (p, now, q), 'twin-body')


def sd_of(a):
    return a.seg_dur


F2 = 1          # uneven segments may start a little off their nominal time
__all__ = ['isobmff']
