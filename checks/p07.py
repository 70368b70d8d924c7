"""SegmentTimeline MPDs list exactly the real segments that can be fetched."""
from fractions import Fraction as F

from vlib import client, mpdcmp, oracle, pool
from vlib.model import S, url
from vlib.mpd import Mpd, expand, path_of

PLAN = {'quick': {'cases': 20000, 'wall': 240}, 'thorough': {'cases': 500000, 'wall': 600}}
RULE = ('A case = one SegmentTimeline MPD ($Time$ or $Number$) of a generated content, its listed segments compared with the content and '
        'fetched (ends, random ones), and the MPD one or more segments later; shape = session kind, mode, even/uneven content, loops spanned, '
        'number of periods, empty or not.')
MIN = {'entries': 6666, 'fetched': 2666, 'empty': 3, 'timelines_with_gaps': 20}
NA = 60


def real(a, rep, s, k):
    """(start, duration) of session segment k in media timescale units"""
    nr, off = s.vod(k)
    v = rep.segs[nr - a.first]
    return v.start + off * rep.timescale, v.dur


def expected(a, rep, s, now, lo, hi, cap):
    """Indices listed for media from lo to hi (s from AST)."""
    ts = rep.timescale
    base = s.media_at_ast
    end = hi + base if cap is None else min(hi + base, cap + base + F(s.sd, 2))
    start = lo + base
    k1 = int(hi // s.sd) + 1
    while k1 >= 0 and sum(real(a, rep, s, k1)) > end * ts:
        k1 -= 1
    k0 = int(lo // s.sd) + 1
    while k0 > 0 and real(a, rep, s, k0)[0] > start * ts:
        k0 -= 1
    return k0, k1


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any', version='1.1', **({'gaps': True} if i % NA % 5 == 4 else {}))
    if not client.fits(a):
        ctx.count('content_too_uneven')
        return
    now = pool.pick_now(rng, a)
    kinds = ('plain', 'start', 'dur', 'stop', 'rel', 'tfdt', 'modulo')
    o = pool.session(rng, a, now, kinds=kinds, ato=False)
    if 'stop' in o and o['stop'] - o['start'] > 700 * a.seg_dur:     # the whole session is listed
        o['start'] = o['stop'] - rng.randrange(1, 700 * a.seg_dur)
    if o.get('tsbd', a.tsbd) > 600:
        o['tsbd'] = 300
    mode = rng.choice(['time', 'nr'])
    extra = ['segtimeline_1' if mode == 'time' else 'segtimelinenr_1']
    np = 0
    if o['_kind'] in ('plain', 'start', 'tfdt') and rng.random() < .25:
        np = rng.choice([p for p in (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60) if (3600 // p) % a.seg_dur == 0] or [1])
        if (3600 // np) % a.seg_dur:
            np = 0
        else:
            extra.append('periods_%d' % np)
    if rng.random() < .2:
        extra += rng.choice([['spd_3'], ['init_4'], ['utc_direct'], ['scte35_1'], ['sidx_1']])
    name = rng.choice(['Manifest.mpd', 'av_single.mpd'])
    p = url(a, o, name, rng, extra=extra)
    times = [now]
    if rng.random() < .3 and o['_kind'] != 'rel':
        times.append(now + rng.choice([1, a.seg_dur, rng.randrange(1, 3 * a.loop)]))
    if o['_kind'] == 'dur':                                  # when the session has just ended
        times.append(S(a, o, now).session_end + rng.choice([0, 1, 2, 7, 30]))
    for t in times:
        one(ctx, rng, a, srv, o, p, t, mode, np, name, extra)


def one(ctx, rng, a, srv, o, p, now, mode, np, name, extra):
    s = S(a, o, now)
    if s.media_at_ast % s.sd:      # another 3-hour session, for which the time offset is not a whole number of segments
        return
    n = s.now_int
    r = oracle.fetch_ok(ctx, srv, p, now)
    m = Mpd(r.text, 'http://%s%s' % (srv.host, p))
    if m.location:
        m.url = m.location[0]
    w = '%s at %r: ' % (p, now)
    static = s.stop is not None and n > s.stop
    ctx.judge(m.mup_raw == (None if static else 'PT0S'), w + 'minimumUpdatePeriod %s' % m.mup_raw, 'mup')
    ctx.judge(m.maxseg is None, w + 'maxSegmentDuration present', 'maxseg')
    ctx.judge(m.ast == s.ast and m.publish == n, w + 'AST %s publish %s' % (m.ast, m.publish), 'times')
    if '_1' in ''.join(extra) and not any(x.startswith('scte35') for x in extra):
        d = mpdcmp.preserved(a.mpd_text[name], m, kids=('SegmentBase',),
                             tmpl=('startNumber', 'presentationTimeOffset', 'duration', 'timescale', 'media'))
        ctx.judge(d is None, w + 'VoD MPD not preserved: %s' % d, 'preserved')
    gone = s.aet is not None and n > s.aet + 60 or now < s.ast + s.sd
    nn = n if s.stop is None else min(n, s.stop)
    pd = 3600 // np if np else None
    listed = {}
    for pi, per in enumerate(m.periods):
        for st in per.sets:
            t = st.t
            reps = [a.reps[x] for x in st.reps]
            rep0 = reps[0]
            ww = w + '%s %s: ' % (per.id, rep0.ctype)
            ctx.judge(t.timeline is not None and t.duration is None, ww + 'no SegmentTimeline, or a duration', 'form')
            ctx.judge(t.timescale == rep0.timescale, ww + 'timescale %d' % t.timescale, 'timescale')
            ps = int(per.start)
            ctx.judge(t.pto == (s.media_at_ast + ps) * t.timescale, ww + 'presentationTimeOffset %d' % t.pto, 'pto')
            if mode == 'time':
                ctx.judge('$Number$' not in t.media and '$Time$' in t.media and not t.has_start_number, ww + 'template %s' % t.media, 'form')
            else:
                ctx.judge('$Time$' not in t.media and '$Number$' in t.media and t.has_start_number, ww + 'template %s' % t.media, 'form')
            ents = t.entries(gaps=bool(rep0.opt.get('gaps')))
            if len({y[0] - x[0] - x[1] for x, y in zip(ents, ents[1:])}) > 1:
                ctx.count('timelines_with_gaps')
            lo = max(ps, nn - s.ast - s.tsbd)
            hi = nn - s.ast
            if pi < len(m.periods) - 1:
                hi = min(hi, ps + pd)
            if hi < 0 or not ents:
                k0, k1 = expected(a, rep0, s, now, lo, max(hi, -1), s.mpdur) if hi >= 0 else (0, -1)
                ctx.judge(not ents and k1 < k0, ww + 'lists %d segments, expected %s..%s' % (len(ents), k0, k1), 'list')
                ctx.count('empty')
                ctx.shape('empty', o['_kind'], mode)
                continue
            k0, k1 = expected(a, rep0, s, now, lo, hi, s.mpdur)
            if s.mpdur is not None and sum(real(a, rep0, s, k1)) > (s.media_at_ast + s.mpdur) * rep0.timescale:
                ctx.count('lists_overhanging_last')
            ctx.judge(len(ents) == k1 - k0 + 1, ww + 'lists %d segments from %s, expected indices %d..%d = %d' % (
                len(ents), ents[:1], k0, k1, k1 - k0 + 1), 'list')
            for j, e in enumerate(ents):
                if e != real(a, rep0, s, k0 + j):
                    ctx.judge(False, ww + 'entry %d is %s, the segment is %s' % (j, e, real(a, rep0, s, k0 + j)), 'entry')
            ctx.count('entries', len(ents))
            ctx.count('evaluations', len(ents))
            if mode == 'nr':
                ctx.judge(t.start_number == s.nr(k0), ww + 'startNumber %d, expected %d' % (t.start_number, s.nr(k0)), 'startnumber')
            key = st.ctype
            if key in listed and len(m.periods) > 1:
                ctx.judge(k0 <= listed[key] + 1, ww + 'segments %d..%d are in no Period' % (listed[key] + 1, k0 - 1), 'period-gap')
            listed[key] = k1
            ctx.shape(o['_kind'], mode, len({x.dur for x in rep0.segs}) > 1, min(3, (k1 - k0) // a.n), min(3, len(m.periods)), k0 == 0,
                      'timeoffset' in o, 'snr' in o, static)
            if gone:
                continue
            pick = {0, len(ents) - 1, rng.randrange(len(ents))}
            if rng.random() < .1:
                pick = set(range(max(0, len(ents) - 2 * a.n), len(ents)))
            for j in pick:
                rep = rng.choice(reps)
                num = t.start_number + j
                u = path_of(m.base, expand(t.media, rep.id, number=num, time=ents[j][0]))
                g = srv.get(u, now)
                oracle.judge_http(ctx, g)
                ctx.judge(g.status == 200, w + 'listed segment %s (entry %d of %d, %s): %s' % (u, j, len(ents), ents[j], g.brief()), 'unavailable')
                ctx.count('fetched')
                src, boxes, sm = client.identify(a, rep, g.body)
                got = (client.decode_time(boxes), sum(x.dur for x in sm))
                ctx.judge(got == ents[j], w + '%s: (time, duration) %s, MPD says %s' % (u, got, ents[j]), 'time')
                if mode == 'nr':
                    ctx.judge(client.seq(boxes) == num, w + '%s: sequence number %d' % (u, client.seq(boxes)), 'sequence')
            # the first one after the end of the list is either not announced yet or beyond the end; never skipped
