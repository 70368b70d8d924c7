"""Multi-period MPDs list the right Periods, and their segments join seamlessly."""
from fractions import Fraction as F

from vlib import client, mpdcmp, oracle, pool
from vlib.model import S, url
from vlib.mpd import Mpd, expand, path_of

PLAN = {'quick': {'cases': 30000, 'wall': 240}, 'thorough': {'cases': 750000, 'wall': 600}}
RULE = ('A case = one multi-period MPD (periods_n, with continuous/etp/mpdcallback/peroff), all Periods compared with the documented '
        'schedule and segments at Period borders fetched through each Period; shape = n, kind, features, number of listed Periods, peroff.')
MIN = {'periods': 833, 'fetched': 666, 'joints': 100, 'bad_requests': 13}
NA = 50
NS = (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60)


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any')
    sd = a.seg_dur
    ns = [n for n in NS if (3600 // n) % sd == 0]
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, kinds=('plain', 'plain', 'start', 'tfdt'), inf=False)
    s = S(a, o, now)
    if not ns or s.media_at_ast % sd:
        return
    n = rng.choice(ns)
    pd = 3600 // n
    if rng.random() < .45:      # close to a Period border, relative to the start of the session
        t = s.ast + rng.randrange(1, 5) * pd * rng.choice([1, 1, 50]) + rng.randrange(-2, 3) + rng.choice([0, 0, pd // 2, sd, s.tsbd])
        if 'start' in o or t < 3000:
            now = t
        else:
            now = (int(now) - s.ast) // pd * pd + s.ast + (t - s.ast) % pd
        s = S(a, o, now)
        if s.media_at_ast % sd:
            return
    if o.get('tsbd', a.tsbd) > (1000 if n > 6 else 20000):
        o['tsbd'] = 300
        s = S(a, o, now)
    extra = ['periods_%d' % n]
    feats = set()
    peroff = None
    if rng.random() < .35:
        feats.add('continuous')
        extra.append('continuous_1')
    if rng.random() < .3:
        peroff = rng.choice([0, 1, 5])
        extra.append('peroff_%d' % peroff)
    etp = cb = None
    etpd = pd // 2
    if rng.random() < .3:
        etp = rng.choice([e for e in NS if n % e == 0])
        extra.append('etp_%d' % etp)
        if rng.random() < .6:
            etpd = rng.choice([1, sd, pd // 3, pd, rng.randrange(1, pd + 1)])
            extra.append('etpDuration_%d' % etpd)
    if rng.random() < .3:
        cb = rng.choice([e for e in NS if n % e == 0])
        extra.append('mpdcallback_%d' % cb)
    prefix = rng.choice(['livesim', 'dash'])
    name = rng.choice(sorted(a.mpds))
    if rng.random() < .06:
        return refuse(ctx, rng, a, srv, o, now, n, name)
    p = url(a, o, name, rng, extra=extra, prefix=prefix)
    r = oracle.fetch_ok(ctx, srv, p, now)
    m = Mpd(r.text, 'http://%s%s' % (srv.host, p))
    w = '%s at %r: ' % (p, now)
    rel = s.now_int - s.ast
    last = max(0, (rel + pd // 2) // pd)
    first = max(0, (rel - s.tsbd - sd) // pd)
    want = ['p%d' % k for k in range(first, last + 1)]
    got = [q.id for q in m.periods]
    ctx.judge(got == want, w + 'periods %s..%s (%d), expected %s..%s' % (got[0], got[-1], len(got), want[0], want[-1]), 'periods')
    ctx.judge(m.mup == pd // 2 - 5, w + 'minimumUpdatePeriod %s' % m.mup_raw, 'mup')
    ctx.judge(m.type == 'dynamic' and m.ast == s.ast, w + 'type/AST', 'mpd')
    kids = set()
    setkids = set()
    if peroff is not None:
        kids.add('SegmentBase')
    if cb:
        kids.add('EventStream')
    if 'continuous' in feats:
        setkids.add('SupplementalProperty')
    d = mpdcmp.preserved(a.mpd_text[name], m, kids=kids, setkids=setkids)
    ctx.judge(d is None, w + 'VoD MPD not preserved: %s' % d, 'preserved')
    for j, (k, per) in enumerate(zip(range(first, last + 1), m.periods)):
        ctx.count('periods')
        wp = w + per.id + ': '
        ctx.judge(per.start == k * pd, wp + 'start %s, expected %d' % (per.start, k * pd), 'period-start')
        dur = etpd if etp and k % (n // etp) == 0 else None
        ctx.judge(per.duration == dur, wp + 'duration %s, expected %s' % (per.duration, dur), 'period-duration')
        pto = s.media_at_ast + k * pd
        if peroff is not None:
            ctx.judge((per.segbase_pto or 0) == pto, wp + 'Period level presentationTimeOffset %s, expected %d' % (per.segbase_pto, pto),
                      'pto')
        else:
            ctx.judge(per.segbase_pto is None, wp + 'unexpected SegmentBase', 'pto')
        ev = [('urn:mpeg:dash:event:callback:2015', '1', ['http://%s/%s/mpdcallback/' % (srv.host, prefix)])] \
            if cb and k % (n // cb) == 0 else []
        ctx.judge(per.events == ev, wp + 'event streams %s, expected %s' % (per.events, ev), 'mpdcallback')
        for st in per.sets:
            ctx.judge(st.t.start_number == s.first_nr + k * pd // sd, wp + 'startNumber %d, expected %d' % (
                st.t.start_number, s.first_nr + k * pd // sd), 'startNumber')
            tp = st.t.pto * F(1, st.t.timescale)
            ctx.judge(tp == (0 if peroff is not None else pto), wp + 'presentationTimeOffset %s, expected %s' % (tp, pto), 'pto')
            sup = [('urn:mpeg:dash:period_continuity:2014', 'p%d' % (k - 1))] if 'continuous' in feats and j else []
            ctx.judge(st.supp == sup, wp + 'SupplementalProperty %s, expected %s' % (st.supp, sup), 'continuity')
    ctx.shape(n, o['_kind'], tuple(sorted(feats)), etp, cb, peroff is None, min(len(want), 4), 'snr' in o, 'timeoffset' in o)
    # the client: same media timeline across the border
    sets = len(m.periods[0].sets)
    si = rng.randrange(sets)
    rid = rng.choice(m.periods[0].sets[si].reps)
    rep = a.reps[rid]
    cand = []
    lastk = s.last_avail(now)
    for per in m.periods:
        tr = client.Track(m, per, per.sets[si])
        lo = int(per.start // sd)
        hi = lo + pd // sd - 1
        for k in {lo, hi, min(max(lastk, lo), hi)}:
            if not s.reasons(k, now):
                cand.append((tr, per, k, k - lo))
    rng.shuffle(cand)
    ends = {}
    for tr, per, k, j in cand[:5]:
        u = path_of(m.base, expand(tr.t.media, rid, number=tr.t.start_number + j))
        g = srv.get(u, now)
        oracle.judge_http(ctx, g)
        wp = '%s%s %s index %d: ' % (w, per.id, u, j)
        ctx.judge(g.status == 200, wp + g.brief(), 'unavailable')
        ctx.count('fetched')
        if rep.ctype == 'image':
            continue
        src, boxes, sm = client.identify(a, rep, g.body)
        t = F(client.decode_time(boxes), rep.timescale)
        pt = t - tr.pto + per.start
        ctx.judge(pt == k * sd + client.deviation(a, rep, src), wp + 'presented at %s of the session, expected %s' % (float(pt), k * sd), 'time')
        ends[k] = (pt, pt + F(sum(x.dur for x in sm), rep.timescale))
        if k - 1 in ends and j == 0:
            ctx.judge(ends[k - 1][1] == pt, wp + 'previous Period ends at %s' % ends[k - 1][1], 'gap')
            ctx.count('joints')
        if j == 0 and k > 0 and len(m.periods) > 1 and not s.reasons(k - 1, now):
            u2 = path_of(m.base, expand(tr.t.media, rid, number=tr.t.start_number - 1))
            g2 = srv.get(u2, now)
            ctx.judge(g2.status == 200, wp + 'the one before: ' + g2.brief(), 'unavailable')
            src2, boxes2, sm2 = client.identify(a, rep, g2.body)
            t2 = client.decode_time(boxes2) + sum(x.dur for x in sm2)
            ctx.judge(t2 == client.decode_time(boxes), wp + 'decode time %d but the previous Period ends at %d' % (
                client.decode_time(boxes), t2), 'gap')
            ctx.count('joints')


def refuse(ctx, rng, a, srv, o, now, n, name):
    """Combinations that make no sense are refused, and one offset Period"""
    kind = rng.choice(['bad_n', 'etp', 'cb', 'etpd', 'zero', 'clamp'])
    e = {'bad_n': ['periods_%d' % rng.choice([7, 8, 9, 11, 45, 59, -2])],
         'etp': ['periods_2', 'etp_3'], 'cb': ['periods_10', 'mpdcallback_4'],
         'etpd': ['periods_60', 'etp_60', 'etpDuration_61'], 'zero': ['periods_0'],
         'clamp': ['periods_%d' % rng.choice([61, 120, 3600])]}[kind]
    p = url(a, o, name, rng, extra=e)
    r = srv.get(p, now)
    oracle.judge_http(ctx, r)
    s = S(a, o, now)
    if kind == 'clamp':
        m = Mpd(r.text, 'http://h' + p)
        ctx.judge(m.periods[-1].id == 'p%d' % max(0, (s.now_int - s.ast + 30) // 60), '%s at %r: last is %s' % (p, now, m.periods[-1].id), 'periods')
        return
    if kind == 'zero':
        m = Mpd(r.text, 'http://h' + p)
        ctx.judge([(q.id, q.start) for q in m.periods] == [('p0', 3600000)], '%s: %s' % (p, [(q.id, q.start) for q in m.periods]), 'offset-period')
        if 3600000 % a.seg_dur == 0:
            for st in m.periods[0].sets:
                ctx.judge(st.t.start_number == s.first_nr + 3600000 // a.seg_dur and st.t.pto == (s.media_at_ast + 3600000) * st.t.timescale,
                          '%s: startNumber %d pto %d' % (p, st.t.start_number, st.t.pto), 'offset-period')
        return
    ctx.judge(r.status == 404, '%s: %s' % (p, r.brief()), 'accepted')
    ctx.count('bad_requests')
