"""A $Number$ client that only knows the MPD finds the right segments at the right times."""
from fractions import Fraction as F

from vlib import client, oracle, pool
from vlib.model import S, url
from vlib.mpd import Mpd, expand, path_of

PLAN = {'quick': {'cases': 30000, 'wall': 240}, 'thorough': {'cases': 750000, 'wall': 600}}
RULE = ('A case = one MPD, from which a client computes segment numbers, availability and presentation times by the DASH rules and then '
        'fetches the init, newest, oldest, a middle and the next (not yet available) segment of each AdaptationSet; '
        'shape = session kind, snr/timeoffset/ato present, which segment, outcome.')
MIN = {'fetched': 2666, 'not_yet': 500}
NA = 50


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any')
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, kinds=('plain', 'start', 'dur', 'stop', 'tfdt', 'modulo', 'rel'), long=True)
    if o['_kind'] == 'rel':     # no BaseURL, and so no availabilityTimeOffset, in the MPD
        o.pop('ato', None)
    name = rng.choice(sorted(a.mpds))
    extra = rng.choice([[], [], ['init_5'], ['peroff_1'], ['spd_4'], ['utc_direct'], ['scte35_2'], ['sidx_1']])
    p = url(a, o, name, rng, extra=extra)
    r = oracle.fetch_ok(ctx, srv, p, now)
    m = Mpd(r.text, 'http://%s%s' % (srv.host, p))
    if o['_kind'] == 'rel' and m.location:      # a client follows Location; segments are relative to the MPD location
        m.url = m.location[0]
    tsbd = m.tsbd if m.tsbd is not None else (None if 'stop' in o or 'stoprel' in o else o.get('tsbd', a.tsbd))
    per = m.periods[0]
    t_now = now
    if m.aet is not None and t_now // 1 > m.aet + 60:
        return
    for st in per.sets:
        tr = client.Track(m, per, st)
        first, last = tr.window(now, tsbd, m.mpdur)
        rid = rng.choice(st.reps)
        rep = a.reps[rid]
        w = '%s at %r, %s: ' % (p, now, rid)
        if rep.ctype != 'image' and t_now // 1 >= m.ast:
            ini = srv.get(path_of(m.base, expand(st.t.init, rid)), now)
            oracle.judge_http(ctx, ini)
            ctx.judge(ini.status == 200, w + 'init %s' % ini.brief(), 'init')
        if tr.ato is None:
            if now < m.ast:
                continue
            base = int((F(now) - m.ast) // tr.dur)
            js = {base + rng.randrange(0, 50), base}
            if last is not None:
                js = {min(j, last) for j in js}
        else:
            if last < first:
                continue
            js = {last, first, rng.randrange(int(first), int(last) + 1) if last - first < 10 ** 9 else last}
        for j in js:
            j = int(j)
            if j < 0:
                continue
            n = st.t.start_number + j
            u = path_of(m.base, expand(st.t.media, rid, number=n))
            g = srv.get(u, now)
            oracle.judge_http(ctx, g)
            ctx.judge(g.status == 200, w + 'number %d (index %d, window %s..%s) is available by the MPD but: %s' % (
                n, j, first, last, g.brief()), 'unavailable')
            ctx.count('fetched')
            if rep.ctype == 'image':
                continue
            src, boxes, sm = client.identify(a, rep, g.body)
            pt = F(client.decode_time(boxes), rep.timescale) - tr.pto
            ctx.judge(pt == j * tr.dur + client.deviation(a, rep, src), w + 'number %d presents at %s, MPD says %s' % (
                n, float(pt), float(j * tr.dur)), 'time')
            ctx.judge(client.seq(boxes) == n, w + 'number %d has sequence number %d' % (n, client.seq(boxes)), 'sequence')
        # the next one is not there yet
        if tr.ato is not None and tr.avail(last + 1) > now:
            n = st.t.start_number + int(last) + 1
            g = srv.get(path_of(m.base, expand(st.t.media, rid, number=n)), now)
            oracle.judge_http(ctx, g)
            ctx.judge(g.status == 404, w + 'number %d is served before the MPD announces it: %s' % (n, g.line), 'early')
            ctx.count('not_yet')
        ctx.shape(o['_kind'], 'snr' in o, 'timeoffset' in o, 'ato' in o, rep.ctype, tuple(extra), name)


__all__ = ['S']
