"""tfdt_32: sessions restarting every third hour whose decode times stay small."""
from fractions import Fraction as F

from vlib import client, oracle, pool
from vlib.model import S, q, url
from vlib.mpd import Mpd, expand, path_of

PLAN = {'quick': {'cases': 9000, 'wall': 240}, 'thorough': {'cases': 225000, 'wall': 600}}
RULE = ('A case = MPDs and the segments a player derives from them at a few times around one or two 3-hour boundaries; '
        'shape = position in the session, media type, box version, extra options.')
MIN = {'mpds': 1666, 'segments': 1666}
NA = 60
H3 = 10800


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, max_ts=96000)
    base = q(pool.sec(pool.pick_now(rng, a)), H3)
    if base > 40 * 10 ** 8:
        base = q(base // 3, H3)
    o = {'tfdt': 32, '_kind': 'tfdt'}
    if rng.random() < .4:
        o['tsbd'] = rng.choice([0, 1, 30, 300, 7200, 10800, 100_000])
    if rng.random() < .3:
        o['snr'] = rng.choice([-1, 0, 1, 500, rng.randrange(10 ** 6)])
    extra = rng.choice([[], [], ['init_5'], ['mup_%d' % rng.choice([0, 1, 7, 100, 5400, 5401, 7200, 10800, 90000])], ['spd_4'], ['ato_1'], ['sidx_0']])
    if extra == ['ato_1']:
        extra = []
        o['ato'] = 1
    elif not extra:
        extra = [x for x in pool.neutral(rng) if x.split('_')[0] in ('init', 'spd', 'sts', 'sid', 'utc')]
    name = rng.choice(sorted(a.mpds))
    p = url(a, o, name, rng, extra=extra)
    for t in (base + rng.choice([0, 1, a.seg_dur, 2 * a.seg_dur]), base + rng.randrange(0, H3), base + H3 - 1 - rng.choice([0, 1, 5]) + .5,
              base + rng.randrange(0, H3) + .25):
        if t < 1:
            continue
        r = oracle.fetch_ok(ctx, srv, p, t)
        m = Mpd(r.text, 'http://%s%s' % (srv.host, p))
        ctx.count('mpds')
        w = '%s at %r: ' % (p, t)
        ctx.judge(m.ast == q(int(t), H3), w + 'AST %s is not the 3-hour boundary' % m.ast, 'ast')
        ctx.judge(m.aet == m.ast + H3 and m.mpdur == H3 and m.mup == H3 // 2, w + 'AET %s duration %s mup %s' % (m.aet, m.mpdur, m.mup), 'times')
        s = S(a, o, t)
        for st in m.periods[0].sets:
            rid = rng.choice(st.reps)
            rep = a.reps[rid]
            if rep.ctype == 'image':
                continue
            tr = client.Track(m, m.periods[0], st)
            first, last = tr.window(t, o.get('tsbd', a.tsbd), H3)
            ctx.judge(st.t.start_number == s.first_nr and st.t.pto == 0, w + 'startNumber %d' % st.t.start_number, 'startNumber')
            for j in {first, last}:
                j = int(j)
                if j < 0 or last < first:
                    continue
                n = st.t.start_number + j
                g = srv.get(path_of(m.base, expand(st.t.media, rid, number=n)), t)
                oracle.judge_http(ctx, g)
                ctx.judge(g.status == 200, w + 'segment %d of the session: %s' % (n, g.brief()), 'unavailable')
                ctx.count('segments')
                src, boxes, sm = client.identify(a, rep, g.body)
                dt = client.decode_time(boxes)
                ctx.judge(dt + sum(x.dur for x in sm) < 2 ** 32, w + 'decode time %d' % dt, '32bit')
                tf = [b for b in boxes if b.type == b'moof'][0].one(b'traf', b'tfdt')
                ctx.judge(tf.body[0] == rep.opt['tfdt'], w + 'tfdt of version %d, VoD has %d' % (tf.body[0], rep.opt['tfdt']), 'version')
                ctx.judge(F(dt, rep.timescale) == j * a.seg_dur + client.deviation(a, rep, src), w + 'decode time %d of index %d' % (dt, j), 'time')
                vnr, off = s.vod(j)
                oracle.media(ctx, a, rep, oracle.vod_seg(a, rep, vnr), off, n, g.body, lmsg=False, emsg=False, what=w)
                ctx.shape(rep.ctype, rep.opt['tfdt'], j == 0, j * a.seg_dur * 4 // H3, 'snr' in o, 'ato' in o)
            if o.get('ato') is None and last >= 0:
                n = st.t.start_number + int(last) + 1
                g = srv.get(path_of(m.base, expand(st.t.media, rid, number=n)), t)
                oracle.judge_http(ctx, g)
                ctx.judge(g.status == 404, w + 'segment %d is not complete yet: %s' % (n, g.line), 'early')
