"""Initialization segments: live (durations 0), otherwise unchanged, available from AST - init offset."""
from fractions import Fraction as F

from vlib import isobmff, oracle, pool
from vlib.model import S, url

PLAN = {'quick': {'cases': 62500, 'wall': 240}, 'thorough': {'cases': 1562500, 'wall': 600}}
RULE = ('A case = requests for the init segments of a generated content around the earliest time at which they are available; '
        'shape = session kind, init offset, early/available, box versions, media type.')
MIN = {'served': 500, 'early': 100}
NA = 80


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any')
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, long=True)
    if rng.random() < .5:
        o['start'] = pool.sec(now) + rng.randrange(-40, 60)
        o = {k: v for k, v in o.items() if k in ('start', 'tsbd', 'snr', 'ato', 'mup')}
        o['_kind'] = 'start'
    io = rng.choice([None, None, 0, 1, 7, 30, 3600])
    extra = [x for x in pool.neutral(rng) if not x.startswith('init_')] + (['init_%d' % io] if io is not None else [])
    s = S(a, o, now)
    lo = s.ast - (io or 0)
    ts = [now]
    if o['_kind'] in ('start', 'dur', 'stop', 'plain'):
        ts += [float(lo), lo - F(1, 64), lo - 1, lo + 5]
    if rng.random() < .3:
        ts.append(now + rng.choice([1e4, 1e6, 1e8]))   # no upper limit
    rep = rng.choice([r for r in a.order if r.ctype != 'image'])
    for t in ts:
        if t <= 0:
            continue
        t = float(t)
        lo = S(a, o, t).ast - (io or 0)
        p = url(a, o, a.path(rep, 'init.mp4'), rng, extra=extra)
        r = srv.get(p, t)
        oracle.judge_http(ctx, r)
        if t // 1 < lo:
            ctx.count('early')
            ctx.judge(r.status == 404 and 'too early' in r.text, '%s at %r: init before %d: %s' % (p, t, lo, r.brief()), 'early')
        else:
            ctx.count('served')
            ctx.judge(r.status == 200, '%s at %r: init from %d on: %s' % (p, t, lo, r.brief()), 'refused')
            want = oracle.zero_durations(rep.init)
            if r.body != want:
                d = [j for j in range(min(len(want), len(r.body))) if want[j] != r.body[j]][:8]
                ctx.judge(False, '%s: init differs from the VoD one with durations 0 (lengths %d/%d, at %s)' % (
                    p, len(r.body), len(want), d), 'content')
            inf = isobmff.init_info(r.body)
            ctx.judge(inf['mvhd_dur'] == 0 and all(x['tkhd_dur'] == 0 and x['mdhd_dur'] == 0 for x in inf['tracks'].values()),
                      '%s: durations not 0' % p, 'durations')
        ctx.shape(o['_kind'], io, t // 1 < lo, rep.opt['init_ver'], rep.ctype, rep.opt['mvex_last'])
