"""Segments are served exactly inside their availability window."""
from fractions import Fraction as F

from vlib import oracle, pool
from vlib.model import S, url

PLAN = {'quick': {'cases': 40000, 'wall': 240}, 'thorough': {'cases': 1000000, 'wall': 600}}
RULE = ('A case = one generated content + one session configuration + one wall-clock time (often at exact window edges +-1/64 s); '
        'shape = session kind, ato kind, tsbd class, verdict reasons, edge or interior.')
MIN = {'served': 100, 'refused': 100}
NA = 40
EPS = F(1, 64)


def edges(s, k):
    lo, hi = s.avail(k)
    out = [lo]
    if hi is not None:
        out.append(hi)
    if s.aet is not None:
        out.append(s.aet + 61)
        out.append(s.aet + 60)
    out.append(s.ast)
    out.append(s.ast + s.sd - (s.ato or 0))
    return out


def request(ctx, a, srv, o, extra, k, now, rng):
    s = S(a, o, now)
    nr = s.nr(k)
    if nr < 0 or s.media_time(k) < 0 and k >= 0:
        return
    rep = rng.choice([r for r in a.order if r.ctype != 'image'])
    if rng.random() < .06 and a.by_type('image'):
        rep = a.by_type('image')[0]
        extra = [x for x in extra if x not in ('segtimeline_1', 'segtimelinenr_1')]
    rid = rep.id
    if rep.ctype == 'video' and rng.random() < .1:
        rid = '%s__%s' % (rng.choice(a.by_type('audio') or a.by_type('video')).id, rep.id)
    p = url(a, o, a.path(rid, '%d%s' % (nr, rep.ext)), rng, extra=extra)
    r = srv.get(p, float(now))
    oracle.judge_http(ctx, r)
    why = s.reasons(k, now)
    kind = (o['_kind'], 'ato' if 'ato' in o else '', o.get('tsbd', 'd') if o.get('tsbd', 99) < 2 else 'tsbd' in o)
    if not why:
        ctx.count('served')
        ctx.judge(r.status == 200 and len(r.body) > 0, '%s at %s: k=%d is available %s but got %s' % (
            p, float(now), k, [str(x) for x in s.avail(k)], r.brief()), 'refused-available', opts=o)
    else:
        ctx.count('refused')
        ctx.judge(r.status == 404, '%s at %s: k=%d must not be available (%s; window %s) but got %s' % (
            p, float(now), k, sorted(why), [str(x) for x in s.avail(k)], r.brief()), 'served-unavailable', opts=o)
        c = oracle.classify(r.text)
        ctx.judge(c in why, '%s at %s: refused with %r, true reasons %s' % (p, float(now), r.text[:100], sorted(why)),
                  'wrong-reason', opts=o)
    ctx.shape(kind, tuple(sorted(why)), rep.ctype, rid != rep.id)


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any', free=True)
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, long=True)
    extra = pool.neutral(rng)
    s = S(a, o, now)
    if rng.random() < .08:
        extra = extra + ['chunkdur_%s' % (a.seg_dur / 2)]
    last = s.last_avail(now) if s.ato is not None else pool.sec((now - s.ast)) // s.sd
    ks = [last, last + 1, last - rng.randrange(0, 5), 0, rng.choice([-1, 0, 1])]
    if s.last_k is not None:
        ks += [s.last_k, s.last_k + 1]
    if s.stop is not None:
        ks += [s.stop_k - 1, s.stop_k]
    if s.ato is not None:
        ks.append(last - 1 - (s.tsbd // s.sd) - rng.randrange(0, 2))
    for k in rng.sample(ks, min(len(ks), 4)):
        request(ctx, a, srv, o, extra, k, now, rng)
    # exact edges of one segment's window (relative sessions move with the clock, so not for those)
    if o['_kind'] not in ('rel', 'tfdt', 'modulo') and 'timeoffset' not in o:
        k = rng.choice(ks)
        e = rng.choice(edges(s, k))
        for t in (e, e - EPS, e + EPS):
            if t > 0 and (F(t).denominator in (1, 2, 4, 8, 16, 32, 64)):
                request(ctx, a, srv, o, extra, k, t, rng)
                ctx.count('edge_requests')
