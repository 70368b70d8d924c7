"""With a maximal session length every session ends in time, and nothing else changes."""
import re
from urllib.parse import urlparse

from vlib import oracle, pool
from vlib.model import S, url
from vlib.mpd import Mpd

PLAN = {'quick': {'cases': 30000, 'wall': 240}, 'thorough': {'cases': 750000, 'wall': 500}}
RULE = ('A case = one session at a server with a limit: redirect from the plain MPD, following it, requests around the start and the end of the '
        'allowed time, compared with a server without limit; shape = resource, phase, position of the start time, limit, scheme.')
MIN = {'redirects': 266, 'served': 500, 'gone': 266, 'future': 66, 'unmarked': 100, 'unlimited': 266}
NA = 30
ASSUMPTIONS = ['The limit is the MAX_SESSION_LENGTH constant of the WSGI module (the operator sets it there).']


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any')
    now = pool.pick_now(rng, a)
    limit = rng.choice([1, 10, 60, 600, 3600, 7200, 86400])
    https = rng.random() < .3
    srv.host = rng.choice(['sim.example:8080', 'sim.example', '10.0.0.7:8059'])
    o = pool.session(rng, a, now, kinds=('plain', 'plain', 'start', 'tfdt', 'dur'), inf=False)
    s = S(a, o, now)
    rep = rng.choice(a.order)
    prefix = rng.choice(['livesim', 'livesim', 'dash'])
    query = rng.choice(['', '', 'a=b', 'x=1&y=%20z', 'sts_5'])
    tails = ['Manifest.mpd', rng.choice(sorted(a.mpds)), a.path(rep, '%d%s' % (s.nr(s.last_avail(now)), rep.ext)), a.path(a.order[0], 'init.mp4')]
    n = pool.sec(now)

    apart = rng.random() < .3                        # the query only in QUERY_STRING, as from the stand-alone server

    def ask(p, t, lim, q=''):
        srv.mod.MAX_SESSION_LENGTH = lim
        try:
            r = srv.get(p, t, https=https, query=q, request_uri=p if apart else None)
        finally:
            srv.mod.MAX_SESSION_LENGTH = 0
        oracle.judge_http(ctx, r)
        return r

    # a plain MPD request: one redirect, and the session it leads to
    name = rng.choice(tails[:2])
    p = url(a, o, name, rng, prefix=prefix)
    w = '%s at %r, limit %d: ' % (p, now, limit)
    r = ask(p, now, limit, query)
    ctx.judge(r.status == 302 and r.body == b'', w + r.brief(), 'redirect')
    loc = r.header('Location')
    m = re.match(r'^(https?)://([^/]+)(/[^/?]+)/sts_(\d+)/sid_([0-9a-f]{8})(/[^?]*)(?:\?(.*))?$', loc or '')
    ctx.judge(m, w + 'redirects to %s' % loc, 'location')
    ctx.judge((m.group(1), m.group(2), m.group(3) + m.group(6), int(m.group(4)), m.group(7) or '') == (
        'https' if https else 'http', srv.host, p, n, query), w + 'redirects to %s' % loc, 'location')
    ctx.cache.setdefault('sids', []).append(m.group(5))
    ctx.count('redirects')
    t = max(now, n + rng.choice([0, 0, .5, limit / 2, limit]))
    q = urlparse(loc).path
    r = ask(q, t, limit, query)
    ctx.judge(r.status == 200, '%s, redirected to, at %r: %s' % (q, t, r.brief()), 'follow')
    md = Mpd(r.text)
    for b in md.baseurls:
        ctx.judge('/sts_%d/sid_%s/' % (n, m.group(5)) in b[0], w + 'BaseURL %s leaves the session' % b[0], 'baseurl')
    # anything else without a start time
    tail = rng.choice(tails[2:] + ['Manifest.mpd+p%d.period' % (n // 360), 'x.txt', ''])
    extra = rng.choice([[], ['sid_5'], ['sts_x'], ['sts_']])
    p = url(a, o, tail, rng, extra=extra, prefix=prefix)
    r = ask(p, now, limit)
    ctx.judge(r.status == 404 and len(r.body) > 0, p + ' without a start time: ' + r.brief(), 'unmarked')
    ctx.count('unmarked')
    # around the limits
    for _ in range(3):
        tail = rng.choice(tails)
        sts = n - rng.choice([limit, limit, limit - 1, limit + 1, 0, 0, -1, -5, -6, -7, -1000, 2 * limit, rng.randrange(0, limit + 1)])
        if sts < 0:
            continue
        p = url(a, o, tail, rng, extra=['sts_%d' % sts] + rng.choice([[], ['sid_abc']]), prefix=prefix)
        w = '%s at %r, limit %d: ' % (p, now, limit)
        r = ask(p, now, limit)
        free = ask(p, now, 0)
        if now > sts + limit:
            phase = 'gone'
            ctx.judge(r.status == 410 and len(r.body) > 0, w + 'session over, ' + r.brief(), 'gone')
        elif sts > now + 5:
            phase = 'future'
            ctx.judge(r.status == 404 and len(r.body) > 0, w + 'session not begun, ' + r.brief(), 'future')
        else:
            phase = 'served'
            ctx.judge((r.status, r.body, sorted(r.headers)) == (free.status, free.body, sorted(free.headers)), w + 'limited %s, unlimited %s' % (
                r.brief(), free.brief()), 'same')
        ctx.count(phase)
        ctx.shape(tail[-4:], phase, p.split('/').index('sts_%d' % sts), limit, https, o['_kind'])
    # no limit: no sessions
    p = url(a, o, rng.choice(tails), rng, extra=['sts_%d' % (n - 10 ** 6)], prefix=prefix)
    r, r0 = ask(p, now, 0), ask(p.replace('/sts_%d' % (n - 10 ** 6), ''), now, 0)
    ctx.judge(r.status == r0.status and r.status in (200, 404), p + ': %s instead of %s' % (r.brief(), r0.brief()), 'unlimited')
    ctx.count('unlimited')


def finish(ctx):
    ids = ctx.cache.get('sids', [])
    ctx.count('evaluations')
    if len(ids) > 20 and len(set(ids)) < len(ids) - 2:
        ctx.report('%d session ids, only %d different' % (len(ids), len(set(ids))), 'sid')
