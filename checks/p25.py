"""Simulated server losses per BaseURL: exactly the scheduled seconds of each minute, nothing else; and their signalling."""
import re
from urllib.parse import urlparse

from vlib import isobmff as mp4
from vlib import mpdcmp, oracle, pool
from vlib.model import S, url
from vlib.mpd import Mpd, dt

PLAN = {'quick': {'cases': 12000, 'wall': 240}, 'thorough': {'cases': 300000, 'wall': 600}}
RULE = ('A case = one loss schedule (one or several BaseURLs) observed over the seconds of a minute around its switches: media, init, MPD, pictures, '
        'with and without the option; or the MPD of a timeline-loss session over the same seconds; shape = mode, schedule, phase, kind, media type.')
MIN = {'up': 666, 'down': 666, 'event_segments': 50, 'urls': 100, 'loss_mpds': 833, 'inband': 33, 'frozen': 166}
NA = 40


def sched(rng):
    x, y = rng.choice([(20, 40), (10, 20), (30, 30), (5, 5), (7, 11), (1, 1), (59, 1), (1, 59), (60, 60), (13, 50), (25, 10), (60, 1), (1, 100), (3, 2)])
    return ('u%d_d%d' % (x, y) if rng.random() < .65 else 'd%d_u%d' % (x, y)), x, y


def state(spec, n):
    """'up', 'down' or 'switch' (up, last second before a loss) at the second n, and seconds since the loss began"""
    m = re.match(r'^([ud])(\d+)_([ud])(\d+)$', spec)
    x, tot = int(m.group(2)), int(m.group(2)) + int(m.group(4))
    t = n % 60
    for i in range(0, 60 // tot + 1):
        b = i * tot
        if m.group(1) == 'u':
            if t == b + x:
                return 'switch', 0
            if b + x < t <= b + tot:
                return 'down', t - b - x
        elif b < t <= b + x:
            return 'down', t - b
    return 'up', 0


def seconds(rng, spec):
    """seconds of a minute worth looking at"""
    st = [state(spec, n)[0] for n in range(60)]
    edge = [n for n in range(60) if st[n] != st[n - 1] or st[n] != st[(n + 1) % 60]]
    return sorted(set(rng.sample(edge, min(len(edge), 5)) + [0, 59, rng.randrange(60)]))


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any', version='1.1')
    minute = pool.sec(pool.pick_now(rng, a)) // 60 * 60
    mode = ('media', 'mpd', 'multi', 'media')[i % 4]
    spec, x, y = sched(rng)
    if mode == 'media':
        media(ctx, rng, a, srv, minute, spec)
    elif mode == 'multi':
        specs = [sched(rng)[0] for _ in range(rng.choice([2, 2, 3, 4]))]
        multi(ctx, rng, a, srv, minute, specs)
    else:
        timeline(ctx, rng, a, srv, minute, spec)


def media(ctx, rng, a, srv, minute, spec, base=None):
    o = pool.session(rng, a, minute + 30, kinds=('plain', 'plain', 'start', 'tfdt'), inf=False)
    o.setdefault('tsbd', 60)
    extra = rng.choice([[], [], [], ['sidx_0'], ['sidx_1'], ['scte35_1'], ['segtimelineloss_1'], ['chunkdur_1'], ['segtimelinenr_1']])
    for sec in seconds(rng, spec):
        now = minute + sec + rng.choice([0, 0, .5, 63 / 64])
        s = S(a, o, now)
        k = s.last_avail(now) - rng.choice([0, 0, 1])
        rep = rng.choice(a.order)
        if not 0 <= s.nr(k) < 2 ** 32 or s.reasons(k, now):
            continue
        st, _ = state(spec, sec)
        f = '%d%s' % (s.nr(k), rep.ext)
        p = url(a, o, a.path(rep, f), rng, extra=extra + ['baseurl_' + spec])
        w = '%s at %r (%s): ' % (p, now, st)
        r = srv.get(p, now)
        oracle.judge_http(ctx, r)
        q = srv.get(p.replace('/baseurl_' + spec, ''), now)
        ctx.shape('media', spec, st, o['_kind'], rep.ctype, tuple(extra))
        ctx.judge(q.status == 200, w + 'without losses ' + q.brief(), 'status')
        if rep.ctype == 'image':
            ctx.judge(r.status == 200 and r.body == q.body, w + 'picture: ' + r.brief(), 'other')
        elif st == 'down':
            ctx.count('down')
            ctx.judge(r.status == 404 and 'BaseURL server down' in r.text, w + r.brief(), 'down')
        else:
            ctx.count('up')
            ctx.judge(r.status == 200, w + r.brief(), 'up')
            bx = mp4.parse(r.body)
            ev = [b for b in bx if b.type == b'emsg' and mp4.emsg(b).scheme == 'urn:mpeg:dash:event:2012']
            rest = b''.join(b.raw for b in bx if b not in ev)
            ctx.judge(rest == q.body, w + 'the rest of the segment differs', 'content')
            ctx.judge(len(ev) == (1 if st == 'switch' else 0), w + '%d events' % len(ev), 'event')
            if ev:
                e = mp4.emsg(ev[0])
                ctx.count('event_segments')
                ctx.judge(e.value == '1' and e.timescale > 0 and dt(e.data.decode().strip('\0')) == sec + minute, w + 'event %s' % (e,), 'event')
                types = [b.type for b in bx]
                ctx.judge(types.index(b'emsg') < types.index(b'moof') and (b'styp' not in types or types[0] == b'styp'), w + 'boxes %s' % types, 'event')
        # everything that is not media is unaffected
        if rng.random() < .4:
            tail = rng.choice(['Manifest.mpd', a.path(a.order[0], 'init.mp4')])
            if now < s.ast:                             # early (low-latency) media, the init segment is available at the AST
                tail = 'Manifest.mpd'
            p = url(a, o, tail, rng, extra=['baseurl_' + spec])
            r = oracle.fetch_ok(ctx, srv, p, now)
            q = oracle.fetch_ok(ctx, srv, p.replace('/baseurl_' + spec, ''), now)
            if tail[-1] == '4':
                ctx.judge(r.body == q.body, p + ': init differs', 'other')
            else:
                m, m0 = Mpd(r.text), Mpd(q.text)
                urls(ctx, a, srv, p, now, m, m0, [spec])


def urls(ctx, a, srv, p, now, m, m0, specs):
    """The BaseURLs: as many as asked for, in order, the same but for the schedule."""
    w = '%s at %r: ' % (p, now)
    ctx.judge(len(m.baseurls) == len(specs), w + 'BaseURLs %s' % m.baseurls, 'baseurls')
    plain = m0.baseurls[0]
    u0 = urlparse(plain[0])
    for b, spec in zip(m.baseurls, specs):
        u = urlparse(b[0])
        parts, want = u.path.split('/'), u0.path.split('/')
        ctx.judge((u.scheme, u.netloc) == (u0.scheme, u0.netloc) and parts.count('baseurl_' + spec) == 1 and
                  [x for x in parts if x != 'baseurl_' + spec] == want and parts[1] == want[1] and b[1:] == plain[1:],
                  w + 'BaseURL %s (for %s)' % (b, spec), 'baseurls')
        ctx.count('urls')
    d = mpdcmp.diff(mpdcmp.canon(m0.root, (), ('BaseURL',)), mpdcmp.canon(m.root, (), ('BaseURL',)))
    ctx.judge(d is None, w + 'the MPD changed with the BaseURLs: %s' % d, 'baseurls')


def multi(ctx, rng, a, srv, minute, specs):
    o = pool.session(rng, a, minute + 30, kinds=('plain', 'plain', 'start'), inf=True)
    o.setdefault('tsbd', 60)
    now = minute + rng.randrange(60)
    s = S(a, o, now)
    p = url(a, o, 'Manifest.mpd', rng, extra=['baseurl_' + x for x in specs])
    order = [x[8:] for x in p.split('/') if x.startswith('baseurl_')]
    q = '/'.join(x for x in p.split('/') if not x.startswith('baseurl_'))
    m, m0 = Mpd(oracle.fetch_ok(ctx, srv, p, now).text), Mpd(oracle.fetch_ok(ctx, srv, q, now).text)
    urls(ctx, a, srv, p, now, m, m0, order)
    if s.ato is None:
        return
    rep = rng.choice([r for r in a.order if r.ctype != 'image'])
    for b, spec in zip(m.baseurls, order):
        for sec in seconds(rng, spec)[:4]:
            t = minute + sec
            s = S(a, o, t)
            k = s.last_avail(t)
            if s.reasons(k, t) or not 0 <= s.nr(k) < 2 ** 32:
                continue
            pp = urlparse(b[0]).path + a.path(rep, '%d.m4s' % s.nr(k))
            r = srv.get(pp, t)
            oracle.judge_http(ctx, r)
            st = state(spec, sec)[0]
            ctx.count('down' if st == 'down' else 'up')
            ctx.judge(r.status == (404 if st == 'down' else 200), '%s at %r (%s): %s' % (pp, t, st, r.brief()), 'multi')
            ctx.shape('multi', len(specs), spec, st)
    # the URL with all of them is a server that never fails
    t = minute + rng.randrange(60)
    s = S(a, o, t)
    k = s.last_avail(t)
    if not s.reasons(k, t) and 0 <= s.nr(k) < 2 ** 32:
        oracle.fetch_ok(ctx, srv, p.replace('Manifest.mpd', a.path(rep, '%d.m4s' % s.nr(k))), t)


def timeline(ctx, rng, a, srv, minute, spec):
    o = {'tsbd': rng.choice([10, 30, 60])}
    if rng.random() < .4:
        o['start'] = minute - rng.choice([5, 40, 100, 1000]) // a.seg_dur * a.seg_dur
        o['mup'] = 5
    tl = rng.choice(['segtimeline_1', 'segtimeline_1', 'segtimelinenr_1', 'tsbd_40'])
    extra = ['baseurl_' + spec, tl]
    for sec in seconds(rng, spec) + [rng.randrange(60)]:
        now = minute + sec
        st, since = state(spec, sec)
        if spec[0] == 'd':
            st, since = 'up', 0
        name = rng.choice(['Manifest.mpd', 'av_single.mpd'])
        p = url(a, o, name, rng, extra=extra + ['segtimelineloss_1'])
        q = p.replace('/segtimelineloss_1', '')
        w = '%s at %r (%s): ' % (p, now, st)
        r = oracle.fetch_ok(ctx, srv, p, now)
        m = Mpd(r.text)
        ctx.count('loss_mpds')
        ctx.shape('timeline', spec, st, tl, 'start' in o)
        # the MPD without the option at the time that counts
        ref = Mpd(oracle.fetch_ok(ctx, srv, q, now - since).text)
        ctx.judge(m.publish == now - since, w + 'published at %s' % m.publish, 'publish')
        if st == 'down':
            ctx.count('frozen')
        prof = [x.replace('dash-if-simple', 'dash-if-main') for x in ref.profiles]
        ctx.judge(m.profiles == prof, w + 'profiles %s' % m.profiles, 'profile')
        kids = ('BaseURL',)
        d = mpdcmp.diff(strict(ref.root, kids), strict(m.root, kids))
        ctx.judge(d is None, w + 'differs from the MPD as of %ds before: %s' % (since, d), 'timeline')
        for x in [z for pd in m.periods for z in pd.sets]:
            n = [z for z in x.inband if z == ('urn:mpeg:dash:event:2012', '1')]
            ctx.judge(len(n) == (1 if st == 'switch' else 0), w + 'InbandEventStream %s' % x.inband, 'inband')
            if n:
                ctx.count('inband')


def strict(e, kids):
    """canon with the SegmentTimeline, without profiles, BaseURLs and InbandEventStreams"""
    tag = e.tag.split('}')[-1]
    at = tuple(sorted((k, v) for k, v in e.attrib.items() if not (tag == 'MPD' and k == 'profiles')))
    return (tag, at, (e.text or '').strip(), tuple(strict(c, ()) for c in e if c.tag.split('}')[-1] not in kids + ('InbandEventStream',)))
