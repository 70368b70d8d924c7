"""Start/stop sessions, absolute and relative to the request."""
import re

from checks import p07
from vlib import client, mpdcmp, oracle, pool
from vlib.model import S, url
from vlib.mpd import Mpd

PLAN = {'quick': {'cases': 7500, 'wall': 240}, 'thorough': {'cases': 187500, 'wall': 600}}
RULE = ('A case = a start/stop or startrel/stoprel session followed over time: the MPD before, during and after it (through its Location '
        'when relative) and segments at both ends; shape = absolute/relative, phase, extra options, segment role.')
MIN = {'mpds': 1666, 'locations': 333, 'one_end_relative': 50, 'segments': 1000, 'session_timelines': 100}
NA = 50


def judge_mpd(ctx, m, s, t, w, name, a):
    static = s.stop is not None and t // 1 > s.stop
    ctx.judge(m.type == ('static' if static else 'dynamic'), w + 'type %s' % m.type, 'type')
    ctx.judge(m.ast == s.ast, w + 'AST %s, expected %s' % (m.ast, s.ast), 'ast')
    ctx.judge(m.mpdur == (None if s.stop is None else s.stop - s.ast), w + 'duration %s' % m.mpdur, 'mpdur')
    ctx.judge(m.mup == (None if static else s.mup), w + 'mup %s' % m.mup_raw, 'mup')
    ctx.judge(m.aet is None, w + 'availabilityEndTime %s' % m.aet, 'aet')
    for st in m.periods[0].sets:
        ctx.judge(st.t.start_number == s.first_nr and st.t.pto == s.media_at_ast * st.t.timescale, w + 'startNumber %d pto %d' % (
            st.t.start_number, st.t.pto), 'numbers')
    d = mpdcmp.preserved(a.mpd_text[name], m)
    ctx.judge(d is None, w + 'VoD MPD not preserved: %s' % d, 'preserved')


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any')
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, kinds=('stop', 'rel'), ato=False, long=True, mixed=True)
    if o['_kind'] == 'stop' and rng.random() < .3:
        o['ato'] = rng.choice([.5, 1, 2.5, 4, 'inf'])
    name = rng.choice(sorted(a.mpds))
    extra = rng.choice([[], [], ['init_9'], ['spd_3'], ['utc_ntp'], ['sid_77'], ['scte35_1']])
    scte = 'scte35_1' in extra
    p = url(a, o, name, rng, extra=extra)
    s = S(a, o, now)
    https = rng.random() < .2
    r = oracle.fetch_ok(ctx, srv, p, now, https=https)
    full = ('https' if https else 'http') + '://' + srv.host + p
    m = Mpd(r.text, full)
    w = '%s at %r: ' % (p, now)
    ctx.count('mpds')
    if not scte:
        judge_mpd(ctx, m, s, now, w, name, a)
    fixed = {k: v for k, v in o.items() if k not in ('startrel', 'stoprel')}
    base = full
    if o['_kind'] == 'rel':
        want = full
        want = re.sub(r'/startrel_-?\d+', '/start_%d' % s.start, want)
        if s.stop is not None:
            want = re.sub(r'/stoprel_-?\d+', '/stop_%d' % s.stop, want)
        ctx.judge(m.location == [want], w + 'Location %s, expected %s' % (m.location, want), 'location')
        ctx.judge(not m.baseurls, w + 'BaseURL together with Location', 'baseurl')
        ctx.count('locations')
        ctx.count('one_end_relative', 'start' in o or 'stop' in o)
        base = m.location[0]
        fixed['start'] = s.start
        if s.stop is not None:
            fixed['stop'] = s.stop
    else:
        ctx.judge(not m.location and [b[0] for b in m.baseurls] == [full[:-len(name)]], w + 'Location %s BaseURL %s' % (
            m.location, m.baseurls), 'location')
    path = base[base.index('://') + 3 + len(srv.host):]
    # the session as it is later
    later = {now + rng.randrange(1, 500), now + 10 ** 7}
    if s.stop is not None:
        later |= {s.stop, s.stop + 1, s.stop - 1, s.stop + .5}
    for t in sorted(later):
        if t < 1:
            continue
        r2 = oracle.fetch_ok(ctx, srv, path, t, https=https)
        m2 = Mpd(r2.text, base)
        s2 = S(a, fixed, t)
        ctx.count('mpds')
        w2 = '%s at %r (from %s at %r): ' % (path, t, p, now)
        ctx.judge((s2.ast, s2.stop) == (s.ast, s.stop), 'model', 'model')
        if not scte:
            judge_mpd(ctx, m2, s2, t, w2, name, a)
        ctx.judge(not m2.location, w2 + 'Location %s in an absolute session' % m2.location, 'location')
        ctx.shape(o['_kind'], m2.type, s.stop is None, tuple(extra), 'snr' in o, 'timeoffset' in o)
    # the whole session is in the timeline, until and after its end
    if s.stop is not None and 0 < s.stop - s.ast <= 200 * a.seg_dur and 'ato' not in o and a.version == '1.1' and client.fits(a) and rng.random() < .4:
        mode = rng.choice(['time', 'nr'])
        x = ['segtimeline_1' if mode == 'time' else 'segtimelinenr_1']
        nm = rng.choice(['Manifest.mpd', 'av_single.mpd'])
        q = url(a, fixed, nm, rng, extra=x)
        for t in (s.stop, s.stop + 1, s.stop - rng.randrange(0, s.stop - s.ast)):
            if t > 1:
                ctx.count('session_timelines')
                p07.one(ctx, rng, a, srv, fixed, q, t, mode, 0, nm, x)
    # segments through the absolute session
    rep = rng.choice([x for x in a.order if x.ctype != 'image'])
    ks = {0, -1, 1}
    if s.stop is not None:
        ks |= {s.stop_k - 1, s.stop_k, s.stop_k + 3, rng.randrange(0, max(1, s.stop_k))}
    for k in ks:
        nr = s.nr(k)
        if nr < 0:
            continue
        for t in (float(s.avail(k)[0]), float(s.avail(k)[0]) - .5, now, (s.stop or now) + rng.choice([1, 10 ** 5, 10 ** 8])):
            if t < 1:
                continue
            s2 = S(a, fixed, t)
            u = path[:-len(name)] + a.path(rep, '%d.m4s' % nr)
            g = srv.get(u, t)
            oracle.judge_http(ctx, g)
            why = s2.reasons(k, t)
            wg = '%s at %r (k=%d, stop_k=%s): ' % (u, t, k, s.stop_k)
            ctx.judge((g.status == 200) == (not why), wg + 'expected %s, got %s' % (sorted(why) or '200', g.brief()), 'availability')
            ctx.count('segments')
            if g.status == 200:
                vnr, off = s2.vod(k)
                oracle.media(ctx, a, rep, oracle.vod_seg(a, rep, vnr), off, nr, g.body, lmsg=False, emsg=None, what=wg)
            else:
                ctx.judge(oracle.classify(g.text) in why, wg + 'reason %r' % g.text[:80], 'reason')
            ctx.shape('seg', o['_kind'], k < 0, s.stop is not None and k >= s.stop_k, tuple(sorted(why)))
