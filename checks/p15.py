"""SCTE-35: every promised ad break is announced, at the right time, in video segments only, and the MPD says so."""
import re

from vlib import isobmff as mp4
from vlib import mpdcmp, oracle, pool
from vlib.model import S, url
from vlib.mpd import Mpd

PLAN = {'quick': {'cases': 6750, 'wall': 240}, 'thorough': {'cases': 168750, 'wall': 600}}
RULE = ('A case = all video segments over more than a minute of one session with scte35_n (plus audio/subtitle segments and the MPD); '
        'every emsg is parsed and every splice of the schedule looked for; shape = n, segment duration, styp or not, kind, phase, emsg found.')
MIN = {'segments': 3333, 'emsgs': 666, 'later_ids': 200, 'splices': 266, 'mpds': 133, 'others': 266}
NA = 50
SCHEME = 'urn:scte:scte35:2013:xml'
PROFILE = 'http://dashif.org/guidelines/adin/app'
PLANS = {1: [10], 2: [10, 40], 3: [10, 36, 46], 4: [10], 5: [10], 6: [10], 7: [10], 8: [10, 30]}


def xml(data):
    t = data.decode('utf-8')
    g = {}
    for k in ('spliceEventId', 'ptsTime', 'ptsAdjustment', 'duration', 'autoReturn', 'spliceImmediateFlag', 'spliceEventCancelIndicator'):
        m = re.findall(r'\b%s="([^"]*)"' % k, t)
        g[k] = m[0] if len(m) == 1 else m
    return t, g


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, free=True)
    sd = a.seg_dur
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, kinds=('plain', 'plain', 'start', 'stop', 'tfdt'))
    o.pop('ato', None)
    span = rng.choice([70, 130])
    if 'start' in o:
        o['start'] = max(0, int(now) - span - rng.randrange(0, 300))
        o.pop('timeoffset', None)
    if 'stop' in o:
        o['stop'] = max(o['start'] + 1, int(now) + rng.randrange(-30, 500))
    else:
        o['tsbd'] = span + 60
    n = rng.choice([1, 1, 2, 2, 3, 3, 8, 8, 4, 7, 0, 9, -1, 60])
    s = S(a, o, now)
    if s.media_at_ast % sd:
        return
    plan = PLANS.get(n, [])
    adur = 20 if n == 8 else 10
    extra = ['scte35_%d' % n] + rng.choice([[], [], ['sidx_1'], ['periods_60'] if 60 % sd == 0 and 'stop' not in o else []])
    # MPD
    name = rng.choice(sorted(a.mpds))
    p = url(a, o, name, rng, extra=extra)
    r = oracle.fetch_ok(ctx, srv, p, now)
    m = Mpd(r.text, 'http://h' + p)
    w = '%s at %r: ' % (p, now)
    ctx.count('mpds')
    want = [(SCHEME, '999')]
    for per in m.periods:
        for st in per.sets:
            exp = want if n > 0 and st.ctype == 'video' else []
            ctx.judge(st.inband == exp, w + '%s set has InbandEventStreams %s' % (st.ctype, st.inband), 'inband')
    vod = Mpd(a.mpd_text[name])
    ctx.judge(m.profiles == vod.profiles + ([PROFILE] if n > 0 and PROFILE not in vod.profiles else []), w + 'profiles %s' % m.profiles, 'profiles')
    d = mpdcmp.preserved(a.mpd_text[name], m, profiles=False, setkids=('InbandEventStream',))
    ctx.judge(d is None, w + 'VoD MPD not preserved: %s' % d, 'preserved')
    # segments
    last = s.last_avail(now)
    if s.stop is not None:
        last = min(last, s.stop_k - 1)
    ks = range(max(0, last - span // sd), last + 1)
    rep = rng.choice(a.by_type('video'))
    seen = {}
    for k in ks:
        if s.reasons(k, now):
            continue
        u = url(a, o, a.path(rep, '%d.m4s' % s.nr(k)), rng, extra=extra)
        g = oracle.fetch_ok(ctx, srv, u, now)
        ctx.count('segments')
        t = s.media_time(k)
        vnr, off = s.vod(k)
        w = '%s at %r (media time %d): ' % (u, now, t)
        res = oracle.media(ctx, a, rep, oracle.vod_seg(a, rep, vnr), off, s.nr(k), g.body, emsg=None, sidx='sidx_1' in extra, what=w)
        exp = []
        for x in plan:
            for sp in (t // 60 * 60 + x, t // 60 * 60 + 60 + x):
                if t <= sp - 8 <= t + sd or t <= sp - 6 <= t + sd:
                    exp.append(sp)
        exp = sorted(exp)[:1]       # one message per segment
        es = res['emsgs']
        ctx.judge(len(es) == len(exp), w + '%d emsg boxes, expected splices %s' % (len(es), exp), 'which-segments')
        types = [b.type for b in res['boxes']]
        for e in es:
            ctx.count('emsgs')
            sp = exp[0]
            ctx.judge((e.scheme, e.value) == (SCHEME, '999'), w + 'emsg %s' % (e[:2],), 'scheme')
            ctx.judge(e.timescale == 90000, w + 'timescale %d' % e.timescale, 'emsg-time')
            ctx.judge(e.delta == (sp - t) * 90000, w + 'delta %d ticks, expected %d s' % (e.delta, sp - t), 'emsg-time')
            ctx.judge(e.dur == adur * 90000, w + 'duration %d' % e.dur, 'emsg-duration')
            txt, x = xml(e.data)
            ctx.judge(x['spliceEventId'] == str(e.id), w + 'spliceEventId %s, emsg id %d' % (x['spliceEventId'], e.id), 'splice-id')
            ctx.judge(x['ptsTime'] == str(sp * 90000 % 2 ** 33), w + 'ptsTime %s for splice at %d' % (x['ptsTime'], sp), 'pts')
            ctx.judge(x['duration'] == str(adur * 90000), w + 'BreakDuration %s' % x['duration'], 'emsg-duration')
            ctx.judge(x['spliceEventCancelIndicator'] == 'false' and x['spliceImmediateFlag'] == 'false', w + txt, 'flags')
            ctx.judge(seen.setdefault(sp, e.id) == e.id, w + 'splice at %d has ids %d and %d' % (sp, seen[sp], e.id), 'splice-id')
        if es and b'styp' in types:
            ctx.judge(types.index(b'emsg') == types.index(b'styp') + 1, w + 'boxes %s' % types, 'position')
        ctx.shape(n, sd, rep.opt['styp'] == 0, o['_kind'], t % 60, len(es))
    for later in rng.sample([600, 3600, 7200, 21600, 86400, 86400 * 7, 86400 * 30], 2) if o['_kind'] in ('plain', 'start') and seen and n != 3 else ():
        for k in range(max(0, s.last_avail(now + later) - 60 // sd), s.last_avail(now + later)):    # another hour or day
            if s.reasons(k, now + later) or not any((s.media_time(k) - sp) % 60 < sd for x in plan for sp in (x - 8, x - 6)):
                continue
            u = url(a, o, a.path(rep, '%d.m4s' % s.nr(k)), None, extra=extra)
            g = oracle.fetch_ok(ctx, srv, u, now + later)
            for e in [mp4.emsg(b) for b in mp4.parse(g.body) if b.type == b'emsg']:
                sp = s.media_time(k) + e.delta // 90000
                ctx.count('later_ids')
                ctx.judge(seen.setdefault(sp, e.id) == e.id, '%s: splice at %d has ids %d and %d' % (u, sp, seen[sp], e.id), 'splice-id')
    ctx.judge(len(set(seen.values())) == len(seen), '%s: splice ids are not unique: %s' % (url(a, o, '', extra=extra), seen), 'splice-id')
    got = [k for k in ks if not s.reasons(k, now)]
    if got and plan:
        lo, hi = s.media_time(got[0]), s.media_time(got[-1]) + sd
        for mn in range(lo // 60, hi // 60 + 1):
            for x in plan:
                sp = mn * 60 + x
                if lo <= sp - 8 and sp - 6 <= hi and (n != 3 or sd <= 8):
                    ctx.count('splices')
                    ctx.judge(sp in seen, '%s at %r: splice at media time %d never announced' % (url(a, o, '', extra=extra), now, sp), 'missing')
    # nothing elsewhere
    for rep in [r for r in a.order if r.ctype in ('audio', 'subtitles')]:
        for k in rng.sample(got, min(3, len(got))):
            u = url(a, o, a.path(rep, '%d.m4s' % s.nr(k)), rng, extra=extra)
            g = oracle.fetch_ok(ctx, srv, u, now)
            ctx.judge(not [b for b in mp4.parse(g.body) if b.type == b'emsg'], u + ': emsg in %s' % rep.ctype, 'not-video')
            ctx.count('others')
