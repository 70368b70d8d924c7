"""Low-latency MPDs (chunkdur) signal exactly the low-latency features, and availabilityTimeOffset what the server does."""
import copy
from fractions import Fraction as F

from vlib import client, mpdcmp, oracle, pool
from vlib.model import S, url
from vlib.mpd import NS, Mpd, dt

PLAN = {'quick': {'cases': 40000, 'wall': 240}, 'thorough': {'cases': 1000000, 'wall': 500}}
RULE = ('A case = one MPD with and without chunkdur, and requests around the first instant at which a segment is said to be available; '
        'shape = value of chunkdur and ato, session kind, periods/scte35/utc/continuous companions, number of sets.')
MIN = {'low_latency': 500, 'not_low_latency': 166, 'early_requests': 500, 'multi_period': 13, 'with_utc': 66, 'ato': 333, 'timelines': 60}
NA = 40
PROFILE = 'http://www.dashif.org/guidelines/low-latency-live-v5'


def strip(m, ll, utc):
    """the MPD without the low-latency signalling"""
    r = copy.deepcopy(m.root)
    for e in list(r):
        if e.tag == NS + 'ServiceDescription' and ll or e.tag == NS + 'UTCTiming' and utc:
            r.remove(e)
    for s in r.iter(NS + 'AdaptationSet'):
        for e in list(s):
            if e.tag == NS + 'ProducerReferenceTime':
                s.remove(e)
    for e in r.iter(NS + 'SegmentTemplate'):
        for k in ('availabilityTimeOffset', 'availabilityTimeComplete'):
            e.attrib.pop(k, None)
    r.attrib.pop('profiles')
    return mpdcmp.canon(r, (), ('BaseURL', 'Location'))


def case(ctx, i):
    rng = ctx.rng
    st = rng.random() < .12
    if st:
        a, srv = pool.asset(ctx, NA + i % 20, only='any', version='1.1')
        st = client.fits(a)
    else:
        a, srv = pool.asset(ctx, i % NA, only='any')
    sd = a.seg_dur
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now)
    if rng.random() < .5:
        o['ato'] = rng.choice([sd - 0.5, 0.5, sd, sd / 4, 'inf', 0, 1.25])
    if o.get('ato') not in (None, 'inf') and o['ato'] == int(o['ato']):
        o['ato'] = int(o['ato'])
    more = rng.choice([[], [], [], ['scte35_1'], ['spd_3'], ['init_5'], ['periods_60'], ['periods_60', 'continuous_1'], ['sidx_1'], ['peroff_1'],
                       ['periods_60', 'etp_60'], ['periods_60', 'etp_30', 'etpDuration_20'], ['periods_60', 'etp_60', 'etpDuration_20', 'continuous_1'],
                       ['periods_60', 'mpdcallback_30'], ['periods_60', 'etp_20', 'mpdcallback_60']])
    if st:
        more = rng.choice([['segtimeline_1'], ['segtimelinenr_1'], ['segtimeline_1', 'periods_60'], ['segtimelinenr_1', 'periods_60', 'continuous_1']])
        if 'stop' in o and o['stop'] - o['start'] > 300 * sd:     # the whole session is listed
            o['start'] = o['stop'] - rng.randrange(1, 300 * sd)
        if o.get('tsbd', a.tsbd) > 600:
            o['tsbd'] = 300
    if any(x.startswith('per') for x in more) and (60 % sd or o['_kind'] not in ('plain', 'start') or 'timeoffset' in o):
        more = more[:1] if st else []
    if 'periods_60' in more:
        o['tsbd'] = rng.choice([10, 60, 400])
    ums = rng.choice([[], [], [], ['utc_head'], ['utc_ntp-direct'], ['utc_httpiso']])
    v = rng.choice(['0.5', '1', '0.25', '%s' % sd, '2.0', '1e-1', '0.33', '%d' % (sd * 3)]) if rng.random() < .75 else \
        rng.choice(['0', '-1', '-0.5', 'x', '', '0.0', '1s', 'nan', '0.5.1'])
    try:
        ll = float(v) > 0
    except ValueError:
        ll = False
    name = rng.choice(['Manifest.mpd', 'av_single.mpd'] if st else sorted(a.mpds))
    if st:
        ctx.count('timelines')
    p, q = [url(a, o, name, None, extra=more + ums + x) for x in (['chunkdur_' + v], [])]
    r = g = None
    for z in rng.choice([(p, q), (q, p), (p, q, p), (q, p, q)]):
        r, g = (oracle.fetch_ok(ctx, srv, p, now), g) if z == p else (r, oracle.fetch_ok(ctx, srv, q, now))
    m, n = Mpd(r.text, 'http://h' + p), Mpd(g.text, 'http://h' + q)
    w = '%s at %r: ' % (p, now)
    already = Mpd(a.mpd_text[name]).profiles.count(PROFILE)
    s = S(a, o, now)
    ato = o.get('ato', 0)
    lab = 'INF' if ato == 'inf' else F(str(ato))
    num = lambda x: x if x in (None, 'INF') else F(x)        # noqa
    ctx.shape(v, str(ato), o['_kind'], tuple(more), tuple(ums), len(m.periods) > 1, len(m.periods[0].sets))
    if len(m.periods) > 1:
        ctx.count('multi_period')
    # normal MPD: the offset is in the BaseURL
    for x in [n] + ([] if ll else [m]):
        for _, b, c in x.baseurls:
            ctx.judge((num(b) or 0) == lab, w + 'availabilityTimeOffset %s of BaseURL in the normal MPD for %s' % (b, ato), 'ato')
            ctx.judge(c is None, w + 'availabilityTimeComplete=%s in a normal MPD' % c, 'ato')
        ctx.judge(not x.sd and x.profiles.count(PROFILE) == already, w + 'low-latency signalling without chunks', 'not-ll')
        for pr in x.periods:
            for z in pr.sets:
                ctx.judge(not z.prt and z.t.ato is None and z.t.atc is None, w + 'low-latency signalling without chunks', 'not-ll')
    d = mpdcmp.diff(strip(n, ll, not ums), strip(m, ll, not ums))
    ctx.judge(d is None, w + 'chunkdur changes %s' % d, 'rest')
    if ums:
        ctx.count('with_utc')
        ctx.judge([x.attrib for x in m.root.findall(NS + 'UTCTiming')] == [x.attrib for x in n.root.findall(NS + 'UTCTiming')],
                  w + 'UTCTiming %s, without chunks %s' % (m.utc, n.utc), 'utc')
    if ato:
        ctx.count('ato')
    if not ll:
        ctx.count('not_low_latency')
        ctx.judge(m.utc == n.utc and m.profiles == n.profiles, w + 'low-latency signalling without chunks', 'not-ll')
    else:
        ctx.count('low_latency')
        ctx.judge(m.profiles == n.profiles + [PROFILE] * (not already), w + 'profiles %s' % m.profiles, 'profile')
        for _, b, c in m.baseurls:
            ctx.judge(b is None and c is None, w + 'BaseURL has availabilityTimeOffset %s, Complete %s' % (b, c), 'baseurl')
        ctx.judge(len(m.sd) == 1 and m.order.index('ServiceDescription') < m.order.index('Period') and
                  all(m.order.index('ServiceDescription') > j for j, x in enumerate(m.order) if x in ('BaseURL', 'Location', 'ProgramInformation')),
                  w + 'children %s' % m.order, 'service-description')
        e = m.sd[0]
        lat, rate = e.findall(NS + 'Latency'), e.findall(NS + 'PlaybackRate')
        ctx.judge(len(lat) == 1 and len(rate) == 1 and len(e) == 2 and e.get('id') == '0', w + 'ServiceDescription', 'service-description')
        ctx.judge(lat[0].attrib == {'min': '2000', 'max': '6000', 'target': '4000', 'referenceId': '0'} and
                  rate[0].attrib == {'min': '0.96', 'max': '1.04'}, w + 'ServiceDescription %s %s' % (lat[0].attrib, rate[0].attrib), 'service-description')
        for pr in m.periods:
            for z in pr.sets:
                ctx.judge(num(z.t.ato) == lab and z.t.atc == 'false', w + 'SegmentTemplate availabilityTimeOffset %s, Complete %s for ato %s' % (
                    z.t.ato, z.t.atc, ato), 'template')
                ctx.judge(len(z.prt) == 1, w + '%d ProducerReferenceTimes' % len(z.prt), 'prt')
                t = z.prt[0]
                ctx.judge(t.get('id') == '0' and t.get('type') == 'encoder' and t.get('presentationTime') == '0', w + 'ProducerReferenceTime %s' % t.attrib, 'prt')
                # media time 0 is made at that time: the first segment, whose media starts at media_at_ast, starts at the AST
                ctx.judge(dt(t.get('wallClockTime')) + s.media_at_ast == s.ast, w + 'ProducerReferenceTime %s, but at AST %d the media time is %d' % (
                    t.attrib, s.ast, s.media_at_ast), 'prt-time')
                u = t.findall(NS + 'UTCTiming')
                ctx.judge(len(u) == 1 and len(t) == 1 and u[0].get('schemeIdUri') == 'urn:mpeg:dash:utc:http-iso:2014', w + 'ProducerReferenceTime source', 'prt')
        if not ums:
            ctx.judge([x for x, _ in m.utc] == ['urn:mpeg:dash:utc:http-iso:2014'], w + 'UTCTiming %s' % m.utc, 'utc')
    # the offset is what the server does
    if st or lab == 'INF' or o['_kind'] in ('rel', 'tfdt', 'modulo') or len(m.periods) > 1 or 'timeoffset' in o:
        return
    k = s.last_avail(now) + rng.choice([0, 0, 1, -1])
    if k < 0 or s.nr(k) < 0:
        return
    rep = rng.choice([x for x in a.order if x.ctype != 'image' and not (ll and x.opt.get('cenc'))] or [None])
    if rep is None:
        return
    said = num(m.periods[0].sets[0].t.ato if ll else m.baseurls[0][1] if m.baseurls else None) or 0
    t0 = m.ast + (k + 1) * sd - said
    if F(t0).denominator > 64 or t0 < 1:
        return
    u = url(a, o, a.path(rep, '%d.m4s' % s.nr(k)), rng, extra=[x for x in more if not x.startswith('per')] + ['chunkdur_' + v])
    for t, early in ((t0, False), (t0 - F(1, 64), True)):
        s2 = S(a, o, t)
        why = s2.reasons(k, t)
        x = srv.get(u, float(t))
        oracle.judge_http(ctx, x)
        ctx.count('early_requests')
        ctx.judge(early == ('early' in why), w + 'harness', 'harness')
        ctx.judge((x.status == 200) == (not why), '%s at %s, available from %s according to the MPD, but %s' % (u, float(t), float(t0), x.brief()), 'said')
