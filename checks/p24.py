"""UTCTiming: exactly the methods asked for, in that order, after the Periods; nothing else changes."""
import re

from vlib import oracle, pool
from vlib.model import S, url
from vlib.mpd import Mpd, dt

PLAN = {'quick': {'cases': 62500, 'wall': 240}, 'thorough': {'cases': 1562500, 'wall': 500}}
RULE = ('A case = one MPD with a list of timing methods (ordered, repeated, unknown ones too), with and without other features, compared with the '
        'same MPD without them; shape = list of methods, companions, session kind, scheme.')
MIN = {'mpds': 833, 'refused': 83, 'direct': 200, 'multi_period': 66}
NA = 40
METHODS = {'direct': 'urn:mpeg:dash:utc:direct:2014', 'head': 'urn:mpeg:dash:utc:http-head:2014', 'ntp': 'urn:mpeg:dash:utc:ntp:2014',
           'sntp': 'urn:mpeg:dash:utc:sntp:2014', 'httpxsdate': 'urn:mpeg:dash:utc:http-xsdate:2014', 'httpiso': 'urn:mpeg:dash:utc:http-iso:2014'}
VALUE = {'ntp': '1.de.pool.ntp.org', 'sntp': 'time.kfki.hu', 'httpxsdate': 'http://time.akamai.com/?iso', 'httpiso': 'http://time.akamai.com/?iso'}


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA)
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now)
    more = rng.choice([[], [], [], ['periods_10'], ['periods_60', 'continuous_1'], ['scte35_1'], ['peroff_1'], ['chunkdur_0.5'], ['spd_3'],
                       ['segtimelinenr_1'], ['baseurl_u10_d20', 'baseurl_d10_u20'],
                       ['segtimeline_1', 'segtimelineloss_1', rng.choice(['baseurl_u10_d50', 'baseurl_u20_d10', 'baseurl_u5_d55'])]])
    tl = any(x.startswith('segtimeline') for x in more)
    if any(x.startswith('periods') for x in more):
        o = {'_kind': 'plain', 'tsbd': rng.choice([10, 60, 500])}
    if tl and (a.version != '1.1' or o['_kind'] not in ('plain', 'start')):
        more, tl = [], False
    pool.bounded(o, more, a)
    ms = [rng.choice(sorted(METHODS)) for _ in range(rng.choice([1, 1, 2, 2, 3, 6]))]
    if rng.random() < .3:
        ms = rng.sample(sorted(METHODS), rng.randrange(1, 7))
    bad = rng.random() < .12
    if bad:
        ms.insert(rng.randrange(len(ms) + 1), rng.choice(['', 'HEAD', 'Direct', 'gps', 'ntp1', 'keep', 'http', 'iso', 'xsdate', 'none']))
    name = rng.choice([n for n in sorted(a.mpds) if not tl or n in ('Manifest.mpd', 'av_single.mpd')])
    https = rng.random() < .3
    srv.host = rng.choice(['sim.example:8080', 'sim.example', '10.0.0.7:8059'])
    p = url(a, o, name, rng, extra=more + ['utc_' + '-'.join(ms)])
    w = '%s at %r: ' % (p, now)
    if rng.random() < .1:                                    # which adds a default source to its own MPD only
        srv.get(url(a, {}, name, extra=['chunkdur_0.5']), now)
        ctx.count('after_low_latency')
    r = srv.get(p, now, https=https)
    oracle.judge_http(ctx, r)
    ctx.shape(tuple(ms), tuple(x.split('_')[0] for x in more), o['_kind'], https)
    if bad:
        ctx.judge(r.status == 404 and len(r.body) > 3, w + 'unknown method in %s, but %s' % (ms, r.brief()), 'unknown')
        ctx.count('refused')
        return
    ctx.judge(r.status == 200, w + r.brief(), 'status')
    ctx.count('mpds')
    m = Mpd(r.text)
    want = []
    for x in ms:
        v = VALUE.get(x)
        if x == 'head':
            v = '%s://%s/dash/time.txt' % ('https' if https else 'http', srv.host)
        if x == 'direct':
            v = None
        want.append((METHODS[x], v))
    ctx.judge([x for x, _ in m.utc] == [x for x, _ in want], w + 'UTCTiming %s for %s' % (m.utc, ms), 'methods')
    for (sch, v), (_, e) in zip(m.utc, want):
        if e is None:
            ctx.count('direct')
            ctx.judge(v.endswith('Z') and dt(v) == S(a, o, now).now_int, w + 'direct time %s' % v, 'direct')
        else:
            ctx.judge(v == e, w + '%s has the value %s' % (sch, v), 'value')
    ctx.judge(m.order[-len(ms):] == ['UTCTiming'] * len(ms) and m.order.count('UTCTiming') == len(ms), w + 'children %s' % m.order, 'place')
    if len(m.periods) > 1:
        ctx.count('multi_period')
    if 'segtimelineloss_1' in more:
        ctx.count('losses')
    # everything else is as it was
    q = p.replace('/utc_' + '-'.join(ms), '')
    if not any(x.startswith('chunkdur') for x in more):
        r2 = oracle.fetch_ok(ctx, srv, q, now, https=https)
        x = re.sub(r'<UTCTiming [^>]*/>\s*', '', r.text).replace('/utc_' + '-'.join(ms), '')
        ctx.judge(re.sub(r'\s+', '', x) == re.sub(r'\s+', '', r2.text), w + 'the rest of the MPD changed with utc_', 'rest')
