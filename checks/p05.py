"""The live MPD says what the URL options ask for and keeps the rest of the VoD MPD."""
from vlib import mpdcmp, oracle, pool
from vlib.model import S, url
from vlib.mpd import Mpd

PLAN = {'quick': {'cases': 75000, 'wall': 240}, 'thorough': {'cases': 1875000, 'wall': 600}}
RULE = ('A case = one MPD of a generated content requested with random options at a random time; '
        'shape = session kind, set of options, MPD variant, static/dynamic.')
MIN = {'mpds': 1333, 'static': 16}
NA = 60
ORDER = ['ProgramInformation', 'BaseURL', 'Location', 'ServiceDescription', 'Period', 'Metrics', 'UTCTiming']


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any', baseurl=[None, None, 'http://vod.example/x/'][i % NA % 3])
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, long=True)
    if rng.random() < .2 and 'start' in o and 'dur' not in o:
        o['mup'] = rng.choice([1, 59, 3600, 86400, 90000, 3601])
    if rng.random() < .2:
        o['tsbd'] = rng.choice([86400, 172800, 90061, 3600])
    spd = rng.choice([None, None, 0, 4, 30, 90])
    extra = [] if spd is None else ['spd_%d' % spd]
    extra += rng.choice([[], [], [], ['init_3'], ['sid_1', 'sts_3'], ['sidx_1'], ['insertad_0'], ['continuous_0'], ['segtimeline_0']])
    if rng.random() < .15:
        extra += ['baseurl_' + rng.choice(['u20_d10', 'd10_u50', 'u3_d1', 'u60_d1', 'd59_u1', 'u10_d20']) for _ in range(rng.choice([1, 2, 3, 5]))]
        extra += pool.neutral(rng, .5)[:1] if spd is None and len(extra) < 4 else []
        extra = [x for x in extra if x.split('_')[0] not in ('segtimeline', 'segtimelinenr', 'periods', 'etp', 'etpDuration', 'utc', 'continuous', 'peroff', 'spd')]
        spd = None
    name = rng.choice(sorted(a.mpds))
    https = rng.random() < .2
    prefix = rng.choice(['livesim', 'dash', 'livesim-dev'])
    srv.host = rng.choice(['sim.example:8080', 'sim.example', '10.0.0.7:8059', 'ns0:8080', 'cdn-dns0.example', '[::1]:8059'])
    p = url(a, o, name, rng, extra=extra, prefix=prefix)
    r = oracle.fetch_ok(ctx, srv, p, now, https=https)
    ctx.count('mpds')
    s = S(a, o, now)
    m = Mpd(r.text, ('https' if https else 'http') + '://' + srv.host + p)
    w = '%s at %r: ' % (p, now)

    def eq(what, got, want):
        ctx.judge(got == want, w + '%s is %s, expected %s' % (what, got, want), what)
    ctx.judge(r.header('Content-Type') == 'application/dash+xml', w + 'content type %s' % r.header('Content-Type'), 'mime')
    static = s.stop is not None and s.now_int > s.stop
    if static:
        ctx.count('static')
    eq('type', m.type, 'static' if static else 'dynamic')
    eq('availabilityStartTime', m.ast, s.ast)
    eq('availabilityEndTime', m.aet, s.aet)
    eq('mediaPresentationDuration', m.mpdur, s.mpdur)
    eq('publishTime', m.publish, s.now_int)
    if static:
        eq('minimumUpdatePeriod', m.mup_raw, None)
    elif s.mup is None:
        eq('minimumUpdatePeriod', m.mup_raw, 'P100Y')
    else:
        eq('minimumUpdatePeriod', m.mup, int(s.mup))
    eq('timeShiftBufferDepth', m.tsbd, None if s.mpdur is not None else s.tsbd)
    eq('maxSegmentDuration', m.maxseg, a.seg_dur)
    eq('suggestedPresentationDelay', m.spd, spd)
    rel = o['_kind'] == 'rel'
    base = '%s://%s%s' % ('https' if https else 'http', srv.host, p[:-len(name)])
    specs = [x for x in p.split('/') if x.startswith('baseurl_')]
    if specs and not rel:
        ctx.count('several_baseurls')
        first = [x for x in p[1:-len(name) - 1].split('/') if x not in specs]
        for b, x in zip(m.baseurls, specs):
            parts = b[0].split('/')
            ctx.judge(parts[:4] == base.split('/')[:4] and parts[-1] == '' and parts[-2] == a.name and sorted(parts[3:-1]) == sorted(first + [x]) and
                      [y for y in parts[3:-1] if y != x] == first and b[1:] == m.baseurls[0][1:], w + 'BaseURL %s (for %s)' % (b, x), 'BaseURL')
        eq('BaseURLs', len(m.baseurls), len(specs))
    else:
        eq('BaseURL', [b[0] for b in m.baseurls], [] if rel else [base])
    if not rel:
        ato = o.get('ato', 0)
        got = m.baseurls[0][1]
        if ato == 'inf':
            eq('availabilityTimeOffset', got, 'INF')
        elif not ato:
            eq('availabilityTimeOffset', got, None)
        else:
            ctx.judge(got is not None and abs(float(got) - float(ato)) < 1e-6, w + 'ato %s' % got, 'availabilityTimeOffset')
        eq('availabilityTimeComplete', m.baseurls[0][2], None)
    eq('UTCTiming', len(m.utc), 0)
    eq('ServiceDescription', len(m.sd), 0)
    eq('Periods', [(q.id, q.start, q.duration) for q in m.periods], [('p0', 0, None)])
    eq('order', m.order, sorted(m.order, key=ORDER.index))
    for st in m.periods[0].sets:
        t = st.t
        eq('startNumber', t.start_number, s.first_nr)
        ctx.judge(t.has_start_number or o.get('snr') == -1, w + 'no startNumber', 'startNumber')
        eq('presentationTimeOffset', t.pto, s.media_at_ast * t.timescale)
    d = mpdcmp.preserved(a.mpd_text[name], m)
    ctx.judge(d is None, w + 'VoD MPD not preserved: %s' % d, 'preserved')
    ctx.shape(o['_kind'], tuple(sorted(k for k in o)), name, static, spd is None, https, s.mup is None)
    if rng.random() < .1:
        r2 = srv.get(p, now // 1 + .75, https=https)
        ctx.judge(r2.body == r.body, w + 'another MPD within the same second', 'unstable')
