"""Every MPD (and remote Period) is valid: elements, their order, attributes and values are those of the DASH schema."""
import xml.etree.ElementTree as ET

from vlib import client, mpdcmp, mpdschema, oracle, pool
from vlib.model import S, url
from vlib.mpd import NS, Mpd

PLAN = {'quick': {'cases': 60000, 'wall': 240}, 'thorough': {'cases': 1500000, 'wall': 600}}
RULE = ('A case = one MPD with a random combination of all options (and a remote Period of it) for generated VoD MPDs with many optional elements; '
        'shape = set of options, elements present in the VoD MPD, static or dynamic, number of Periods.')
MIN = {'mpds': 2000, 'multi_period': 300, 'timelines': 150, 'low_latency': 150, 'remote': 60, 'static': 10}
ASSUMPTIONS = ['The VoD MPD is itself valid, and has one Period.']
NA = 80
PN = (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60)


def elements(root):
    return tuple(sorted({e.tag.replace(NS, '') for e in root.iter()}))


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any', version='1.1', rich=i % NA % 4 != 0, baseurl=[None, None, 'http://vod.example/x/'][i % NA % 3])
    sd = a.seg_dur
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now)
    s = S(a, o, now)
    ns = [n for n in PN if (3600 // n) % sd == 0]
    opts = []
    for what, p in ((['utc_direct'], .1), (['utc_head-direct-ntp-sntp-httpxsdate-httpiso'], .1), (['scte35_%d' % rng.choice([1, 2, 3])], .25),
                    (['spd_%d' % rng.choice([0, 4, 90])], .1), (['init_3'], .05), (['sidx_1'], .05), (['chunkdur_%s' % rng.choice(['0.5', '1', '0', '-1', 'x'])], .2),
                    (['peroff_%d' % rng.choice([0, 1, 5])], .15), (['insertad_0'], .03), (['sid_1', 'sts_3'], .05)):
        if rng.random() < p:
            opts += what
    xl = 0
    if ns and rng.random() < .5 and o['_kind'] in ('plain', 'start', 'tfdt') and s.media_at_ast % sd == 0:
        n = rng.choice(ns)
        opts.append('periods_%d' % n)
        if o.get('tsbd', a.tsbd) > (1000 if n > 6 else 20000):
            o['tsbd'] = 300
        div = [e for e in PN if n % e == 0]
        if rng.random() < .4:
            opts.append('continuous_%d' % rng.choice([1, 1, 0]))
        if rng.random() < .3:
            opts.append('etp_%d' % rng.choice(div))
            if rng.random() < .5:
                opts.append('etpDuration_%d' % rng.randrange(1, 3600 // n + 1))
        if rng.random() < .4:
            opts.append('mpdcallback_%d' % rng.choice(div))
        if rng.random() < .3:
            xl = rng.choice(div)
            opts.append('xlink_%d' % xl)
            if rng.random() < .5:
                opts.append('insertad_%d' % rng.randrange(6))
    st = False
    name = rng.choice(sorted(a.mpds))
    if rng.random() < .25 and client.fits(a):
        st = True
        name = rng.choice(['Manifest.mpd', 'av_single.mpd'])
        opts.append(rng.choice(['segtimeline_1', 'segtimelinenr_1']))
        if 'stop' in o and o['stop'] - o['start'] > 300 * sd:
            o['start'] = o['stop'] - rng.randrange(1, 300 * sd)
        if o.get('tsbd', a.tsbd) > 600:
            o['tsbd'] = 300
    if rng.random() < .15:
        opts += rng.choice([['baseurl_u20_d10'], ['baseurl_u40_d20', 'baseurl_d40_u20'], ['baseurl_u10_d5_u5', 'baseurl_d20_u10_d30']])
        if st and rng.random() < .6:
            opts = [x for x in opts if not x.startswith('baseurl')] + ['baseurl_u20_d10', 'segtimelineloss_1']
    p = url(a, o, name, rng, extra=opts)
    r = srv.get(p, now)
    oracle.judge_http(ctx, r)
    if r.status != 200:
        ctx.count('no_mpd')
        ctx.judge(r.status == 404 and 'local variable' not in r.text, '%s at %r: %s' % (p, now, r.brief()), 'not-served')
        return
    ctx.count('mpds')
    m = Mpd(r.text, 'http://%s%s' % (srv.host, p))
    w = '%s at %r: ' % (p, now)
    bad = mpdschema.check(m.root)
    ctx.judge(not bad, w + '; '.join(x[1] for x in bad[:4]), 'schema-' + (bad[0][0] if bad else ''))
    # the optional elements of the VoD MPD are all there, in the same order
    vod = ET.fromstring(a.mpd_text[name].encode('utf-8'))
    keep(ctx, w, vod, m.root, 'MPD')
    for pr in m.root.findall(NS + 'Period'):
        if not any(k.endswith('href') for k in pr.attrib):
            period(ctx, w, vod.find(NS + 'Period'), pr)
    many = len(m.periods) > 1
    ctx.count('multi_period', many)
    ctx.count('timelines', st)
    ctx.count('low_latency', any(x.startswith('chunkdur_') and x[9:] in ('0.5', '1') for x in opts))
    ctx.count('static', m.type == 'static')
    ctx.shape(tuple(sorted(x.split('_')[0] for x in opts)), elements(vod), m.type, many)
    if xl:
        base = m.baseurls[0][0]
        for pr in m.periods:
            if pr.xlink and pr.xlink.startswith(base):
                g = oracle.fetch_ok(ctx, srv, pr.xlink[len('http://' + srv.host):], now)
                q = ET.fromstring(g.text)
                ctx.count('remote')
                bad = mpdschema.check(q)
                ctx.judge(not bad and q.tag == NS + 'Period', w + pr.xlink + ': ' + '; '.join(x[1] for x in bad[:4]), 'schema-remote')
                period(ctx, w + pr.xlink + ': ', vod.find(NS + 'Period'), q)


def keep(ctx, w, old, new, what, skip=()):
    """the children of old are in new, in that order"""
    drop = {'BaseURL', 'Location', 'Period', 'AdaptationSet', 'SegmentTemplate'} | set(skip)
    a = [mpdcmp.canon(e) for e in old if e.tag.replace(NS, '') not in drop]
    b = iter([mpdcmp.canon(e) for e in new])
    for e in a:
        ctx.judge(any(e == x for x in b), w + 'the %s has lost %s' % (what, e), 'lost')


def period(ctx, w, old, new):
    keep(ctx, w, old, new, 'Period')
    x, y = old.findall(NS + 'AdaptationSet'), new.findall(NS + 'AdaptationSet')
    ctx.judge(len(x) == len(y), w + '%d AdaptationSets' % len(y), 'lost')
    for p, q in zip(x, y):
        keep(ctx, w, p, q, 'AdaptationSet')
