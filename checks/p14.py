"""Remote Periods: what xlink takes out of the MPD is exactly what the .period resource gives back."""
import xml.etree.ElementTree as ET

from vlib import mpdcmp, oracle, pool
from vlib.model import S, url
from vlib.mpd import NS, Mpd

PLAN = {'quick': {'cases': 31250, 'wall': 240}, 'thorough': {'cases': 781250, 'wall': 600}}
RULE = ('A case = one multi-period MPD requested with and without xlink (and ad insertion), all remote Periods fetched and put back; '
        'shape = periods, xlinks, insertad, segtimeline, number of listed Periods, several BaseURLs or attributes on them.')
MIN = {'links': 500, 'resolved': 266, 'ads': 100, 'not_available': 66, 'refused': 16}
NA = 40
PN = (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60)
XL = '{http://www.w3.org/1999/xlink}'
AD = {1: 'http://vm1.dashif.org/dynamicxlink/ad.php?id=6_ad', 2: 'http://vm1.dashif.org/dynamicxlink/ad.php?id=6_ad_twoperiods',
      3: 'http://vm1.dashif.org/dynamicxlink/ad.php?id=6_ad_twoperiods_withremote', 4: 'http://vm1.dashif.org/dynamicxlink/invalidurl.php',
      5: 'http://vm1.dashif.org/dynamicxlink/ad.php?id=6_ad'}
ASSET = ('urn:org:dashif:asset-id:2013', 'md:cid:EIDR:10.5240%2f0EFB-02CD-126E-8092-1E49-W')


def text(c):
    return (c[0], c[1], c[2], tuple(text(k) for k in c[3]))


def full(e, drop=()):
    return mpdcmp.canon(e, drop)


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any', version='1.1')
    ns = [n for n in PN if (3600 // n) % a.seg_dur == 0]
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, kinds=('plain', 'plain', 'start', 'tfdt'))
    s = S(a, o, now)
    if not ns or s.media_at_ast % a.seg_dur or s.now_int < s.ast:
        return
    n = rng.choice(ns)
    pd = 3600 // n
    if o.get('tsbd', a.tsbd) > 1000 and n > 6:
        o['tsbd'] = 300
    if o.get('tsbd', a.tsbd) > 20000:
        o['tsbd'] = 7200
    if rng.random() < .5 and 'tfdt' not in o:       # several Periods in the MPD
        o['tsbd'] = rng.choice([pd, 2 * pd, 3 * pd + 7])
        if o['tsbd'] > 20000:
            o['tsbd'] = 7200
    s = S(a, o, now)
    per = ['periods_%d' % n]
    if rng.random() < .25:
        per.append('continuous_1')
    if rng.random() < .25:
        per.append(rng.choice(['peroff_1', 'spd_3', 'utc_direct', 'scte35_1']))
    if rng.random() < .2 and o.get('tsbd', a.tsbd) < 4000 and o.get('ato', 0) == 0:
        per.append(rng.choice(['segtimeline_1', 'segtimelinenr_1']))
    if rng.random() < .2:
        per.append('mpdcallback_%d' % n)
    if rng.random() < .15:
        per += ['baseurl_u40_d20', 'baseurl_d40_u20']
    name = 'Manifest.mpd' if 'segtime' in ''.join(per) else rng.choice(sorted(a.mpds))
    x = rng.choice([e for e in PN if n % e == 0])
    if rng.random() < .06:
        bad = rng.choice([(['periods_%d' % n, 'xlink_%d' % (n * 2)] if n < 31 else ['periods_2', 'xlink_60']), ['xlink_2'],
                          ['periods_%d' % n, 'insertad_1'], ['periods_3', 'xlink_2']])
        p = url(a, o, name, rng, extra=bad)
        r = srv.get(p, now)
        oracle.judge_http(ctx, r)
        ctx.judge(r.status == 404, '%s at %r: %s' % (p, now, r.brief()), 'accepted')
        ctx.count('refused')
        return
    ad = rng.choice([None, None, 0, 1, 2, 3, 4, 5])
    st = rng.getrandbits(64)
    import random
    r1, r2 = random.Random(st), random.Random(st)
    # the same options in the same order apart from xlink/insertad
    opts = url(a, o, '', r1, extra=per)[:-1].split('/')          # ['', prefix, ..., name]
    xs = ['xlink_%d' % x] + (['insertad_%d' % ad] if ad is not None else [])
    r2.shuffle(xs)
    parts = opts[:]
    for e in xs:
        parts.insert(rng.randrange(2, len(parts)), e)
    pp, px = '/'.join(opts) + '/' + name, '/'.join(parts) + '/' + name
    rp = oracle.fetch_ok(ctx, srv, pp, now)
    rx = oracle.fetch_ok(ctx, srv, px, now)
    mp_, mx = Mpd(rp.text, 'http://%s%s' % (srv.host, pp)), Mpd(rx.text, 'http://%s%s' % (srv.host, px))
    w = '%s at %r: ' % (px, now)
    every = n // x
    pe = mp_.root.findall(NS + 'Period')
    xe = mx.root.findall(NS + 'Period')
    ctx.judge(len(pe) == len(xe), w + '%d Periods, %d without xlink' % (len(xe), len(pe)), 'periods')
    ctx.judge(mpdcmp.canon(mp_.root, (), ('Period', 'BaseURL')) == mpdcmp.canon(mx.root, (), ('Period', 'BaseURL')),
              w + 'MPD differs outside the Periods', 'outside')
    ctx.shape(n, x, ad, len(pe) if len(pe) < 5 else 5, tuple(k for k in per if k.startswith(('seg', 'base', 'mpd'))), 'ato' in o)
    ctx.sample({'url': px, 'now': now, 'periods': len(pe)})
    counter = 0
    bases = [b[0] for b in mx.baseurls]
    for j, (u, v) in enumerate(zip(pe, xe)):
        pid = u.get('id')
        nr = int(pid[1:])
        linked = nr % every == 0
        replaced = linked
        want_attr = {}
        if linked:
            counter += 1
            if (ad or 0) > 0 and counter == 1:
                replaced = False
        wp = '%s%s: ' % (w, pid)
        if not replaced:
            ctx.judge(v.get(XL + 'href') is None, wp + 'replaced', 'replaced')
            kids = [k for k in v if k.tag != NS + 'SegmentBase']
            c0 = full(u)
            if (ad or 0) > 0:
                ctx.judge(kids and kids[0].tag == NS + 'AssetIdentifier' and
                          (kids[0].get('schemeIdUri'), kids[0].get('value')) == ASSET, wp + 'no AssetIdentifier first', 'asset')
                v.remove(kids[0])
            # with ads the Period before a linked one gets a duration
            nxt = int(xe[j + 1].get('id', 'p-1')[1:]) if j + 1 < len(xe) and xe[j + 1].get('id') else nr + 1
            if (ad or 0) > 0 and j + 1 < len(pe) and int(pe[j + 1].get('id')[1:]) % every == 0:
                ctx.judge(v.get('duration') == 'PT%dS' % pd, wp + 'duration %s' % v.get('duration'), 'ad-duration')
                c0 = full(u, ('duration',))
                v.attrib.pop('duration')
            c1 = full(v)
            ctx.judge(c0 == c1, wp + 'changed: %s' % mpdcmp.diff(c0, c1), 'unlinked-changed')
            continue
        ctx.count('links')
        ctx.judge(v.get(XL + 'actuate') == 'onLoad', wp + 'actuate %s' % v.get(XL + 'actuate'), 'actuate')
        ctx.judge(set(v.attrib) == {XL + 'href', XL + 'actuate'}, wp + 'attributes %s' % v.attrib, 'attributes')
        href = v.get(XL + 'href')
        if (ad or 0) > 0:
            ctx.count('ads')
            ctx.judge(href == AD[ad], wp + 'href %s' % href, 'ad-href')
            if ad == 5:
                c0 = mpdcmp.canon(u, ('id', 'start', 'duration'))
                c1 = mpdcmp.canon(v, (XL + 'href', XL + 'actuate'))
                ctx.judge(c0 == c1, wp + 'default content changed: %s' % mpdcmp.diff(c0, c1), 'default-content')
            else:
                ctx.judge(len(v) == 0, wp + 'content beside the link', 'content')
            continue
        ctx.judge(len(v) == 0, wp + 'content beside the link', 'content')
        ctx.judge(href == bases[0] + name + '+' + pid + '.period', wp + 'href %s' % href, 'href')
        g = srv.get(href[len('http://' + srv.host):], now)
        oracle.judge_http(ctx, g)
        ctx.judge(g.status == 200, wp + '%s: %s' % (href, g.brief()), 'unresolved')
        ctx.count('resolved')
        try:
            q = ET.fromstring(g.text)
        except ET.ParseError as e:
            ctx.judge(False, wp + 'remote Period is not XML: %s %s' % (e, g.text[:200]), 'remote-xml')
        ctx.judge(q.tag == NS + 'Period', wp + 'remote element %s' % q.tag, 'remote-xml')
        # BaseURL-dependent mpdcallback data and everything else must be as without xlink
        c0, c1 = full(u), full(q)
        ctx.judge(c0 == c1, wp + 'remote Period differs: %s' % mpdcmp.diff(c0, c1), 'remote-differs')
    if not (ad or 0) and rng.random() < .5:
        ids = [int(e.get('id')[1:]) for e in pe]
        k = rng.choice([ids[-1] + 1, ids[-1] + rng.randrange(1, 50), max(0, ids[0] - 1), ids[0] * 10 + 1, ids[-1] * 10])
        if k not in ids:
            g = srv.get(px + '+p%d.period' % k, now)
            oracle.judge_http(ctx, g)
            ctx.judge(g.status == 404, w + 'Period p%d, which is not in the MPD: %s' % (k, g.brief()), 'stale')
            ctx.count('not_available')
        else:
            g = srv.get(px + '+p%d.period' % k, now)
            ctx.judge(g.status == 200 and 'id="p%d"' % k in g.text, w + 'p%d: %s' % (k, g.brief()), 'remote-differs')


__all__ = ['ET']
