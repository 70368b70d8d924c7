"""Subtitle segments: cue times and texts follow the live timeline, and nothing else in the document changes."""
import re
import time
import xml.etree.ElementTree as ET
from datetime import datetime, timedelta

from vlib import isobmff as mp4
from vlib import oracle, pool
from vlib.model import S, url

PLAN = {'quick': {'cases': 35000, 'wall': 240}, 'thorough': {'cases': 875000, 'wall': 600}}
RULE = ('A case = a few subtitle segments of a generated content (ends of loops, newest, oldest, random) parsed as XML and compared cue by cue '
        'with the VoD document; shape = kind, offset magnitude, number of cues, fraction/language/number text present, sidx, timescale.')
MIN = {'segments': 2000, 'cues': 3333, 'utc_texts': 1000, 'numbers': 1000}
NA = 40
T = re.compile(r'^(\d\d+):(\d\d):(\d\d)(\.\d+)?$')
EPOCH = datetime(1970, 1, 1)
NS = '{http://www.w3.org/ns/ttml}'


def ms(x):
    m = T.match(x)
    if not m or int(m.group(2)) > 59 or int(m.group(3)) > 59:
        return None
    return (int(m.group(1)) * 3600 + int(m.group(2)) * 60 + int(m.group(3))) * 1000 + (round(float('0' + m.group(4)) * 1000) if m.group(4) else 0)


def iso(sec):
    d = EPOCH + timedelta(seconds=sec)
    return '%04d-%02d-%02dT%02d:%02d:%02dZ' % (d.year, d.month, d.day, d.hour, d.minute, d.second)


BEG = re.compile(rb'(begin|end)="[^"]*"')
NUM = re.compile(rb'Segment # \d+')
LANG = re.compile(rb'(\w+) : (UTC = [-0-9T:]+Z|\d\d:\d\d:\d\d(\.\d+)?)')


def mask(doc):
    return LANG.sub(rb'\1 : LL', NUM.sub(b'NN', BEG.sub(rb'\1=X', doc)))


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, subs=True, free=True)
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now)
    s = S(a, o, now)
    if s.ato is None:
        base = int(now - s.ast) // a.seg_dur
    else:
        base = s.last_avail(now)
    ks = {base, base - 1, base - rng.randrange(0, 30), base // a.n * a.n, base // a.n * a.n - 1, 0}
    if s.stop is not None:
        ks.add(s.stop_k - 1)
    if s.last_k is not None:
        ks.add(s.last_k)
    extra = rng.choice([[], [], ['sidx_1'], ['scte35_2'], ['periods_60'], ['utc_direct']])
    for k in sorted(ks):
        if s.reasons(k, now) or s.nr(k) < 0 or s.nr(k) >= 2 ** 32:
            continue
        rep = rng.choice(a.by_type('subtitles'))
        vnr, off = s.vod(k)
        src = oracle.vod_seg(a, rep, vnr)
        u = url(a, o, a.path(rep, '%d.m4s' % s.nr(k)), rng, extra=extra)
        r = oracle.fetch_ok(ctx, srv, u, now)
        w = '%s at %r (VoD %d, offset %d): ' % (u, now, vnr, off)
        res = oracle.media(ctx, a, rep, src, off, s.nr(k), r.body, lmsg=None, sidx='sidx_1' in extra, what=w)
        ctx.count('segments')
        doc = [b for b in res['boxes'] if b.type == b'mdat'][0].body
        vod = [b for b in mp4.parse(src.data) if b.type == b'mdat'][0].body
        ctx.judge(mask(doc) == mask(vod), w + 'document changed beyond times and numbers', 'document')
        try:
            root = ET.fromstring(doc)
        except ET.ParseError as e:
            ctx.judge(False, w + 'not XML: %s' % e, 'xml')
        ps = root.findall('.//' + NS + 'p')
        cues = src.extra['cues']
        ctx.judge(len(ps) == len(cues), w + '%d cues of %d' % (len(ps), len(cues)), 'document')
        lo, hi = (s.media_time(k)) * 1000, (s.media_time(k) + s.sd) * 1000
        for p, c in zip(ps, cues):
            ctx.count('cues')
            b, e = ms(p.get('begin')), ms(p.get('end'))
            ctx.judge(b == c['b'] + off * 1000 and e == c['e'] + off * 1000, w + 'cue %s..%s, VoD %d..%d ms' % (
                p.get('begin'), p.get('end'), c['b'], c['e']), 'times')
            ctx.judge(lo <= b < e and e <= hi, w + 'cue %s..%s outside the segment %d..%d' % (b, e, lo, hi), 'outside')
            ctx.judge(bool(T.match(p.get('begin')).group(4)) == c['frac'], w + 'fraction in %s' % p.get('begin'), 'times')
            txt = ''.join(p.itertext())
            if c['langs']:
                ctx.count('utc_texts', len(c['langs']))
                want = ['%s : UTC = %s' % (x, iso(c['b'] // 1000 + off)) for x in c['langs']]
                got = [x.strip() for x in p.itertext() if ' : ' in x]
                ctx.judge(got == want, w + 'text %r, expected %r' % (txt, want), 'utc-text')
            if c['segs']:
                ctx.count('numbers', c['segs'])
                ctx.judge(re.findall(r'Segment # (\d+)', txt) == [str(s.nr(k))] * c['segs'], w + 'text %r for number %d' % (txt, s.nr(k)), 'number')
        ctx.shape(o['_kind'], len(str(off)), len(cues), cues[0]['frac'], len(cues[0]['langs']), cues[0]['segs'], tuple(extra), rep.timescale)


__all__ = ['time']
