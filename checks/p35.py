"""A player that only follows the MPD, with any combination of options, plays without errors, gaps or repeats."""
import xml.etree.ElementTree as ET
from fractions import Fraction as F
from urllib.parse import urlparse

from vlib import client, isobmff as mp4, oracle, pool, vclock
from vlib.model import S, url
from vlib.mpd import NS, Mpd, Period, expand, path_of

PLAN = {'quick': {'cases': 3600, 'wall': 240}, 'thorough': {'cases': 120000, 'wall': 600}}
RULE = ('A case = one player session: MPD polled when it is due, Location, remote Periods and BaseURLs followed, Representations switched at random, '
        'segments fetched from their availability on, over Period borders, loops, MPD updates and up to the end; '
        'shape = set of options, kind, number form, Periods seen, MPDs fetched, how it ended.')
MIN = {'sessions': 800, 'segments': 20000, 'updates': 1000, 'period_changes': 300, 'switches': 3000, 'ended': 60, 'remote_periods': 40, 'failovers': 30,
       'loops': 1000, 'chunked': 1000, 'by_time': 1000}
ASSUMPTIONS = ['Periods that end early (etpDuration) leave the announced gap; the player continues with the next Period.']
NA = 60
PN = (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60)


class End(Exception):
    pass


class Seg:
    """one announced segment; t = nominal or exact wall-clock at which its media starts"""
    __slots__ = ('t', 'd', 'avail', 'urls', 'tr', 'nr', 'j', 'st', 'rid')


class Player:
    def __init__(self, ctx, rng, a, srv, p, now, w):
        self.ctx, self.rng, self.a, self.srv, self.now, self.w = ctx, rng, a, srv, F(now), w
        self.url = 'http://%s%s' % (srv.host, p)
        self.m = None
        self.inits = set()
        self.mpds = 0
        self.periods = set()
        self.restarts = False

    def get(self, path, key='not-served', must=True):
        r = self.srv.get(path, float(self.now))
        oracle.judge_http(self.ctx, r)
        if must:
            self.ctx.judge(r.status == 200, '%s%s at %r: %s' % (self.w, path, float(self.now), r.brief()), key)
        self.now = max(self.now, F(vclock.CLOCK.now))       # chunks may have taken time
        return r

    def update(self):
        r = self.get(urlparse(self.url).path)
        m = Mpd(r.text, self.url)
        if m.location:
            m.url = self.url = m.location[0]
        for i, per in enumerate(m.periods):
            if per.xlink:
                g = self.get(urlparse(per.xlink).path)
                e = Period(ET.fromstring(g.text))
                self.ctx.judge(e.id == per.id or per.id is None, self.w + 'remote Period %s for %s' % (e.id, per.id), 'remote')
                if e.start is None:
                    e.start = per.start
                m.periods[i] = e
                self.ctx.count('remote_periods')
        self.m, self.fetched = m, self.now
        self.mpds += 1

    def due(self):
        return self.m.mup is not None and self.now >= self.fetched + self.m.mup

    def segments(self, ctype, pos):
        """The announced segments of ctype whose media starts at pos or up to half a segment around it, and the first one after it."""
        m, out = self.m, []
        for i, per in enumerate(m.periods):
            ends = [x for x in (m.periods[i + 1].start if i + 1 < len(m.periods) else m.mpdur,
                                per.start + per.duration if per.duration is not None else None) if x is not None]
            end = min(ends) if ends else None
            for st in per.sets:
                if st.ctype != ctype:
                    continue
                tr = client.Track(m, per, st)
                base = m.ast + per.start
                if st.t.timeline is not None:
                    for j, (t, d) in enumerate(st.t.entries()):
                        s = Seg()
                        s.t, s.d = base + F(t, st.t.timescale) - tr.pto, F(d, st.t.timescale)
                        if end is not None and s.t >= m.ast + end:
                            self.ctx.judge(m.mpdur is not None and end == m.mpdur, '%s%s: Period %s ends at %s, but the segment at %s is listed' % (
                                self.w, ctype, per.id, float(end), float(s.t - m.ast)), 'after-period')
                            continue
                        s.avail, s.nr, s.j, s.tr, s.st = None, st.t.start_number + j, (per.start, j), tr, st
                        s.urls = t
                        out.append(s)
                else:
                    j0 = 0 if pos is None else max(0, int((pos - base) // tr.dur) - 1)
                    for j in range(j0, j0 + 4):
                        s = Seg()
                        s.t, s.d = base + j * tr.dur, tr.dur
                        if end is not None and s.t >= m.ast + end:
                            break
                        s.avail = base + (j + 1) * tr.dur - (tr.ato or 0)
                        if tr.ato is None:
                            s.avail = m.ast
                        s.nr, s.j, s.tr, s.urls, s.st = st.t.start_number + j, (per.start, j), tr, None, st
                        out.append(s)
        out.sort(key=lambda s: (s.t, s.j))
        return out

    def fetch(self, s, rid):
        """body, from the first BaseURL that works"""
        rel = expand(s.st.t.media, rid, number=s.nr, time=s.urls)
        bases = [b[0] for b in self.m.baseurls]
        if len(bases) > 1:
            self.rng.shuffle(bases)
        else:
            bases = [self.m.base]
        for i, b in enumerate(bases):
            r = self.get(path_of(b, rel), must=False)
            if r.status == 200:
                self.ctx.count('failovers', i > 0)
                return r
        self.ctx.judge(False, '%s%s (media at %s, available at %s) at %r: %s' % (self.w, rel, s.t, s.avail, float(self.now), r.brief()), 'unavailable')

    def init(self, st, rid):
        if rid in self.inits:
            return
        self.inits.add(rid)
        rep = self.a.reps[rid]
        r = self.get(path_of(self.m.base, expand(st.t.init, rid)), 'init')
        x = mp4.init_info(r.body)
        self.ctx.judge(list(x['tracks']) == [rep.track] and x['tracks'][rep.track]['timescale'] == rep.timescale, self.w + 'init of %s' % rid, 'init')

    def play(self, ctype, count, behind):
        """Play `count` segments; returns how it ended."""
        ctx, rng, a = self.ctx, self.rng, self.a
        pos, exact, last, rid, steps = None, None, None, None, 0
        idle = 0
        period = None
        ast = self.m.ast
        while count > 0:
            if self.m.ast != ast or self.restarts and self.m.aet is not None and self.now >= self.m.aet:
                ctx.count('restarts')
                return 'restart'        # tfdt_32 and modulo sessions: another presentation begins
            steps += 1
            if steps > 2000:
                ctx.judge(False, self.w + 'the player does not get on at %s' % float(self.now), 'stuck')
            if self.m is None or self.due() and (idle or self.m.mup > 0 or rng.random() < .8):
                self.update()
                ctx.count('updates')
            if pos is None:
                pos = self.now - behind
                cand = [s for s in self.segments(ctype, pos) if s.avail is None or s.avail <= self.now]
                if self.m.mpdur is not None:
                    pos = min(pos, self.m.ast + self.m.mpdur)
                if not cand:
                    if self.m.mpdur is not None and self.now >= self.m.ast + self.m.mpdur:
                        return 'nothing'
                    idle += 1
                    if idle > 40:
                        return 'nothing'
                    pos = None
                    self.now += rng.choice([F(1, 2), 1, a.seg_dur])
                    continue
                # the segment that contains the position
                s = [x for x in cand if x.t <= pos][-1:] or cand[:1]
                s = s[0]
            else:
                cand = self.segments(ctype, pos)
                if exact is None:
                    nxt = [x for x in cand if x.t == pos]
                else:
                    nxt = [x for x in cand if x.t == exact]
                if not nxt:
                    nxt = [x for x in cand if x.t > (pos if exact is None else exact)][:1]
                    # only behind an early end of a Period the media may jump, and only to a Period
                    if nxt and not (nxt[0].j[1] == 0 and nxt[0].j[0] != period and self.gap(period, nxt[0])):
                        ctx.judge(False, '%s%s: after media up to %s the MPD at %s goes on at %s' % (
                            self.w, ctype, pos if exact is None else exact, float(self.now), float(nxt[0].t)), 'gap')
                    if nxt:
                        last = None
                        ctx.count('gaps')
                if not nxt:
                    if self.m.mpdur is not None and pos >= self.m.ast + self.m.mpdur or self.m.type == 'static':
                        if self.m.mup is None or self.now > self.m.ast + self.m.mpdur + 2 * self.m.mup:
                            ctx.count('ended')
                            return 'end'
                    # not announced yet
                    idle += 1
                    if self.m.mup is None or idle > 400:
                        ctx.judge(self.m.mpdur is not None and self.now > self.m.ast + self.m.mpdur, '%s%s: nothing announced after %s, at %s, %d updates' % (
                            self.w, ctype, float(pos), float(self.now), self.mpds), 'stuck')
                        return 'end'
                    due = self.fetched + self.m.mup
                    self.now = max(self.now + F(1, 4), due) if self.m.mup > 0 else self.now + rng.choice([F(1, 2), 1, F(a.seg_dur)] if idle < 20 else [15])
                    continue
                s = nxt[0]
            idle = 0
            if s.avail is not None and s.avail > self.now:
                self.now = s.avail + rng.choice([0, 0, F(1, 64), F(1, 2), rng.randrange(0, 3)])
                if self.due() and (self.m.mup > 0 or rng.random() < .7):
                    continue
            if self.restarts and self.now >= self.m.aet:
                continue
            rids = [x for x in s.st.reps]
            if rid not in rids or rng.random() < .3:
                ctx.count('switches', rid is not None)
                rid = rng.choice(rids)
            rep = a.reps[rid]
            self.init(s.st, rid)
            r = self.fetch(s, rid)
            src, boxes, sm = client.identify(a, rep, r.body)
            n_moof = sum(b.type == b'moof' for b in boxes)
            ctx.count('chunked', n_moof > 1)
            tr = s.tr
            t0 = F(client.decode_time(boxes), rep.timescale)
            t = t0 - tr.pto + tr.pstart + self.m.ast
            w = '%s%s segment %s (%s): ' % (self.w, ctype, r.url, src.nr)
            dev = client.deviation(a, rep, src)
            if s.avail is None:
                ctx.judge(t == s.t and F(sum(x.dur for x in sm), rep.timescale) == s.d, w + 'media at %s, announced at %s' % (float(t), float(s.t)), 'time')
                ctx.count('by_time')
            else:
                ctx.judge(t - dev == s.t, w + 'media at %s, announced at %s' % (float(t - dev), float(s.t)), 'time')
            loops, rest = divmod(t0 - F(src.start, rep.timescale), a.loop)
            ctx.judge(rest == 0, w + 'decode time %s is not that of VoD segment %d in any loop' % (t0, src.nr), 'time')
            if s.avail is not None or '$Number$' in s.st.t.media:
                ctx.judge(client.seq(boxes) == s.nr, w + 'sequence number %d' % client.seq(boxes), 'sequence')
            if last is not None:
                want = a.first + (last.nr - a.first + 1) % a.n
                ctx.judge(src.nr == want, w + 'VoD segment %d follows %d of %d' % (src.nr, last.nr, a.n), 'order')
                ctx.count('loops', src.nr == a.first)
                ctx.judge(exact is None or t == end, w + 'media at %s, the last segment ended at %s' % (float(t), float(end)), 'continuity')
            ctx.count('segments')
            if period is not None and period != s.j[0]:
                ctx.count('period_changes')
            period = s.j[0]
            self.periods.add(period)
            last = src
            end = t + F(sum(x.dur for x in sm), rep.timescale)
            pos = s.t + s.d
            exact = None
            if s.avail is None:
                exact = end
            count -= 1
            if rng.random() < .05:
                self.now += rng.choice([F(1, 3), 2])     # a pause
        return 'played'

    def gap(self, period, s):
        for per in self.m.periods:
            if per.start == period:
                return per.duration is not None and per.start + per.duration <= s.t - self.m.ast
        return True         # not listed any more


def options(rng, a, o, s):
    sd = a.seg_dur
    opts = []
    ns = [n for n in PN if (3600 // n) % sd == 0]
    multi = False
    if ns and rng.random() < .6 and o['_kind'] in ('plain', 'start', 'tfdt') and s.media_at_ast % sd == 0:
        multi = True
        n = rng.choice([x for x in ns if x >= 10] or ns) if rng.random() < .8 else rng.choice(ns)
        pd = 3600 // n
        opts.append('periods_%d' % n)
        div = [e for e in PN if n % e == 0]
        if rng.random() < .3:
            opts.append('continuous_1')
        if rng.random() < .25 and n >= 10:
            opts.append('etp_%d' % rng.choice(div))
            k = rng.choice([pd // 2, pd - 1, rng.randrange(1, pd + 1), sd])
            if rng.random() < .7:
                opts.append('etpDuration_%d' % k)
        elif rng.random() < .35:
            opts.append('xlink_%d' % rng.choice(div))
            if rng.random() < .3:
                opts.append('insertad_0')
        if rng.random() < .2:
            opts.append('mpdcallback_%d' % rng.choice(div))
        if rng.random() < .15 and not any(x.startswith('xl') for x in opts):
            opts.append('peroff_%d' % rng.choice([0, 1, 4]))
    st = False
    if rng.random() < .4 and client.fits(a):
        st = True
        opts.append(rng.choice(['segtimeline_1', 'segtimelinenr_1']))
    for x, q in (('utc_head-ntp', .08), ('spd_5', .08), ('scte35_%d' % rng.choice([1, 2, 3]), .15), ('sidx_1', .1), ('init_4', .1), ('sid_1', .03), ('sts_2', .03)):
        if rng.random() < q:
            opts.append(x)
    if rng.random() < .25:
        opts.append('chunkdur_%s' % rng.choice(['0.5', '1', '0.33', '%s' % sd, '2']))
    if rng.random() < .15 and o['_kind'] != 'rel':
        opts += rng.choice([['baseurl_u30_d30', 'baseurl_d30_u30'], ['baseurl_u20_d40', 'baseurl_d20_u40'], ['baseurl_d10_u10', 'baseurl_u10_d10', 'baseurl_u59_d1']])
    return opts, multi, st


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, only='any', version='1.1')
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, **({'kinds': ('plain', 'start', 'tfdt')} if i % 2 else {}))
    s = S(a, o, now)
    if s.media_at_ast % a.seg_dur:
        return
    if o['_kind'] in ('dur', 'stop') and rng.random() < .6 and 'timeoffset' not in o:    # one that will end soon
        o['start'] = max(0, int(now) - rng.randrange(0, 60))
        if 'dur' in o:
            o['dur'] = [rng.randrange(20, 100)] + [rng.randrange(20, 60) for _ in o['dur'][1:]]
        else:
            o['stop'] = int(now) + rng.randrange(1, 60)
        s = S(a, o, now)
    opts, multi, st = options(rng, a, o, s)
    if multi:
        pd = 3600 // int([x for x in opts if x.startswith('periods')][0][8:])
        o['tsbd'] = rng.choice([max(30, pd), 60, 2 * pd if pd < 1000 else 60])
        if rng.random() < .7 and s.now_int - s.ast > pd + 100:     # just before a border
            now = s.ast + (s.now_int - s.ast) // pd * pd - rng.choice([0, 3, 10, 3 * a.seg_dur])
    elif st and o.get('tsbd', a.tsbd) > 300:
        o['tsbd'] = 60
    if st and 'stop' in o and o['stop'] - o['start'] > 300 * a.seg_dur:
        return
    if o['_kind'] == 'rel':
        o.pop('ato', None)
        opts = [x for x in opts if not x.startswith('chunkdur')]
    tsbd = o.get('tsbd', a.tsbd)
    if tsbd < 3 * a.seg_dur + 10:
        o['tsbd'] = tsbd = 3 * a.seg_dur + 10
    now = max(now, s.ast + a.seg_dur) if now < s.ast + 100 else now
    s = S(a, o, now)
    if s.aet is not None and int(now) > s.aet + 40:
        return
    name = rng.choice(['Manifest.mpd', 'av_single.mpd'] if st else sorted(a.mpds))
    p = url(a, o, name, rng, extra=opts)
    w = '%s from %r: ' % (p, float(now))
    pl = Player(ctx, rng, a, srv, p, now, w)
    pl.restarts = 'tfdt' in o or 'modulo' in o
    vclock.CLOCK.set(float(now))
    pl.update()
    types = sorted({x.ctype for per in pl.m.periods for x in per.sets} - {'image'})
    ctype = rng.choice(types)
    behind = rng.choice([0, a.seg_dur, 2 * a.seg_dur, rng.randrange(0, int(tsbd) - 2 * a.seg_dur - 5)])
    count = rng.choice([5, 12, 25, 40])
    how = pl.play(ctype, count, behind)
    ctx.count('sessions')
    ctx.shape(tuple(sorted(x.split('_')[0] for x in opts)), o['_kind'], 'ato' in o, min(3, len(pl.periods)), min(4, pl.mpds), how)
    ctx.sample({'url': p, 'from': float(now), 'to': float(pl.now), 'type': ctype, 'mpds': pl.mpds, 'periods': len(pl.periods), 'end': how})
