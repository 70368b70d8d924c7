"""A DASH client: everything it knows comes from the MPD it fetched (plus the ids hidden in the synthetic samples)."""
import re
from fractions import Fraction as F
from urllib.parse import urlparse

from . import isobmff as mp4
from .runner import Violation

ID = re.compile(rb'^([A-Za-z0-9_\-]+)/(\d+)/(\d+)\|')
UID = re.compile(rb'uid-([A-Za-z0-9_\-]+)-(\d+)-(\d+) ')


def ato_of(m, t):
    """availabilityTimeOffset in effect for a template; None = infinite"""
    tot = F(0)
    for v in (m.baseurls[0][1] if m.baseurls else None, t.ato):
        if v is None:
            continue
        if v == 'INF':
            return None
        tot += F(v)
    return tot


class Track:
    """One AdaptationSet of one Period."""

    def __init__(self, m, p, s):
        self.m, self.p, self.s, self.t = m, p, s, s.t
        t = s.t
        self.pto = F(t.pto, t.timescale)
        if p.segbase_pto is not None and not t.pto:
            self.pto = F(p.segbase_pto)
        self.pstart = p.start if p.start is not None else F(0)
        self.dur = F(t.duration, t.timescale) if t.duration else None
        self.ato = ato_of(m, t)

    def window(self, now, tsbd=None, end=None):
        """(first, last) index j of $Number$ segments available now; end: end of the Period in seconds from its start."""
        rel = F(now) - self.m.ast - self.pstart
        if self.ato is None:
            last = None
        else:
            last = (rel + self.ato) // self.dur - 1
        if end is not None:
            e = -(-end // self.dur) - 1
            last = e if last is None else min(last, e)
        first = 0
        if tsbd is not None:
            first = max(0, -(-(rel - tsbd) // self.dur) - 2)
        return first, last

    def avail(self, j):
        """wall-clock at which index j is complete"""
        return self.m.ast + self.pstart + (j + 1) * self.dur - (self.ato or 0)


def url_path(u):
    x = urlparse(u)
    return x.path


def identify(a, rep, body):
    """(VoD segment, boxes, samples) of a served (non-muxed) segment, from the ids its samples carry."""
    boxes = mp4.parse(body)
    trex = {rep.track: tuple(rep.opt['trex'])}
    sm = mp4.samples(body, trex, boxes)
    if rep.ctype == 'subtitles':
        ids = {(x.decode(), int(n)) for s in sm for x, n, _ in UID.findall(s.data)}
    else:
        ids = set()
        for i, s in enumerate(sm):
            k = ID.match(s.data)
            if not k or int(k.group(3)) != i:
                raise Violation('sample %d is %r' % (i, s.data[:40]), 'content')
            ids.add((k.group(1).decode(), int(k.group(2))))
    if len(ids) != 1:
        raise Violation('samples of %s in one segment' % sorted(ids), 'content')
    rid, nr = ids.pop()
    if rid != rep.id:
        raise Violation('samples of %s served for %s' % (rid, rep.id), 'content')
    src = rep.segs[nr - a.first]
    if len(sm) != len(src.samples):
        raise Violation('%d samples instead of %d' % (len(sm), len(src.samples)), 'content')
    return src, boxes, sm


def decode_time(boxes):
    moofs = [b for b in boxes if b.type == b'moof']
    return mp4.tfdt(moofs[0].one(b'traf', b'tfdt'))


def seq(boxes):
    return mp4.mfhd_seq([b for b in boxes if b.type == b'moof'][0])


def deviation(a, rep, src):
    """by how many seconds the VoD segment starts off its nominal time"""
    return F(src.start, rep.timescale) - (src.nr - a.first) * a.seg_dur


def fits(a):
    """real segments close enough to the nominal ones for a SegmentTimeline"""
    return all(abs(deviation(a, r, s)) < min(1, F(a.seg_dur, 2)) and
               abs(F(s.start + s.dur, r.timescale) - (s.nr - a.first + 1) * a.seg_dur) < min(1, F(a.seg_dur, 2))
               for r in a.order if r.ctype in ('video', 'audio') for s in r.segs)
