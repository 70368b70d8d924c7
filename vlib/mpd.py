"""What a DASH client reads out of an MPD (independent of /repo)."""
import re
import xml.etree.ElementTree as ET
from calendar import timegm
from fractions import Fraction
from urllib.parse import urljoin, urlparse

NS = '{urn:mpeg:dash:schema:mpd:2011}'
DUR = re.compile(r'^P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d+)?)S)?)?$')
DT = re.compile(r'^(-?\d{4,})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z?)$')


class MpdError(Exception):
    pass


def dur(s):
    if s is None:
        return None
    m = DUR.match(s)
    if not m or s[-1] in 'PT':
        raise MpdError('bad duration %r' % s)
    y, mo, d, h, mi, sec = [Fraction(x) if x else Fraction(0) for x in m.groups()]
    return ((y * 365 + mo * 30 + d) * 24 + h) * 3600 + mi * 60 + sec


def dt(s):
    if s is None:
        return None
    m = DT.match(s)
    if not m:
        raise MpdError('bad dateTime %r' % s)
    y, mo, d, h, mi, sec = [int(x) for x in m.groups()[:6]]
    if not (1 <= mo <= 12 and 1 <= d <= 31 and h < 24 and mi < 60 and sec < 60):
        raise MpdError('bad dateTime %r' % s)
    cycles = max(0, (y - 2000) // 400)        # of 146097 days each; the library ends with the year 9999
    return timegm((y - 400 * cycles, mo, d, h, mi, sec)) + cycles * 146097 * 86400 + (Fraction(m.group(7)) if m.group(7) else 0)


def intattr(e, name, default=None):
    v = e.get(name)
    if v is None:
        return default
    if not re.match(r'^-?\d+$', v):
        raise MpdError('%s@%s=%r is not an integer' % (e.tag, name, v))
    return int(v)


class T:
    """SegmentTemplate"""

    def __init__(self, e):
        self.e = e
        self.timescale = intattr(e, 'timescale', 1)
        self.duration = intattr(e, 'duration')
        self.has_start_number = e.get('startNumber') is not None
        self.start_number = intattr(e, 'startNumber', 1)
        self.pto = intattr(e, 'presentationTimeOffset', 0)
        self.media = e.get('media')
        self.init = e.get('initialization')
        self.ato = e.get('availabilityTimeOffset')
        self.atc = e.get('availabilityTimeComplete')
        tl = e.findall(NS + 'SegmentTimeline')
        if len(tl) > 1:
            raise MpdError('%d SegmentTimelines' % len(tl))
        self.timeline = None
        if tl:
            self.timeline = [(intattr(s, 't'), intattr(s, 'd'), intattr(s, 'r', 0)) for s in tl[0].findall(NS + 'S')]
            for t, d, r in self.timeline:
                if d is None or d <= 0 or r < 0 or (t is not None and t < 0):
                    raise MpdError('bad S element t=%s d=%s r=%s' % (t, d, r))
            if self.timeline and self.timeline[0][0] is None:
                raise MpdError('first S without @t')

    def entries(self, gaps=False):
        """[(time, duration)] in timescale units; with gaps, a segment may start later than the one before ends."""
        out = []
        cur = None
        for t, d, r in self.timeline:
            if t is not None:
                if cur is not None and t != cur and (not gaps or t < cur):
                    raise MpdError('SegmentTimeline jumps from %d to %d' % (cur, t))
                cur = t
            for _ in range(r + 1):
                out.append((cur, d))
                cur += d
        return out


class Set_:
    def __init__(self, e):
        self.e = e
        self.ctype = e.get('contentType')
        ts = e.findall(NS + 'SegmentTemplate')
        if len(ts) != 1:
            raise MpdError('%d SegmentTemplates' % len(ts))
        self.t = T(ts[0])
        self.reps = [r.get('id') for r in e.findall(NS + 'Representation')]
        self.inband = [(x.get('schemeIdUri'), x.get('value')) for x in e.findall(NS + 'InbandEventStream')]
        self.supp = [(x.get('schemeIdUri'), x.get('value')) for x in e.findall(NS + 'SupplementalProperty')]
        self.prt = e.findall(NS + 'ProducerReferenceTime')


class Period:
    def __init__(self, e):
        self.e = e
        self.id = e.get('id')
        self.start = dur(e.get('start'))
        self.duration = dur(e.get('duration'))
        self.sets = [Set_(x) for x in e.findall(NS + 'AdaptationSet')]
        sb = e.findall(NS + 'SegmentBase')
        self.segbase_pto = intattr(sb[0], 'presentationTimeOffset', 0) if sb else None
        self.xlink = e.get('{http://www.w3.org/1999/xlink}href')
        self.asset_id = [(x.get('schemeIdUri'), x.get('value')) for x in e.findall(NS + 'AssetIdentifier')]
        self.events = [(x.get('schemeIdUri'), x.get('value'), [y.get('messageData') for y in x.findall(NS + 'Event')])
                       for x in e.findall(NS + 'EventStream')]


class Mpd:
    def __init__(self, text, url=None):
        try:
            self.root = r = ET.fromstring(text)
        except ET.ParseError as e:
            raise MpdError('MPD is not well-formed XML: %s' % e)
        if r.tag != NS + 'MPD':
            raise MpdError('root is %s' % r.tag)
        self.url = url
        self.type = r.get('type', 'static')
        g = r.get
        self.ast = dt(g('availabilityStartTime'))
        self.aet = dt(g('availabilityEndTime'))
        self.publish = dt(g('publishTime'))
        self.mpdur = dur(g('mediaPresentationDuration'))
        self.mup = None if g('minimumUpdatePeriod') is None else dur(g('minimumUpdatePeriod'))
        self.mup_raw = g('minimumUpdatePeriod')
        self.tsbd = dur(g('timeShiftBufferDepth'))
        self.maxseg = dur(g('maxSegmentDuration'))
        self.spd = dur(g('suggestedPresentationDelay'))
        self.profiles = (g('profiles') or '').split(',')
        self.baseurls = [(b.text, b.get('availabilityTimeOffset'), b.get('availabilityTimeComplete'))
                         for b in r.findall(NS + 'BaseURL')]
        self.location = [x.text for x in r.findall(NS + 'Location')]
        self.utc = [(x.get('schemeIdUri'), x.get('value')) for x in r.findall(NS + 'UTCTiming')]
        self.sd = r.findall(NS + 'ServiceDescription')
        self.periods = [Period(p) for p in r.findall(NS + 'Period')]
        self.order = [c.tag.replace(NS, '') for c in r]

    @property
    def base(self):
        if self.baseurls:
            return urljoin(self.url or '', self.baseurls[0][0])
        return self.url


def expand(tmpl, rep, number=None, time=None):
    def sub(m):
        k = m.group(1)
        if k == '':
            return '$'
        if k == 'RepresentationID':
            return rep
        if k == 'Number':
            if number is None:
                raise MpdError('$Number$ in %r where no number applies' % tmpl)
            return str(number)
        if k == 'Time':
            if time is None:
                raise MpdError('$Time$ in %r where no time applies' % tmpl)
            return str(time)
        raise MpdError('unknown identifier %r in %r' % (k, tmpl))
    return re.sub(r'\$([A-Za-z]*)\$', sub, tmpl)


def path_of(base, rel):
    u = urlparse(urljoin(base, rel))
    return u.path
