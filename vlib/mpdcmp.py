"""What must survive of the VoD MPD in every live MPD."""
import xml.etree.ElementTree as ET

from .mpd import NS

MPD_LIVE = {'type', 'availabilityStartTime', 'availabilityEndTime', 'timeShiftBufferDepth', 'minimumUpdatePeriod',
            'maxSegmentDuration', 'mediaPresentationDuration', 'suggestedPresentationDelay', 'publishTime', 'id'}
MPD_KIDS = {'BaseURL', 'Location', 'UTCTiming', 'ServiceDescription'}
PERIOD_LIVE = {'id', 'start', 'duration'}


def canon(e, attrs=(), kids=(), tmpl=(), setkids=()):
    """Nested tuples of everything but the live parts."""
    drop_a, drop_k = set(attrs), set(kids)
    tag = e.tag.replace(NS, '')
    if tag == 'SegmentTemplate':
        drop_a |= set(tmpl)
        drop_k |= {'SegmentTimeline'}
    if tag == 'AdaptationSet':
        drop_k |= set(setkids)
    a = tuple(sorted((k, v) for k, v in e.attrib.items() if k not in drop_a))
    k = tuple(canon(c, (), (), tmpl, setkids) for c in e if c.tag.replace(NS, '') not in drop_k)
    return (tag, a, (e.text or '').strip(), k)


def head(root, profiles=True):
    """Everything outside the Periods."""
    drop = MPD_LIVE | (set() if profiles else {'profiles'})
    c = canon(root, drop, MPD_KIDS | {'Period'})
    return c


def period(p, tmpl=('startNumber', 'presentationTimeOffset'), setkids=(), kids=()):
    return canon(p, PERIOD_LIVE, kids, tmpl, setkids)


def diff(x, y, path=''):
    if x == y:
        return None
    if x[0] != y[0]:
        return '%s: <%s> instead of <%s>' % (path, y[0], x[0])
    path = path + '/' + x[0]
    if x[1] != y[1]:
        return '%s: attributes %s instead of %s' % (path, sorted(set(y[1]) - set(x[1])), sorted(set(x[1]) - set(y[1])))
    if x[2] != y[2]:
        return '%s: text %r instead of %r' % (path, y[2], x[2])
    if [k[0] for k in x[3]] != [k[0] for k in y[3]]:
        return '%s: children %s instead of %s' % (path, [k[0] for k in y[3]], [k[0] for k in x[3]])
    for a, b in zip(x[3], y[3]):
        d = diff(a, b, path)
        if d:
            return d
    return path


def preserved(vod_text, live, **kw):
    """None, or how the live MPD (Mpd object) lost something of the VoD MPD."""
    v = ET.fromstring(vod_text.encode('utf-8'))
    prof = kw.pop('profiles', True)
    d = diff(head(v, prof), head(live.root, prof))
    if d:
        return d
    vp = v.findall(NS + 'Period')[0]
    want = period(vp, **kw)
    for p in live.periods:
        d = diff(want, period(p.e, **kw))
        if d:
            return d
    return None
