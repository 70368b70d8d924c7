"""Structural validity of an MPD: a hand-written rendering of the DASH-MPD.xsd (ISO/IEC 23009-1) parts that matter here: which
children an element may have, in which order and how often, which attributes, and the lexical form of their values."""
import re

from .mpd import NS

DUR = re.compile(r'^-?P(?=.)(\d+Y)?(\d+M)?(\d+D)?(T(?=.)(\d+H)?(\d+M)?(\d+(\.\d+)?S)?)?$')
TYPES = {
    'duration': DUR,
    'dateTime': re.compile(r'^-?\d{4,}-(0[1-9]|1[0-2])-([0-2]\d|3[01])T([01]\d|2[0-3]):[0-5]\d:[0-5]\d(\.\d+)?(Z|[+-]\d\d:\d\d)?$'),
    'uint': re.compile(r'^\+?\d{1,10}$'),
    'ulong': re.compile(r'^\+?\d{1,20}$'),
    'int': re.compile(r'^[+-]?\d+$'),
    'double': re.compile(r'^([+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?|-?INF|NaN)$'),
    'bool': re.compile(r'^(true|false|0|1)$'),
    'cbool': re.compile(r'^(true|false|\d+)$'),
    'type': re.compile(r'^(static|dynamic)$'),
    'prt': re.compile(r'^(encoder|captured|application)$'),
    'uri': re.compile(r'^\S*$'),
    'str': re.compile(r'^.*$', re.S),
    'sap': re.compile(r'^[0-6]$'),
    'actuate': re.compile(r'^(onLoad|onRequest)$'),
}
LIMIT = {'uint': 2 ** 32, 'ulong': 2 ** 64}

BASE = ('FramePacking', 'AudioChannelConfiguration', 'ContentProtection', 'OutputProtection', 'EssentialProperty', 'SupplementalProperty',
        'InbandEventStream', 'Switching', 'RandomAccess', 'GroupLabel', 'Label', 'ProducerReferenceTime', 'ContentPopularityRate', 'Resync')
KIDS = {
    'MPD': ('ProgramInformation', 'BaseURL', 'Location', 'PatchLocation', 'ServiceDescription', 'InitializationSet', 'InitializationGroup',
            'InitializationPresentation', 'ContentProtection', 'Period', 'Metrics', 'EssentialProperty', 'SupplementalProperty', 'UTCTiming',
            'LeapSecondInformation'),
    'ProgramInformation': ('Title', 'Source', 'Copyright'),
    'Period': ('BaseURL', 'SegmentBase', 'SegmentList', 'SegmentTemplate', 'AssetIdentifier', 'EventStream', 'ServiceDescription',
               'ContentProtection', 'AdaptationSet', 'Subset', 'SupplementalProperty', 'EmptyAdaptationSet', 'GroupLabel', 'Preselection'),
    'AdaptationSet': BASE + ('Accessibility', 'Role', 'Rating', 'Viewpoint', 'ContentComponent', 'BaseURL', 'SegmentBase', 'SegmentList',
                             'SegmentTemplate', 'Representation'),
    'Representation': BASE + ('BaseURL', 'ExtendedBandwidth', 'SubRepresentation', 'SegmentBase', 'SegmentList', 'SegmentTemplate'),
    'SubRepresentation': BASE,
    'SegmentBase': ('Initialization', 'RepresentationIndex', 'FailoverContent'),
    'SegmentTemplate': ('Initialization', 'RepresentationIndex', 'FailoverContent', 'SegmentTimeline', 'BitstreamSwitching'),
    'SegmentTimeline': ('S',),
    'ServiceDescription': ('Scope', 'Latency', 'PlaybackRate', 'OperatingQuality', 'OperatingBandwidth', 'ContentSteering', 'ClientDataReporting'),
    'ProducerReferenceTime': ('UTCTiming',),
    'EventStream': ('Event',),
    'ContentComponent': ('Accessibility', 'Role', 'Rating', 'Viewpoint'),
    'Metrics': ('Reporting', 'Range'),
}
ONCE = {'Period': {'SegmentBase', 'SegmentList', 'SegmentTemplate', 'AssetIdentifier'},
        'AdaptationSet': {'SegmentBase', 'SegmentList', 'SegmentTemplate'}, 'Representation': {'SegmentBase', 'SegmentList', 'SegmentTemplate'},
        'SegmentTemplate': {'SegmentTimeline'}, 'ProducerReferenceTime': {'UTCTiming'},
        'ProgramInformation': {'Title', 'Source', 'Copyright'}, 'MPD': {'LeapSecondInformation'}}
DESC = {'schemeIdUri!': 'uri', 'value': 'str', 'id': 'str'}
SEGBASE = {'timescale': 'uint', 'presentationTimeOffset': 'ulong', 'eptDelta': 'int', 'pdDelta': 'int', 'presentationDuration': 'ulong',
           'timeShiftBufferDepth': 'duration', 'indexRange': 'str', 'indexRangeExact': 'bool', 'availabilityTimeOffset': 'double',
           'availabilityTimeComplete': 'bool'}
REPBASE = {'profiles': 'str', 'width': 'uint', 'height': 'uint', 'sar': 'str', 'frameRate': 'str', 'audioSamplingRate': 'str', 'mimeType': 'str',
           'segmentProfiles': 'str', 'codecs': 'str', 'containerProfiles': 'str', 'maximumSAPPeriod': 'double', 'startWithSAP': 'sap',
           'maxPlayoutRate': 'double', 'codingDependency': 'bool', 'scanType': 'str', 'selectionPriority': 'uint', 'tag': 'str'}
ATTRS = {
    'MPD': {'id': 'str', 'profiles!': 'str', 'type': 'type', 'availabilityStartTime': 'dateTime', 'availabilityEndTime': 'dateTime',
            'publishTime': 'dateTime', 'mediaPresentationDuration': 'duration', 'minimumUpdatePeriod': 'duration', 'minBufferTime!': 'duration',
            'timeShiftBufferDepth': 'duration', 'suggestedPresentationDelay': 'duration', 'maxSegmentDuration': 'duration',
            'maxSubsegmentDuration': 'duration'},
    'BaseURL': {'serviceLocation': 'str', 'byteRange': 'str', 'availabilityTimeOffset': 'double', 'availabilityTimeComplete': 'bool',
                'timeShiftBufferDepth': 'duration', 'rangeAccess': 'bool'},
    'Location': {'serviceLocation': 'str'},
    'ProgramInformation': {'lang': 'str', 'moreInformationURL': 'uri'},
    'Title': {}, 'Source': {}, 'Copyright': {},
    'Period': {'id': 'str', 'start': 'duration', 'duration': 'duration', 'bitstreamSwitching': 'bool'},
    'AdaptationSet': dict(REPBASE, **{'id': 'uint', 'group': 'uint', 'lang': 'str', 'contentType': 'str', 'par': 'str', 'minBandwidth': 'uint',
                                      'maxBandwidth': 'uint', 'minWidth': 'uint', 'maxWidth': 'uint', 'minHeight': 'uint', 'maxHeight': 'uint',
                                      'minFrameRate': 'str', 'maxFrameRate': 'str', 'segmentAlignment': 'cbool', 'subsegmentAlignment': 'cbool',
                                      'subsegmentStartsWithSAP': 'sap', 'bitstreamSwitching': 'bool', 'initializationSetRef': 'str',
                                      'initializationPrincipal': 'uri'}),
    'Representation': dict(REPBASE, **{'id!': 'str', 'bandwidth!': 'uint', 'qualityRanking': 'uint', 'dependencyId': 'str', 'associationId': 'str',
                                       'associationType': 'str', 'mediaStreamStructureId': 'str'}),
    'SubRepresentation': dict(REPBASE, **{'level': 'uint', 'dependencyLevel': 'str', 'bandwidth': 'uint', 'contentComponent': 'str'}),
    'SegmentBase': SEGBASE,
    'SegmentTemplate': dict(SEGBASE, **{'duration': 'uint', 'startNumber': 'uint', 'endNumber': 'uint', 'media': 'str', 'index': 'str',
                                        'initialization': 'str', 'bitstreamSwitching': 'str'}),
    'SegmentTimeline': {},
    'S': {'t': 'ulong', 'n': 'ulong', 'd!': 'ulong', 'r': 'int', 'k': 'ulong'},
    'ServiceDescription': {'id': 'uint'},
    'Scope': DESC,
    'Latency': {'referenceId': 'uint', 'target': 'uint', 'max': 'uint', 'min': 'uint'},
    'PlaybackRate': {'max': 'double', 'min': 'double'},
    'ProducerReferenceTime': {'id!': 'uint', 'inband': 'bool', 'type': 'prt', 'applicationScheme': 'str', 'wallClockTime!': 'str',
                              'presentationTime!': 'ulong'},
    'EventStream': {'schemeIdUri!': 'uri', 'value': 'str', 'timescale': 'uint', 'presentationTimeOffset': 'ulong'},
    'InbandEventStream': {'schemeIdUri!': 'uri', 'value': 'str', 'timescale': 'uint', 'presentationTimeOffset': 'ulong'},
    'Event': {'presentationTime': 'ulong', 'duration': 'ulong', 'id': 'uint', 'contentEncoding': 'str', 'messageData': 'str'},
    'ContentComponent': {'id': 'uint', 'lang': 'str', 'contentType': 'str', 'par': 'str', 'tag': 'str'},
    'Subset': {'contains!': 'str', 'id': 'str'},
    'Metrics': {'metrics!': 'str'},
    'GroupLabel': {'id': 'uint', 'lang': 'str'},
    'Switching': {'interval!': 'uint', 'type': 'str'},
    'RandomAccess': {'interval!': 'uint', 'type': 'str', 'minBufferTime': 'duration', 'bandwidth': 'uint'},
    'Label': {'id': 'uint', 'lang': 'str'},
}
for _d in ('FramePacking', 'AudioChannelConfiguration', 'ContentProtection', 'EssentialProperty', 'SupplementalProperty', 'Accessibility', 'Role',
           'Rating', 'Viewpoint', 'UTCTiming', 'AssetIdentifier', 'Reporting'):
    ATTRS[_d] = DESC
TEXT = {'BaseURL', 'Location', 'Title', 'Source', 'Copyright', 'Label', 'GroupLabel', 'Event'}
XLINK = '{http://www.w3.org/1999/xlink}'


def check(root):
    """List of (key, message) of what is not valid."""
    out = []
    walk(root, '', out)
    m = root
    if m.tag == NS + 'MPD':
        dyn = m.get('type') == 'dynamic'
        ps = m.findall(NS + 'Period')
        if not ps:
            out.append(('children', 'MPD without Period'))
        if dyn:
            for k in ('availabilityStartTime', 'publishTime'):
                if m.get(k) is None:
                    out.append(('required', 'dynamic MPD without ' + k))
            if m.get('minimumUpdatePeriod') is None and m.get('mediaPresentationDuration') is None and not (ps and ps[-1].get('duration')):
                out.append(('required', 'the end of the presentation is not known'))
        else:
            if m.get('mediaPresentationDuration') is None and not (ps and ps[-1].get('duration')):
                out.append(('required', 'static MPD without duration'))
            for k in ('minimumUpdatePeriod', 'timeShiftBufferDepth'):
                if m.get(k) is not None:
                    out.append(('static', 'static MPD with ' + k))
        prof = (m.get('profiles') or '').split(',')
        if len(set(prof)) < len(prof):
            out.append(('profiles', 'a profile is listed twice: %s' % prof))
        ids = [p.get('id') for p in ps if p.get('id') is not None]
        if len(set(ids)) < len(ids):
            out.append(('ids', 'Period ids %s' % ids))
        if dyn and any(p.get('id') is None and p.get(XLINK + 'href') is None for p in ps):
            out.append(('ids', 'Period without id in a dynamic MPD'))
        for p in ps:
            ids = [r.get('id') for r in p.iter(NS + 'Representation')]
            if len(set(ids)) < len(ids):
                out.append(('ids', 'Representation ids %s' % ids))
            ids = [r.get('id') for r in p.findall(NS + 'AdaptationSet') if r.get('id')]
            if len(set(ids)) < len(ids):
                out.append(('ids', 'AdaptationSet ids %s' % ids))
    return out


def walk(e, path, out):
    tag = e.tag.replace(NS, '')
    path = path + '/' + tag
    if '{' in tag:
        return       # another namespace
    if tag not in ATTRS:
        out.append(('element', '%s: unknown element' % path))
        return
    spec = ATTRS[tag]
    for k in spec:
        if k.endswith('!') and k[:-1] not in e.attrib:
            out.append(('required', '%s has no %s' % (path, k[:-1])))
    for k, v in e.attrib.items():
        if k.startswith(XLINK):
            if tag not in ('Period', 'AdaptationSet', 'EventStream', 'SegmentList') or k not in (XLINK + 'href', XLINK + 'actuate', XLINK + 'type', XLINK + 'show'):
                out.append(('attribute', '%s: %s' % (path, k)))
            continue
        if k.startswith('{'):
            continue
        t = spec.get(k, spec.get(k + '!'))
        if t is None:
            out.append(('attribute', '%s has an attribute %s' % (path, k)))
        elif not TYPES[t].match(v) or t in LIMIT and int(v) >= LIMIT[t]:
            out.append(('value', '%s@%s=%r is not of type %s' % (path, k, v, t)))
    kids = [c.tag.replace(NS, '') for c in e if c.tag.startswith(NS)]
    order = KIDS.get(tag, ())
    last = -1
    for c in kids:
        if c not in order:
            out.append(('children', '%s has a child %s' % (path, c)))
            continue
        i = order.index(c)
        if i < last:
            out.append(('order', '%s: %s after %s' % (path, c, order[last])))
        last = max(i, last)
    for c in ONCE.get(tag, ()):
        if kids.count(c) > 1:
            out.append(('children', '%s: %d %s' % (path, kids.count(c), c)))
    if tag == 'SegmentTemplate' and (e.get('duration') is not None) == ('SegmentTimeline' in kids):
        out.append(('timing', '%s has %s' % (path, 'both duration and SegmentTimeline' if 'SegmentTimeline' in kids else 'no segment durations')))
    if tag == 'UTCTiming' and e.get('value') in (None, ''):
        out.append(('value', '%s without value' % path))
    if tag not in TEXT and (e.text or '').strip() and tag != 'ContentProtection':
        out.append(('text', '%s: stray text %r' % (path, e.text.strip()[:40])))
    for c in e:
        if (c.tail or '').strip():
            out.append(('text', '%s: stray text %r after %s' % (path, c.tail.strip()[:40], c.tag.replace(NS, ''))))
        walk(c, path, out)
