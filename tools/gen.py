#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, for the properties that have a check."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'dashlivesim/dashlib/'
PROXY, MPDPROC, CFG = L + 'dash_proxy.py', L + 'mpdprocessor.py', L + 'configprocessor.py'
MEDIA, INIT, WSGI, MPDPROXY = L + 'mediasegmentfilter.py', L + 'initsegmentfilter.py', 'dashlivesim/mod_wsgi/mod_dashlivesim.py', L + 'mpd_proxy.py'

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, note, level='exploration'):
    assert len(title) <= 80, (pid, len(title))
    P.append((pid, title, statement, over, qtext, why, files, mech, observe, note, level))


IC = ['inputs', 'configurations']
prop('P01', 'A segment is served exactly in its availability window, else an explained 404',
     'A media segment request is answered with 200 exactly when the segment belongs to the session (not before its start, not after its last segment or stop '
     'time) and the request time lies between the end of the segment (availability start time plus its position, minus availabilityTimeOffset) and one '
     'segment duration plus timeShiftBufferDepth after that end. With a stop time there is no upper limit, with an infinite offset no limit from the '
     'availability start time on, and 60 s after an availabilityEndTime nothing is served. Every other request for it gets a 404 whose text names a true '
     'reason: before the first segment, too early, too late, or beyond the last segment.',
     IC, 'every content (segment duration, loop length, start number), request time, segment number, and combination of start, duration, stop, '
     'tsbd, ato, snr and timeoffset options', 'tests fetch a handful of segments of one or two assets at fixed times; the borders move with every option',
     [PROXY, CFG], [('_process_media_segment checks of available_start/end', PROXY), ('handle_request classification', PROXY)],
     ['status and body of the WSGI answer'], 'Exact borders (both sides, fractions of seconds down to 1/64 s) on generated sessions against an independent window model.')
prop('P02', 'Live segments map to the VoD segments in order and loop seamlessly',
     'The live segment covering a given wall-clock interval contains precisely the samples of the VoD segment at that position modulo the VoD loop, '
     'for every representation. Decode times are the VoD times shifted by whole loops, so that consecutive segments follow each other without gap, overlap, '
     'repetition or reordering across every loop boundary and all representations stay aligned in time.',
     IC, 'every VoD content (loop length, first number, timescales, uneven segment durations) and time up to 32-bit segment numbers',
     'tests compare a few tfdt values in the two bundled assets; the loop border and large loop counts of other content are never reached',
     [PROXY, MEDIA, L + 'segtimeline.py'], [('segment number to VoD number and offset', PROXY), ('tfdt rewriting', MEDIA)],
     ['sample payloads and tfdt of answered segments'], 'Every sample of the generated content carries a unique id; a trace checker over consecutive answers checks order and continuity.')
prop('P03', 'Media segments are well-formed and change only what live requires',
     'A served media segment is the VoD segment, byte for byte, except for decode time, sequence number, the brands, the boxes the session asks for (emsg, sidx) '
     'and removal of a VoD sidx. The sizes, offsets and counts in all boxes remain consistent, so that every sample, its duration, flags, '
     'composition offset and encryption metadata can be read back unchanged. The last-segment brand (lmsg) is present exactly when the segment is the last of its session or period.',
     IC, 'every segment layout (styp, sidx, several truns, tfhd/trex defaults, v0/v1 boxes, CENC) and session', 'tests parse only the segments of the bundled asset, which all have the same layout',
     [MEDIA, L + 'mp4filter.py', PROXY], [('box filters', MEDIA)], ['box structure of answered segments'],
     'Independent ISOBMFF parser compares every box with the VoD original and the reference model.')
prop('P04', 'Init segments are live: zero durations, nothing else changed',
     'The init segment of a representation is the VoD init segment with the durations in the movie, track and media headers set to zero, whatever the box '
     'versions, and with every other byte unchanged. It is available from the availability start time minus the init_ offset on (a 404 before that says too '
     'early) for ever, and its content is independent of all session options.',
     IC, 'every init segment layout (box versions, encryption boxes, mvex/mehd) and URL option', 'one init segment layout in the tests',
     [INIT, PROXY], [('mvhd/tkhd/mdhd filters', INIT)], ['bytes of answered init segments'], 'Byte comparison with an independently edited original.')
prop('P05', 'The live MPD has the right attributes and preserves the VoD MPD',
     'The MPD is dynamic and its availabilityStartTime, availabilityEndTime, timeShiftBufferDepth, minimumUpdatePeriod, publishTime, suggestedPresentationDelay, '
     'mediaPresentationDuration and period starts are those the session asks for, with BaseURLs leading back to the same session. '
     'Everything else in the VoD MPD (elements, attributes, text, order, namespaces) is preserved with the same meaning.',
     IC, 'every VoD MPD and combination of options and request times', 'tests look at single attributes of MPDs from the bundled assets',
     [MPDPROC, PROXY, L + 'timeformatconversions.py'], [('process/process_mpd', MPDPROC)], ['MPD text answered'],
     'Namespace-aware tree comparison with the VoD MPD plus an attribute model.')
prop('P06', 'What the MPD announces by number is what segment requests get',
     'A client that computes segment numbers and times from a $Number$-template MPD with standard DASH arithmetic finds every segment which that MPD says is available '
     '(and nothing that it says is not yet), with the decode time the MPD timeline implies. This holds for all combinations of start, startnumber, timeoffset, ato, '
     'tsbd and end options, and each announced first and last segment is included.',
     IC, 'every session configuration and time; the MPD and segment code compute numbers separately', 'tests check MPD and segments separately with fixed numbers',
     [PROXY, MPDPROC, CFG], [('startNumber/PTO in MPD', PROXY), ('number to time', PROXY)], ['MPD and segment answers of one session'],
     'A strict DASH client implemented from the standard drives MPD then segments.')
prop('P07', 'SegmentTimeline MPDs list exactly the available segments with true times',
     'A SegmentTimeline MPD ($Time$ or $Number$) lists exactly the segments which are available at its time within the time-shift buffer, contiguous and '
     'without overlap, with their true start times and durations (also over loop borders and for segments of varying duration). Every listed segment can be '
     'fetched by its listed time or number and has the listed start time and duration, and later MPDs of the session extend the same timeline.',
     IC, 'every content incl. segments of varying duration, loop borders, all session options', 'tests count S elements at one time of one asset',
     [L + 'segtimeline.py', PROXY, MPDPROC], [('timeline generator', L + 'segtimeline.py'), ('time to number lookup', PROXY)], ['MPD and segment answers'],
     'Client expands the timeline and fetches entries; windows compared with the availability model.')
prop('P08', 'Sessions of limited duration end as announced, also when prolonged',
     'In a session with a start time and durations, minimumUpdatePeriod and mediaPresentationDuration tell at every time the currently known end, the end is prolonged when due, and after the last one '
     'the MPD gets final (no more updates). The segments which exist are exactly those before the announced end, whose last segment carries the lmsg brand, and requests beyond it are refused.',
     ['inputs', 'configurations', 'histories'], 'all start times, lists of durations and sequences of MPD updates', 'tests look at two instants of one session',
     [PROXY, MPDPROC, CFG], [('get_mpd_processor durations', PROXY), ('update_for_mup', CFG)], ['sequence of MPD answers over time'],
     'Virtual-clock histories: sequence of updates at the announced period, checked for monotone ends and finality.')
prop('P09', 'Absolute and relative start/stop sessions are the same session',
     'With a start and stop time, the MPD announces exactly that interval and segments exist exactly within it. A request with relative start/stop times gives the same MPD as the corresponding '
     'absolute one at that time, and its Location and BaseURLs pin those absolute times, so that all later updates and segment requests belong to the same session.',
     ['inputs', 'configurations', 'histories'], 'all start/stop values, signs and orders, and later request times', 'one example in the tests',
     [CFG, PROXY, MPDPROC], [('startrel/stoprel processing', CFG)], ['MPD, Location and segment answers'], 'Differential comparison relative/absolute over generated histories.')
prop('P10', 'Modulo sessions restart periodically with a consistent schedule',
     'With the modulo option for m minutes, at any time the MPD describes the session of that m-minute cycle (m a divisor of 60 minutes): its availability start, '
     'prolonged durations, and end, with a new session in each cycle. The segments served, and the last-segment brand, agree with the MPD at that time.',
     IC + ['histories'], 'all times, contents and moduli for which the schedule is aligned with segments', 'three instants in the tests',
     [L + 'moduloperiod.py', PROXY, CFG], [('ModuloPeriod', L + 'moduloperiod.py')], ['MPD and segment answers'], 'Independent schedule model; segment durations must divide 12·m seconds.')
prop('P11', 'tfdt_32 gives 32-bit decode times from which the media time is recovered',
     'With 32-bit decode times, every segment has a decode time below 2^32 in a 32-bit field, the MPD has a period start and presentationTimeOffset such that its '
     'presentation time is the same as without the option, and consecutive segments stay contiguous. Without the option, decode times are the full media times.',
     IC, 'all timescales, times (incl. the wrap), contents', 'one time in the tests', [PROXY, MEDIA, MPDPROC], [('reset of AST for tfdt 32', CFG), ('tfdt box sizes', MEDIA)],
     ['MPD and segments'], 'Client reconstruction of presentation time from MPD and decode times.')
prop('P12', 'startnumber only renumbers: same media, times and availability',
     'Changing the start number (or leaving it out) changes only the segment numbers in MPD, URL and sequence numbers. The segment at a given presentation time has the same media, decode time and availability, '
     'in single and multi-period sessions.', IC, 'all pairs of start numbers, contents, sessions', 'two numbers in the tests', [PROXY, CFG, MPDPROC],
     [('startNr arithmetic', PROXY)], ['pairs of answers'], 'Metamorphic comparison of two sessions differing only in the start number.')
prop('P13', 'Multi-period MPDs split the timeline without gap and serve the same media',
     'With n periods per hour, the MPD has contiguous periods that cover the time-shift buffer, with ids, start times, start numbers and presentationTimeOffsets such that every segment lies in exactly one period and is '
     'the same one as in the single-period session. Period continuity, per-period offsets, early terminated periods and MPD-callback events are signalled exactly as asked for, and consistently with those periods.',
     IC, 'all n, times, contents (segment aligned periods) and option combinations', 'a few instants in the tests', [PROXY, MPDPROC], [('generate_period_data', PROXY)], ['MPD and segments'],
     'Client maps every segment of the buffer through the period list; periods must be multiples of the segment duration.')
prop('P14', 'Remote (xlink) periods resolve to the period they stand for',
     'Exactly the periods asked for are replaced by remote ones. Each remote link answers, at the time of the MPD and later, with a well-formed Period that is the same as the one an MPD without '
     'xlink contains, and ad insertion puts its own links at the places asked for, with no other change of the MPD.', IC, 'all xlink/insertad values, times, contents', 'one link in the tests',
     [MPDPROXY, MPDPROC, PROXY], [('get_mpd / .period handling', MPDPROXY)], ['MPD and .period answers'], 'Resolves links and compares trees with the equivalent plain MPD.')
prop('P15', 'SCTE-35 events announce every ad break of each minute, once and in time',
     'With the SCTE-35 option for n ad breaks per minute, every segment interval in which a break is due to be announced carries exactly one emsg with that splice, and no other segment carries any. Its event '
     'and splice times, durations and identities agree between emsg, SCTE-35 payload (valid CRC) and media timeline, and the MPD signals the event stream.',
     IC, 'all times, contents, timescales and n', 'one emsg in the tests', [L + 'scte35.py', L + 'emsg.py', MEDIA, MPDPROC], [('create_scte35_emsg', L + 'scte35.py')], ['emsg boxes over consecutive segments'],
     'Trace checker over whole minutes of segments with an independent decoder of splice_info_section.')
prop('P16', 'Subtitle segments are shifted in time like audio and video',
     'In a served TTML/stpp segment, every begin and end time is the VoD time plus the same offset as for the other media, the visible time texts and segment numbers in cues follow, and everything '
     'else in the document is unchanged, in valid UTF-8 with matching sample and box sizes.', IC, 'all cue times, formats, offsets and document texts', 'one document in the tests',
     [L + 'ttml_timing_offset.py', MEDIA], [('adjust_ttml_content', L + 'ttml_timing_offset.py')], ['TTML in answered segments'], 'Reparses cues and compares to generated truth.')
prop('P17', 'Low-latency chunks together are the same segment',
     'A segment requested with a chunk duration is delivered in chunks, each with a complete moof and mdat, whose samples put together are those of the '
     'normal segment: same bytes, durations, flags, composition offsets and order, contiguous decode times, same sequence number; styp and events come once, '
     'before the first chunk. Each chunk has the least number of samples that reaches the chunk duration asked for; only the last may be shorter.',
     IC, 'all segment layouts, chunk durations and sessions', 'one chunked segment in the tests', [L + 'chunker.py', MEDIA, PROXY], [('chunk()', L + 'chunker.py')], ['chunks yielded by the WSGI app'],
     'Reassembles samples from chunks; encrypted content is a known finding.')
prop('P18', 'Low-latency chunks are released when their media time has passed',
     'With chunked delivery a segment is requested early by at most availabilityTimeOffset, and chunk number i is delivered not before its media is complete '
     'in wall-clock time (segment start plus i chunk durations, less a margin of 0.1 s), and without needless delay after that. After the end of the segment '
     'everything comes at once, and slow readers or inexact sleeps never lead to early chunks or accumulated delays.', ['inputs', 'configurations', 'schedules'], 'all request times, chunk durations, offsets, delays between chunks', 'tests never look at the time of delivery',
     [L + 'chunker.py', PROXY, WSGI], [('sleep before yield', PROXY)], ['virtual-clock times of yielded chunks'], 'Virtual clock replaces time and sleep; delays are injected between chunks.')
prop('P19', 'HTTP answers are correct: ranges, lengths, types and CORS headers',
     'Every answer has a Content-Length equal to its body (unless delivered in chunks), the right media type (MPD, segment, init, thumbnail, error text), '
     'and CORS and no-cache headers. A satisfiable single byte range gets 206 with exactly those bytes, clipped to the resource, and the right Content- '
     'Range; any other Range header (malformed, several ranges, other unit, unsatisfiable) never leads to wrong bytes, and errors stay errors. Answers to '
     'one request never depend on headers of another.', ['inputs', 'histories'], 'all range header strings, resources, sequences of requests', 'the range code has no tests',
     [WSGI], [('range handling', WSGI), ('start_response headers', WSGI)], ['status, headers, body'], 'RFC 7233 model and sequences of requests.')
prop('P20', 'Any URL gets a complete HTTP answer in bounded time',
     'Whatever path, query, options, numbers and methods a client sends, the server answers with a complete HTTP response (a status from the set it documents, '
     'with explanation if not OK), without an internal error (5xx, exception, traceback) or excessive time, and the next valid request is served normally.',
     ['inputs', 'histories'], 'all request URLs, by grammar and mutation', 'tests send well-formed URLs only', [WSGI, PROXY, CFG], [('application()', WSGI)], ['status of every answer, next good request'], 'Grammar-based fuzzing with canary requests.')
prop('P21', 'Requests only ever read inside the content and never write',
     'No request makes the server open, list or stat-and-serve a file outside the content and configuration directories, whatever dots, slashes or encodings are in the URL, '
     'and no request creates, changes or removes any file.', ['inputs'], 'all URLs', 'no such test', [PROXY, CFG, MPDPROXY], [('containment check', PROXY)], ['audit events of the interpreter', 'file tree digest'],
     'sys.addaudithook monitor over open/listdir/os.* events plus canary files around the content.')
prop('P22', 'Answers depend on URL and time only: no state, in any order or thread',
     'The answer to a request is a function of the request, the time and the content alone: earlier or concurrent requests, their order and the number of threads, and the process environment (working directory, locale, time zone, hash seed) do not change a single byte of status, headers or body.',
     ['schedules', 'histories', 'configurations'], 'all interleavings and histories of requests', 'tests use fresh objects and one thread', [WSGI, PROXY, CFG], [('per-request objects', WSGI)], ['answer digests'],
     'Differential: replays in shuffled history, threads with injected switches, and separate processes.')
prop('P23', 'Muxed representations contain both tracks unchanged',
     'A request for two representations combined gives an init segment with both tracks and segments in which each track has exactly the samples, times, durations and flags of its own live segment, '
     'with consistent track ids, offsets and sizes.', IC, 'all pairs of representations and layouts', 'one pair in the tests', [L + 'segmentmuxer.py', PROXY], [('MultiplexInits/MultiplexMediaSegments', L + 'segmentmuxer.py')], ['answered muxed segments'],
     'Per-track demultiplexing with the independent parser.')
prop('P24', 'UTCTiming and the time resources tell the right time',
     'The MPD contains exactly the UTCTiming elements asked for, in that order and after the Periods, with the right scheme and value: the request time for '
     'direct, the time resource of this server (same protocol and host) for head, the documented servers for the others. Unknown methods are refused, and '
     'nothing else in the MPD changes.',
     IC, 'all lists of methods and times', 'one list in the tests', [MPDPROC, PROXY], [('create_descriptor_elem UTCTiming', MPDPROC)], ['MPD'], 'Model of each method.')
prop('P25', 'Simulated losses occur exactly in the announced up and down intervals',
     'With loss patterns (up x s, down y s, or the other way round, repeated from each full minute) as BaseURLs, one BaseURL per pattern is announced, and a '
     'media segment requested through one is refused exactly in the down intervals and served unchanged in the up intervals; the segment served in the '
     'second before a loss carries one event. MPD, init segments and pictures are not affected. With SegmentTimeline losses the timeline stops growing '
     'exactly during the losses.', IC + ['histories'], 'all patterns, times, resources', 'a few instants in the tests',
     [PROXY, CFG, MPDPROC], [('BaseURL up/down', CFG)], ['answers and MPD'], 'Model of the cyclic schedule, compared with loss-free twin requests.')
prop('P26', 'With a session limit every session ends in time, nothing else changes',
     'If the server limits the session length, a plain MPD request is redirected to a URL with its start time and a fresh session id, and resources without a start time are refused. A session is served exactly as without limit until its limit has passed and then gone (410), '
     'and start times in the future are refused; without a limit session marks have no effect.', IC, 'all limits, times and URLs', 'no tests', [WSGI, L + 'sessionid.py', PROXY], [('session handling', WSGI)], ['redirects and answers'], 'Limit set in the module as the operator does.')
prop('P27', 'The VoD analyzer describes the content truthfully',
     'For any live-profile VoD content, the analyzer writes a configuration with the number of the first segment, the number of segments in the loop, durations, timescales and representations, and a timing table that lists the start time and duration of every '
     'segment of the loop. The simulator started with it announces and serves that content correctly.', IC, 'all contents, layouts, segment counts, naming patterns', 'no tests',
     ['dashlivesim/vodanalyzer/dashanalyzer.py', 'dashlivesim/vodanalyzer/mpdprocessor.py'], [('DashAnalyzer', 'dashlivesim/vodanalyzer/dashanalyzer.py')], ['written files and answers with them'], 'Round trip of generated content with known truth.')
prop('P28', 'The caption inserter adds the captions and nothing else',
     'Inserting captions into video segments adds to each frame exactly the caption bytes due at its decode time, in order and none lost. All original NAL '
     'units, durations, flags and other boxes are unchanged and all sizes and offsets (including sidx) are consistent, and no more segments than the limit '
     'asked for are written.',
     IC, 'all segment layouts and caption files', 'no tests', ['dashlivesim/cc_inserter/cc_inserter.py'], [('CCInsertFilter', 'dashlivesim/cc_inserter/cc_inserter.py')], ['written segments'], 'Extracts SEI messages and compares with the schedule.')
prop('P29', 'Generated stpp content is valid and has the asked-for timing',
     'The subtitle generator writes an init segment and media segments with the asked-for track id, timescale, language and durations, whose documents show the right times and numbers, and which are contiguous in time. The simulator serves this content correctly.',
     IC, 'all generator parameters', 'no tests', [L + 'stpp_generator/stpp_creator.py'], [('StppSegment...', L + 'stpp_generator')], ['generated files'], 'Parses generated files with the independent parser.')
prop('P30', 'Thumbnails follow the same schedule as media and are unchanged',
     'A thumbnail image is available in the same window, and refused for the same reasons, as media segments with the same number, and it is, byte for byte '
     'and as image/jpeg, the VoD image at the same position in the loop.',
     IC, 'all contents, times, numbers and session options', 'one thumbnail in the tests', [PROXY], [('thumbnail requests', PROXY)], ['answers'], 'Same model as for media.')
prop('P31', 'timeoffset only shifts presentation time',
     'With a time offset, media times are wall-clock times minus the offset: each segment has the number, bytes and decode time of the segment which the '
     'service without start time and offset shows that much earlier, and the MPD of the session differs only in startNumber, presentationTimeOffset '
     'and producer reference time, accordingly. Availability in wall-clock time is not affected.',
     IC, 'all offsets and times', 'one in the tests', [CFG, PROXY, MPDPROC], [('timeoffset', CFG)], ['MPD and segments'], 'Metamorphic comparison.')
prop('P32', 'Inserted segment indexes describe their segment exactly',
     'With the sidx option, each segment has exactly one index box, directly before its moof, with one reference to the following moof and mdat, whose '
     'timescale, earliest time, size and duration are those of the segment, and nothing else in the segment or MPD differs from those without the option.',
     IC, 'all layouts and sessions', 'one in the tests', [MEDIA], [('sidx insertion', MEDIA)], ['segments'], 'Compares with the same request without option.')
prop('P33', 'Low-latency MPDs signal what the server then does',
     'With a positive chunk duration, the MPD signals the low-latency profile, availabilityTimeOffset and incomplete availability in each SegmentTemplate '
     '(not in BaseURLs), a service description, a producer reference time relating media time to wall-clock, and a UTC time source, and nothing else differs '
     'from the normal MPD. Otherwise none of this is there and BaseURLs carry availabilityTimeOffset. Segments are available exactly from the time '
     'announced.', IC, 'all values', 'one in the tests',
     [MPDPROC, PROXY], [('low latency attributes', MPDPROC)], ['MPD and segments'], 'MPD compared with the normal one.')
prop('P34', 'MPDs are valid: elements, order, attributes, values as in the DASH schema',
     'For a valid VoD MPD and any combination of supported options, the MPD (and each remote period) has only elements, attributes and value formats '
     'of the DASH schema, elements in the order of the schema and as often as allowed, unique Period and Representation ids, what a dynamic or static MPD must have, '
     'and keeps the optional elements of the VoD MPD in every period.',
     IC, 'all valid VoD MPDs, all option combinations and times', 'tests look at single elements of a few MPDs',
     [MPDPROC, L + 'mpd_proxy.py'], [('insertion of elements', MPDPROC), ('remote periods', L + 'mpd_proxy.py')], ['MPD and .period responses'], 'Hand-written rendering of the schema parts concerned.')
prop('P35', 'A player that follows the MPD plays any option combination',
     'A generic player which knows only the MPD (and remote periods), refreshed as it asks, finds every segment the MPD lists as available to be served when it says so, '
     'with the init segment, times and durations announced, and plays on without gap or overlap across periods and updates, whatever combination of options is used.',
     IC, 'all option combinations, contents and times', 'tests look at single answers, and at one option at a time',
     [MPDPROC, PROXY, L + 'segtimeline.py', CFG], [('MPD and segments agree', PROXY)], ['MPDs, remote periods, init and media segments'], 'Knows no option: only what the MPD says.')
prop('P36', 'The stand-alone server answers over HTTP as the application does',
     'The stand-alone server, started with its command line, gives each client over TCP the status, headers and body that the WSGI application gives for that request '
     'at that time, including ranges, queries and chunked delivery, and keeps doing so after clients that send rubbish, reset the connection or leave early.',
     IC, 'all requests and orders of requests, all client misbehaviour', 'no test starts the server',
     ['dashlivesim/mod_wsgi/mod_dashlivesim.py'], [('main()', 'dashlivesim/mod_wsgi/mod_dashlivesim.py')], ['answers on the socket'], 'Differential against the application in process.')

TECH = 'runtime monitoring: %s'
TECHS = {'P21': 'interpreter audit-event monitor over fuzzed requests', 'P22': 'differential replay under histories, threads and environments',
         'P20': 'fuzzing with response and canary monitors', 'P18': 'virtual-clock trace monitor with injected delays',
         'P02': 'trace checker over uniquely identified samples', 'P15': 'trace checker over consecutive segments',
         'P08': 'history checker over MPD updates', 'P12': 'metamorphic trace comparison', 'P31': 'metamorphic trace comparison'}
TRUST = ' Trusts the Python interpreter, the generators and oracles in /verif/vlib; held means held on the executions counted in the evidence.'


def main():
    have = {f[:3].upper() for f in os.listdir(os.path.join(HERE, 'checks')) if f.startswith('p') and f.endswith('.py')}
    na = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'not_applicable.json')) else []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for pid, title, st, over, qtext, why, files, mech, obs, note, level in P:
            for x in files:
                assert os.path.exists(os.path.join('/repo', x)), x
            f.write(json.dumps({'id': pid, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
                                'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': obs,
                                            'hook_needed': None}}) + '\n')
    man = {'version': 1, 'setup_cmd': 'true',
           'hooks': {'guard': 'DASHLIVESIM_VERIF', 'enable': 'no hooks were needed: all monitors attach from outside (WSGI boundary, virtual clock, audit hooks)', 'source_commits': []},
           'checks': [{'property': p[0], 'quick_cmd': 'python3 run.py check %s --tier quick' % p[0], 'thorough_cmd': 'python3 run.py check %s --tier thorough' % p[0],
                       'evidence_file': 'evidence/%s.json' % p[0], 'technique': TECH % TECHS.get(p[0], 'reference-model monitor over generated workloads'),
                       'level': p[10], 'level_note': p[9] + TRUST} for p in P if p[0] in have],
           'not_applicable': na + [{'property': p[0], 'reason': 'check under construction'} for p in P if p[0] not in have]}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
