"""The VoD analyzer writes a configuration that describes the content, and the simulator works with it."""
import configparser
import contextlib
import io
import os
import re
import shutil
import struct
import sys
from fractions import Fraction as F

from vlib import client, oracle, pool
from vlib.model import S, url
from vlib.mpd import Mpd
from vlib.runner import Violation
from vlib.wsgi import Server

PLAN = {'quick': {'cases': 6500, 'wall': 240}, 'thorough': {'cases': 162500, 'wall': 600}}
RULE = ('A case = one generated live-profile VoD content (layout of init and media segments, uneven durations, first number, naming, left-over files, '
        'representations with surplus segments, or content with drift or a hole), analyzed in a scratch directory; the written files against the truth, and '
        'the simulator with them against the simulator with the configuration of the generator; shape = variant, path form, uneven, layouts, naming.')
MIN = {'tables_with_gaps': 10, 'command_line': 60, 'durations': 100, 'analyzed': 20, 'refused': 1, 'table_entries': 66, 'answers_compared': 100, 'surplus': 5}
ASSUMPTIONS = ['The analyzer handles one audio and one video AdaptationSet with a contentType and a common integer segment duration (as it documents).']


def duration(rng, secs):
    """secs as an xs:duration, in one of the many ways"""
    h, r = divmod(secs, 3600)
    m, s = divmod(r, 60)
    d, h2 = divmod(h, 24)
    return rng.choice(['PT%dS' % secs, 'PT%dM%dS' % divmod(secs, 60), 'PT%dH%dM%dS' % (h, m, s), 'PT%dS' % secs, 'PT%d.000S' % secs,
                       'PT%dH%dM%d.%sS' % (h, m, s, rng.choice(['0', '000', '04', '999'])), 'P0Y0M0DT%dH%dM%d.000S' % (h, m, s),
                       'P%dDT%dH%dM%dS' % (d, h2, m, s), 'P0DT%dS' % secs] + (['PT%dM' % (secs // 60)] if s == 0 else []))


def run(ctx, mpd, cwd, length):
    from dashlivesim.vodanalyzer import dashanalyzer
    here = os.getcwd()
    out = io.StringIO()
    argv = sys.argv
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            how = ctx.rng.choice(['api', 'api', [], ['-v'], ['--verbose']])
            if how == 'api':
                dashanalyzer.DashAnalyzer(mpd, ctx.rng.choice([0, 1])).analyze()
            else:
                sys.argv = ['dashanalyzer.py'] + how + [mpd]
                dashanalyzer.main()
                ctx.count('command_line')
        told = re.search(r'mediaPresentationDuration\D*(\d+)', out.getvalue())
        if length is not None and told:
            ctx.count('durations')
            ctx.judge(int(told.group(1)) == length, '%s: the analyzer tells a duration of %s s, it is %d s' % (mpd, told.group(1), length), 'duration')
        return None
    except dashanalyzer.DashAnalyzerError as e:
        return str(e)
    except (Exception, SystemExit) as e:
        raise Violation('analyzer fails for %s: %r' % (mpd, e), 'crash')
    finally:
        os.chdir(here)
        sys.argv = argv


def tree(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def case(ctx, i):
    rng = ctx.rng
    sd = rng.choice([1, 2, 2, 3, 4, 6])
    n = rng.choice([1, 2, 3, 4, 5, 6, 7])
    a, srv0 = pool.asset(ctx, 'c%d' % i, version='1.1', subs=rng.random() < .15, image=False, seg_dur=sd, n=n, dense=rng.random() < .9,
                         prefix=rng.choice(['', '', 'media/']), only='any', gaps=rng.random() < .25,
                         **({'first': rng.choice([9, 9998, 9999, 10001, 32766, 65520, rng.randrange(100, 65000)])} if i % 11 == 10 else {}))
    ctx.cache.pop(('asset', 'c%d' % i), None)
    for k in [k for k in ctx.cache if k[0] == 'asset']:
        del ctx.cache[k]
    root = os.path.dirname(a.content_root)
    try:
        one(ctx, rng, a, srv0, root)
    finally:
        shutil.rmtree(root)


def one(ctx, rng, a, srv0, root):
    base = os.path.join(a.content_root, a.name)
    variant = rng.choice(['plain', 'plain', 'surplus', 'surplus', 'hole', 'scaled', 'named', 'junk'])
    av = [r for r in a.order if r.ctype in ('video', 'audio')]
    name = rng.choice(['Manifest.mpd', 'Manifest.mpd', 'av_single.mpd'])
    if name == 'av_single.mpd':
        av = a.by_type('video')[:1] + a.by_type('audio')[:1]
    n = a.n
    uneven = any(len({s.dur for s in r.segs}) > 1 for r in av)
    mpd = os.path.join(base, name)
    if variant == 'surplus':
        # the shortest representation determines the loop
        keep = {r.id: a.n - rng.choice([0, 0, 1, 2]) for r in av}
        keep = {k: max(1, v) for k, v in keep.items()}
        for r in av:
            for s in r.segs[keep[r.id]:]:
                os.remove(os.path.join(base, a.prefix + r.id, '%d%s' % (s.nr, r.ext)))
        n = min(keep.values())
        if len(set(keep.values())) > 1:
            ctx.count('surplus')
    hole = None
    if variant == 'hole' and a.n >= 3:
        r = rng.choice(av)
        hole = rng.choice(r.segs[1:-1])
        os.remove(os.path.join(base, a.prefix + r.id, '%d%s' % (hole.nr, r.ext)))
    if variant == 'scaled':
        with open(mpd) as f:
            t = f.read()
        ts = rng.choice([1000, 90000, 48000])
        t = t.replace(' timescale="1"', '').replace('duration="%d" startNumber' % a.seg_dur, 'timescale="%d" duration="%d" startNumber' % (
            ts, a.seg_dur * ts))
        with open(mpd, 'w') as f:
            f.write(t)
    if variant == 'named':
        pre, post = rng.choice([('seg-', ''), ('seg_', '_x'), ('s.1.', ''), ('', '-dash'), ('a+b', ''), ('(x)', '[1]'), ('', '~(2)')])
        for r in av:
            d = os.path.join(base, a.prefix + r.id)
            for f in os.listdir(d):
                if f != 'init.mp4':
                    x, ext = os.path.splitext(f)
                    os.rename(os.path.join(d, f), os.path.join(d, pre + x + post + ext))
        with open(mpd) as f:
            t = f.read()
        with open(mpd, 'w') as f:
            f.write(t.replace('$Number$', pre + '$Number$' + post))
    if variant == 'junk':
        for r in av:
            d = os.path.join(base, a.prefix + r.id)
            for f in rng.sample(['x12.m4s.bak', '99.m4s.tmp', 'readme.txt', 'init2.mp4', 'a7.m4s', '12.mp4', '5xm4s', '%d.m4sx' % (a.first + a.n)], 3):
                open(os.path.join(d, f), 'w').close()
    drift = any(abs(F(s.start + s.dur, r.timescale) - (s.nr - a.first + 1) * a.seg_dur) >= F(int(r.timescale * .1), r.timescale)
                for r in av for s in r.segs if s.nr - a.first < (n if len(av) == 0 else a.n)
                if os.path.exists(os.path.join(base, a.prefix + r.id)))
    with open(mpd) as f:
        t = f.read()
    length = rng.choice([a.loop] * 3 + [5, 3600, 3661, 7325, 86400, 90061, 200000])
    t, k = re.subn(r'mediaPresentationDuration="[^"]*"', 'mediaPresentationDuration="%s"' % duration(rng, length), t)
    if k != 1 or rng.random() < .05:
        t, length = re.sub(r' mediaPresentationDuration="[^"]*"', '', t), None
    with open(mpd, 'w') as f:
        f.write(t)
    form = rng.choice(['abs', 'rel', 'here'])
    cwd = os.path.join(root, 'work')
    os.makedirs(cwd)
    if form == 'rel':
        cwd = a.content_root
        arg = a.name + '/' + name
    elif form == 'here':
        cwd = base
        arg = name
    else:
        arg = mpd
    before = tree(root)
    err = run(ctx, arg, cwd, length)
    w = '%s of %s (%s): ' % (arg, a.describe(), variant)
    if hole is not None:
        ctx.judge(err is not None and 'missing' in err, w + 'segment %d removed, analyzer says %s' % (hole.nr, err), 'hole')
        ctx.count('refused')
        return
    if drift:
        if variant != 'surplus':
            ctx.judge(err is not None and 'drift' in err, w + 'segments drift by 100 ms, analyzer says %s' % err, 'drift')
            ctx.count('refused')
        return
    ctx.judge(err is None, w + 'analyzer refuses: %s' % err, 'refused')
    ctx.count('analyzed')
    bn = 'content' if form == 'here' else a.name
    after = tree(root)
    types = [t for t in ('video', 'audio', 'text') if any(x[0] == t for x in a.mpds[name])]
    made = {os.path.relpath(os.path.join(cwd, f), root) for f in [bn + '.cfg'] + ['%s_%s.dat' % (bn, t) for t in types]}
    ctx.judge({k for k in after if before.get(k) != after[k]} == made and set(before) <= set(after), w + 'changed files %s' % sorted(
        k for k in set(after) | set(before) if before.get(k) != after.get(k)), 'files')
    c = configparser.RawConfigParser()
    c.read(os.path.join(cwd, bn + '.cfg'))
    got = {s: dict(c.items(s)) for s in c.sections()}
    want = {'General': {'version': '1.1'}, 'Setup': {'default_tsbd_secs': '300', 'segment_duration_s': str(a.seg_dur),
                                                     'nr_segments_in_loop': str(n), 'first_segment_in_loop': str(a.first)}}
    for t in ('video', 'audio'):
        reps = [r for r in av if r.ctype == t]
        if not reps:
            continue
        want[t] = {'representations': ','.join(r.id for r in reps), 'timescale': str(reps[0].timescale),
                   'total_duration': str(reps[0].segs[n - 1].start + reps[0].segs[n - 1].dur - reps[0].segs[0].start), 'dat_file': '%s_%s.dat' % (bn, t)}
        with open(os.path.join(cwd, '%s_%s.dat' % (bn, t)), 'rb') as f:
            dat = f.read()
        ctx.judge(len(dat) % 12 == 0, w + '%s table of %d bytes' % (t, len(dat)), 'table')
        segs = []
        for nr, rpt, st, du in struct.iter_unpack('HHII', dat):
            for j in range(rpt + 1):
                segs.append((nr + j, st + j * du, du))
            ctx.count('table_entries')
        table_tool(ctx, rng, w, dat)
        truth = [(s.nr, s.start, s.dur) for s in reps[0].segs[:n]]
        if any(reps[0].opt.get('gaps') or []):
            ctx.count('tables_with_gaps')
        ctx.judge(segs == truth, w + '%s table lists %s instead of %s' % (t, segs, truth), 'table')
    ctx.judge(got == want, w + 'configuration %s instead of %s' % (got, want), 'config')
    ctx.shape(variant, form, uneven, a.n == n, len(av), a.prefix, *[r.opt['desc'][-4:] for r in av[:2]], a.first,
              av[0].opt['tfdt'], av[0].opt['dur'], av[0].opt['init_ver'], av[0].opt['styp'], av[0].opt['multi_trun'])
    if variant in ('named', 'scaled'):
        return
    # the simulator with what the analyzer wrote, and with the truth
    exact = all(r.segs[n - 1].start + r.segs[n - 1].dur <= n * a.seg_dur * r.timescale for r in av)   # no segment reaches into the next loop
    full = n == a.n and name == 'Manifest.mpd'
    cfgd = os.path.join(root, 'vc2')
    os.makedirs(cfgd)
    with open(os.path.join(cwd, bn + '.cfg')) as f:
        t = f.read()
    with open(os.path.join(cfgd, a.name + '.cfg'), 'w') as f:
        f.write(t)
    for t in sorted({r.ctype for r in av}):
        shutil.copy(os.path.join(cwd, '%s_%s.dat' % (bn, t)), cfgd)
    srv = Server(a, vod_dir=cfgd)
    a.tsbd = int(want['Setup']['default_tsbd_secs'])
    m = a.n
    a.n = n
    try:
        for _ in range(3):
            now = pool.pick_now(rng, a)
            o = pool.session(rng, a, now, kinds=('plain', 'start', 'dur'), ato=False)
            o['tsbd'] = rng.choice([10, 60, 3 * a.seg_dur])
            s = S(a, o, now)
            if s.media_at_ast % s.sd:
                continue
            q = [(url(a, o, name, rng, extra=['segtimeline_1']), None), (url(a, o, name, rng), None)]
            for r in rng.sample(av, 1 + (len(av) > 1)):
                for k in range(max(0, s.last_avail(now) - 1), s.last_avail(now) + 1):
                    if not s.reasons(k, now):
                        q.append((url(a, o, a.path(r, '%d%s' % (s.nr(k), r.ext)), rng), (r, k)))
            for p, x in q:
                r = srv.get(p, now)
                oracle.judge_http(ctx, r)
                if x is not None:
                    rep, k = x
                    src, off = s.vod(k)
                    ctx.judge(r.status == 200, w + '%s at %r: %s' % (p, now, r.brief()), 'serve')
                    got, boxes, sm = client.identify(a, rep, r.body)[:3]
                    v = rep.segs[src - a.first]
                    ctx.judge(got is v and client.decode_time(boxes) == v.start + off * rep.timescale, w + '%s at %r: VoD segment %d at %d, expected %d at %d' % (
                        p, now, got.nr, client.decode_time(boxes), v.nr, v.start + off * rep.timescale), 'serve')
                else:
                    ctx.judge(r.status == 200, w + '%s at %r: %s' % (p, now, r.brief()), 'serve')
                    if 'segtimeline_1' in p and exact:
                        listed(ctx, w, a, s, Mpd(r.text, 'http://%s%s' % (srv.host, p)), p, now)
                if full:
                    r0 = srv0.get(p, now)
                    ctx.judge((r0.status, r0.body) == (r.status, r.body), w + '%s at %r: %s instead of %s' % (p, now, r.brief(), r0.brief()), 'same')
                    ctx.count('compared_with_truth')
                ctx.count('answers_compared')
    finally:
        a.n = m


def table_tool(ctx, rng, w, dat):
    """parse_dat_file: silent about a contiguous table, tells every jump in a damaged one, lists the entries when verbose"""
    from dashlivesim.vodanalyzer import parse_dat_file as tool
    ents = list(struct.iter_unpack('HHII', dat))
    if rng.random() < .5:
        j = rng.randrange(len(ents))
        e = list(ents[j])
        e[rng.choice([2, 3])] += rng.choice([1, 1, 1000])
        ents[j] = tuple(e)
    data = b''.join(struct.pack('HHII', *e) for e in ents)
    jumps = [(y[2], x[2] + x[3] * (x[1] + 1)) for x, y in zip(ents, ents[1:]) if x[2] + x[3] * (x[1] + 1) != y[2]]
    verbose = rng.choice([0, 0, 1, 2])
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            tool.parse_dat_file(io.BytesIO(data), verbose)
    except (Exception, SystemExit) as e:
        raise Violation(w + 'parse_dat_file fails for %s: %r' % (ents, e), 'tool')
    lines = out.getvalue().splitlines()
    bad = [x for x in lines if 'ismatch' in x]
    ctx.judge([tuple(int(v) for v in re.findall(r'\d+', x)) for x in bad] == jumps, w + 'parse_dat_file tells %s for the table %s' % (bad, ents), 'tool')
    ctx.judge(len(lines) - len(bad) == (len(ents) if verbose else 0), w + 'parse_dat_file lists %d entries of %d' % (len(lines) - len(bad), len(ents)), 'tool')
    ctx.count('tables_checked')


def listed(ctx, w, a, s, m, p, now):
    """contiguous, and every entry is a real segment of the loop"""
    for per in m.periods:
        for st in per.sets:
            rep = a.reps[st.reps[0]]
            ents = st.t.entries(gaps=True)
            truth = {}
            end = None
            for e in ents:
                t, d = e[0], e[1]
                j = (F(t, rep.timescale) + F(1, 5)) // a.seg_dur
                src, off = a.first + j % a.n, j // a.n * a.loop
                v = rep.segs[int(src - a.first)]
                ctx.judge((t, d) == (v.start + off * rep.timescale, v.dur), w + '%s at %r: lists %d+%d, the segment is %d+%d' % (
                    p, now, t, d, v.start + off * rep.timescale, v.dur), 'listed')
                ctx.judge(end is None or abs(end - t) <= rep.timescale / 5, w + '%s at %r: gap from %s to %d' % (p, now, end, t), 'listed')
                end = t + d
                ctx.count('listed')
