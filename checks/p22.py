"""A reply is a function of request, time and content: no history, no concurrency, no process environment matters."""
import json
import os
import select
import signal
import subprocess
import sys
import threading

from vlib import pool, vclock
from vlib.digest import digest
from vlib.model import S, url
from vlib.runner import REPO, VERIF, Violation
from vlib.wsgi import Response, Server

PLAN = {'quick': {'cases': 960, 'wall': 240}, 'thorough': {'cases': 24000, 'wall': 700}}
RULE = ('A case = a dozen varied requests, each answered first by a process that has answered nothing else; then (a) all of them in shuffled, '
        'repeated sequences in one process, (b) from several threads with random preemption at source lines, (c) in new interpreters with other '
        'hash seeds, time zones, locales, working directories; shape = kinds of requests, mode, and the interleaving (hash of the switch trace).')
MIN = {'fresh': 833, 'history': 1666, 'threaded': 1000, 'switches': 1000, 'environments': 2}
NA = 12
SWITCH = None


def request(rng, a, now):
    o = pool.session(rng, a, now, kinds=('plain', 'plain', 'start', 'dur', 'rel', 'tfdt', 'modulo'), inf=True)
    s = S(a, o, now)
    kind = rng.choice(['mpd', 'mpd', 'mpd', 'media', 'media', 'media', 'init', 'mux', 'error', 'chunk', 'chunk', 'period', 'sub', 'image'])
    extra, kw = [], {}
    if kind == 'mpd':
        m = rng.choice(sorted(a.mpds))
        tail = m
        extra = rng.choice([[], ['periods_10'], ['periods_60', 'continuous_1'], ['periods_10', 'etp_10', 'etpDuration_20'], ['periods_60', 'mpdcallback_20'],
                            ['periods_10', 'xlink_5'], ['periods_10', 'insertad_2'], ['scte35_2'], ['utc_direct-head-ntp'], ['segtimeline_1'],
                            ['segtimelinenr_1'], ['chunkdur_0.5', 'ato_0.5'], ['baseurl_u20_d20'], ['baseurl_u10_d20', 'baseurl_d5_u10'], ['baseurl_u%d_d20' % x for x in range(1, 6)], ['peroff_1'],
                            ['baseurl_u10_d10', 'segtimelineloss_1', 'segtimeline_1'], ['spd_7'], ['periods_0'], ['nosuch_1']])
        if any('ato' in x for x in extra):
            o.pop('ato', None)
        if any('segtimeline' in x for x in extra):
            m = rng.choice(['Manifest.mpd', 'av_single.mpd'])
            if o.get('_kind') not in ('plain', 'start'):
                o = {}
            tail = m
        if o.get('tsbd', 0) > 400 or o.get('_kind') != 'plain' and 'periods' in ''.join(extra):
            o = {}
    else:
        k = s.last_avail(now) - rng.choice([0, 0, 1]) if s.ato is not None else int(now - s.ast) // a.seg_dur
        t = {'image': 'image', 'sub': 'subtitles'}.get(kind)
        reps = (a.by_type(t) if t else None) or [r for r in a.order if r.ctype != 'image']
        rep = rng.choice(reps)
        tail = a.path(rep, '%d%s' % (s.nr(k), rep.ext))
        if kind == 'init':
            tail = a.path(rep, 'init.mp4')
        elif kind == 'error':
            tail = rng.choice([a.path(rep, '%d.m4s' % (s.nr(k) + 9)), 'none.mpd', a.path('zz', '1.m4s'), a.path(rep, '1.xyz'), a.path(rep, 'abc.m4s')])
        elif kind == 'mux':
            v, au = a.by_type('video')[0], a.by_type('audio')[0]
            tail = a.path('%s__%s' % (v.id, au.id), rng.choice(['init.mp4', '%d.m4s' % s.nr(k)]))
        elif kind == 'chunk':
            extra = ['chunkdur_%s' % rng.choice(['0.5', '0.25', '1'])]
        elif kind == 'period':
            o, tail, extra = {}, 'Manifest.mpd+p%d.period' % (int(now) // 360), ['periods_10', 'xlink_5']
        elif rng.random() < .3:
            extra = [rng.choice(['scte35_3', 'sidx_1', 'baseurl_u10_d20', 'init_5'])]
        if rng.random() < .3:
            kw['rng'] = rng.choice(['bytes=0-9', 'bytes=5-', 'bytes=-7', 'x'])
    if rng.random() < .1:
        kw['https'] = True
    if rng.random() < .1:
        kw['query'] = 'a=b'
    return kind, url(a, o, tail, rng, extra=extra), kw


def child(fn):
    """fn() in a forked child; its JSON result."""
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'w') as f:
                try:
                    x = fn()
                except BaseException as e:  # noqa: B902
                    import traceback
                    x = {'failed': repr(e), 'tb': traceback.format_exc()}
                json.dump(x, f)
        finally:
            os._exit(0)
    os.close(w)
    t = b''
    while True:
        if not select.select([r], [], [], 100)[0]:
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)
            os.close(r)
            raise Violation('requests answered within milliseconds alone are not answered within 100 s (deadlock)', 'hang')
        d = os.read(r, 1 << 20)
        if not d:
            break
        t += d
    os.close(r)
    os.waitpid(p, 0)
    t = json.loads(t)
    if isinstance(t, dict) and 'failed' in t:
        raise Violation('failure in the process under test: %s %s' % (t['failed'], t['tb'][-1500:]), 'failed')
    return t


def bare(srv, path, now, kw):
    """Server.get without signals and clock setting, for threads."""
    r = Response()
    env = srv.environ(path, kw.get('query', ''), kw.get('rng'), kw.get('https', False))

    def start(status, headers, exc_info=None):
        r.line, r.headers, r.status = status, list(headers), int(status[:3])
        return None
    try:
        for piece in srv.app(env, start):
            r.pieces.append((0, bytes(piece)))
    except Exception as e:
        r.exc = '%s: %s' % (type(e).__name__, e)
    Server.check_body(r, None)
    return r


def threads(srvs, reqs, nthreads, seed, now):
    import random
    vclock.CLOCK.set(now)
    vclock.CLOCK.frozen = True
    sys.setswitchinterval(1e-5)
    trace = []
    real = vclock.REAL['sleep']
    res = [None] * len(reqs)
    lock = threading.Lock()
    todo = list(range(len(reqs)))

    def run(t):
        rng = random.Random('%s/%d' % (seed, t))
        nap = [rng.randrange(1, 120)]

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(REPO):
                return None

            def local(frame, event, arg):
                if event == 'line':
                    nap[0] -= 1
                    if nap[0] <= 0:
                        nap[0] = rng.randrange(1, 120)
                        if len(trace) < 5000:
                            trace.append((t, frame.f_lineno))
                        real(0)
                return local
            return local
        sys.settrace(tracer)
        try:
            while True:
                with lock:
                    if not todo:
                        return
                    i = todo.pop(0)
                s, p, kw = reqs[i]
                res[i] = digest(bare(srvs[s], p, now, kw))
        finally:
            sys.settrace(None)
    ts = [threading.Thread(target=run, args=(t,)) for t in range(nthreads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sw = sum(1 for x, y in zip(trace, trace[1:]) if x[0] != y[0])
    import hashlib
    return res, sw, hashlib.sha1(repr([x[0] for x in trace]).encode()).hexdigest()[:12]


def case(ctx, i):
    rng = ctx.rng
    pair = [pool.asset(ctx, i % NA), pool.asset(ctx, (i + 5) % NA)]
    srvs = [x[1] for x in pair]
    t0 = pool.pick_now(rng, pair[0][0])
    t0 = min(max(t0, 200000), (2 ** 32 - 2 * 10 ** 7) * min(x[0].seg_dur for x in pair))
    mode = ('history', 'threads', 'history', 'threads', 'history', 'env')[i % 6] if i % 12 != 11 else 'env'
    reqs, kinds = [], []
    for _ in range(12):
        s = rng.choice([0, 0, 1])
        now = t0 if mode == 'threads' else t0 + rng.choice([0, 0, 1, -30, 100000, -100000])
        kind, p, kw = request(rng, pair[s][0], now)
        reqs.append((s, p, now, kw))
        kinds.append(kind)
    burst = mode == 'threads' and rng.random() < .5          # many clients at once with the very first requests
    if burst:
        reqs, kinds = reqs[:4], kinds[:4]
    ref = []
    for s, p, now, kw in reqs:
        ref.append(child(lambda: digest(srvs[s].get(p, now, **kw))))
        ctx.count('fresh')

    def same(what, q, got):
        s, p, now, kw = reqs[q]
        ctx.judge(got == ref[q], '%s %s at %r: a fresh process answers %r, %s %r' % (p, kw, now, ref[q], what, got), mode)
    if mode == 'history':
        seq = list(range(len(reqs))) * 2
        rng.shuffle(seq)
        got = child(lambda: [digest(srvs[reqs[q][0]].get(reqs[q][1], reqs[q][2], **reqs[q][3])) for q in seq])
        for q, g in zip(seq, got):
            same('after %s' % [reqs[x][1] for x in seq[:seq.index(q)]][-6:], q, g)
            ctx.count('history')
        ctx.shape(mode, tuple(sorted(kinds)))
    elif mode == 'threads':
        seq = list(range(len(reqs))) * 2
        rng.shuffle(seq)
        if burst:
            seq = [n for n in range(len(reqs)) for _ in range(6)]
            ctx.count('bursts')
        got, sw, h = child(lambda: threads(srvs, [(reqs[q][0], reqs[q][1], reqs[q][3]) for q in seq], 6 if burst else rng.choice([2, 4, 6]), i, t0))
        for q, g in zip(seq, got):
            same('concurrently', q, g)
            ctx.count('threaded')
        ctx.count('switches', sw)
        ctx.shape(mode, burst, h)
    else:
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 10 ** 6)), VERIF_REPO=REPO,
                   TZ=rng.choice(['America/New_York', 'Asia/Kolkata', 'Pacific/Auckland', 'UTC+7', 'Europe/Stockholm']),
                   LC_ALL=rng.choice(['C', 'POSIX', 'C.UTF-8', 'sv_SE.UTF-8']))
        dirs = [(s.content_root, s.vod_dir) for s in srvs]
        p = subprocess.run([sys.executable, os.path.join(VERIF, 'vlib', 'replayer.py')], input=json.dumps([dirs, reqs]).encode(), env=env,
                           cwd=rng.choice(['/', ctx.tmp, srvs[0].content_root]), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise OSError(12, 'replayer failed: %s' % p.stderr[-500:])
        for q, g in enumerate(json.loads(p.stdout)):
            same('one with TZ=%s LC_ALL=%s PYTHONHASHSEED=%s' % (env['TZ'], env['LC_ALL'], env['PYTHONHASHSEED']), q, g)
        ctx.count('environments')
        ctx.shape(mode, env['TZ'], env['LC_ALL'], tuple(sorted(set(kinds))))
    ctx.sample({'mode': mode, 'requests': [r[1] for r in reqs[:4]], 'fresh answers': ref[:4]})
    for k, d in zip(kinds, ref):
        ctx.count('served' if d[0] == '2' else 'refused')
