"""HTTP: byte ranges select exactly the requested bytes; status, mime type, CORS and caching headers are right on every reply."""
import re

from vlib import oracle, pool
from vlib.model import S, url

PLAN = {'quick': {'cases': 27000, 'wall': 240}, 'thorough': {'cases': 675000, 'wall': 600}}
RULE = ('A case = one resource (MPD, init, media, thumbnail, .period, chunked, error) fetched whole and with several Range headers (valid, '
        'suffix, open, clipped, unsatisfiable, malformed, multiple, other units); shape = resource, header form, status.')
MIN = {'ranged': 1333, 'partial': 600, 'ignored': 400, 'errors': 50, 'chunked': 20}
NA = 40
MIME = {'.mpd': 'application/dash+xml', '.m4s': 'video/iso.segment', '.mp4': 'video/mp4', '.jpg': 'image/jpeg'}
CORS = {'Access-Control-Allow-Origin': '*', 'Access-Control-Allow-Methods': 'GET,HEAD,OPTIONS',
        'Access-Control-Allow-Headers': 'origin,range,accept-encoding,referer',
        'Access-Control-Expose-Headers': 'Server,range,Content-Length,Content-Range,Date',
        'Cache-Control': 'no-cache', 'Pragma': 'no-cache', 'Expires': '-1', 'Accept-Ranges': 'bytes'}


def parse(h, n):
    """(first, last) the header asks of n bytes; None = to be ignored (served in full); 'no' = unsatisfiable."""
    m = re.match(r'^bytes=([0-9]*)-([0-9]*)$', h, re.I)
    if not m or not (m.group(1) or m.group(2)):
        return None
    if len(h) > 60:
        return 'no'
    if not m.group(1):
        k = int(m.group(2))
        return 'no' if k == 0 or n == 0 else (max(0, n - k), n - 1)
    a = int(m.group(1))
    if m.group(2) and int(m.group(2)) < a:
        return None
    if a >= n:
        return 'no'
    return a, min(int(m.group(2)), n - 1) if m.group(2) else n - 1


def headers(rng, n):
    x = rng.randrange(n)
    y = rng.randrange(x, n)
    good = ['bytes=%d-%d' % (x, y), 'bytes=0-0', 'bytes=0-', 'bytes=%d-' % x, 'bytes=-%d' % rng.randrange(1, n + 1), 'bytes=-%d' % (n * 3),
            'bytes=%d-%d' % (x, n + rng.randrange(0, 1000)), 'bytes=0-%d' % (n - 1), 'bytes=%d-%d' % (n - 1, n - 1), 'bytes=-1',
            'bytes=0-%d' % (n - 2) if n > 1 else 'bytes=0-', 'bytes=%d-%d' % (x, 10 ** 12), 'bytes=-%d' % n, 'bytes=-%d' % (n - 1 or 1),
            'bytes=0-%d' % n]
    bad = ['bytes=%d-%d' % (n, n + 5), 'bytes=%d-' % n, 'bytes=%d-' % (n + 10 ** 9), 'bytes=-0', 'bytes=-', 'bytes=', 'bytes', '',
           'bytes=%d-%d' % (y + 1, y) if y else 'bytes=5-4', 'bytes=a-b', 'bytes=0-1,3-4', 'bytes=-1,-2', 'items=0-5', 'bytes 0-5',
           'bytes=0--5', 'bytes=--5', 'bytes=1.5-3', 'bytes=0x10-0x20', 'bytes=+1-5', 'seconds=1-2', 'bytes=5', 'bytes=0-5-9',
           'bytes=\u0661-\u0662', 'bytes=%s-' % ('9' * 5000), 'bytes=0-5;q=1', '=0-5', 'bytes=1_0-2_0']
    return rng.sample(good, 3) + rng.sample(bad, 2)


def head(ctx, r, w, mime, full):
    for k, v in CORS.items():
        ctx.judge(r.header(k) == v, w + 'header %s is %r' % (k, r.header(k)), 'header')
    ctx.judge((r.header('DASH-Live-Simulator') or '').strip() != '', w + 'no DASH-Live-Simulator header', 'header')
    ctx.judge(r.header('Content-Type') == mime, w + 'content type %s' % r.header('Content-Type'), 'mime')
    if full is not None:
        ctx.judge(r.header('Content-Length') == str(full), w + 'content length %s of %s' % (r.header('Content-Length'), full), 'length')


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA)
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, kinds=('plain', 'plain', 'start', 'tfdt'), inf=False, ato=False)
    s = S(a, o, now)
    k = s.last_avail(now) - rng.choice([0, 0, 1])
    rep = rng.choice(a.order)
    kind = rng.choice(['mpd', 'init', 'media', 'media', 'image', 'period', 'error', 'chunk'])
    extra = []
    mime = None
    if kind == 'mpd':
        tail = 'Manifest.mpd'
    elif kind == 'init' and rep.ctype != 'image':
        tail = a.path(rep, 'init.mp4')
    elif kind == 'image' and a.by_type('image'):
        tail = a.path(a.by_type('image')[0], '%d.jpg' % s.nr(k))
    elif kind == 'period' and 'start' not in o and 'tfdt' not in o and 'timeoffset' not in o:
        tail = 'Manifest.mpd+p%d.period' % (s.now_int // 3600)
        extra = ['periods_1', 'xlink_1']
    elif kind == 'error':
        tail = rng.choice([a.path(rep, '%d%s' % (s.nr(k) + 10, rep.ext)), 'nothing.mpd', a.path(rep, 'x.m4s'), a.path('zz', '1.m4s'), 'Manifest.txt',
                           a.path(rep, '%d%s' % (max(0, s.nr(0) - 1), rep.ext)), a.path(rep, 'none.mp4')])
    else:
        rep = rng.choice([r for r in a.order if r.ctype != 'image'])
        tail = a.path(rep, '%d.m4s' % s.nr(k))
        if kind == 'chunk':
            extra = ['chunkdur_0.5']
        else:
            kind = 'media'
    if kind in ('media', 'image', 'chunk') and (s.reasons(k, now) or s.nr(k) < 0):
        return
    p = url(a, o, tail, rng, extra=extra)
    ext = '.' + tail.rsplit('.', 1)[1]
    r = srv.get(p, now)
    oracle.judge_http(ctx, r)
    w = '%s at %r: ' % (p, now)
    ctx.shape(kind, ext, r.status)
    if kind == 'error' or r.status != 200:
        if kind != 'error' and not (kind == 'init' and s.now_int < s.ast):
            ctx.judge(False, w + r.brief(), 'status')
        if r.status == 200:
            return
        ctx.judge(r.status == 404, w + r.brief(), 'status')
        ctx.judge(len(r.body) > 0, w + '404 without an explanation', 'status')
        head(ctx, r, w, 'text/plain', len(r.body))
        for h in ('bytes=0-1', 'bytes=5-', 'bytes=-3'):
            g = srv.get(p, now, rng=h)
            oracle.judge_http(ctx, g)
            ctx.judge(g.status == 404 and g.header('Content-Range') is None and g.body == r.body, w + '%s of an error: %s' % (h, g.brief()), 'error-range')
            head(ctx, g, w, 'text/plain', len(r.body))
        ctx.count('errors')
        return
    ctx.judge(r.header('Content-Range') is None, w + 'Content-Range without a Range', 'content-range')
    n = len(r.body)
    head(ctx, r, w, MIME.get(ext, 'text/plain'), None if kind == 'chunk' else n)
    for h in headers(rng, n):
        g = srv.get(p, now, rng=h)
        oracle.judge_http(ctx, g)
        ctx.count('ranged')
        wh = '%swith Range %r of %d bytes: ' % (w, h[:60], n)
        want = None if kind == 'chunk' else parse(h, n)
        if kind == 'chunk':
            ctx.count('chunked')
        if isinstance(want, tuple):
            f, l = want
            ctx.judge(g.status == 206, wh + g.line, 'range-status')
            ctx.judge(g.body == r.body[f:l + 1], wh + 'got %d bytes, expected %d..%d' % (len(g.body), f, l), 'range-bytes')
            ctx.judge(g.header('Content-Range') == 'bytes %d-%d/%d' % (f, l, n), wh + 'Content-Range %s' % g.header('Content-Range'), 'content-range')
            head(ctx, g, wh, MIME.get(ext, 'text/plain'), l - f + 1)
            ctx.count('partial')
        else:
            if g.status == 416 and want == 'no':
                continue
            ctx.judge(g.status == 200 and g.body == r.body, wh + g.brief(), 'range-ignored')
            ctx.judge(g.header('Content-Range') is None, wh + 'Content-Range %s' % g.header('Content-Range'), 'content-range')
            head(ctx, g, wh, MIME.get(ext, 'text/plain'), None if kind == 'chunk' else n)
            ctx.count('ignored')
        ctx.shape(kind, re.sub(r'\d+', 'N', h)[:20], g.status)
    # any cut of the resource into ranges puts it together again
    if kind != 'chunk' and rng.random() < .3:
        cuts = sorted({0, n} | {rng.randrange(n) for _ in range(rng.randrange(1, 5))})
        parts = [srv.get(p, now, rng='bytes=%d-%d' % (x, y - 1)) for x, y in zip(cuts, cuts[1:])]
        ctx.judge(all(x.status == 206 for x in parts) and b''.join(x.body for x in parts) == r.body, w + 'ranges %s do not add up' % cuts, 'range-bytes')
