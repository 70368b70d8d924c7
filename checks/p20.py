"""Whatever is asked for, there is one complete, well-formed answer."""
import os
import random
import re
import shutil
import string

from vlib import isobmff as mp4
from vlib import oracle, pool
from vlib.model import url
from vlib.mpd import Mpd
from vlib.wsgi import Server

PLAN = {'quick': {'cases': 150000, 'wall': 240}, 'thorough': {'cases': 3750000, 'wall': 700}}
RULE = ('A case = one hostile request: grammar-made URLs with absurd option values, mutated valid URLs, random bytes, odd request lines and '
        'headers, requests against damaged or missing content; shape = generator, options present, extension, status, first words of the error.')
MIN = {'valid': 1000, 'ok': 500, 'refused': 1666, 'damaged': 266, 'canary': 166}
NA = 24
KEYS = ("start", "ast", "stop", "startrel", "stoprel", "dur", "timeoffset", "init", "tsbd", "mup", "modulo", "tfdt", "cont", "periods", "xlink",
        "etp", "etpDuration", "insertad", "mpdcallback", "continuous", "segtimeline", "segtimelinenr", "baseurl", "peroff", "scte35", "utc", "snr",
        "ato", "spd", "sidx", "segtimelineloss", "sts", "sid", "chunkdur")
VALS = ['', '0', '1', '-1', '2', '3', '10', '60', '61', '300', '3600', '-3600', '100000', 'x', 'inf', 'nan', '-inf', '1e3', '1.5', '0.5', '-0.5', '1_000',
        ' 1', '%31', '\u00e5', '99999999999999999999', '-99999999999999999999', '2147483648', '4294967296', '1e309', 'u20_d40', 'd10_u50', 'u0_d0',
        'u_d', 'x1_y2', 'u20', '_', 'u60_d60', 'u-5_d10', 'u1_d1', 'direct', 'head-ntp', 'bogus', '1-2', '_1', '1_', '0x10', 'true', '..', '.',
        '1\u0662', 'u5_d0', 'u0_d5', 'd0_u0', '0.0001', '1e-9', '\x00']


def option(rng, now):
    k = rng.choice(KEYS)
    if k == 'chunkdur' and rng.random() < .9:
        k = 'tsbd'
    v = rng.choice(VALS)
    if k in ('start', 'stop', 'ast', 'timeoffset', 'sts') and rng.random() < .5:
        v = str(int(now) + rng.choice([0, -1, 1, -100, 100, -10 ** 6, 10 ** 9]))
    return '%s_%s' % (k, v)


def heavy(parts):
    """URLs that ask for a gigantic answer get one, which is not what is tested here."""
    d = {}
    for p in parts:
        k, _, v = p.partition('_')
        d.setdefault(k, []).append(v)

    def num(v):
        try:
            return abs(float(v))
        except ValueError:
            return 0
    big = any(num(v) > 20000 for k in ('tsbd', 'start', 'ast', 'stop', 'startrel', 'stoprel') for v in d.get(k, []))
    return big and any(k in d for k in ('periods', 'segtimeline', 'segtimelinenr'))


def resized(rng, d):
    """One box with another size than it has."""
    at = [m.start() - 4 for m in re.finditer(rb'styp|sidx|moof|mfhd|traf|tfhd|tfdt|trun|mdat|emsg|moov|trak|mvhd|mvex|trex|mdia|mdhd|senc|saio', d) if m.start() >= 4]
    if not at:
        return d
    q = rng.choice(at + at[-1:])
    n = rng.choice([0, 0, 1, 4, 7, 8, 12, 2 ** 31, 2 ** 32 - 1, int.from_bytes(d[q:q + 4], 'big') + rng.choice([-4, 4, 1, -1, 100])]) % 2 ** 32
    return d[:q] + n.to_bytes(4, 'big') + d[q + 4:]


def asset(ctx, j):
    """good content, or a damaged copy"""
    key = ('dmg', j)
    if key in ctx.cache:
        return ctx.cache[key]
    a, srv = pool.asset(ctx, j)
    rng = random.Random('%s/%s/dmg/%s' % (ctx.seed, ctx.pid, j))
    hurt = None
    if j % 3 == 2:
        root = os.path.join(ctx.tmp, 'd%d' % j)
        shutil.copytree(os.path.dirname(a.content_root), root)
        base = os.path.join(root, 'content', a.name)
        cfg = os.path.join(root, 'vodcfg', a.name + '.cfg')
        hurt = rng.choice(['cfg', 'cfgkeys', 'trunc', 'bits', 'sizes', 'sizes', 'missing', 'empty', 'mpd', 'dat', 'perm'])
        files = [os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs]
        if hurt == 'cfg':
            open(cfg, 'w').write(rng.choice(['', '[General]\nversion=9\n', 'garbage', '[General]\nversion = 1.0\n']))
        elif hurt == 'cfgkeys':
            t = [x for x in open(cfg).read().split('\n') if rng.random() < .8]
            open(cfg, 'w').write('\n'.join(t))
        elif hurt == 'mpd':
            for f in files:
                if f.endswith('.mpd'):
                    t = open(f, encoding='utf-8').read()
                    open(f, 'w', encoding='utf-8').write(rng.choice([t[:len(t) // 2], '', t.replace('SegmentTemplate', 'Segmentlist'),
                                                                     t.replace('Period', 'Perioda'), t.replace('profiles=', 'p='),
                                                                     t.replace('urn:mpeg:dash:schema:mpd:2011', 'urn:x')]))
        elif hurt == 'dat':
            for f in os.listdir(os.path.dirname(cfg)):
                if f.endswith('.dat'):
                    open(os.path.join(os.path.dirname(cfg), f), 'wb').write(b'\1\2\3' * rng.randrange(9))
        else:
            for f in files:
                if f.endswith('.mpd') or rng.random() < .3:
                    continue
                d = open(f, 'rb').read()
                if hurt == 'trunc':
                    d = d[:rng.randrange(0, len(d) + 1)]
                elif hurt == 'empty':
                    d = b''
                elif hurt == 'bits':
                    d = bytearray(d)
                    for _ in range(rng.randrange(1, 6)):
                        q = rng.randrange(len(d))
                        if q % 4 != 3 and d[q] or True:
                            d[q] ^= 1 << rng.randrange(8)
                    d = bytes(d)
                elif hurt == 'sizes':
                    d = resized(rng, d)
                elif hurt in ('missing', 'perm'):
                    os.remove(f)
                    if hurt == 'perm':
                        os.makedirs(f)
                    continue
                open(f, 'wb').write(d)
        ctx.cache[key] = (a, Server(None, os.path.join(root, 'content'), os.path.join(root, 'vodcfg')), hurt)
    else:
        ctx.cache[key] = (a, srv, None)
    return ctx.cache[key]


def case(ctx, i):
    rng = ctx.rng
    a, srv, hurt = asset(ctx, i % NA)
    now = rng.choice([pool.pick_now(rng, a), pool.pick_now(rng, a), 0, 0.5, 1, 10 ** 10])
    rep = rng.choice(a.order)
    gen = rng.choice(['grammar', 'grammar', 'mutate', 'mutate', 'bytes', 'line', 'valid'])
    nr = int(now // a.seg_dur) - rng.choice([1, 1, 2, 0])
    tail = rng.choice(['Manifest.mpd', 'Manifest.mpd', 'av_single.mpd', a.path(rep, 'init.mp4'), a.path(rep, '%d%s' % (nr, rep.ext)),
                       a.path(rep, '%d%s' % (nr, rep.ext)), a.path(rep, 't%d%s' % (nr * a.seg_dur * rep.timescale, rep.ext)), 'thumbs.mpd',
                       'Manifest.mpd+p%d.period' % (int(now) // 3600), '%s__%s/init.mp4' % (a.order[0].id, rng.choice(a.order).id),
                       '%s__%s/%d.m4s' % (a.order[0].id, rng.choice(a.order).id, nr)])
    extra = {}
    ruri = None
    parts = []
    if gen in ('grammar', 'mutate'):
        parts = [option(rng, now) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]))]
        if heavy(parts):
            parts = [p for p in parts if not p.startswith(('periods', 'segtimeline'))]
        if rng.random() < .3:
            tail = rng.choice(['', '.mpd', '.m4s', 'x.mp4', a.path(rep, '.m4s'), a.path(rep, 't.m4s'), a.path(rep, 'abc.m4s'), a.path(rep, '-5.m4s'),
                               a.path(rep, '1.5.m4s'), a.path(rep, '99999999999999999999999.m4s'), a.path(rep, '1.jpg'), a.path(rep, 'init.m4s'),
                               a.path(rep, '%d.mp4' % nr), a.path('__', '1.m4s'), a.path('A__B__C', '1.m4s'), a.path('x/y/z', '1.m4s'), a.path(rep, ''),
                               'Manifest.mpd+.period', 'Manifest.mpd+p.period', '+p1.period', '.period', 'Manifest.period', 'M+p1+p2.period', '1.m4s',
                               a.path(rep, 'tnan.m4s'), a.path(rep, 'tinf.m4s'), a.path(rep, 't1e400.m4s'), a.path(rep, 't-1.m4s'), 'a.b.c.mpd',
                               a.path(rep, '\u0661.m4s'), a.path(rep, '0x1.m4s'), a.path(rep, ' 1.m4s'), a.path(rep, '1_0.m4s'), 'init.mp4', 'Manifest.mpd/'])
        p = '/' + '/'.join(['livesim'] + parts + [a.name, tail])
    elif gen == 'valid':
        o = pool.session(rng, a, now)
        if o.get('tsbd', 0) > 3000:
            o['tsbd'] = 60
        ex = pool.neutral(rng, .2)
        if any(x.startswith(('segtimeline', 'periods', 'xlink', 'mpdcallback', 'etp')) for x in ex):
            ex = []                                          # these do not go with everything
        p = url(a, o, tail, rng, extra=ex)
    elif gen == 'bytes':
        p = '/' + ''.join(chr(rng.randrange(1, 256)) for _ in range(rng.randrange(0, 60)))
    else:
        p = rng.choice(['', '/', '//', '///', '*', 'http://h/livesim/%s/Manifest.mpd' % a.name, '//[', '//[x]/livesim', 'http://[::1/x', '?', '?a=b', '/livesim',
                        '/livesim/', '/livesim//', '/livesim/' + a.name, '/livesim/%s/' % a.name, '/' + 'a/' * 3000 + 'x.mpd', '/livesim/' + 'tsbd_1/' * 2000 +
                        a.name + '/Manifest.mpd', '/livesim/%s/Manifest.mpd;x=1' % a.name, '/livesim/%s/Manifest.mpd#f' % a.name, 'livesim/%s/Manifest.mpd' % a.name,
                        '/livesim/%s/Manifest%%2empd' % a.name, '/x' * 50 + '.m4s', '/livesim/%s/%s' % (a.name, 'y' * 5000 + '.mpd'),
                        '/livesim/%s/Manifest.mpd?%s' % (a.name, '&'.join('a=%d' % n for n in range(2000))), '/a:b/c.mpd', 'a:b', '/livesim/\x00/x.mpd'])
    if gen == 'mutate':
        t = list(p)
        for _ in range(rng.randrange(1, 5)):
            if not t:
                break
            q = rng.randrange(len(t))
            r = rng.random()
            if r < .3:
                t[q] = rng.choice(string.printable[:95] + '\u00e9')
            elif r < .5:
                del t[q]
            elif r < .7:
                t.insert(q, rng.choice('/_.-+~%;:0123456789'))
            else:
                q2 = min(len(t), q + rng.randrange(1, 8))
                t[q:q2] = t[q:q2] * 2
        p = ''.join(t)
        if heavy(p.split('/')):
            return
    if rng.random() < .1:
        extra['HTTP_RANGE'] = rng.choice(['bytes=0-10', 'bytes=-0', 'x', 'bytes=9-1', ''])
    if rng.random() < .05:
        extra['REQUEST_METHOD'] = rng.choice(['HEAD', 'POST', 'OPTIONS', 'DELETE'])
    if rng.random() < .05:
        extra['HTTP_HOST'] = rng.choice(['', 'x', 'a:b:c', 'h\u00e5st', '<&">', '..'])
    elif rng.random() < .05:
        extra['HTTP_HOST'] = None                            # an HTTP/1.0 client
        ctx.count('without_host')
    q = rng.choice(['', '', '', 'a=b', '&&==', '%zz', 'a' * 3000])
    pi = p.split('?')[0]
    r = srv.get(pi, now, query=q, extra=extra, request_uri=p + ('?' + q if q else ''))
    w = '%r (%s, content %s, %s) at %r: ' % (p[:400], gen, hurt or 'good', extra, now)
    ctx.judge(r.exc is None, w + 'no answer: %s' % r.exc, 'crash')
    ctx.judge(not r.defects, w + 'malformed answer: %s' % r.defects, 'malformed-answer')
    ctx.judge(r.status in (200, 206, 404), w + '%s' % r.line, 'status')
    ctx.judge(r.header('Access-Control-Allow-Origin') == '*' and r.header('Content-Type'), w + 'headers %s' % r.headers, 'headers')
    if hurt:
        ctx.count('damaged')
    if r.status == 404:
        ctx.count('refused')
        ctx.judge(r.header('Content-Type') == 'text/plain' and len(r.body) > 3, w + 'refusal %r %r' % (r.header('Content-Type'), r.body), 'refusal')
    else:
        ctx.count('ok')
        if r.status == 200 and not hurt:
            if pi.endswith('.mpd') and not extra.get('HTTP_HOST') and pi.isprintable():
                # control characters never reach the server in a request line
                Mpd(r.text)
            elif pi.endswith(('.m4s', '.mp4')):
                ctx.judge(len(mp4.parse(r.body)) > 0, w + 'empty', 'media')
    if gen == 'valid' and not hurt and '__' not in tail and '+' not in tail and not extra and 'thumb' not in tail and rep.ctype != 'image' and now < 2 ** 32:
        ctx.count('valid')
        if tail.endswith('.mpd'):
            ctx.judge(r.status == 200 or not os.path.exists(os.path.join(a.content_root, a.name, tail)), w + 'a valid request for an MPD: %s' % r.brief(), 'valid')
        else:
            ctx.judge(r.status != 404 or 'Proxy Error' not in r.text, w + 'a valid request fails: %s' % r.brief(), 'valid')
    msg = ''.join(c for c in r.text[:60] if c.isalpha() or c == ' ') if r.status == 404 else ''
    ctx.shape(gen, tuple(sorted({x.split('_')[0] for x in parts}))[:3], pi[-4:] if len(pi) > 4 else '', r.status, ' '.join(msg.split()[:5]))
    if i % 16 == 3 and not hurt:
        t = 1_600_000_000
        u = '/livesim/%s/Manifest.mpd' % a.name
        g = srv.get(u, t)
        ref = ctx.cache.setdefault(('canary', i % NA), g.body)
        ctx.judge(g.status == 200 and g.body == ref, w + 'afterwards an ordinary MPD is %s' % g.brief(), 'aftermath')
        ctx.count('canary')


__all__ = ['oracle']
