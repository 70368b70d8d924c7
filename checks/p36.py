"""The stand-alone server gives over HTTP exactly what the application answers, to any client, whatever other clients do."""
import http.client
import os
import select
import socket
import struct
import subprocess
import sys

from vlib import oracle, pool
from vlib.model import S, url
from vlib.runner import REPO

PLAN = {'quick': {'cases': 1920, 'wall': 240}, 'thorough': {'cases': 48000, 'wall': 600}}
RULE = ('A case = a series of requests over a loopback socket to the stand-alone server (its own process, started with its command line), some from '
        'clients that send rubbish, reset, or leave in the middle of the answer; each answer against the WSGI application in process at the same time; '
        'shape = kind of resource, status, range, query, chunked, method, what the client before did.')
MIN = {'answers': 2000, 'chunked': 60, 'ranges': 200, 'rude': 150, 'servers': 4, 'not_found': 150}
ASSUMPTIONS = ['One request at a time: the stand-alone server is single-threaded by design.']
NA = 3
HOP = {'date', 'server', 'connection', 'transfer-encoding'}


class Proc:
    def __init__(self, ctx, a):
        self.ctx = ctx
        rng = ctx.rng
        for attempt in range(20):
            self.port = 10000 + ctx.worker % 40 * 500 + rng.randrange(500)    # not in the range used for clients, nor by other workers
            with socket.socket() as s:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                try:
                    s.bind(('127.0.0.1', self.port))
                except OSError:
                    continue
            args = [['-d', '--config_dir'][rng.random() < .5], a.vod_dir, ['-c', '--content_dir'][rng.random() < .5], a.content_root, '--host', '127.0.0.1',
                    '--port', str(self.port)]
            env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1')
            if rng.random() < .5:              # the command line decides, not the environment of the process
                env.update(VOD_CONF_DIR=ctx.tmp, CONTENT_ROOT=ctx.tmp, REQUEST_URI='/livesim/x', SCRIPT_NAME='/x', QUERY_STRING='', SERVER_PORT='1')
            self.p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vlib', 'standalone.py')] + args,
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=ctx.tmp)
            self.p.stdout.readline()
            for _ in range(400):
                try:
                    socket.create_connection(('127.0.0.1', self.port), 5).close()
                    if not self.listens():
                        break                  # that was somebody else
                    ctx.count('servers')
                    return
                except OSError:
                    if self.p.poll() is not None:
                        break
                    select.select([], [], [], .05)
            self.close()
        raise RuntimeError('the server cannot be started')

    def listens(self):
        fds = '/proc/%d/fd' % self.p.pid
        try:
            own = {os.readlink(os.path.join(fds, x)) for x in os.listdir(fds)}
            rows = [ln.split() for name in ('tcp', 'tcp6') if os.path.exists('/proc/net/' + name) for ln in open('/proc/net/' + name)]
        except OSError:
            return self.p.poll() is None
        return any(len(r) > 9 and r[3] == '0A' and r[1].endswith(':%04X' % self.port) and 'socket:[%s]' % r[9] in own for r in rows)

    def at(self, now):
        self.p.stdin.write(b'%r\n' % float(now))
        self.p.stdin.flush()
        self.p.stdout.readline()

    def close(self):
        self.p.kill()
        self.p.wait()


def setup(ctx):
    ctx.procs = {}


def finish(ctx):
    for p in getattr(ctx, 'procs', {}).values():
        p.close()


def requests(ctx, rng, a, srv):
    """(what, path, now, query, range)"""
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, inf=True)
    s = S(a, o, now)
    q = ''
    kind = rng.choice(['mpd', 'mpd', 'media', 'media', 'media', 'init', 'chunked', 'chunked', 'image', 'bad', 'period', 'timeline'])
    rep = rng.choice([r for r in a.order if r.ctype != 'image'])
    k = s.last_avail(now) - rng.choice([0, 0, 1, 3]) if s.ato is not None else int(now - s.ast) // a.seg_dur
    nr = max(0, s.nr(k)) % 2 ** 32
    extra = pool.neutral(rng, .2)
    s = S(a, pool.bounded(o, extra, a, 3000), now)
    if kind == 'mpd':
        tail = rng.choice(sorted(a.mpds))
        if rng.random() < .2:
            q = rng.choice(['x=1', 'a=b&c=d', 'annexI=1', 'sts_1=2', '%20', 'q=%C3%A5'])
    elif kind == 'init':
        tail = a.path(rep, 'init.mp4')
    elif kind == 'image' and a.by_type('image'):
        tail = a.path(a.by_type('image')[0], '%d.jpg' % nr)
    elif kind == 'bad':
        tail = rng.choice(['nothing.mpd', a.path(rep, '%d.m4s' % (nr + 1000)), a.path(rep, 'x.m4s'), 'a.txt', a.path(rep, '%d.m4s' % max(0, nr - 10 ** 6)), '../x.mpd',
                           '\u00e5\u00e4\u00f6.mpd'])
    elif kind == 'timeline':
        tail, extra = 'Manifest.mpd', ['segtimeline_1', 'tsbd_30']
        o.pop('tsbd', None)
    elif kind == 'period':
        tail, extra = rng.choice(['Manifest.mpd', 'Manifest.mpd+p%d.period' % (max(0, now - s.ast) // 60)]), ['periods_60', 'xlink_60', 'tsbd_40']
        o.pop('tsbd', None)
    else:
        tail = a.path(rep, '%d.m4s' % nr)
        if kind == 'chunked':
            extra = ['chunkdur_%s' % rng.choice(['0.5', '1', '0.25'])]
    if 'stop' in o and o['stop'] - o['start'] > 5000:
        o['start'] = o['stop'] - 2000
    rg = None
    if rng.random() < .3:
        rg = rng.choice(['bytes=0-', 'bytes=0-99', 'bytes=-50', 'bytes=10-20', 'bytes=999999999-', 'bytes=5-4', 'bytes=0-0', 'bytes=0-1,3-4', 'items=1-2', 'bytes=100-199'])
    p = url(a, o, tail, rng, extra=extra, prefix=rng.choice(['livesim', 'dash']))
    if rng.random() < .1:                      # empty parts
        parts = p.split('/')
        parts.insert(rng.randrange(2, len(parts)), '')
        p = '/'.join(parts)
    if rng.random() < .05:
        p += '/'
    return kind, p, now, q, rg


def rude(ctx, rng, port, path):
    """A client that does not behave; the server must serve the next one all the same."""
    how = rng.choice(['rubbish', 'reset', 'leave', 'half', 'silent', 'nohost'])
    s = socket.create_connection(('127.0.0.1', port), 30)
    s.settimeout(30)
    try:
        if how == 'rubbish':
            s.sendall(rng.choice([b'\0\1\2\r\n\r\n', b'GET\r\n\r\n', b'FOO / HTTP/9.9\r\n\r\n', b'GET / HTTP/1.1\r\n' + b'X: ' + b'y' * 70000 + b'\r\n\r\n',
                                  b'\r\n\r\n', b'\xff' * 3000 + b'\n']))
            s.shutdown(socket.SHUT_WR)
            while s.recv(65536):
                pass
        elif how == 'reset':
            s.sendall(b'GET %s HTTP/1.1\r\nHost: x\r\n\r\n' % path.encode('utf-8'))
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        elif how == 'leave':
            s.sendall(b'GET %s HTTP/1.1\r\nHost: x\r\n\r\n' % path.encode('utf-8'))
            s.recv(rng.choice([1, 20, 500]))
        elif how == 'half':
            s.sendall(b'GET %s HT' % path.encode('utf-8'))
        elif how == 'nohost':
            s.sendall(b'GET %s HTTP/1.0\r\n\r\n' % path.encode('utf-8'))
            got = b''
            while True:
                x = s.recv(65536)
                if not x:
                    break
                got += x
            ctx.judge(got[:12] in (b'HTTP/1.0 200', b'HTTP/1.0 404'), 'a client without Host header asked for %s: %r' % (path, got[:200]), 'no-host')
            ctx.count('without_host')
    except OSError:
        pass
    finally:
        s.close()
    with socket.create_connection(('127.0.0.1', port), 60) as s:      # the server has finished with that client (its sleeps advance the clock) when this is answered
        s.settimeout(60)
        s.sendall(b'GET /nothing HTTP/1.0\r\n\r\n')
        try:
            got = s.recv(65536)
        except OSError as e:
            got = b''
        ctx.judge(got.startswith(b'HTTP/'), 'no answer to the client after one which did "%s" with %s: %r' % (how, path, got[:80]), 'next-client')
    ctx.count('rude')
    return how


def case(ctx, i):
    rng = ctx.rng
    idx = i % NA
    a, srv = pool.asset(ctx, idx, version='1.1')
    if idx not in ctx.procs or ctx.procs[idx].p.poll() is not None:
        if idx in ctx.procs:
            ctx.judge(False, 'the server process has ended', 'died')
        ctx.procs[idx] = Proc(ctx, a)
    pr = ctx.procs[idx]
    for _ in range(10):
        kind, path, now, q, rg = requests(ctx, rng, a, srv)
        how = None
        if rng.random() < .15:
            pr.at(now)
            how = rude(ctx, rng, pr.port, requests(ctx, rng, a, srv)[1])
        host = '127.0.0.1:%d' % pr.port
        srv.host = host
        try:
            ref = srv.get(path, now, query=q, rng=rg, request_uri=path, extra={'HTTP_HOST': host})
        finally:
            srv.host = 'sim.example:8080'
        w = '%s%s at %r (Range %s, after %s): ' % (path, '?' + q if q else '', now, rg, how)
        pr.at(now)
        c = http.client.HTTPConnection('127.0.0.1', pr.port, timeout=120)
        if rng.random() < .25:
            c._http_vsn, c._http_vsn_str = 10, 'HTTP/1.0'
            ctx.count('http10')
        try:
            wire = path.encode('utf-8').decode('latin-1') if False else ''.join(ch if ord(ch) < 128 else ''.join('%%%02X' % b for b in ch.encode('utf-8')) for ch in path)
            c.putrequest('GET', wire + ('?' + q if q else ''), skip_accept_encoding=True)
            if rg:
                c.putheader('Range', rg)
            if c._http_vsn == 10:
                c.putheader('Host', host)
            c.endheaders()
            r = c.getresponse()
            body = r.read()
        except (OSError, http.client.HTTPException) as e:
            ctx.judge(False, w + 'no answer: %r (application: %s)' % (e, ref.brief()), 'no-answer')
        finally:
            c.close()
        if any(ord(ch) > 127 for ch in path):
            ctx.judge(r.status == 404, w + '%s' % r.status, 'status')     # PATH_INFO is not the same for the two
            continue
        oracle.judge_http(ctx, ref)
        ctx.judge('%d %s' % (r.status, r.reason) == ref.line, w + '%d %s instead of %s' % (r.status, r.reason, ref.line), 'status')
        ctx.judge(body == ref.body, w + 'body of %d bytes instead of %d: %r' % (len(body), len(ref.body), body[:100]), 'body')
        got = sorted((k, v) for k, v in r.getheaders() if k.lower() not in HOP)
        ctx.judge(got == sorted((k, v) for k, v in ref.headers), w + 'headers %s instead of %s' % (got, sorted(ref.headers)), 'headers')
        ctx.count('answers')
        ctx.count('chunked', kind == 'chunked' and r.status == 200 and len(ref.pieces) > 1)
        ctx.count('ranges', r.status == 206)
        ctx.count('not_found', r.status == 404)
        ctx.shape(kind, r.status, rg, bool(q), how, len(ref.pieces) > 1)
