"""The client side of the WSGI boundary, with an always-on protocol monitor.

Every request made by any check goes through Server.get, which records what the server emitted (status, headers, body
pieces with the virtual time of each) and everything that is wrong with it as a WSGI/HTTP response (.defects).
"""
import io
import re
import signal
import sys

from . import runner, vclock

TOKEN = re.compile(r"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$")
CPU_LIMIT = 20.0
TIMEOUTS = 0


class CpuTimeout(BaseException):
    pass


def _on_vtalrm(sig, frm):
    raise CpuTimeout()


class Response:
    def __init__(self):
        self.status = None
        self.line = None
        self.headers = []
        self.pieces = []       # (virtual time at which the piece became readable, bytes)
        self.exc = None
        self.defects = []
        self.url = None
        self.now = None
        self.started = 0

    @property
    def body(self):
        return b''.join(p for _, p in self.pieces)

    def header(self, name):
        v = [b for a, b in self.headers if a.lower() == name.lower()]
        return v[0] if v else None

    @property
    def text(self):
        return self.body.decode('utf-8', 'replace')

    def brief(self):
        return '%s %r' % (self.line, self.body[:160])


class Server:
    """One configured service: the repository's WSGI application over a content root."""

    def __init__(self, asset=None, content_root=None, vod_dir=None, host='sim.example:8080'):
        from dashlivesim.mod_wsgi import mod_dashlivesim
        self.mod = mod_dashlivesim
        self.app = mod_dashlivesim.application
        self.content_root = content_root or asset.content_root
        self.vod_dir = vod_dir or asset.vod_dir
        self.host = host
        self.n = 0

    def environ(self, path, query='', rng=None, https=False, extra=None, request_uri=None):
        env = {'REQUEST_METHOD': 'GET', 'SCRIPT_NAME': '', 'PATH_INFO': path, 'QUERY_STRING': query,
               'SERVER_NAME': self.host.split(':')[0], 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1',
               'HTTP_HOST': self.host, 'REQUEST_URI': request_uri or path + ('?' + query if query else ''),
               'VOD_CONF_DIR': self.vod_dir,
               'CONTENT_ROOT': self.content_root, 'wsgi.version': (1, 0), 'wsgi.url_scheme': 'https' if https else 'http',
               'wsgi.input': io.BytesIO(b''), 'wsgi.errors': sys.stderr, 'wsgi.multithread': True,
               'wsgi.multiprocess': True, 'wsgi.run_once': False}
        if rng is not None:
            env['HTTP_RANGE'] = rng
        if extra:
            env.update(extra)
        return {k: v for k, v in env.items() if v is not None}

    def get(self, path, now, query='', rng=None, https=False, extra=None, request_uri=None, maxpieces=None,
            on_piece=None):
        r = Response()
        r.url, r.now = path, now
        global TIMEOUTS
        if TIMEOUTS >= 2:
            raise runner.Violation('several requests got no complete response after %.0f s of CPU time' % CPU_LIMIT, 'hang', url=path, now=str(now))
        env = self.environ(path, query, rng, https, extra, request_uri)
        clk = vclock.CLOCK
        if now is not None:
            clk.set(now)
        self.n += 1

        def start_response(status, headers, exc_info=None):
            r.started += 1
            if r.started > 1 and exc_info is None:
                r.defects.append('start_response called %d times' % r.started)
            r.line = status
            r.headers = headers
            self.check_head(r, status, headers)
            return lambda b: r.pieces.append((clk.now, b))
        signal.signal(signal.SIGVTALRM, _on_vtalrm)
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        try:
            it = self.app(env, start_response)
            try:
                for piece in it:
                    if not isinstance(piece, bytes):
                        r.defects.append('body piece of type %s' % type(piece).__name__)
                        break
                    if not r.started:
                        r.defects.append('body produced before start_response')
                    r.pieces.append((clk.now, piece))
                    if on_piece is not None:
                        on_piece(r)
                    if maxpieces and len(r.pieces) >= maxpieces:
                        break
            finally:
                if hasattr(it, 'close'):
                    it.close()
        except CpuTimeout:
            r.exc = 'no complete response after %.0f s of CPU time' % CPU_LIMIT
            TIMEOUTS += 1
        except Exception as e:  # noqa
            r.exc = '%s: %s' % (type(e).__name__, e)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)) and not isinstance(e, SystemExit):
                raise
            r.exc = '%s: %s' % (type(e).__name__, e)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if r.exc is None and not r.started:
            r.defects.append('start_response never called')
        self.check_body(r, rng)
        return r

    @staticmethod
    def check_head(r, status, headers):
        d = r.defects
        if not isinstance(status, str) or not re.match(r'^[1-5]\d\d \S', status):
            d.append('bad status line %r' % (status,))
        else:
            r.status = int(status[:3])
        if type(headers) is not list:
            d.append('headers are a %s' % type(headers).__name__)
            return
        seen = set()
        for h in headers:
            if type(h) is not tuple or len(h) != 2 or not all(type(x) is str for x in h):
                d.append('bad header %r' % (h,))
                continue
            n, v = h
            if not TOKEN.match(n) or any(ord(c) < 32 or ord(c) == 127 for c in v):
                d.append('bad header %r' % (h,))
            if n.lower() in seen:
                d.append('header %s repeated' % n)
            seen.add(n.lower())

    @staticmethod
    def check_body(r, rng):
        cl = r.header('Content-Length') if r.headers else None
        if r.exc is None and cl is not None and str(len(r.body)) != cl:
            r.defects.append('Content-Length %s but %d body bytes' % (cl, len(r.body)))
