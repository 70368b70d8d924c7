"""Whatever the URL, only files of the content and of its configuration are read, and nothing is ever written."""
import hashlib
import os
import shutil
import sys

from vlib import oracle, pool
from vlib.model import S, url
from vlib.wsgi import Server

PLAN = {'quick': {'cases': 96000, 'wall': 240}, 'thorough': {'cases': 2400000, 'wall': 600}}
RULE = ('A case = one request under an audit hook that sees every open/list/rename/exec/connect: ordinary ones, traversals (parent directories, '
        'absolute and empty components, encoded and decoded, in every position of path, option values, muxed ids and file name); shape = trick, '
        'position, file, status.')
MIN = {'attacks': 833, 'opens_seen': 666, 'ordinary_served': 100, 'trees_compared': 2}
NA = 16
ASSUMPTIONS = ['The file system holds no symbolic links out of the content directory (the operator puts the content there).']

LOG = []
ARMED = [False]
WRITES = ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.symlink', 'os.link', 'os.chmod', 'os.chown', 'os.truncate', 'os.utime', 'os.setxattr',
          'shutil.copyfile', 'shutil.move', 'shutil.rmtree', 'shutil.copytree', 'os.system', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.fork',
          'subprocess.Popen', 'socket.connect', 'socket.bind', 'socket.getaddrinfo', 'os.kill', 'os.putenv', 'os.unsetenv', 'os.chdir', 'pty.spawn')


class Blocked(Exception):
    pass


def hook(event, args):
    if not ARMED[0]:
        return
    if event == 'open':
        path, mode, flags = (tuple(args) + (None, None, None))[:3]
        if isinstance(path, int):
            return
        try:
            path = os.path.realpath(os.fsdecode(path))
        except Exception:
            path = repr(path)
        write = bool(mode and any(c in mode for c in 'wax+')) or bool(isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        LOG.append(('write' if write else 'read', path))
        if write and path != os.devnull:
            raise Blocked(path)
    elif event in ('os.listdir', 'os.scandir', 'glob.glob'):
        LOG.append(('list', os.path.realpath(os.fsdecode(args[0] or '.'))))
    elif event in WRITES:
        LOG.append((event, repr(args)[:200]))
        raise Blocked(event)


def setup(ctx):
    sys.addaudithook(hook)


def tree(root):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            st = os.lstat(p)
            h.update(repr((p, st.st_size, st.st_mtime_ns, st.st_mode)).encode())
            h.update(open(p, 'rb').read())
        h.update(repr((d, sorted(ds))).encode())
    return h.hexdigest()


def prepare(ctx, j):
    key = ('top', j)
    if key in ctx.cache:
        return ctx.cache[key]
    a, _ = pool.asset(ctx, j)
    top = os.path.join(ctx.tmp, 'top%d' % j)
    shutil.copytree(os.path.dirname(a.content_root), top)
    base = os.path.join(top, 'content', a.name)
    # the same things once more, outside
    for d in ('secret', 'secret/in', 'contents', 'content2'):
        shutil.copytree(base, os.path.join(top, d), dirs_exist_ok=True)
    shutil.copytree(base, os.path.join(top, 'content2', a.name), dirs_exist_ok=True)
    for r in a.order:
        shutil.copytree(os.path.join(base, a.prefix + r.id), os.path.join(top, a.prefix + r.id), dirs_exist_ok=True)
    for f in os.listdir(os.path.join(top, 'vodcfg')):
        for d in (top, os.path.join(top, 'secret')):
            shutil.copy(os.path.join(top, 'vodcfg', f), d)
    for m in a.mpds:
        shutil.copy(os.path.join(base, m), top)
    for d, _, fs in os.walk(top):
        rel = os.path.relpath(d, top).split(os.sep)[0]
        if rel in ('content', 'vodcfg'):
            continue
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith('.mpd'):
                t = open(p, encoding='utf-8').read()
                open(p, 'w', encoding='utf-8').write(t.replace('precambrian', 'TOPSECRET'))
    srv = Server(None, os.path.join(top, 'content'), os.path.join(top, 'vodcfg'))
    ctx.cache[key] = (a, srv, top, tree(top))
    return ctx.cache[key]


def attack(rng, a, top, rep, nr, now):
    """(trick, path)"""
    f = rng.choice(['init.mp4', '%d%s' % (nr, rep.ext), '%d%s' % (nr, rep.ext), 'Manifest.mpd', '1.jpg', '%s.cfg' % a.name, 't%d.m4s' %
                    (nr * a.seg_dur * rep.timescale)])
    up = rng.choice(['..', '..', '../..', '../../..', '.', './..', '%2e%2e', '..%2f..', '%252e%252e', '..\\..', '...', '\u2025', '..;', '.%00.', '..\x00'])
    abs_ = rng.choice([top, top + '/secret', top + '/secret/in', os.path.join(top, 'content2', a.name)])
    rid = rng.choice([rep.id, rep.id, '%s__%s' % (a.order[0].id, a.order[-1].id)])
    opts = rng.choice([[], [], ['tsbd_30'], ['segtimeline_1'], ['start_%d' % (now - 1000)], ['chunkdur_0.5']])
    trick = rng.choice(['up-name', 'up-mid', 'up-end', 'empty-abs', 'abs-name', 'up-rep', 'mux', 'option', 'file', 'deep', 'period', 'dot', 'prefix'])
    if trick == 'up-name':
        p = [up, 'secret', rid, f]
    elif trick == 'up-mid':
        p = [a.name, up, rng.choice(['secret', '../secret', 'secret/in', '../content2/' + a.name, a.name, '../..' + top + '/secret']), rid, f]
    elif trick == 'up-end':
        p = [a.name, rid, up, rng.choice(['secret', '../secret', rid, '../' + rid]), rid, f]
    elif trick == 'empty-abs':
        p = [a.name, ''] + abs_.strip('/').split('/') + [rid, f]
    elif trick == 'abs-name':
        p = [''] + abs_.strip('/').split('/') + [rid, f]
    elif trick == 'up-rep':
        p = [a.name, '../' * rng.randrange(1, 5) + 'secret/' + rid, f]
    elif trick == 'mux':
        other = rng.choice(['..', '../..', '../../secret/' + a.order[0].id, top + '/secret/' + a.order[0].id])
        p = [a.name, rng.choice(['%s__%s' % (a.order[0].id, other), '%s__%s' % (other, a.order[0].id), '__', '%s__' % other]), f]
    elif trick == 'option':
        k = rng.choice(['sid', 'sts', 'init', 'baseurl', 'utc', 'insertad', 'xlink', 'mpdcallback', 'spd'])
        p = ['%s_%s' % (k, rng.choice(['..', '../..', top + '/secret', '']))] + [a.name, rid, f]
    elif trick == 'file':
        p = [a.name, rid, rng.choice([up + f, up + '/' + f, up + '.mpd', top + '/secret/' + f, '..mpd', '..m4s', '.mp4', '/init.mp4'])]
    elif trick == 'deep':
        p = [a.name] + ['..'] * rng.randrange(1, 14) + (top.strip('/') + '/secret').split('/') + [rid, f]
    elif trick == 'period':
        p = [a.name, rng.choice(['../Manifest.mpd+p1.period', '../../secret/Manifest.mpd+p1.period', '/%s/Manifest.mpd+p%d.period' % (top, now // 3600),
                                 'Manifest.mpd+p../../x.period'])]
    elif trick == 'dot':
        p = [rng.choice(['.', './.', a.name + '/.', './' + a.name]), rid, f]
    else:
        p = [a.name + rng.choice(['/..', '\x00', '%00', ' ', '/../secret', '/../../secret/in']), rid, f]
    return trick, '/' + '/'.join(['livesim'] + opts + p)


def case(ctx, i):
    rng = ctx.rng
    j = i % NA
    a, srv, top, _ = prepare(ctx, j)
    now = pool.pick_now(rng, a)
    rep = rng.choice(a.order)
    nr = int(now // a.seg_dur) - 1
    ok_dirs = (os.path.join(top, 'content') + os.sep, os.path.join(top, 'vodcfg') + os.sep)
    plain = rng.random() < .25
    if plain:
        o = pool.session(rng, a, now, inf=False)
        if o['_kind'] == 'stop' and o['stop'] - o['start'] > 20000:
            return
        extra = rng.choice([[], [], ['periods_10'], ['segtimeline_1'], ['chunkdur_0.5'], ['sidx_1'], ['scte35_1']])
        s = S(a, pool.bounded(o, extra, a), now)
        trick = rng.choice(['Manifest.mpd', 'init', 'media', 'media'])
        tail = trick if trick == 'Manifest.mpd' else a.path(rep, 'init.mp4' if trick == 'init' else '%d%s' % (s.nr(s.last_avail(now)), rep.ext))
        p = url(a, o, tail, rng, extra=extra)
    else:
        trick, p = attack(rng, a, top, rep, nr, int(now))
        ctx.count('attacks')
    fds = len(os.listdir('/proc/self/fd'))
    del LOG[:]
    ARMED[0] = True
    try:
        r = srv.get(p, now)
    finally:
        ARMED[0] = False
    log = list(LOG)
    w = '%r at %r (content below %s): ' % (p, now, top)
    oracle.judge_http(ctx, r)
    for what, path in log:
        ctx.judge(what in ('read', 'list'), w + '%s of %s' % (what, path), 'effect')
        if what == 'read':
            ctx.count('opens_seen')
        inside = path.startswith(ok_dirs) or what == 'list' and (path + os.sep).startswith(ok_dirs)
        if path.startswith(ctx.tmp + os.sep) or path.startswith(('/etc/', '/root/', '/home/', '/proc/', '/var/')) and not path.startswith((
                '/etc/localtime', '/etc/timezone', '/etc/mime.types')):
            ctx.judge(inside, w + 'reads %s' % path, 'outside')
    ctx.judge(b'TOPSECRET' not in r.body, w + 'serves a file from outside the content directory', 'leak')
    ctx.judge(b'[General]' not in r.body, w + 'serves the configuration', 'leak')
    del r.pieces[:]
    ctx.judge(len(os.listdir('/proc/self/fd')) <= fds, w + 'leaves a file open', 'fd')
    if plain and r.status == 200:
        ctx.count('ordinary_served')
    ctx.shape(trick, p.rsplit('.', 1)[-1][:5], r.status, len([x for x in log if x[0] == 'read']) > 0)


def finish(ctx):
    for key, v in list(ctx.cache.items()):
        if key[0] == 'top':
            a, srv, top, h = v
            ctx.case_id = None
            if tree(top) != h:
                ctx.report('the files below %s were changed by serving them' % top, 'changed')
            ctx.count('trees_compared')
            ctx.count('evaluations')
