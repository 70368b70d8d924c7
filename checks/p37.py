"""What is on disk when the request comes is what is served: nothing of earlier content, configuration or answers is remembered."""
import copy
import os
import re
import shutil
import struct

from vlib import pool
from vlib.digest import digest
from vlib.wsgi import Server
from checks.p22 import child, request

PLAN = {'quick': {'cases': 1050, 'wall': 200}, 'thorough': {'cases': 26250, 'wall': 600}}
RULE = ('A case = one server process over several states of its content and configuration directories (content added, replaced by other content of the '
        'same name, one file of it replaced, removed and restored, configuration or timing table changed, representations of two contents with the same '
        'names), requests in every state, old ones repeated; each answer against a server newly started on that state; shape = kinds of changes and requests.')
MIN = {'answers': 6000, 'changed_answers': 400, 'states': 1500, 'served': 1500, 'refused': 300}
ASSUMPTIONS = ['Files are replaced between requests (not during one), and a replaced file has another modification time.']
NA = 10


def files_of(a, name):
    """relative path -> bytes of asset a installed as content `name`"""
    out = {}
    base = os.path.join(a.content_root, a.name)
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            out['content/%s/%s' % (name, os.path.relpath(p, base))] = open(p, 'rb').read()
    cfg = open(os.path.join(a.vod_dir, a.name + '.cfg')).read()
    for dat in re.findall(r'dat_file = (\S+)', cfg):
        new = '%s_%s' % (name, dat.rsplit('_', 1)[1])
        out['vodcfg/' + new] = open(os.path.join(a.vod_dir, dat), 'rb').read()
        cfg = cfg.replace('dat_file = ' + dat, 'dat_file = ' + new)
    out['vodcfg/%s.cfg' % name] = cfg.encode()
    return out


def other_times(rng, dat):
    """a timing table of as many segments, first start and end the same, borders between them moved"""
    durs, first, start = [], None, None
    for n, r, s, d in struct.iter_unpack('HHII', dat):
        if start is None:
            first, start = n, s
        durs += [d] * (r + 1)
    for x in range(len(durs) - 1):
        d = rng.randrange(-(min(durs[x], durs[x + 1]) // 8), min(durs[x], durs[x + 1]) // 8 + 1)
        durs[x] += d
        durs[x + 1] -= d
    out = b''
    for x, d in enumerate(durs):
        out += struct.pack('HHII', first + x, 0, start, d)
        start += d
    return out


def change(rng, files, name, assets, cur):
    """(kind, files, asset installed) of the next state"""
    kind = rng.choice(['other', 'other', 'other', 'segment', 'init', 'mpd', 'cfg', 'dat', 'gone', 'nocfg', 'noseg', 'restore'])
    pre = 'content/%s/' % name
    out = dict(files)
    mine = sorted(p for p in files if p.startswith(pre))
    segs = [p for p in mine if p.endswith(('.m4s', '.jpg'))]
    inits = [p for p in mine if p.endswith('init.mp4')]
    if kind == 'other':
        cur = rng.choice([x for x in assets if x is not cur] or [cur])
    if kind in ('other', 'restore'):
        out = {p: d for p, d in files.items() if not p.startswith((pre, 'vodcfg/%s.' % name, 'vodcfg/%s_' % name))}
        out.update(files_of(cur, name))
    elif kind == 'segment' and segs:
        for _ in range(max(1, len(segs) // 2)):
            p = rng.choice(segs)
            q = rng.choice([x for x in segs if os.path.dirname(x) == os.path.dirname(p)])
            out[p] = files[q]
    elif kind == 'init' and inits:
        for p in inits:                                       # other defaults and durations, same tracks
            d = bytearray(files[p])
            for m in re.finditer(rb'mvhd|mdhd|tkhd', files[p]):
                if d[m.end()] == 0:
                    d[m.end() + 4:m.end() + 12] = rng.randbytes(8)
            for m in re.finditer(rb'trex', files[p]):
                d[m.end() + 12:m.end() + 16] = rng.randrange(1, 5000).to_bytes(4, 'big')
            out[p] = bytes(d)
    elif kind == 'mpd':
        for p in mine:
            if p.endswith('.mpd'):
                out[p] = re.sub(rb'maxWidth="\d+"|bandwidth="\d+"', lambda m: m.group().split(b'"')[0] + b'"%d"' % rng.randrange(1, 10 ** 6), files[p]) + b'<!-- %d -->' % rng.randrange(999)
    elif kind == 'cfg':
        p = 'vodcfg/%s.cfg' % name
        if p in files:
            t = files[p].decode()
            t = re.sub(r'default_tsbd_secs = \d+', 'default_tsbd_secs = %d' % rng.choice([5, 31, 77, 900]), t)
            if rng.random() < .5 and 'dat_file' not in t:     # a table and its number of segments stay in agreement
                t = re.sub(r'nr_segments_in_loop = (\d+)', lambda m: 'nr_segments_in_loop = %d' % max(1, int(m.group(1)) - 1), t)
            out[p] = t.encode() + b'\n'
    elif kind == 'dat':
        for p in list(files):
            if re.fullmatch(r'vodcfg/%s_[^_]*\.dat' % name, p):
                out[p] = other_times(rng, files[p])
    elif kind == 'gone':
        out = {p: d for p, d in files.items() if not p.startswith((pre, 'vodcfg/%s.' % name, 'vodcfg/%s_' % name))}
    elif kind == 'nocfg':
        out.pop('vodcfg/%s.cfg' % name, None)
    elif kind == 'noseg':
        for p in segs:
            if rng.random() < .5:
                del out[p]
    return kind, out, cur


def install(root, old, new, stamp):
    for p in sorted(set(old) - set(new)):
        os.remove(os.path.join(root, p))
    for p, d in new.items():
        if old.get(p) != d:
            f = os.path.join(root, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, 'wb') as fh:
                fh.write(d)
            os.utime(f, (stamp, stamp))


def case(ctx, i):
    rng = ctx.rng
    assets = [pool.asset(ctx, (i + j) % NA)[0] for j in (0, 3, 7)]
    root = os.path.join(ctx.tmp, 'live')
    t0 = pool.pick_now(rng, assets[0])
    t0 = min(max(t0, 200000), (2 ** 32 - 2 * 10 ** 7) * min(x.seg_dur for x in assets))
    names = ['content', rng.choice(['content_2', 'other', 'a'])]
    cur = {n: rng.choice(assets) for n in names}
    files = {}
    for n in names if rng.random() < .5 else names[:1]:
        files.update(files_of(cur[n], n))
    states, plan, kinds = [files], [], []
    for _ in range(rng.choice([2, 3, 4])):
        n = rng.choice([names[0], names[0], names[1]])
        k, files, cur[n] = change(rng, files, n, assets, cur[n])
        kinds.append(k)
        states.append(files)
        plan.append((n, cur[n]))
    reqs = []
    for a in [cur[n] for n in names] + [rng.choice(assets)]:
        for n in names:
            b = copy.copy(a)
            b.name = n
            for _ in range(2):
                kind, p, kw = request(rng, b, t0)
                reqs.append((kind, p, kw))
    rng.shuffle(reqs)
    order = [[rng.randrange(len(reqs)) for _ in range(9)] for _ in states]

    def serve(live):
        """all states in one process (live), or (live is None) each in a process of its own"""
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root + '/content')
        os.makedirs(root + '/vodcfg')
        srv = Server(None, root + '/content', root + '/vodcfg')
        out, old = [], {}
        for x, st in enumerate(states):
            install(root, old, st, 1_500_000_000 + 1000 * x)
            old = st
            one = lambda: [digest(srv.get(reqs[q][1], t0, **reqs[q][2])) for q in order[x]]  # noqa: E731
            out.append(one() if live else child(one))
        return out
    got = child(lambda: serve(True))
    ref = serve(False)
    shutil.rmtree(root, ignore_errors=True)
    last = {}
    for x, qs in enumerate(order):
        ctx.count('states')
        for q, g, r in zip(qs, got[x], ref[x]):
            ctx.count('answers')
            ctx.count('served' if r[0] == '2' else 'refused')
            ctx.count('changed_answers', last.get(q, r) != r)
            last[q] = r
            ctx.judge(g == r, '%s %s at %r after %s: a newly started server answers %r, the running one %r' % (reqs[q][1], reqs[q][2], t0, kinds[:x], r, g), 'remembered')
    ctx.shape(tuple(kinds), tuple(sorted({r[0] for r in reqs})))
    ctx.sample({'changes': kinds, 'requests': [r[1] for r in reqs[:4]], 'answers': ref[-1][:4]})
