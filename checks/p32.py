"""sidx_1 adds one segment index before each moof, which describes exactly the segment it is in, and changes nothing else."""
from vlib import isobmff as mp4
from vlib import mpdcmp, oracle, pool
from vlib.model import S, url
from vlib.mpd import Mpd

PLAN = {'quick': {'cases': 40000, 'wall': 240}, 'thorough': {'cases': 1000000, 'wall': 500}}
RULE = ('A case = segments and MPD of one session with and without sidx_1, compared byte by byte outside of the index; shape = media type, layout '
        '(styp, sidx, tfhd/trun durations and sizes, several truns, encryption, subtitles), other options, session kind, last segment.')
MIN = {'pairs': 833, 'subtitles': 33, 'with_events': 26, 'encrypted': 50, 'vod_sidx': 66, 'mpds': 100, 'big_times': 33}
NA = 80


def case(ctx, i):
    rng = ctx.rng
    kw = {'subs': True} if i % 5 == 0 else {}
    a, srv = pool.asset(ctx, i % NA, free=True, **kw)
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, inf=False)
    s = S(a, o, now)
    more = rng.choice([[], [], [], ['scte35_%d' % rng.choice([1, 2, 3])], ['init_3'], ['chunkdur_0'], ['utc_direct'],
                       ['segtimelinenr_1'] if a.version == '1.1' and o['_kind'] in ('plain', 'start') and o.get('tsbd', a.tsbd) < 600 else []])
    base = s.last_avail(now)
    ks = [base, base - 1, base - rng.randrange(0, 20), 0, base + 1]
    if s.lmsg_k is not None:
        ks += [s.lmsg_k] * 3
    for k in rng.sample(ks, 3):
        rep = rng.choice([r for r in a.order if r.ctype != 'image'])
        if s.nr(k) < 0 or s.media_time(k) < 0:
            continue
        tail = a.path(rep, '%d.m4s' % s.nr(k))
        p, q = url(a, o, tail, rng, extra=more + ['sidx_1']), url(a, o, tail, rng, extra=more + rng.choice([[], [], ['sidx_0']]))
        r, g = srv.get(p, now), srv.get(q, now)
        oracle.judge_http(ctx, r)
        w = '%s at %r: ' % (p, now)
        ctx.judge(r.status == g.status, w + '%s, but without index %s' % (r.brief(), g.brief()), 'status')
        if r.status != 200:
            ctx.judge(r.status == 404 and bool(s.reasons(k, now)), w + r.brief(), 'status')
            continue
        boxes = mp4.parse(r.body)
        types = [b.type for b in boxes]
        mo = types.index(b'moof')
        ctx.judge(types.count(b'sidx') == 1 and mo > 0 and types[mo - 1] == b'sidx', w + 'boxes %s' % types, 'place')
        x = boxes[mo - 1]
        ctx.judge(r.body[:x.off] + r.body[x.off + x.size:] == g.body, w + 'differs from the segment without index outside of it', 'rest')
        plain = mp4.parse(g.body)
        trex = {rep.track: tuple(rep.opt['trex'])}
        sm = mp4.samples(g.body, trex, plain)
        size = sum(b.size for b in plain if b.type in (b'moof', b'mdat'))
        last = [b for b in boxes if b.type == b'mdat'][-1]
        ctx.judge(size == last.off + last.size - boxes[mo].off, w + 'boxes %s between moof and mdat' % types, 'harness')
        t0 = mp4.tfdt([b for b in plain if b.type == b'moof'][0].one(b'traf', b'tfdt'))
        d = mp4.sidx(x)
        what = w + 'index %s: ' % (d,)
        ctx.judge(d.timescale == rep.timescale, what + 'timescale of the track is %d' % rep.timescale, 'timescale')
        ctx.judge(d.ept == t0, what + 'segment starts at %d' % t0, 'time')
        ctx.judge(d.first_offset == 0 and len(d.refs) == 1, what + 'must refer to what follows it', 'offset')
        typ, sz, du, sap = d.refs[0]
        ctx.judge(typ == 0 and sz == size, what + 'moof and mdat have %d bytes' % size, 'size')
        ctx.judge(du == sum(z.dur for z in sm), what + 'samples last %d' % sum(z.dur for z in sm), 'duration')
        ctx.judge(sap >> 31 == 1, what + 'segment does not start with a SAP', 'sap')
        ctx.judge(d.refid in (1, rep.track), what + 'reference id', 'refid')
        ctx.count('pairs')
        for name, c in (('subtitles', rep.ctype == 'subtitles'), ('with_events', b'emsg' in types), ('encrypted', bool(rep.opt.get('cenc'))),
                        ('vod_sidx', bool(rep.opt.get('sidx'))), ('big_times', t0 >= 2 ** 32)):
            if c:
                ctx.count(name)
        ctx.shape(rep.ctype, rep.opt['dur'], rep.opt['size'], rep.opt['styp'], rep.opt['sidx'], bool(rep.opt.get('cenc')), bool(rep.opt.get('multi_trun')),
                  o['_kind'], k == s.lmsg_k, b'emsg' in types)
    if rng.random() < .2:
        name = rng.choice(sorted(a.mpds)) if not more or 'segtime' not in more[0] else 'Manifest.mpd'
        p, q = url(a, o, name, None, extra=more + ['sidx_1']), url(a, o, name, None, extra=more)
        x, y = [Mpd(oracle.fetch_ok(ctx, srv, z, now).text) for z in (p, q)]
        d = mpdcmp.diff(mpdcmp.canon(y.root, (), ('BaseURL', 'Location')), mpdcmp.canon(x.root, (), ('BaseURL', 'Location')))
        ctx.judge(d is None, '%s at %r: sidx_1 changes %s' % (p, now, d), 'mpd')
        ctx.count('mpds')
