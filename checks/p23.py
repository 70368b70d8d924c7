"""Two representations asked for as one: the muxed segments hold exactly both, playable."""
from vlib import isobmff as mp4
from vlib import oracle, pool
from vlib.model import S, url

PLAN = {'quick': {'cases': 50000, 'wall': 240}, 'thorough': {'cases': 1250000, 'wall': 600}}
RULE = ('A case = one muxed media segment and the muxed init segment of a pair of representations, compared box by box and sample by sample with '
        'the two separate ones at the same time; shape = media types, table layouts of both, encryption, events, last segment, session kind.')
MIN = {'media': 266, 'inits': 266, 'refused': 20, 'lmsg': 4, 'emsg': 3, 'encrypted': 33}
NA = 80


def kids(b):
    return [(k.type, k.raw) for k in b.kids]


def case(ctx, i):
    rng = ctx.rng
    pre = rng.choice(['', '', '', 'sub/', 'x/y/'])
    a, srv = pool.asset(ctx, i % NA, prefix=pre) if i % 4 else pool.asset(ctx, i % NA, prefix=pre, subs=True)
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, inf=False)
    s = S(a, o, now)
    reps = [r for r in a.order if r.ctype != 'image']
    r1 = rng.choice(reps)
    r2 = rng.choice([r for r in reps if r is not r1])
    base = s.last_avail(now)
    ks = [base, base, base - 1, base + 1, base - rng.randrange(0, 40), -1, 0]
    if s.lmsg_k is not None:
        ks += [s.lmsg_k] * 4
    k = rng.choice(ks)
    if not 0 <= s.nr(k) < 2 ** 32:
        return
    extra = rng.choice([[], [], [], ['scte35_3'], ['chunkdur_0.5'], ['sidx_1'], ['init_4'], ['segtimelinenr_1']])
    name = '%s__%s' % (r1.id, r2.id)
    f = '%d.m4s' % s.nr(k)
    u = url(a, o, a.path(name, f), rng, extra=extra)
    w = '%s at %r: ' % (u, now)
    g = srv.get(u, now)
    oracle.judge_http(ctx, g)
    sh = lambda r: (r.ctype, r.opt['dur'], r.opt['size'], r.opt['flags'], r.opt['styp'] > 0, r.opt['tfdt'], bool(r.opt.get('cenc')),  # noqa
                    bool(r.opt.get('multi_trun')))
    why = s.reasons(k, now)
    single = [srv.get(url(a, o, a.path(r, f), None, extra=[x for x in extra if not x.startswith(('chunk', 'sidx'))]), now) for r in (r1, r2)]
    ctx.shape(sh(r1), sh(r2), o['_kind'], bool(why), tuple(extra))
    if why:
        ctx.count('refused')
        ctx.judge(g.status == 404 and len(g.body) > 3, w + 'not available (%s), but %s' % (why, g.brief()), 'refuse')
    else:
        ctx.judge(g.status == 200, w + g.brief(), 'served')
        ctx.count('media')
        B = mp4.parse(g.body)
        one = [mp4.parse(x.body) for x in single]
        moofs = [b for b in B if b.type == b'moof']
        types = [b.type for b in B]
        ctx.judge(len(moofs) == 1 and types.count(b'mdat') == 1 and types[-2:] == [b'moof', b'mdat'], w + 'boxes %s' % types, 'boxes')
        ev = [b.raw for b in B if b.type == b'emsg']
        want = [b.raw for x in one for b in x if b.type == b'emsg']
        ctx.judge(ev == want, w + '%d events instead of %d' % (len(ev), len(want)), 'emsg')
        if ev:
            ctx.count('emsg')
        st = [b for b in one[0] if b.type == b'styp']
        if st:
            ctx.judge(types[0] == b'styp' and types.count(b'styp') == 1 and B[0].raw == st[0].raw, w + 'styp is not that of %s' % r1.id, 'styp')
            if k == s.lmsg_k:
                ctx.judge(b'lmsg' in mp4.brands(B[0])[2], w + 'last segment without lmsg', 'styp')
                ctx.count('lmsg')
        mo = moofs[0]
        ctx.judge(mp4.mfhd_seq(mo) == s.nr(k), w + 'sequence number %d' % mp4.mfhd_seq(mo), 'sequence')
        trafs = mo.all(b'traf')
        ctx.judge(len(trafs) == 2, w + '%d trafs' % len(trafs), 'boxes')
        for r, tr, ob, sg in zip((r1, r2), trafs, one, single):
            om = [b for b in ob if b.type == b'moof'][0]
            ot = om.one(b'traf')
            ctx.judge([x.type for x in tr.kids] == [x.type for x in ot.kids], w + 'traf of %s has %s instead of %s' % (
                r.id, [x.type for x in tr.kids], [x.type for x in ot.kids]), 'traf')
            for x, y in zip(tr.kids, ot.kids):
                if x.type == b'trun':
                    p, q = mp4.trun(x), mp4.trun(y)
                    ctx.judge(p._replace(data_offset=0) == q._replace(data_offset=0), w + 'trun of %s differs' % r.id, 'traf')
                elif x.type == b'saio':
                    so = mp4.saio(x)
                    ctx.judge(oracle.aux_ok(g.body, mo.off, so, oracle.vod_seg(a, r, s.vod(k)[0])), w + 'encryption offset of %s points elsewhere' % r.id, 'saio')
                    ctx.count('encrypted')
                else:
                    ctx.judge(x.raw == y.raw, w + '%r of %s differs' % (x.type, r.id), 'traf')
        trex = {r.track: tuple(r.opt['trex']) for r in (r1, r2)}
        got = mp4.samples(g.body, trex, B)
        for r, sg, ob in zip((r1, r2), single, one):
            x = [t for t in got if t.track == r.track]
            y = mp4.samples(sg.body, trex, ob)
            ctx.judge(x == y, w + 'samples of %s: %s instead of %s' % (r.id, [t[1:6] for t in x][:3], [t[1:6] for t in y][:3]), 'samples')
        have = sum(len(b.body) for ob in one for b in ob if b.type == b'mdat')      # including what no sample refers to
        ctx.judge(sum(t.size for t in got) <= len(B[-1].body) <= have, w + 'mdat holds %d bytes' % len(B[-1].body), 'mdat')
    # the init segment
    if s.now_int < s.ast:
        return
    u = url(a, o, a.path(name, 'init.mp4'), rng)
    w = '%s at %r: ' % (u, now)
    g = oracle.fetch_ok(ctx, srv, u, now)
    ctx.count('inits')
    inf = mp4.init_info(g.body)
    one = [mp4.parse(oracle.zero_durations(r.init)) for r in (r1, r2)]
    B = inf['boxes']
    ctx.judge([b.type for b in B][:2] == [b'ftyp', b'moov'] and B[0].raw == one[0][0].raw, w + 'top boxes %s' % [b.type for b in B], 'init')
    mv = B[1]
    om = [[b for b in x if b.type == b'moov'][0] for x in one]
    ctx.judge(mv.one(b'mvhd').raw == om[0].one(b'mvhd').raw, w + 'mvhd', 'init')
    ctx.judge(sorted(x.raw for x in mv.all(b'trak')) == sorted(m.one(b'trak').raw for m in om), w + 'tracks', 'init')
    ctx.judge(sorted(x.raw for x in mv.all(b'mvex', b'trex')) == sorted(m.one(b'mvex', b'trex').raw for m in om), w + 'trex', 'init')
    ctx.judge(sorted(x.type for x in mv.kids) == [b'mvex', b'mvhd', b'trak', b'trak'], w + 'moov has %s' % [x.type for x in mv.kids], 'init')
