"""Low-latency chunks, put together, are the complete segment."""
import contextlib
import io
import os
import runpy
import sys
import warnings
from fractions import Fraction as F

from vlib import isobmff as mp4
from vlib import oracle, pool
from vlib.model import S, url
from vlib.runner import Violation

PLAN = {'quick': {'cases': 26250, 'wall': 240}, 'thorough': {'cases': 656250, 'wall': 600}}
RULE = ('A case = one media segment delivered in chunks and without chunks, compared sample by sample and with the VoD segment; '
        'shape = chunk duration, number of chunks, media type, sample table layout (flags/cto/size/trun count), styp, emsg, lmsg, kind.')
MIN = {'tool': 60, 'segments': 500, 'chunks': 2000, 'lmsg': 6, 'emsg': 10}
NA = 60
NONSYNC = 0x10000


def tool(ctx, a, rep, src, step, w):
    """The chunker's own command line, with the VoD segment"""
    d = os.path.join(ctx.tmp, 'tool')
    os.makedirs(d, exist_ok=True)
    med, out = os.path.join(d, 'in.m4s'), os.path.join(d, 'out.m4s')
    with open(med, 'wb') as f:
        f.write(src.data)
    with open(out, 'wb'):
        pass
    argv = sys.argv
    sys.argv = ['chunker.py', str(step), os.path.join(a.content_root, a.name, *a.path(rep, 'init.mp4').split('/')), med, out]
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            runpy.run_module('dashlivesim.dashlib.chunker', run_name='__main__')
    except (Exception, SystemExit) as e:
        raise Violation(w + 'the chunker tool fails with chunk duration %d: %r %s' % (step, e, sink.getvalue()[-200:]), 'tool')
    finally:
        sys.argv = argv
    with open(out, 'rb') as f:
        data = f.read()
    return data


def case(ctx, i):
    rng = ctx.rng
    a, srv = pool.asset(ctx, i % NA, fine=True)
    now = pool.pick_now(rng, a)
    o = pool.session(rng, a, now, kinds=('plain', 'start', 'dur', 'stop', 'rel', 'tfdt', 'modulo'))
    s = S(a, o, now)
    cd = rng.choice(['0.5', '0.25', '1', '0.125', '2', '0.2', '0.1', '0.04', '0.37', '3.3', '100', '0.001', '0.75', '1e-1'])
    extra = ['chunkdur_%s' % cd] + rng.choice([[], [], ['scte35_3'], ['utc_head'], ['init_3']])
    base = int(now - s.ast) // a.seg_dur if s.ato is None else s.last_avail(now)
    ks = [base, base, base - 1, base - rng.randrange(0, 40), base // a.n * a.n - 1]
    if s.lmsg_k is not None:
        ks += [s.lmsg_k] * 3
    ks = [k for k in ks if not s.reasons(k, now) and 0 <= s.nr(k) < 2 ** 32]
    if not ks:
        return
    k = rng.choice(ks)
    rep = rng.choice(a.order)
    u = url(a, o, a.path(rep, '%d%s' % (s.nr(k), rep.ext)), rng, extra=extra)
    r = oracle.fetch_ok(ctx, srv, u, now)
    w = '%s at %r: ' % (u, now)
    vnr, off = s.vod(k)
    src = oracle.vod_seg(a, rep, vnr)
    if rep.ctype == 'image':
        ctx.judge(r.body == src.data, w + 'wrong picture', 'image')
        return
    ctx.count('segments')
    ctx.judge(r.header('Content-Length') is None, w + 'Content-Length %s on a chunked response' % r.header('Content-Length'), 'length')
    plain = oracle.fetch_ok(ctx, srv, url(a, o, a.path(rep, '%d%s' % (s.nr(k), rep.ext)), None, extra=extra[1:]), now)
    lmsg = k == s.lmsg_k
    ref = oracle.media(ctx, a, rep, src, off, s.nr(k), plain.body, lmsg=lmsg if rep.opt['styp'] else None, emsg=None, what='plain ' + w)
    # every chunk by itself
    trex = {rep.track: tuple(rep.opt['trex'])}
    got, durs = [], []
    t = ref['tfdt']
    for c, (_, piece) in enumerate(r.pieces):
        bx = mp4.parse(piece)
        types = [b.type for b in bx]
        core = [x for x in types if x not in (b'styp', b'emsg')]
        wc = '%schunk %d of %d: ' % (w, c + 1, len(r.pieces))
        ctx.judge(core == [b'moof', b'mdat'], wc + 'boxes %s' % types, 'boxes')
        ctx.judge(types[-2:] == core, wc + 'boxes %s' % types, 'boxes')
        heads = [b.raw for b in bx if b.type in (b'styp', b'emsg')]
        want = [b.raw for b in ref['boxes'] if b.type in (b'styp', b'emsg')] if c == 0 else []
        ctx.judge(heads == want, wc + 'has %s before the moof, the segment has %s' % ([h[4:8] for h in heads], [h[4:8] for h in want]), 'head')
        mo = bx[-2]
        ctx.judge(mp4.mfhd_seq(mo) == s.nr(k), wc + 'sequence number %d' % mp4.mfhd_seq(mo), 'sequence')
        ctx.judge(mp4.tfdt(mo.one(b'traf', b'tfdt')) == t, wc + 'decode time %d, expected %d' % (mp4.tfdt(mo.one(b'traf', b'tfdt')), t), 'tfdt')
        ctx.judge(mp4.tfhd(mo.one(b'traf', b'tfhd')).track == rep.track, wc + 'track', 'track')
        sm = mp4.samples(piece, trex, bx)
        ctx.judge(len(sm) > 0, wc + 'no samples', 'empty')
        ctx.judge(sum(x.size for x in sm) == len(bx[-1].body), wc + 'mdat has %d bytes' % len(bx[-1].body), 'mdat')
        ctx.judge(mo.size + 8 == mp4.trun(mo.one(b'traf', b'trun')).data_offset, wc + 'data offset', 'mdat')
        got += sm
        durs.append((len(sm), sum(x.dur for x in sm)))
        t += durs[-1][1]
        ctx.count('chunks')
    ctx.judge(len(got) == len(ref['samples']), w + '%d samples, the segment has %d' % (len(got), len(ref['samples'])), 'samples')
    for j, (x, y) in enumerate(zip(got, ref['samples'])):
        ctx.judge((x.dur, x.cto, x.dts) == (y.dur, y.cto, y.dts), w + 'sample %d: dur/cto/dts %s instead of %s' % (
            j, (x.dur, x.cto, x.dts), (y.dur, y.cto, y.dts)), 'timing')
        ctx.judge(x.data == y.data, w + 'sample %d is %r' % (j, x.data[:40]), 'data')
        ctx.judge(bool(x.flags & NONSYNC) == bool(y.flags & NONSYNC), w + 'sample %d: flags %x instead of %x' % (j, x.flags, y.flags), 'sync')
    # where it is cut
    fits = []
    for step in {int(float(cd) * rep.timescale), int(F(cd) * rep.timescale)}:
        cuts, acc, n, limit = [], 0, 0, step
        for y in ref['samples']:
            if n and acc >= limit:
                cuts.append(n)
                n, limit = 0, limit + step
            acc += y.dur
            n += 1
        cuts.append(n)
        fits.append(cuts)
    if rng.random() < .1 and step > 0:
        made = tool(ctx, a, rep, src, step, w)
        bx = mp4.parse(made)
        trex1 = {rep.track: tuple(rep.opt['trex'])}
        ctx.judge([b.type for b in bx if b.type in (b'moof', b'mdat')] == [b'moof', b'mdat'] * len(fits[-1]), w + 'the tool writes boxes %s' % [b.type for b in bx], 'tool')
        counts, old = [], mp4.samples(src.data, trex1)
        new = []
        for j, b in enumerate(bx):
            if b.type == b'moof':
                one = mp4.samples(made, trex1, [b, bx[j + 1]])
                counts.append(len(one))
                new += one
        ctx.judge(counts == fits[-1], w + 'the tool puts %s samples in the chunks, expected %s' % (counts, fits[-1]), 'tool')
        ctx.judge([(x.dur, x.cto, x.dts, x.data, bool(x.flags & NONSYNC)) for x in new] == [(x.dur, x.cto, x.dts, x.data, bool(x.flags & NONSYNC)) for x in old],
                  w + 'the tool changes samples', 'tool')
        ctx.count('tool')
    ctx.judge([d[0] for d in durs] in fits, w + 'chunks have %s samples, expected %s' % ([d[0] for d in durs], fits[0]), 'cuts')
    if lmsg:
        ctx.count('lmsg')
    if ref['emsgs']:
        ctx.count('emsg')
    ctx.shape(cd, min(len(durs), 9), rep.ctype, rep.opt['flags'], rep.opt['cto'], rep.opt['size'], rep.opt['dur'],
              rep.opt.get('multi_trun'), rep.opt['styp'] == 0, bool(ref['emsgs']), lmsg, o['_kind'])
    if rep.opt.get('cenc') and rep.ctype != 'subtitles':
        ctx.count('evaluations')
        if not all(mp4.parse(p)[-2].all(b'traf', b'senc') for _, p in r.pieces):
            raise Violation(w + 'the chunks carry no encryption information', 'chunk-cenc')
