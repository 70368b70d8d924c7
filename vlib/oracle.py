"""Judges of single responses against the reference model (no code shared with /repo)."""
import struct

from . import isobmff as mp4
from .runner import Violation


def judge_http(ctx, r, key='http', **d):
    """Nothing may be wrong with a response as a WSGI/HTTP response."""
    if len(ctx.samples) < 4:
        ctx.sample({'case': ctx.case_id, 'now': r.now, 'url': str(r.url)[:200], 'answer': r.line, 'bytes': sum(len(p) for _, p in r.pieces)})
    if r.exc or r.defects:
        ctx.judge(False, 'protocol defect for %s at %r: %s %s' % (r.url, r.now, r.exc, r.defects), key, **d)


def classify(text):
    if 'too early' in text:
        return 'early'
    if 'too late' in text:
        return 'late'
    if 'before first' in text:
        return 'before'
    if 'eyond last' in text:
        return 'beyond'
    return None


def split_traf(data, boxes):
    return [b for b in boxes if b.type == b'moof']


def moof_of(boxes):
    m = [b for b in boxes if b.type == b'moof']
    if len(m) != 1:
        raise mp4.BoxError('%d moof boxes' % len(m))
    return m[0]


def media(ctx, a, rep, src, offset, nr, body, lmsg=None, emsg=False, sidx=False, key='media', trex=None, what=''):
    """Judge a complete served segment made of VoD segment `src` shifted by `offset` seconds and numbered nr.
    emsg: None = any number of emsg allowed, False = none.  Returns {'tfdt','end','emsgs','boxes','samples'}."""
    w = '%s rep=%s nr=%d vod=%d offset=%d: ' % (what, rep.id, nr, src.nr, offset)

    def bad(msg, k):
        ctx.judge(False, w + msg, key + '-' + k)
    ob, sb = mp4.parse(body), mp4.parse(src.data)
    ot = [b.type for b in ob]
    emsgs = [b for b in ob if b.type == b'emsg']
    sidxs = [b for b in ob if b.type == b'sidx']
    want = [b.type for b in sb if b.type != b'sidx']
    got = [t for t in ot if t not in (b'emsg', b'sidx')]
    if got != want:
        bad('top-level boxes are %s, VoD has %s' % (ot, [b.type for b in sb]), 'boxes')
    if b'styp' in want and ot[0] != b'styp':
        bad('styp is not first: %s' % ot, 'boxes')
    if emsg is False and emsgs:
        bad('unexpected emsg', 'emsg')
    mo = ot.index(b'moof')
    for i, t in enumerate(ot):
        if t == b'emsg' and i > mo:
            bad('emsg after moof', 'boxes')
    if sidx:
        if len(sidxs) != 1 or ot[mo - 1] != b'sidx':
            bad('expected one sidx directly before moof: %s' % ot, 'sidx')
    elif sidxs:
        bad('unexpected sidx: %s' % ot, 'sidx')
    src_by = [b for b in sb if b.type != b'sidx']
    out_by = [b for b in ob if b.type not in (b'emsg', b'sidx')]
    sub = rep.ctype == 'subtitles'
    for x, y in zip(src_by, out_by):
        if x.type == b'styp':
            m0, v0, b0 = mp4.brands(x)
            m1, v1, b1 = mp4.brands(y)
            core = [b for b in b0 if b != b'lmsg']
            if (m0, v0, core) != (m1, v1, [b for b in b1 if b != b'lmsg']):
                bad('styp changed from %s to %s' % ((m0, v0, b0), (m1, v1, b1)), 'styp')
            if lmsg is not None and b1.count(b'lmsg') != (1 if lmsg else 0):
                bad('brands %s but lmsg expected: %s' % (b1, lmsg), 'lmsg')
        elif x.type == b'moof':
            moof(ctx, bad, x, y, rep, nr, sub)
        elif x.type == b'mdat' and sub:
            pass
        elif x.raw != y.raw:
            bad('box %r differs from VoD' % x.type, 'box-changed')
    trex = {rep.track: (rep.opt['trex'][0], rep.opt['trex'][1], rep.opt['trex'][2])}
    sm = mp4.samples(body, trex, ob)
    t0 = mp4.tfdt(moof_of(ob).one(b'traf', b'tfdt'))
    if t0 != src.start + offset * rep.timescale:
        bad('tfdt %d, expected %d' % (t0, src.start + offset * rep.timescale), 'tfdt')
    if len(sm) != len(src.samples):
        bad('%d samples, VoD has %d' % (len(sm), len(src.samples)), 'samples')
    for i, (s, v) in enumerate(zip(sm, src.samples)):
        if (s.dur, s.flags, s.cto) != (v[0], v[1], v[2]):
            bad('sample %d has (dur, flags, cto) %s, VoD %s' % (i, (s.dur, s.flags, s.cto), v[:3]), 'samples')
        if not sub and s.data != v[3]:
            bad('sample %d is %r, VoD %r' % (i, s.data[:40], v[3][:40]), 'sample-data')
    if sub:
        md = [b for b in ob if b.type == b'mdat']
        if sm[0].data != md[0].body:
            bad('sample does not cover the mdat', 'samples')
        if ('uid-%s-%d-' % (rep.id, src.nr)).encode() not in sm[0].data:
            bad('subtitle sample is not the one of VoD segment %d' % src.nr, 'sample-data')
    if rep.opt.get('cenc') and not sub:
        so = mp4.saio(moof_of(ob).one(b'traf', b'saio'))
        if not aux_ok(body, moof_of(ob).off, so, src):
            bad('encryption auxiliary information offset %s does not point to it' % so, 'saio')
    return {'tfdt': t0, 'end': t0 + sum(s.dur for s in sm), 'emsgs': [mp4.emsg(b) for b in emsgs], 'boxes': ob,
            'samples': sm, 'sidx': [mp4.sidx(b) for b in sidxs]}


def moof(ctx, bad, x, y, rep, nr, sub):
    """Compare source moof x with served moof y."""
    def rec(x, y):
        if [k.type for k in x.kids] != [k.type for k in y.kids]:
            bad('%r has children %s, VoD %s' % (x.type, [k.type for k in y.kids], [k.type for k in x.kids]), 'boxes')
        for i, j in zip(x.kids, y.kids):
            if i.type == b'traf':
                rec(i, j)
            elif i.type == b'mfhd':
                if mp4.mfhd_seq_box(j) != nr:
                    bad('sequence number %d' % mp4.mfhd_seq_box(j), 'mfhd')
                if i.body[:4] != j.body[:4]:
                    bad('mfhd version/flags changed', 'box-changed')
            elif i.type == b'tfdt':
                mp4.tfdt(j)
                if i.body[1:4] != j.body[1:4]:
                    bad('tfdt flags changed', 'box-changed')
            elif i.type == b'trun':
                a, b = mp4.trun(i), mp4.trun(j)
                if (a.version, a.flags, a.first_flags, a.entries) != (b.version, b.flags, b.first_flags, b.entries):
                    bad('trun changed: %s -> %s' % (a, b), 'trun')
            elif i.type == b'saio':
                if i.body[:4] != j.body[:4] or len(mp4.saio(i)) != len(mp4.saio(j)) or len(i.raw) != len(j.raw):
                    bad('saio changed', 'box-changed')
            elif i.type == b'tfhd' and sub:
                a, b = mp4.tfhd(i), mp4.tfhd(j)
                if a._replace(size=0) != b._replace(size=0):
                    bad('tfhd changed: %s -> %s' % (a, b), 'box-changed')
            elif i.raw != j.raw:
                bad('box %r differs from VoD' % i.type, 'box-changed')
    rec(x, y)


def aux_ok(body, base, offsets, src):
    """the offsets of a saio box, counted from base, point to the encryption information of VoD segment src"""
    want = src.extra['aux_parts']
    return len(offsets) == len(want) and all(body[base + o:base + o + len(x)] == x for o, x in zip(offsets, want))


def vod_seg(a, rep, nr):
    s = rep.segs[nr - a.first]
    assert s.nr == nr
    return s


def zero_durations(data):
    """The same init segment with the durations of mvhd, tkhd and mdhd set to 0."""
    out = bytearray(data)
    for top in mp4.parse(data):
        for b in top.walk():
            if b.type in (b'mvhd', b'mdhd'):
                v = b.body[0]
                o, n = (16, 4) if v == 0 else (24, 8)
            elif b.type == b'tkhd':
                v = b.body[0]
                o, n = (20, 4) if v == 0 else (28, 8)
            else:
                continue
            p = b.off + b.hdr + o
            out[p:p + n] = b'\0' * n
    return bytes(out)


def fetch_ok(ctx, srv, path, now, key='not-served', **kw):
    r = srv.get(path, now, **kw)
    judge_http(ctx, r)
    if r.status != 200:
        raise Violation('%s at %r: expected 200, got %s' % (path, now, r.brief()), key)
    return r


__all__ = ['struct']
