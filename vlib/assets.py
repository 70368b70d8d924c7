"""Synthetic VoD content (independent of /repo): every sample carries a unique readable id, so whatever comes back from
the server identifies the representation, VoD segment and sample it was made from."""
import os
import random
import struct

U32 = struct.Struct('>I').pack
U64 = struct.Struct('>Q').pack


def box(typ, *parts):
    b = b''.join(parts)
    return U32(8 + len(b)) + typ + b


def full(typ, ver, flags, *parts):
    return box(typ, U32((ver << 24) | flags), *parts)


MATRIX = struct.pack('>9I', 0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000)


class Seg:
    __slots__ = ('nr', 'start', 'dur', 'samples', 'data', 'extra')

    def __init__(self, nr, start, dur, samples):
        self.nr, self.start, self.dur, self.samples = nr, start, dur, samples  # samples: (dur, flags, cto, bytes)
        self.data = None
        self.extra = {}


class Rep:
    def __init__(self, rid, ctype, track, timescale):
        self.id, self.ctype, self.track, self.timescale = rid, ctype, track, timescale
        self.segs = []
        self.ext = '.jpg' if ctype == 'image' else '.m4s'
        self.init = None
        self.opt = {}


class Asset:
    def __init__(self, name, seg_dur, n, first, tsbd):
        self.name, self.seg_dur, self.n, self.first, self.tsbd = name, seg_dur, n, first, tsbd
        self.reps = {}
        self.order = []
        self.prefix = ''
        self.mpds = {}
        self.version = '1.0'
        self.content_root = self.vod_dir = None

    @property
    def loop(self):
        return self.seg_dur * self.n

    def by_type(self, t):
        return [r for r in self.order if r.ctype == t]

    def path(self, rep, fname):
        rid = rep if isinstance(rep, str) else rep.id
        return '%s%s/%s' % (self.prefix, rid, fname)

    def describe(self):
        return {'name': self.name, 'seg_dur': self.seg_dur, 'n': self.n, 'first': self.first, 'prefix': self.prefix,
                'version': self.version, 'reps': [(r.id, r.timescale, r.opt.get('desc')) for r in self.order]}


def make_init(rep, rng):
    o = rep.opt
    v = o['init_ver']
    # durations from 0 to as many bits as the version has room for
    top = 64 if v else 32
    d1, d2, d3 = (rng.choice([0, 12345 + rng.randrange(1000), rng.randrange(2 ** top), 2 ** top - 1]) for _ in range(3))
    T = (lambda x: U64(x)) if v else (lambda x: U32(x))
    rng = random.Random(rng.random())           # what follows does not change what else is generated
    # the other fields of the headers
    c = [rng.choice([0, 5, 3_700_000_000, rng.randrange(2 ** 32)] + [2 ** 33 + 7] * v) for _ in range(6)]
    small = lambda: rng.choice([0, 0, 1, 0x100, rng.randrange(2 ** 16)])
    matrix = rng.choice([MATRIX, MATRIX, struct.pack('>9I', *[rng.randrange(2 ** 32) for _ in range(9)])])
    edts = box(b'edts', full(b'elst', 0, 0, U32(1), U32(rng.choice([0, 777])), U32(0), U32(0x10000))) if rng.random() < .3 else b''
    mehd = full(b'mehd', v, 0, T(rng.choice([0, 12345]))) if rng.random() < .3 else b''
    more = [b'', box(b'udta', box(b'name', b'x' * rng.randrange(9))), full(b'pssh', 0, 0, b'S' * 16, U32(3), b'abc')][rng.choice([0, 0, 0, 1, 2])]
    ftyp = box(b'ftyp', b'iso6', U32(1), b'iso6', b'dash')
    mvhd = full(b'mvhd', v, 0, T(c[0]), T(c[1]), U32(o['movie_ts']), T(d1), U32(rng.choice([0x10000, 0x18000])), struct.pack('>H', small()), b'\0' * 10,
                matrix, b'\0' * 24, U32(rng.choice([rep.track + 1, 2 ** 32 - 1])))
    tkhd = full(b'tkhd', v, 7, T(c[2]), T(c[3]), U32(rep.track), U32(0), T(d2), b'\0' * 8, struct.pack('>HHHH', small(), small(), small(), 0),
                matrix, U32(rng.choice([640 << 16, rng.randrange(2 ** 32)])), U32(360 << 16))
    mdhd = full(b'mdhd', v, 0, T(c[4]), T(c[5]), U32(rep.timescale), T(d3), struct.pack('>HH', rng.choice([0x55c4, 0x15c7]), 0))
    h = {'video': b'vide', 'audio': b'soun', 'subtitles': b'subt'}[rep.ctype]
    hdlr = full(b'hdlr', 0, 0, U32(0), h, b'\0' * 12, b'Handler\0')
    mh = {'video': full(b'vmhd', 0, 1, b'\0' * 8), 'audio': full(b'smhd', 0, 0, b'\0' * 4),
          'subtitles': full(b'sthd', 0, 0)}[rep.ctype]
    dinf = box(b'dinf', full(b'dref', 0, 0, U32(1), full(b'url ', 0, 1)))
    ent = box({'video': b'avc1', 'audio': b'mp4a', 'subtitles': b'stpp'}[rep.ctype],
              bytes(rng.randrange(256) for _ in range(rng.randrange(20, 60))))
    stbl = box(b'stbl', full(b'stsd', 0, 0, U32(1), ent), full(b'stts', 0, 0, U32(0)), full(b'stsc', 0, 0, U32(0)),
               full(b'stsz', 0, 0, U32(0), U32(0)), full(b'stco', 0, 0, U32(0)))
    mdia = box(b'mdia', mdhd, hdlr, box(b'minf', mh, dinf, stbl))
    trak = box(b'trak', tkhd, edts, mdia)
    tx = o['trex']
    trex = full(b'trex', 0, 0, U32(rep.track), U32(1), U32(tx[0]), U32(tx[1]), U32(tx[2]))
    mvex = box(b'mvex', mehd, trex)
    kids = [mvhd, trak, mvex, more] if o['mvex_last'] else [mvhd, more, mvex, trak]
    tail = box(b'free', b'abc') if o.get('init_free') else b''
    return ftyp + box(b'moov', *kids) + tail


SYNC, NONSYNC = 0x02000000, 0x01010000


def trun_cuts(o, n):
    k = o['multi_trun']
    return [n * j // k for j in range(1, k) if n * j // k]


def make_segment(rep, seg, rng):
    """Serialise one VoD segment according to rep.opt."""
    o = rep.opt
    sm = seg.samples
    tf = 0x20000
    tfp = b''
    dur_def = {s[0] for s in sm}
    tr = 0
    if o['dur'] == 'tfhd' and len(dur_def) == 1:
        tf |= 8
        tfdur = sm[0][0]
    elif o['dur'] == 'trex' and dur_def == {o['trex'][0]}:
        tfdur = None
    else:
        tfdur = None
        tr |= 0x100
    sizes = {len(s[3]) for s in sm}
    tfsize = None
    if o['size'] == 'tfhd' and len(sizes) == 1:
        tf |= 0x10
        tfsize = len(sm[0][3])
    elif o['size'] == 'trex' and sizes == {o['trex'][1]}:
        pass
    else:
        tr |= 0x200
    tfflags = None
    fl = [s[1] for s in sm]
    groups = [sm]
    if o.get('multi_trun') and len(sm) > 2:
        cut = trun_cuts(o, len(sm))
        groups = [sm[x:y] for x, y in zip([0] + cut, cut + [len(sm)])]
    rest = {s[1] for g in groups for s in g[1:]}
    if o['flags'] == 'first' and len(rest) <= 1 and len(fl) > 1:
        tr |= 4
        if rest <= {o['trex'][2]} and o['flags_trex']:
            pass
        else:
            tf |= 0x20
            tfflags = max(rest | {0})
    elif o['flags'] == 'default' and len(set(fl)) == 1:
        if fl[0] == o['trex'][2] and o['flags_trex']:
            pass
        else:
            tf |= 0x20
            tfflags = fl[0]
    else:
        tr |= 0x400
    if o['cto']:
        tr |= 0x800
    trv = 1 if o['cto'] == 'signed' else 0
    if o['sdi']:
        tf |= 2
    tr |= 1
    tfhd = full(b'tfhd', 0, tf, U32(rep.track), U32(1) if tf & 2 else b'', U32(tfdur) if tf & 8 else b'',
                U32(tfsize) if tf & 0x10 else b'', U32(tfflags) if tf & 0x20 else b'')
    tfdt = full(b'tfdt', 1, 0, U64(seg.start)) if o['tfdt'] else full(b'tfdt', 0, 0, U32(seg.start))

    def trun(doff, samples, later):
        fl_ = tr
        if later and o['trun_nooffset']:
            fl_ &= ~1     # follows directly after the previous one
        if later and fl_ & 4 and {s[1] for s in samples} <= rest:
            fl_ &= ~4
        if later and not fl_ & 4 and o['trun_mixed']:
            fl_ |= 0x400  # may say its flags by itself
        p = [U32(len(samples))]
        if fl_ & 1:
            p.append(struct.pack('>i', doff))
        if fl_ & 4:
            p.append(U32(samples[0][1]))
        for s in samples:
            if fl_ & 0x100:
                p.append(U32(s[0]))
            if fl_ & 0x200:
                p.append(U32(len(s[3])))
            if fl_ & 0x400:
                p.append(U32(s[1]))
            if fl_ & 0x800:
                p.append(struct.pack('>i', s[2]))
        return full(b'trun', trv, fl_, *p)
    cenc = o.get('cenc')
    aux = b''
    if cenc:
        n = len(sm)
        entries = []
        for i, s in enumerate(sm):
            iv = struct.pack('>II', seg.nr * 1000 + i, 0xC0FFEE00 | (rep.track & 0xff))
            entries.append(iv + struct.pack('>HHI', 1, 1, max(0, len(s[3]) - 1)))
        senc = full(b'senc', 0, 2, U32(n), *entries)
        saiz = full(b'saiz', 0, 0, bytes([16]), U32(n))
        seg.extra['aux'] = b''.join(entries)
        parts_of_aux = [b''.join(entries)]
        if len(groups) > 1 and o['saio_many']:               # one offset for every run of samples
            parts_of_aux = [b''.join(entries[x:y]) for x, y in zip([0] + cut, cut + [n])]
        seg.extra['aux_parts'] = parts_of_aux
    moof_extra = box(b'pssh', b'\0\0\0\0' + b'S' * 16 + U32(0)) if cenc == 'pssh' else b''
    mfhd = full(b'mfhd', 0, 0, U32(seg.nr if o['mfhd_real'] else 1))

    def build(doffs, saio_off):                              # saio_off: where the auxiliary information starts
        truns = [trun(d, g, i > 0) for i, (d, g) in enumerate(zip(doffs, groups))]
        parts = [tfhd, tfdt] + truns
        if cenc:
            so, at = b'', saio_off
            for x in parts_of_aux:
                so += U64(at) if o['saio_ver'] else U32(at)
                at += len(x)
            saio = full(b'saio', o['saio_ver'], 1 if o['saio_flag'] else 0,
                        b'cenc\0\0\0\0' if o['saio_flag'] else b'', U32(len(parts_of_aux)), so)
            parts += [saiz, saio, senc]
        traf = box(b'traf', *parts)
        moof = box(b'moof', mfhd, traf, moof_extra)
        so = 0
        if cenc:
            so = 8 + len(mfhd) + 8 + sum(len(p) for p in parts[:-1]) + 16
        return moof, so
    moof, so = build([0] * len(groups), 0)
    base = len(moof) + 8
    doffs = [0] * len(groups)
    payload = []
    order = list(range(len(groups)))
    if o.get('trun_order') == 'swapped':
        order.reverse()
    for j in order:
        if o.get('trun_order') and payload:                  # something nobody refers to
            payload.append(b'gap!')
            base += 4
        doffs[j] = base
        payload += [s[3] for s in groups[j]]
        base += sum(len(s[3]) for s in groups[j])
    moof, _ = build(doffs, so)
    mdat = box(b'mdat', *payload)
    out = []
    if o['styp']:
        br = [b'msdh', b'msix'][:1 + o['styp'] % 2]
        if o.get('vod_lmsg') and seg.nr == rep.segs[-1].nr:
            br = br + [b'lmsg']
        out.append(box(b'styp', b'msdh', U32(0), *br))
    if o['prft']:
        out.append(full(b'prft', 0, 0, U32(rep.track), U64(77), U32(5)))
    if o['sidx'] is not None:
        if o['sidx'] == 0:
            out.append(full(b'sidx', 0, 0, U32(1), U32(rep.timescale), U32(seg.start), U32(0), struct.pack('>HH', 0, 1),
                            U32(len(moof) + len(mdat)), U32(seg.dur), U32(0x90000000)))
        else:
            out.append(full(b'sidx', 1, 0, U32(1), U32(rep.timescale), U64(seg.start), U64(0), struct.pack('>HH', 0, 1),
                            U32(len(moof) + len(mdat)), U32(seg.dur), U32(0x90000000)))
    if o.get('free') in (1, 3):
        out.append(box(b'free', b'before'))
    out += [moof, mdat]
    if o.get('free') in (2, 3):
        out.append(box(b'free', b'after'))
    return b''.join(out)


def sample_opts(rng, ctype, free=False):
    o = basic_opts(rng, ctype)
    r = random.Random(rng.getrandbits(32))
    if r.random() < .3 and o['multi_trun']:
        o['trun_order'], o['trun_nooffset'] = r.choice(['gaps', 'swapped']), False
    o['saio_many'] = r.random() < .7
    if free and r.random() < .3:
        o['free'] = r.choice([1, 2, 3])
    return o


def basic_opts(rng, ctype):
    o = {
        'init_ver': rng.choice([0, 0, 1]), 'movie_ts': rng.choice([600, 1000, 90000]),
        'mvex_last': rng.random() < 0.6, 'init_free': rng.random() < 0.2,
        'dur': rng.choice(['trun', 'tfhd', 'trex']), 'size': rng.choice(['trun', 'trun', 'tfhd', 'trex']),
        'flags': rng.choice(['all', 'first', 'default']), 'flags_trex': rng.random() < 0.5,
        'cto': rng.choice([None, 'unsigned', 'signed']) if ctype == 'video' else None,
        'sdi': rng.random() < 0.3, 'tfdt': rng.choice([0, 0, 1]), 'mfhd_real': rng.random() < 0.7,
        'styp': rng.choice([1, 2, 1, 0]), 'prft': rng.random() < 0.1,
        'sidx': rng.choice([None, None, 0, 1]), 'vod_lmsg': rng.random() < 0.3,
        'saio_ver': rng.choice([0, 1]), 'saio_flag': rng.random() < 0.3,
        'cenc': None, 'multi_trun': rng.choice([2, 2, 3]) if rng.random() < 0.2 else 0,
        'trun_nooffset': rng.random() < .3, 'trun_mixed': rng.random() < .3, 'mid_sync': rng.random() < .5,
    }
    return o


def fill(rng, rid, nr, i, lo=4, hi=24, const=None):
    tag = ('%s/%d/%d|' % (rid, nr, i)).encode()
    n = const if const is not None else len(tag) + rng.randrange(lo, hi)
    pad = n - len(tag)
    return tag + bytes(rng.randrange(256) for _ in range(pad))


def build_av(asset, rep, rng, frame, mode):
    """Segments made of frames of `frame` ticks; segment i starts at the first frame boundary >= / nearest its nominal
    start, so with mode 'exact' all segments are equal and otherwise they vary by one frame."""
    ts, sd, n = rep.timescale, asset.seg_dur, asset.n
    o = rep.opt

    def bound(i):
        t = i * sd * ts
        if mode == 'floor':
            return t // frame
        if mode == 'round':
            return (2 * t + frame) // (2 * frame)
        return -(-t // frame)
    for i in range(n):
        b0, b1 = bound(i), bound(i + 1)
        nr = asset.first + i
        cnt = b1 - b0
        const = 40 if o['size'] in ('tfhd', 'trex') else None
        starts = {0} | (set(trun_cuts(o, cnt)) if o['multi_trun'] and cnt > 2 and o['mid_sync'] else set())
        sm = []
        for j in range(cnt):
            fl = SYNC if (rep.ctype != 'video' or j in starts) else NONSYNC
            cto = 0
            if o['cto'] == 'unsigned':
                cto = frame * ((j * 2) % 3)
            elif o['cto'] == 'signed':
                cto = frame * ((j % 3) - 1)
            sm.append((frame, fl, cto, fill(rng, rep.id, nr, j, const=const)))
        short = o['gaps'][i] if o.get('gaps') else 0         # the segment ends a little before the next one starts
        if short:
            sm[-1] = (frame - short,) + sm[-1][1:]
        s = Seg(nr, b0 * frame, cnt * frame - short, sm)
        rep.segs.append(s)
    o['trex'] = (frame if o['dur'] == 'trex' else 0, 0,
                 {'first': NONSYNC if rep.ctype == 'video' else SYNC, 'default': SYNC}.get(o['flags'], 0)
                 if o['flags_trex'] else 0)
    other_trex(o, rng, {s[0] for x in rep.segs for s in x.samples})


def other_trex(o, rng, durs):
    """Defaults which are always overridden may be anything."""
    r = random.Random(rng.getrandbits(32))
    d, z, f = o['trex']
    if o['dur'] != 'trex' or len(durs) > 1:
        d = r.choice([0, 0, 1, max(durs) + 1, max(durs), r.randrange(2 ** 32)])
    if o['size'] == 'trex':
        z = 40
    else:
        z = r.choice([0, 0, 1, r.randrange(2 ** 32)])
    if not o['flags_trex']:
        f = r.choice([0, 0, SYNC, NONSYNC])
    o['trex'] = (d, z, f)


def ttml(rng, asset, rep, nr, start):
    """A TTML document with cues inside [start, start+seg_dur)."""
    cues = []
    L = []
    tags = ['eng', 'swe', 'nor'] if rng.random() < .6 else ['ENG', 'ptBR', 'zh_Hans', 'sr2', 'x']
    lang = rng.choice(tags)
    big = random.Random(rng.getrandbits(32))
    big = [0, 0, 0, 0, 0, 0, 0, 4000, 9000, big.randrange(3000)][big.randrange(10)]
    rep_ms = []
    for k in range(rng.randrange(1, 4)):
        b = start * 1000 + rng.randrange(asset.seg_dur * 1000 - 1)
        e = min((start + asset.seg_dur) * 1000, b + rng.randrange(1, 2000))
        rep_ms.append((b, e))

    def ts(ms, frac):
        h, r = divmod(ms // 1000, 3600)
        m, s = divmod(r, 60)
        x = '%02d:%02d:%02d' % (h, m, s)
        return x + ('.%03d' % (ms % 1000) if frac else '')
    withseg = rng.random() < 0.7
    withtime = rng.random() < 0.7
    body = []
    info = []
    for k, (b, e) in enumerate(rep_ms):
        frac = rng.random() < 0.85
        if not frac:
            b, e = b // 1000 * 1000, (e + 999) // 1000 * 1000
        txt, langs, nsegs = [], [], 0
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            if withtime:
                langs.append(lang if not langs else rng.choice(tags + [lang]))
                txt.append('%s : %s' % (langs[-1], ts(b, frac)))
            if withseg:
                txt.append('Segment # %d' % nr)
                nsegs += 1
        txt.append('uid-%s-%d-%d \u00e5\u00e4\u00f6' % (rep.id, nr, k) + '\u00f8\u20ac\U0001f600y'[nr % 3:] * (big // 3))
        body.append('      <p xml:id="sub%05d" begin="%s" end="%s" region="r%d">\n        <span style="s1">%s</span>\n      </p>'
                    % (k, ts(b, frac), ts(e, frac), k % 2, '<br/>'.join(txt)))
        info.append({'b': b, 'e': e, 'frac': frac, 'langs': langs, 'segs': nsegs, 'id': k})
    doc = ('<?xml version="1.0" encoding="UTF-8"?>\n<tt xmlns:ttp="http://www.w3.org/ns/ttml#parameter" '
           'xmlns="http://www.w3.org/ns/ttml" xmlns:tts="http://www.w3.org/ns/ttml#styling" xml:lang="%s" '
           'ttp:timeBase="media" tts:extent="640px 480px">\n  <head/>\n  <body>\n    <div>\n%s\n    </div>\n  </body>\n</tt>\n'
           % (lang, '\n'.join(body)))
    return doc.encode('utf-8'), info


def build_subs(asset, rep, rng):
    o = rep.opt
    o.update({'dur': 'tfhd', 'size': 'tfhd', 'flags': 'all' if rng.random() < .3 else 'default', 'cto': None,
              'multi_trun': False, 'cenc': None, 'flags_trex': False})
    for i in range(asset.n):
        nr = asset.first + i
        d, info = ttml(rng, asset, rep, nr, i * asset.seg_dur)
        s = Seg(nr, i * asset.seg_dur * rep.timescale, asset.seg_dur * rep.timescale,
                [(asset.seg_dur * rep.timescale, SYNC, 0, d)])
        s.extra['cues'] = info
        rep.segs.append(s)
    o['trex'] = (0, 0, 0)
    other_trex(o, rng, {asset.seg_dur * rep.timescale})


def finish(asset, rep, rng):
    for s in rep.segs:
        s.data = make_segment(rep, s, rng)
    rep.init = make_init(rep, rng)


def dat_entries(rep):
    ent = []
    for s in rep.segs:
        if ent and ent[-1][3] == s.dur and ent[-1][2] + (ent[-1][1] + 1) * s.dur == s.start:
            ent[-1][1] += 1
        else:
            ent.append([s.nr, 0, s.start, s.dur])
    return ent


NS = 'urn:mpeg:dash:schema:mpd:2011'
LIVE_PROFILES = ['http://dashif.org/guidelines/adin/app', 'http://www.dashif.org/guidelines/low-latency-live-v5']


def rich_base(rng, ctype):
    """optional children of an AdaptationSet or Representation, in the order of the schema"""
    out = []
    if ctype == 'video' and rng.random() < .2:
        out.append('<FramePacking schemeIdUri="urn:mpeg:dash:14496:10:frame_packing_arrangement_type:2011" value="3"/>')
    if ctype == 'audio' and rng.random() < .4:
        out.append('<AudioChannelConfiguration schemeIdUri="urn:mpeg:dash:23003:3:audio_channel_configuration:2011" value="2"/>')
    if rng.random() < .4:
        out.append('<ContentProtection schemeIdUri="urn:mpeg:dash:mp4protection:2011" value="cenc"/>')
    if rng.random() < .3:
        out.append('<EssentialProperty schemeIdUri="urn:x:essential:%d"/>' % rng.randrange(9))
    more = random.Random(rng.getrandbits(32))
    if rng.random() < .4:
        out += ['<SupplementalProperty schemeIdUri="urn:x:supp:%d" value="%d"/>' % (k, rng.randrange(9)) for k in range(rng.choice([1, 2]))]
    if rng.random() < .3:
        out.append('<InbandEventStream schemeIdUri="urn:x:events:2015" value="%d"/>' % rng.randrange(9))
    if more.random() < .25:
        out.append('<Switching interval="2000" type="media"/>')
    if more.random() < .2:
        out.append('<RandomAccess interval="2000" type="closed"/>')
    if more.random() < .2:
        out.append('<GroupLabel>group</GroupLabel>')
    if rng.random() < .3:
        out.append('<Label>label &lt;%d</Label>' % rng.randrange(9))
    return out


def make_mpd(asset, rng, sets, baseurl=None, rich=False):
    """A static VoD MPD.  sets: list of (contentType attr, [reps])."""
    total = asset.loop * rng.choice([1, 1, 2])
    profs = ['urn:mpeg:dash:profile:isoff-live:2011', rng.choice(['urn:com:dashif:dash264', 'http://dashif.org/guidelines/dash-if-simple'])]
    mix = random.Random(rng.getrandbits(32))
    for x in LIVE_PROFILES:                                  # the content may already be said to conform to these
        if mix.random() < .15:
            profs.insert(mix.randrange(len(profs) + 1), x)
    out = ['<?xml version="1.0" encoding="utf-8"?>']
    out.append('<MPD xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns="%s" '
               'xsi:schemaLocation="urn:mpeg:dash:schema:mpd:2011 DASH-MPD.xsd" '
               'profiles="%s" maxSegmentDuration="PT%dS" '
               'minBufferTime="PT2S" type="static" mediaPresentationDuration="PT%dS">'
               % (NS, ','.join(profs), asset.seg_dur, total))
    if rng.random() < 0.7:
        out.append('  <ProgramInformation><Title>t &amp; u \u00e5</Title>%s</ProgramInformation>'
                   % rng.choice(['', '<Source>dns0: &lt;x&gt; "q"</Source>']))
    for j in range(rng.choice([1, 2, 3, 4]) if baseurl else 0):
        out.append('  <BaseURL%s>%s%s</BaseURL>' % (' serviceLocation="%d"' % j if j else '', baseurl, 'alt%d/' % j if j else ''))
    if rich and rng.random() < .4:
        out.append('  <ServiceDescription id="7"><Scope schemeIdUri="urn:x:scope"/><Latency target="3000"/></ServiceDescription>')
    out.append('  <Period id="precambrian"%s>' % (' start="PT0S"' if rng.random() < .5 else ''))
    if rich and mix.random() < .3:
        out.append('    <BaseURL>./</BaseURL>')
    if rich and rng.random() < .4:
        out.append('    <AssetIdentifier schemeIdUri="urn:org:dashif:asset-id:2013" value="md:cid:EIDR:1"/>')
    if rich and rng.random() < .3:
        out.append('    <EventStream schemeIdUri="urn:x:e:2015" timescale="1000"><Event presentationTime="5" id="3">a &amp; b</Event></EventStream>')
    for ctype, reps in sets:
        mime = {'video': 'video/mp4', 'audio': 'audio/mp4', 'text': 'application/mp4', 'subtitles': 'application/mp4',
                'image': 'image/jpeg'}[ctype]
        out.append('    <AdaptationSet contentType="%s" mimeType="%s" lang="en" segmentAlignment="true" startWithSAP="1">'
                   % (ctype, mime))
        if rich:
            out += ['      ' + x for x in rich_base(rng, ctype)]
        elif rng.random() < .3:
            out.append('      <ContentProtection xmlns:cenc="urn:mpeg:cenc:2013" schemeIdUri="urn:mpeg:dash:mp4protection:2011" '
                       'value="cenc" cenc:default_KID="10000000-1000-1000-1000-10000000000%d"><cenc:pssh>AAAA&#43;</cenc:pssh>'
                       '</ContentProtection>' % rng.randrange(10))
        if rng.random() < .2:
            out.append('      <Accessibility schemeIdUri="urn:scte:dash:cc:cea-608:2015" value="CC1=eng"/>')
        if rng.random() < .5:
            out.append('      <Role schemeIdUri="urn:mpeg:dash:role:2011" value="main"/>')
        ext = 'jpg' if ctype == 'image' else 'm4s'
        init = '' if ctype == 'image' else 'initialization="%s$RepresentationID$/init.mp4" ' % asset.prefix
        out.append('      <SegmentTemplate %smedia="%s$RepresentationID$/$Number$.%s" duration="%d" startNumber="%d"%s/>'
                   % (init, asset.prefix, ext, asset.seg_dur, asset.first, ' timescale="1"' if rng.random() < .3 else ''))
        for k, r in enumerate(reps):
            if rich and rng.random() < .3:
                out.append('      <Representation id="%s" codecs="x%d" bandwidth="%d">%s</Representation>' % (
                    r.id, k, 1000 * (k + 1), ''.join(rich_base(rng, ctype))))
            elif ctype == 'audio' and rng.random() < .5:
                out.append('      <Representation id="%s" codecs="x%d" bandwidth="%d" audioSamplingRate="48000">'
                           '<AudioChannelConfiguration schemeIdUri="urn:mpeg:dash:23003:3:audio_channel_configuration:2011" value="2"/>'
                           '</Representation>' % (r.id, k, 1000 * (k + 1)))
            else:
                out.append('      <Representation id="%s" codecs="x%d" bandwidth="%d"/>' % (r.id, k, 1000 * (k + 1)))
        out.append('    </AdaptationSet>')
    if rich and rng.random() < .3:
        out.append('    <Subset contains="0 1"/>')
    if rich and rng.random() < .3:
        out.append('    <SupplementalProperty schemeIdUri="urn:x:period" value="1"/>')
    out.append('  </Period>')
    if rich:
        if rng.random() < .4:
            out.append('  <Metrics metrics="DVBErrors"><Reporting schemeIdUri="urn:dvb:dash:reporting:2014" value="1"/></Metrics>')
        if rng.random() < .2:
            out.append('  <EssentialProperty schemeIdUri="urn:x:mpd" value="1"/>')
        if rng.random() < .3:
            out.append('  <SupplementalProperty schemeIdUri="urn:x:mpd" value="1"/>')
    out.append('</MPD>')
    return '\n'.join(out) + '\n'


# timescale -> frames per second choices giving few samples per segment
VIDEO = [(90000, 45000), (90000, 18000), (12800, 2560), (1000, 250), (25, 5), (10000000, 2500000), (30000, 6006), (600, 100)]
AUDIO = [(48000, 24000), (48000, 9600), (48000, 16384), (44100, 22050), (10000000, 5000000), (32000, 7168), (48000, 10240)]


def make_asset(rng, root, name, seg_dur=None, n=None, first=None, subs=None, image=None, cenc=None, uneven=None,
               version=None, prefix='', baseurl=None, fine=False, styp=None, multi_trun=True, tfdt=None, nvideo=None,
               max_ts=None, dense=False, rich=False, only=None, free=False, gaps=False, vtable=None):
    a = Asset(name, seg_dur or rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15]), n or rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12] * 2 + [rng.choice([17, 30, 50])]),
              first if first is not None else rng.choice([0, 1, 1, 1, 5, 17, rng.choice([99, 1000])]), rng.choice([300, 60, 30, 10]))
    a.prefix = prefix
    a.version = version or rng.choice(['1.0', '1.1', '1.1'])
    uneven = rng.random() < .6 if uneven is None else uneven

    def pick(table, allow_uneven):
        tries = 0
        really = allow_uneven and a.n > 1 and rng.random() < .8
        while True:
            tries += 1
            must = really and tries < 40                     # segments of different length, if that is possible at all
            ts, fr = rng.choice(table)
            if max_ts and ts > max_ts:
                continue
            tot = a.loop * ts
            if dense:
                fr = tot + 1
            if fine and rng.random() < .5:
                fr = {48000: 1024, 90000: 3000, 12800: 512, 44100: 1024, 32000: 1024}.get(ts, fr)
            if tot % fr == 0 and tot < 2 ** 32 and (allow_uneven or (a.seg_dur * ts) % fr == 0) and fr < a.seg_dur * ts \
                    and not (must and ((a.seg_dur * ts) % fr == 0 or fr >= ts)):
                return ts, fr
            if tot >= 2 ** 32:
                continue
            # any frame that divides the loop
            for k in rng.sample(range(11 * a.seg_dur, 25 * a.seg_dur), 10) if dense else rng.sample(
                    range(max(3, a.seg_dur + 1), a.seg_dur + 14) if must else range(2, 12), 10):
                if tot % (a.n * k) == 0 and not allow_uneven:
                    return ts, tot // (a.n * k)
                if allow_uneven:
                    m = a.n * k + rng.choice([-1, 1]) * rng.randrange(0, a.n + 1)
                    if m >= a.n * 2 and tot % m == 0 and not (must and (a.seg_dur * ts) % (tot // m) == 0):
                        return ts, tot // m
    tracks = iter(range(1, 50))
    nv = nvideo or rng.choice([1, 1, 2])
    if only == 'audio':
        nv = 0
    vts, vfr = pick(vtable or VIDEO, uneven and rng.random() < .4)
    vmode = rng.choice(['ceil', 'floor', 'round'])
    nomulti = rng.random() < .3
    ids = {'video': rng.choice(['V', 'video_', 'v300_']), 'audio': rng.choice(['A', 'audio-', 'A48_'])}
    suffix = rng.choice([['1', '2', '3'], ['1', '2', '3'], ['1', '10', '100'], ['10', '1', '11']])
    for k in range(nv):
        r = Rep('%s%s' % (ids['video'], suffix[k]), 'video', next(tracks), vts)
        r.opt = sample_opts(rng, 'video', free)
        build_common(a, r, rng, vfr, vmode, cenc, styp, multi_trun, tfdt, gaps)
    ats, afr = pick(AUDIO, uneven)
    amode = rng.choice(['ceil', 'floor', 'round'])
    for k in range(0 if only == 'video' else 1 if nomulti else rng.choice([1, 1, 2])):
        r = Rep('%s%s' % (ids['audio'], suffix[k]), 'audio', next(tracks), ats)
        r.opt = sample_opts(rng, 'audio', free)
        build_common(a, r, rng, afr, amode, cenc, styp, multi_trun, tfdt, gaps)
    if subs or (subs is None and rng.random() < .4):
        for k in range(rng.choice([1, 2])):
            r = Rep('S%d' % (k + 1), 'subtitles', next(tracks), rng.choice([1000, 1000, 90000]))
            r.opt = sample_opts(rng, 'subtitles', free)
            if tfdt is not None:
                r.opt['tfdt'] = tfdt
            if styp is not None:
                r.opt['styp'] = styp
            build_subs(a, r, rng)
            if k:
                r.timescale = a.order[-1].timescale
                r.segs = []
                build_subs(a, r, rng)
            finish(a, r, rng)
            a.reps[r.id] = r
            a.order.append(r)
    if image or (image is None and rng.random() < .3):
        r = Rep('thumbs', 'image', 0, 1)
        r.opt = {}
        for i in range(a.n):
            s = Seg(a.first + i, i * a.seg_dur, a.seg_dur, [])
            s.data = b'\xff\xd8' + fill(rng, r.id, a.first + i, 0)
            r.segs.append(s)
        a.reps[r.id] = r
        a.order.append(r)
    for r in a.order:
        r.opt['desc'] = '%d segs %s%s' % (len(r.segs), sorted({s.dur for s in r.segs})[:3],
                                          ' cenc' if r.opt.get('cenc') else '')
    write(a, root, rng, baseurl, rich)
    return a


def build_common(a, r, rng, frame, mode, cenc, styp, multi_trun, tfdt, gaps=False):
    o = r.opt
    if cenc or (cenc is None and rng.random() < .25):
        o['cenc'] = rng.choice(['plain', 'pssh'])
    if styp is not None:
        o['styp'] = styp
    if tfdt is not None:
        o['tfdt'] = tfdt
    if not multi_trun:
        o['multi_trun'] = 0
    if gaps:
        g = random.Random('%s/%d' % (a.name + r.ctype, frame))  # the same for all representations of the type
        o['dur'], o['multi_trun'] = 'trun', 0
        o['gaps'] = [g.choice([0, 0, 0, 1, g.randrange(1, max(2, min(frame, r.timescale // 40)))]) if frame > 1 else 0 for _ in range(a.n)]
    build_av(a, r, rng, frame, mode)
    finish(a, r, rng)
    a.reps[r.id] = r
    a.order.append(r)


def write(a, root, rng, baseurl=None, rich=False):
    a.content_root = os.path.join(root, 'content')
    a.vod_dir = os.path.join(root, 'vodcfg')
    os.makedirs(a.vod_dir, exist_ok=True)
    base = os.path.join(a.content_root, a.name)
    for r in a.order:
        d = os.path.join(base, a.prefix + r.id)
        os.makedirs(d, exist_ok=True)
        if r.init is not None:
            with open(os.path.join(d, 'init.mp4'), 'wb') as f:
                f.write(r.init)
        for s in r.segs:
            with open(os.path.join(d, '%d%s' % (s.nr, r.ext)), 'wb') as f:
                f.write(s.data)
    v, au, su, im = (a.by_type(t) for t in ('video', 'audio', 'subtitles', 'image'))
    a.mpds['Manifest.mpd'] = [('audio', au), ('video', v)]
    if su:
        a.mpds['Manifest_stpp.mpd'] = [('video', v), ('audio', au)] + [('text', [s]) for s in su]
    if im:
        a.mpds['thumbs.mpd'] = [('video', v), ('audio', au), ('image', im)]
    a.mpds['av_single.mpd'] = [('video', v[:1]), ('audio', au[:1])]
    a.mpd_text = {}
    a.mpds = {name: [x for x in sets if x[1]] for name, sets in a.mpds.items()}
    for name, sets in a.mpds.items():
        a.mpd_text[name] = make_mpd(a, rng, sets, baseurl, rich)
        with open(os.path.join(base, name), 'w', encoding='utf-8') as f:
            f.write(a.mpd_text[name])
    sec = {'video': v, 'audio': au, 'subtitles': su, 'image': im}
    L = ['[General]', 'version = %s' % a.version, '', '[Setup]', 'first_segment_in_loop = %d' % a.first,
         'nr_segments_in_loop = %d' % a.n, 'segment_duration_s = %d' % a.seg_dur, 'default_tsbd_secs = %d' % a.tsbd, '']
    for t, reps in sec.items():
        if not reps:
            continue
        L += ['[%s]' % t, 'representations = %s' % ','.join(r.id for r in reps), 'timescale = %d' % reps[0].timescale]
        if a.version == '1.1':
            dat = '%s_%s.dat' % (a.name, t)
            L += ['total_duration = %d' % (a.loop * reps[0].timescale), 'dat_file = %s' % dat]
            with open(os.path.join(a.vod_dir, dat), 'wb') as f:
                for e in dat_entries(reps[0]):
                    f.write(struct.pack('HHII', *e))
        L.append('')
    with open(os.path.join(a.vod_dir, a.name + '.cfg'), 'w') as f:
        f.write('\n'.join(L))
