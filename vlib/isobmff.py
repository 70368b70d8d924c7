"""A small strict ISO BMFF reader, written for the monitors (shares no code with /repo).

Everything raises BoxError on the first structural defect, so "it parses here" is itself an oracle:
sizes must nest exactly, tables must fill their boxes, sample data must lie inside an mdat.
"""
import struct
from collections import namedtuple

CONTAINERS = {b'moov', b'trak', b'mdia', b'minf', b'stbl', b'dinf', b'mvex', b'moof', b'traf', b'edts', b'udta',
              b'sinf', b'schi'}


class BoxError(Exception):
    pass


class Box:
    __slots__ = ('type', 'off', 'size', 'hdr', 'data', 'kids', 'parent')

    def __init__(self, typ, off, size, hdr, data):
        self.type, self.off, self.size, self.hdr, self.data = typ, off, size, hdr, data
        self.kids = None
        self.parent = None

    @property
    def raw(self):
        return self.data[self.off:self.off + self.size]

    @property
    def body(self):
        return self.data[self.off + self.hdr:self.off + self.size]

    def all(self, *path):
        cur = [self]
        for p in path:
            cur = [k for b in cur for k in (b.kids or []) if k.type == p]
        return cur

    def one(self, *path):
        r = self.all(*path)
        if len(r) != 1:
            raise BoxError('expected exactly one %r in %r, found %d' % (path, self.type, len(r)))
        return r[0]

    def walk(self):
        yield self
        for k in self.kids or []:
            yield from k.walk()


def parse(data, start=0, end=None, parent=None, depth=0):
    """List of boxes filling data[start:end] exactly."""
    if end is None:
        end = len(data)
    out = []
    pos = start
    while pos < end:
        if end - pos < 8:
            raise BoxError('%d stray bytes at %d in %s' % (end - pos, pos, parent))
        size, typ = struct.unpack('>I4s', data[pos:pos + 8])
        hdr = 8
        if size == 1:
            if end - pos < 16:
                raise BoxError('truncated largesize at %d' % pos)
            size = struct.unpack('>Q', data[pos + 8:pos + 16])[0]
            hdr = 16
        if size < hdr or pos + size > end:
            raise BoxError('box %r at %d has size %d but only %d bytes remain in %s'
                           % (typ, pos, size, end - pos, parent))
        if not all(32 <= c < 127 for c in typ):
            raise BoxError('bad box type %r at %d' % (typ, pos))
        b = Box(typ, pos, size, hdr, data)
        if typ in CONTAINERS and depth < 12:
            b.kids = parse(data, pos + hdr, pos + size, typ, depth + 1)
            for k in b.kids:
                k.parent = b
        out.append(b)
        pos += size
    return out


def fullbox(b):
    v, = struct.unpack('>I', b.body[:4])
    return v >> 24, v & 0xffffff


Tfhd = namedtuple('Tfhd', 'track flags base sdi dur size sflags')


def tfhd(b):
    ver, fl = fullbox(b)
    p = 4
    d = b.body
    track, = struct.unpack('>I', d[p:p + 4])
    p += 4
    base = sdi = dur = size = sfl = None
    if fl & 1:
        base, = struct.unpack('>Q', d[p:p + 8]); p += 8
    if fl & 2:
        sdi, = struct.unpack('>I', d[p:p + 4]); p += 4
    if fl & 8:
        dur, = struct.unpack('>I', d[p:p + 4]); p += 4
    if fl & 0x10:
        size, = struct.unpack('>I', d[p:p + 4]); p += 4
    if fl & 0x20:
        sfl, = struct.unpack('>I', d[p:p + 4]); p += 4
    if p != len(d):
        raise BoxError('tfhd has %d bytes, its flags need %d' % (len(d), p))
    return Tfhd(track, fl, base, sdi, dur, size, sfl)


def tfdt(b):
    ver, fl = fullbox(b)
    if ver == 0:
        if len(b.body) != 8:
            raise BoxError('tfdt v0 with body of %d' % len(b.body))
        return struct.unpack('>I', b.body[4:8])[0]
    if ver == 1:
        if len(b.body) != 12:
            raise BoxError('tfdt v1 with body of %d' % len(b.body))
        return struct.unpack('>Q', b.body[4:12])[0]
    raise BoxError('tfdt version %d' % ver)


Trun = namedtuple('Trun', 'version flags data_offset first_flags entries')


def trun(b):
    ver, fl = fullbox(b)
    d = b.body
    cnt, = struct.unpack('>I', d[4:8])
    p = 8
    doff = ff = None
    if fl & 1:
        doff, = struct.unpack('>i', d[p:p + 4]); p += 4
    if fl & 4:
        ff, = struct.unpack('>I', d[p:p + 4]); p += 4
    ent = []
    for _ in range(cnt):
        du = sz = sf = co = None
        if fl & 0x100:
            du, = struct.unpack('>I', d[p:p + 4]); p += 4
        if fl & 0x200:
            sz, = struct.unpack('>I', d[p:p + 4]); p += 4
        if fl & 0x400:
            sf, = struct.unpack('>I', d[p:p + 4]); p += 4
        if fl & 0x800:
            co, = struct.unpack('>i' if ver else '>I', d[p:p + 4]); p += 4
        ent.append((du, sz, sf, co))
    if p != len(d):
        raise BoxError('trun has %d bytes, its flags need %d' % (len(d), p))
    return Trun(ver, fl, doff, ff, ent)


Sample = namedtuple('Sample', 'track dts dur size flags cto data')


def samples_of_moof(data, moof, trex):
    """Samples in order, each traf's samples with absolute decode times. trex: {track: (dur,size,flags)}."""
    out = []
    mdats = None
    for traf in moof.all(b'traf'):
        h = tfhd(traf.one(b'tfhd'))
        t = tfdt(traf.one(b'tfdt'))
        base = h.base if h.base is not None else moof.off
        tx = trex.get(h.track, (None, None, None))
        pos = None
        for tb in traf.all(b'trun'):
            tr = trun(tb)
            if tr.data_offset is not None:
                pos = base + tr.data_offset
            elif pos is None:
                pos = base
            for i, (du, sz, sf, co) in enumerate(tr.entries):
                du = du if du is not None else h.dur if h.dur is not None else tx[0]
                sz = sz if sz is not None else h.size if h.size is not None else tx[1]
                if sf is None:
                    if i == 0 and tr.first_flags is not None:
                        sf = tr.first_flags
                    else:
                        sf = h.sflags if h.sflags is not None else tx[2]
                if du is None or sz is None:
                    raise BoxError('sample without duration or size')
                if pos < 0 or pos + sz > len(data):
                    raise BoxError('sample at %d+%d outside the segment' % (pos, sz))
                out.append((Sample(h.track, t, du, sz, sf, co or 0, data[pos:pos + sz]), pos))
                pos += sz
                t += du
    return out


def samples(data, trex=None, boxes=None):
    """All samples of a segment; every sample must lie in an mdat body."""
    boxes = boxes if boxes is not None else parse(data)
    trex = trex or {}
    mdats = [(b.off + b.hdr, b.off + b.size) for b in boxes if b.type == b'mdat']
    res = []
    for b in boxes:
        if b.type == b'moof':
            for s, pos in samples_of_moof(data, b, trex):
                if not any(lo <= pos and pos + s.size <= hi for lo, hi in mdats):
                    raise BoxError('sample bytes %d..%d are outside every mdat %s' % (pos, pos + s.size, mdats))
                res.append(s)
    return res


def mfhd_seq(moof):
    return mfhd_seq_box(moof.one(b'mfhd'))


def mfhd_seq_box(b):
    if len(b.body) != 8:
        raise BoxError('mfhd body %d' % len(b.body))
    return struct.unpack('>I', b.body[4:8])[0]


def brands(styp):
    d = styp.body
    if len(d) % 4 or len(d) < 8:
        raise BoxError('styp body %d' % len(d))
    return d[:4], struct.unpack('>I', d[4:8])[0], [d[i:i + 4] for i in range(8, len(d), 4)]


Sidx = namedtuple('Sidx', 'version refid timescale ept first_offset refs')


def sidx(b):
    ver, fl = fullbox(b)
    d = b.body
    refid, ts = struct.unpack('>II', d[4:12])
    if ver == 0:
        ept, fo = struct.unpack('>II', d[12:20]); p = 20
    else:
        ept, fo = struct.unpack('>QQ', d[12:28]); p = 28
    _, cnt = struct.unpack('>HH', d[p:p + 4]); p += 4
    refs = []
    for _ in range(cnt):
        a, du, sap = struct.unpack('>III', d[p:p + 12]); p += 12
        refs.append((a >> 31, a & 0x7fffffff, du, sap))
    if p != len(d):
        raise BoxError('sidx has %d bytes, needs %d' % (len(d), p))
    return Sidx(ver, refid, ts, ept, fo, refs)


Emsg = namedtuple('Emsg', 'scheme value timescale delta dur id data')


def emsg(b):
    ver, fl = fullbox(b)
    if ver != 0:
        raise BoxError('emsg version %d' % ver)
    d = b.body[4:]
    i = d.index(b'\0')
    j = d.index(b'\0', i + 1)
    ts, de, du, eid = struct.unpack('>IIII', d[j + 1:j + 17])
    return Emsg(d[:i].decode(), d[i + 1:j].decode(), ts, de, du, eid, d[j + 17:])


def saio(b):
    ver, fl = fullbox(b)
    d = b.body
    p = 4
    if fl & 1:
        p += 8
    n, = struct.unpack('>I', d[p:p + 4]); p += 4
    w = 4 if ver == 0 else 8
    if len(d) != p + w * n:
        raise BoxError('saio size')
    return [struct.unpack('>I' if w == 4 else '>Q', d[p + i * w:p + (i + 1) * w])[0] for i in range(n)]


def init_info(data):
    """{'tracks': {id: {'timescale','handler','tkhd_dur','mdhd_dur'}}, 'mvhd_dur':..., 'trex': {...}}"""
    boxes = parse(data)
    moov = [b for b in boxes if b.type == b'moov']
    if len(moov) != 1 or not boxes or boxes[0].type != b'ftyp':
        raise BoxError('init segment must be ftyp + one moov, is %s' % [b.type for b in boxes])
    moov = moov[0]

    def dur(b, o0, o1):
        v = b.body[0]
        return struct.unpack('>I', b.body[o0:o0 + 4])[0] if v == 0 else struct.unpack('>Q', b.body[o1:o1 + 8])[0]
    res = {'mvhd_dur': dur(moov.one(b'mvhd'), 16, 24), 'tracks': {}, 'trex': {}, 'boxes': boxes}
    for tr in moov.all(b'trak'):
        tk = tr.one(b'tkhd')
        v = tk.body[0]
        tid = struct.unpack('>I', tk.body[12:16] if v == 0 else tk.body[20:24])[0]
        md = tr.one(b'mdia', b'mdhd')
        v = md.body[0]
        ts = struct.unpack('>I', md.body[12:16] if v == 0 else md.body[20:24])[0]
        res['tracks'][tid] = {'timescale': ts, 'handler': tr.one(b'mdia', b'hdlr').body[8:12],
                              'tkhd_dur': dur(tk, 20, 28), 'mdhd_dur': dur(md, 16, 24)}
    for tx in moov.all(b'mvex', b'trex'):
        tid, _, du, sz, fl = struct.unpack('>IIIII', tx.body[4:24])
        res['trex'][tid] = (du, sz, fl)
    return res
