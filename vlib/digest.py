import hashlib


def digest(r):
    """All that a client can see of a reply."""
    h = hashlib.sha256(repr((r.line, sorted(r.headers or []), r.exc, r.defects)).encode())
    h.update(b'|'.join(p for _, p in r.pieces))
    return '%s %d %s' % (r.status, len(r.body), h.hexdigest()[:20])
