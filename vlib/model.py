"""Reference model of a configured live session, written from the documentation (shares no code with /repo).

Numbers: k counts segments from the start of the session (k = 0 becomes complete at AST + seg_dur).
"""
from fractions import Fraction as F

EXTRA = 60          # segments stay 60 s after availabilityEndTime


def q(x, step):
    return x // step * step


def ceilq(x, step):
    return -(-x // step) * step


class S:
    """The session that options `o` give for asset `a` at time `now`."""

    def __init__(self, a, o, now):
        sd = a.seg_dur
        n = int(now // 1)
        self.a, self.o, self.sd, self.now_int = a, o, sd, n
        self.tsbd = o.get('tsbd', a.tsbd)
        self.mup = o.get('mup')
        self.ast = 0
        self.aet = self.mpdur = self.stop = self.start = None
        self.last_k = None          # last segment of the whole session, when the session has a last one
        self.lmsg_k = None
        start, stop = o.get('start'), o.get('stop')
        if 'startrel' in o:
            start = n + o['startrel']
        if 'stoprel' in o:
            stop = n + o['stoprel']
        if start is not None:
            self.start = self.ast = q(start, sd)
            if self.mup is None:
                self.mup = 10
            if o.get('dur'):
                ends = []
                tot = 0
                for d in o['dur']:
                    tot += d
                    ends.append(q(start + tot, sd))
                self.ends = ends
                cur = ends[-1]
                for e in reversed(ends):          # the earliest end that is still more than 2*mup - away
                    if n > e - 2 * self.mup:
                        break
                    cur = e
                self.aet = cur
                self.mpdur = cur - self.ast
                self.session_end = ends[-1]
                self.last_k = self.lmsg_k = (ends[-1] - self.ast) // sd - 1
            if stop is not None:
                self.stop = ceilq(stop, sd)
                self.mpdur = self.stop - self.ast
                self.tsbd = self.stop - self.ast
        if o.get('tfdt'):
            self.ast = q(n, 10800)
            self.aet = self.ast + 10800
            self.mpdur = 10800
            self.mup = 5400
        if o.get('modulo'):
            m = o['modulo'] * 60
            base, sec = q(n, m), n % m
            if sec * 10 < m:
                f = 2
            elif sec * 10 < 3 * m:
                f = 4
            elif sec * 10 < 5 * m:
                f = 6
            elif sec * 10 < 9 * m:
                f = 8
            else:
                f = 2
                base += m
            self.ast = base
            self.mpdur = F(m * f, 10)
            self.mup = F(m, 20)
            self.aet = self.ast + self.mpdur + self.mup
            self.last_k = self.lmsg_k = int(-(-self.mpdur // sd)) - 1
        ato = o.get('ato', 0)
        self.ato = None if ato == 'inf' else F(str(ato)) if not isinstance(ato, F) else ato
        snr = o.get('snr', 0)
        self.base_nr = 1 if snr == -1 else snr
        t = o.get('timeoffset')
        self.media_at_ast = 0 if t is None else self.ast - t
        self.first_nr = self.base_nr + self.media_at_ast // sd

    @property
    def stop_k(self):
        return None if self.stop is None else (self.stop - self.ast) // self.sd

    def nr(self, k):
        return self.first_nr + k

    def media_time(self, k):
        return self.media_at_ast + k * self.sd

    def vod(self, k):
        """(VoD number, seconds added to VoD times)"""
        t = self.media_time(k)
        loops, r = divmod(t, self.a.loop)
        return self.a.first + r // self.sd, loops * self.a.loop

    def avail(self, k):
        """[earliest, latest] in wall-clock; None = unbounded"""
        end = self.ast + (k + 1) * self.sd
        if self.ato is None:
            return self.ast, None
        lo = end - self.ato
        hi = end + self.sd + self.tsbd if self.stop is None else None
        return lo, hi

    def status(self, k, now):
        """'ok', or the reason why segment k is not served at (float) time now."""
        now = F(now)
        first = self.ast if self.ato is None else self.ast + self.sd - self.ato
        if now < first:
            return 'early'
        if self.aet is not None and self.now_int > self.aet + EXTRA:
            return 'ended'
        if k < 0:
            return 'before'
        if self.stop is not None and k >= self.stop_k:
            return 'beyond'
        if self.last_k is not None and k > self.last_k:
            return 'beyond'
        lo, hi = self.avail(k)
        if now < lo:
            return 'early'
        if hi is not None and now > hi:
            return 'late'
        return 'ok'

    def reasons(self, k, now):
        """Every reason for which segment k must not be served at (float) time now; empty = it must be served."""
        now = F(now)
        res = set()
        if now < (self.ast if self.ato is None else self.ast + self.sd - self.ato):
            res.add('early')
        if self.aet is not None and self.now_int > self.aet + EXTRA:
            res.add('late')
        if k < 0:
            res.add('before')
        if self.stop is not None and k >= self.stop_k or self.last_k is not None and k > self.last_k:
            res.add('beyond')
        lo, hi = self.avail(k)
        if now < lo:
            res.add('early')
        if hi is not None and now > hi:
            res.add('late')
        return res

    def last_avail(self, now):
        """The newest k with avail(k)[0] <= now, ignoring ends of the session."""
        assert self.ato is not None
        return int((F(now) - self.ast + self.ato) // self.sd) - 1


def url(a, o, tail, rng=None, prefix='livesim', extra=()):
    """Path for options o (dict; 'dur' and 'baseurl' are lists) in random order."""
    groups = []
    for k, v in o.items():
        if k.startswith('_'):
            continue
        if k == 'tfdt':
            groups.append(['tfdt_32'])
        elif isinstance(v, list):
            groups.append(['%s_%s' % (k, x) for x in v])
        elif k == 'start' and rng is not None and rng.random() < .15:
            groups.append(['ast_%s' % v])               # the same option
        else:
            groups.append(['%s_%s' % (k, v)])
    groups += [[x] for x in extra]
    if rng is not None:
        rng.shuffle(groups)
    parts = [prefix] + [x for g in groups for x in g] + [a.name, tail]
    return '/' + '/'.join(parts)
