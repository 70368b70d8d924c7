"""Per-worker content pools, request times and session configurations, all derived from (seed, property, index)."""
import os
import random

from .assets import make_asset
from .model import S, q
from .wsgi import Server

NAMES = ['testpic', 'testpic_2s', 'vod_1', 'ch-1', 'bbb.30', 'CH_tears_of', 'x1', 'start-over', 'baseline_2s', 'starts_5']


def asset(ctx, idx, **kw):
    key = ('asset', idx, tuple(sorted(kw.items())))
    if key not in ctx.cache:
        rng = random.Random('%s/%s/asset/%s/%s' % (ctx.seed, ctx.pid, idx, sorted(kw.items())))
        root = os.path.join(ctx.tmp, 'a%d' % len(ctx.cache))
        os.makedirs(root)
        kw = dict(kw)
        if kw.get('only') == 'any':                          # now and then content with only video or only audio
            kw['only'] = random.Random('%s/%s' % (ctx.seed, key)).choice([None] * 5 + ['video', 'audio'])
            if kw['only']:
                ctx.count('contents_video_or_audio_only')
        if 'prefix' not in kw:                               # representations in a sub-folder
            kw['prefix'] = random.Random('%s/%s/p' % (ctx.seed, key)).choice([''] * 7 + ['sub/', 'media/en/'])
            if kw['prefix']:
                ctx.count('contents_with_sub_folder')
        a = make_asset(rng, root, rng.choice(NAMES), **kw)
        ctx.cache[key] = (a, Server(a))
        ctx.count('contents_generated')
    return ctx.cache[key]


FRAC = [0, 0, 0, 1 / 64, .25, .5, 63 / 64]


def pick_now(rng, a=None, frac=True):
    """Request time; segment numbers stay below 2^32, which is all that mfhd can hold."""
    r = rng.random()
    if r < .55:
        t = rng.randrange(1_420_070_400, 2_100_000_000)
    elif r < .65:
        t = 2 ** 31 + rng.randrange(-200, 200)
    elif r < .72:
        t = 2 ** 32 + rng.randrange(-200, 200)
    elif r < .82:
        t = rng.randrange(1_420_070_400 // 86400, 2_100_000_000 // 86400) * 86400 + rng.randrange(-20, 20)
    elif r < .92:
        t = rng.randrange(20_000, 400_000)
    else:
        t = rng.randrange(2_100_000_000, 8_000_000_000)
    if a is not None and t > (2 ** 32 - 2 * 10 ** 7) * a.seg_dur:
        t -= 2 ** 31 * (1 + t // 2 ** 32)
    return t + (rng.choice(FRAC) if frac else 0)


def sec(t):
    """exact seconds as the code sees them"""
    return int(t // 1)


NEUTRAL = [['init_7'], ['spd_5'], ['spd_0'], ['utc_direct'], ['utc_head-ntp'], ['sts_1234567'], ['sid_abc0ff'], ['continuous_1'],
           ['segtimelineloss_0'], ['periods_60'], ['periods_10', 'continuous_1'], ['mup_3x'], ['peroff_1'], ['sidx_0'], ['segtimeline_1'],
           ['segtimelinenr_1'], ['periods_60', 'etp_60', 'etpDuration_20']]
NEUTRAL = [x for x in NEUTRAL if 'mup_3x' not in x]


def neutral(rng, p=.35):
    """options that must not influence media segments"""
    if rng.random() >= p:
        return []
    out = list(rng.choice(NEUTRAL))
    for i, x in enumerate(out):
        if x in ('init_7', 'spd_5', 'sts_1234567') and rng.random() < .7:
            out[i] = '%s_%d' % (x.split('_')[0], rng.choice([0, 1, rng.randrange(100), rng.randrange(10 ** 4), 3600 * rng.randrange(9), 10 ** 6, 2 ** 32]))
    if rng.random() < .15:
        out += [x for x in neutral(rng, 1) if x.split('_')[0] not in [y.split('_')[0] for y in out]]
    return out


ATOS = [0.5, 0.25, 1, 1.5, 3.75, 0.3, 2.2, 7, 0.125, 1.0625, 0.05, 25]


def session(rng, a, now, kinds=('plain', 'start', 'dur', 'stop', 'rel', 'tfdt', 'modulo'), tsbd=True, ato=True, snr=True,
            timeoffset=True, inf=True, long=False, mixed=False):
    """Random options for a session that is interesting at `now`; returns the dict for model.S."""
    n = sec(now)
    sd = a.seg_dur
    kind = rng.choice(kinds)
    o = {'_kind': kind}
    if tsbd and rng.random() < .6:
        o['tsbd'] = rng.choice([0, 1, sd, sd - 1, 2 * sd, 10, 30, 60, 300, 7200] * 2 + [rng.choice([3601, 36000, 86400, 100_001, 2_000_000])])
    if ato and rng.random() < .3:
        o['ato'] = rng.choice(ATOS + [sd, sd / 2] + (['inf', 'inf'] if inf else []))
        if isinstance(o['ato'], float) and o['ato'] == int(o['ato']):
            o['ato'] = int(o['ato'])
    if rng.random() < .25:
        o['mup'] = rng.choice([0, 1, 2, 5, 12, 20, 60, rng.choice([7, 100, 3600, 90_000])])
    if kind in ('start', 'dur', 'stop'):
        o['start'] = max(0, n - rng.choice([0, 1, sd, rng.randrange(0, 60), rng.randrange(0, 600), rng.randrange(0, 10 ** 6)])
                         + rng.choice([0, 0, 0, rng.randrange(0, 40)]))
    if kind == 'dur':
        k = rng.choice([1, 1, 2, 3])
        past = max(0, n - o['start'])
        d = []
        for i in range(k):
            c = rng.choice([sd, 2 * sd + 1, rng.randrange(1, 100), 30])
            if i == 0 and rng.random() < .7:
                c = max(1, past + rng.randrange(-90, 90))
            d.append(c)
        if sum(d) < sd:
            d[-1] += sd
        o['dur'] = d
    if kind == 'stop':
        o['stop'] = max(o['start'] + 1, n + rng.choice([0, 1, -1, sd, rng.randrange(-300, 300), rng.randrange(0, 5000)]))
        if rng.random() < .5 and 'tsbd' in o:
            del o['tsbd']
    if kind == 'rel':
        o['startrel'] = -rng.choice([0, sd, 2 * sd + 1, rng.randrange(1, 300)] + [rng.choice([rng.randrange(300, 200_000), rng.randrange(300, 10 ** 7)])] * long) + rng.choice([0, 0, 0, rng.randrange(0, 30)])
        o['startrel'] = max(o['startrel'], -n)           # nothing starts before 1970
        if rng.random() < .5:
            o['stoprel'] = max(o['startrel'] + 1, rng.choice([0, sd, 3 * sd, rng.randrange(-200, 300), rng.randrange(-200, 300)] + [rng.randrange(-2000, 10 ** 6)] * long))
        if mixed and 'stoprel' in o and rng.random() < .35:   # one end absolute, the other one relative
            if rng.random() < .5:
                o['start'] = n + o.pop('startrel')
            else:
                o['stop'] = n + o.pop('stoprel')
    if kind == 'tfdt':
        o['tfdt'] = 32
    if kind == 'modulo':
        ms = [m for m in (1, 2, 5, 10, 15, 20, 30, 60) if (12 * m) % sd == 0]
        if ms:
            o['modulo'] = rng.choice(ms)
        else:
            o['_kind'] = 'plain'
    if snr and rng.random() < .35:
        o['snr'] = rng.choice([0, 1, -1, 7, 1000, rng.randrange(0, 10 ** 7), 10 ** rng.randrange(1, 7)])
    if timeoffset and rng.random() < .2:
        s = S(a, o, now)
        if kind in ('start', 'dur', 'stop') and s.ast >= 100 * sd and rng.random() < .15:
            o['start'] = s.ast // sd * sd                # media time 0 is 1970: the same as without an offset
            o['timeoffset'] = 0
        elif s.ast >= 100 * sd:
            lim = s.ast // sd
            o['timeoffset'] = s.ast - sd * rng.choice([0, 1, rng.randrange(0, 50), rng.randrange(0, 10 ** 5), lim - 50, lim,
                                                       a.n * rng.randrange(0, 3)])
    return o


def bounded(o, extra, a, lim=600):
    """MPDs which list every segment or Period of the window: a window of bounded length, so that the MPD is, too."""
    if any(x.startswith(('segtimeline_', 'segtimelinenr_', 'periods_')) for x in extra):
        if o.get('tsbd', a.tsbd) > lim:
            o['tsbd'] = lim
        if 'stop' in o and 'start' in o and o['stop'] - o['start'] > lim * a.seg_dur:
            o['start'] = o['stop'] - lim * a.seg_dur
            o.pop('timeoffset', None)
    return o


def fmt_opts(o):
    return {k: v for k, v in o.items()}


__all__ = ['asset', 'pick_now', 'session', 'neutral', 'S', 'q']
