"""Check runner: forks workers over deterministic cases, merges what the monitors observed, writes evidence and replays."""
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time as _time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
real_time = _time.time
real_mono = _time.monotonic


class Violation(Exception):
    """Raised by a monitor; key names the mechanism."""

    def __init__(self, msg, key='', **details):
        Exception.__init__(self, msg)
        self.key, self.details = key, details


class CaseTimeout(BaseException):
    pass


CASE_CPU = 150.0
MEMORY = 4 << 30
ZONES = ['UTC', 'IST-5:30', 'EST5EDT,M3.2.0,M11.1.0', 'NZST-12NZDT,M9.5.0,M4.1.0/3']


def _on_prof(sig, frm):
    raise CaseTimeout()


class Ctx:
    def __init__(self, pid, tier, seed, worker, tmp, shared=None):
        self.pid, self.tier, self.seed, self.worker, self.tmp = pid, tier, seed, worker, tmp
        self.counters = {}
        self.shapes = set()
        self.samples = []
        self.violations = []
        self.case_id = None
        self.rng = None
        self.cache = {}
        self.shared = shared
        self.known = {k['key'] for k in known_findings() if k['property'] == pid and 'key' in k}
        self.nviol = 0
        self.stop = False
        self.nshape = 0

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def shape(self, *key):
        if len(self.shapes) < 200000:
            self.shapes.add(repr(key))
        if self.nshape < 2:
            self.nshape += 1
            self.samples.append({'case': self.case_id, 'shape': repr(key)[:400]})

    def sample(self, obj):
        if len(self.samples) < 6:
            self.samples.append(obj)

    def judge(self, ok, msg, key='', **details):
        """One evaluation of the oracle."""
        self.count('evaluations')
        if not ok:
            raise Violation(msg, key, **details)

    def report(self, msg, key='', **details):
        known = key in self.known
        if known and self.counters.get('known_' + key, 0) < 3 or not known and self.nviol < 40:
            self.violations.append({'msg': str(msg)[:3000], 'key': key, 'case': self.case_id,
                                    'details': json.loads(json.dumps(details, default=str))})
        if known:
            self.count('known_' + key)
        else:
            self.nviol += 1
            self.count('violations')


def setup_process(quiet=True):
    """Virtual clock, repo on sys.path, repo chatter to /dev/null."""
    from . import vclock
    clk = vclock.install()
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    out = os.fdopen(os.dup(1), 'w')
    if quiet:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        if not os.environ.get('VERIF_DEBUG'):
            os.dup2(dn, 2)
    return clk, out


def run_case(mod, ctx, case_id):
    from . import wsgi
    from .isobmff import BoxError
    from .mpd import MpdError
    ctx.case_id = case_id
    ctx.rng = random.Random('%s/%s/%s' % (ctx.seed, ctx.pid, case_id))
    os.environ['TZ'] = ZONES[sum(map(ord, str(case_id))) % len(ZONES)]     # nothing depends on where the server stands
    _time.tzset()
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    try:
        mod.case(ctx, case_id)
        ctx.count('cases')
    except CaseTimeout:
        ctx.report('the code under test does not finish: more than %.0f s of CPU time' % CASE_CPU, 'hang', tb=traceback.format_exc()[-1500:])
        ctx.stop = True
    except MemoryError:
        ctx.report('the code under test used more than %d MB of memory' % (MEMORY >> 20), 'memory', tb=traceback.format_exc()[-1500:])
        ctx.stop = True
    except Violation as v:
        ctx.report(str(v), v.key, **v.details)
    except (BoxError, MpdError) as e:
        ctx.report('malformed output: %s' % e, 'malformed', tb=traceback.format_exc()[-1500:])
    except OSError as e:
        if e.errno in (28, 24, 12):
            raise
        ctx.report('monitor could not interpret what it observed: %r' % e, 'monitor-exception',
                   tb=traceback.format_exc()[-1500:])
    except Exception as e:
        ctx.report('monitor could not interpret what it observed: %r' % e, 'monitor-exception',
                   tb=traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        if wsgi.TIMEOUTS >= 2:
            ctx.stop = True


def worker_main(mod, pid, tier, seed, w, nw, ncases, deadline, path, tmp):
    rc = 3
    try:
        setup_process()
        wtmp = os.path.join(tmp, 'w%d' % w)
        os.makedirs(wtmp)
        ctx = Ctx(pid, tier, seed, w, wtmp)
        done = seen = 0

        def dump(err):
            with open(path + '.new', 'w') as f:
                json.dump({'counters': ctx.counters, 'shapes': sorted(ctx.shapes), 'samples': ctx.samples,
                           'violations': ctx.violations, 'done': done, 'error': err}, f, default=str)
            os.rename(path + '.new', path)
        try:
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            if hasattr(mod, 'setup'):
                mod.setup(ctx)
            for i in range(w, ncases, nw):
                if real_mono() > deadline:
                    break
                run_case(mod, ctx, i)
                done += 1
                if ctx.nviol != seen:
                    seen = ctx.nviol
                    dump('')
                if ctx.nviol >= 40 or ctx.stop:
                    break
            if hasattr(mod, 'finish'):
                mod.finish(ctx)
            err = None
        except BaseException:
            err = traceback.format_exc()
        dump(err)
        rc = 0
    finally:
        os._exit(rc)


def known_findings():
    res = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#') and line.startswith('{'):
                res.append(json.loads(line))
    return res


def run_check(mod, pid, tier, seed):
    t0 = real_mono()
    info = mod.PLAN[tier]
    ncases, wall = info['cases'], info.get('wall', 60 if tier == 'quick' else 600)
    nw = min(info.get('workers', 8), max(1, ncases))
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    pids = {}
    try:
        sys.stdout.flush()
        for w in range(nw):
            path = os.path.join(tmp, 'r%d.json' % w)
            p = os.fork()
            if p == 0:
                worker_main(mod, pid, tier, seed, w, nw, ncases, t0 + wall, path, tmp)
            pids[p] = path
        hard = t0 + wall + (60 if tier == 'quick' else 120)
        left = dict(pids)
        hung = 0
        while left:
            p, st = os.waitpid(-1, os.WNOHANG)
            if p:
                left.pop(p, None)
                continue
            if real_mono() > hard:
                for q in left:
                    os.kill(q, 9)
                    hung += 1
                for q in list(left):
                    os.waitpid(q, 0)
                break
            REAL_SLEEP(0.02)
        res = []
        for p, path in pids.items():
            try:
                with open(path) as f:
                    res.append(json.load(f))
            except (OSError, ValueError):
                res.append({'counters': {}, 'shapes': [], 'samples': [], 'violations': [], 'done': 0, 'error': 'worker lost'})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return conclude(mod, pid, tier, seed, res, real_mono() - t0, hung)


REAL_SLEEP = _time.sleep


def conclude(mod, pid, tier, seed, res, wall, hung=0):
    cnt, shapes, samples, viol, errs = {}, set(), [], [], []
    for r in res:
        for k, v in r['counters'].items():
            cnt[k] = cnt.get(k, 0) + v
        shapes.update(r['shapes'])
        samples += r['samples'][:2]
        viol += r['violations']
        if r['error']:
            errs.append(r['error'])
    known = {k['key']: k for k in known_findings() if k['property'] == pid and 'key' in k}
    new = [v for v in viol if v['key'] not in known]
    old = {}
    for v in viol:
        if v['key'] in known:
            old.setdefault(v['key'], []).append(v)
    missing = ['%s=%d<%d' % (k, cnt.get(k, 0), m) for k, m in getattr(mod, 'MIN', {}).items() if cnt.get(k, 0) < m]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    verdict = 'violated' if new else ('inconclusive' if (missing or errs or hung) else 'held')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': cnt.get('evaluations', 0), 'distinct_nontrivial': len(shapes),
                       'rule': mod.RULE, 'samples': samples[:12] or ['none'],
                       'observed': {k: v for k, v in sorted(cnt.items())}},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(new),
          'known_findings_seen': {k: cnt.get('known_' + k, 0) for k in old}, 'verdict': verdict}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k, v in known.items():
        print('KNOWN-FINDING: property=%s %s (%s; seen %d times in this run)' % (pid, k, v['what'], cnt.get('known_' + k, 0)))
    print('%s %s seed=%s: %d cases, %d evaluations, %d distinct shapes, %.1fs, %s' % (
        pid, tier, seed, cnt.get('cases', 0), cnt.get('evaluations', 0), len(shapes), wall, verdict))
    if new:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        bykey = {}
        for v in new:
            bykey.setdefault(v['key'], v)
        for n, (k, v) in enumerate(sorted(bykey.items())):
            path = os.path.join(rd, '%s_%d.json' % (pid, n))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'tier': tier, 'seed': seed, 'case': v['case'], 'key': k, 'msg': v['msg'],
                           'details': v['details'], 'count': sum(1 for x in new if x['key'] == k)}, f, indent=1)
            print('  [%s] %s' % (k, v['msg'][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errs or hung or missing:
        print('INCONCLUSIVE property=%s %s %s %s' % (pid, missing, 'hung=%d' % hung, '\n'.join(errs)[:3000]))
        return 2
    return 0


def replay(mod, pid, rec):
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    clk, out = setup_process(quiet=not os.environ.get('VERIF_DEBUG'))
    ctx = Ctx(pid, rec['tier'], rec['seed'], 0, tmp)
    try:
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        run_case(mod, ctx, rec['case'])
        if hasattr(mod, 'finish'):
            mod.finish(ctx)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for v in ctx.violations:
        out.write('[%s] %s\n%s\n' % (v['key'], v['msg'], json.dumps(v['details'], indent=1)[:6000]))
    out.write('%d violation(s) on replay\n' % len(ctx.violations))
    out.flush()
    return 1 if ctx.violations else 0
