"""Search driver: seeds -> simulated runs -> violation, minimised replay, evidence.

    check ID [--tier quick|thorough] [--replay FILE] [--seeds N] [--cap SECONDS]
"""
import argparse
import hashlib
import importlib
import json
import os
import resource
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
RUN_LIMIT = 90            # seconds of wall clock for one simulated run before it counts as a hang

_time = time.time


def real(name):
    """The system call itself, even while a simulated process is current."""
    from . import kernel
    return kernel.R.get(name) or getattr(os, name)


def load(prop):
    return importlib.import_module('checks.' + prop.lower())


# ---------------------------------------------------------------------------
#  one run
# ---------------------------------------------------------------------------
class Stats(object):
    def __init__(self):
        self.runs = self.discarded = self.nontrivial = 0
        self.simtime = 0
        self.calls = self.switches = self.procs = 0
        self.fired = {}
        self.probes = {}
        self.inter = set()           # distinct event structures (schedule + faults)
        self.sigs = set()            # distinct non-trivial cases by the rule of the check
        self.samples = []

    def dump(self):
        d = dict(self.__dict__)
        d['inter'] = sorted(self.inter)
        d['sigs'] = sorted(self.sigs)
        return d

    def merge(self, d):
        for k in ('runs', 'discarded', 'nontrivial', 'simtime', 'calls', 'switches', 'procs'):
            setattr(self, k, getattr(self, k) + d[k])
        for k in ('fired', 'probes'):
            for n, v in d[k].items():
                getattr(self, k)[n] = getattr(self, k).get(n, 0) + v
        self.inter.update(d['inter'])
        self.sigs.update(d['sigs'])
        for s in d['samples']:
            if len(self.samples) < 6:
                self.samples.append(s)


def h64(x):
    return hashlib.sha1(x if isinstance(x, bytes) else x.encode('utf8', 'backslashreplace')).hexdigest()[:12]


class Ctx(object):
    """What a check sees of the simulator during one run."""

    def __init__(self, K, package, base, ch, stats, prop):
        self.K = K
        self.pk = package
        self.base = base
        self.ch = ch
        self.stats = stats
        self.prop = prop
        self.kernels = []
        self.case = []               # human readable description of the case
        self.sig = []
        self.trivial = False

    def probe(self, name, n=1):
        self.stats.probes[name] = self.stats.probes.get(name, 0) + n

    def fired(self, name, n=1):
        self.stats.fired[name] = self.stats.fired.get(name, 0) + n

    def fail(self, kind, detail):
        from .choices import Violation
        raise Violation(self.prop, kind, detail)

    def note(self, s):
        if len(self.case) < 60:
            self.case.append(s)

    def run(self, k):
        """Runs kernel k and accounts for it."""
        self.kernels.append(k)
        try:
            k.run()
        except self.K.Livelock as e:
            self.fail('livelock', str(e))
        finally:
            s = self.stats
            s.simtime += k.now - k.start
            s.calls += k.ncalls
            s.switches += k.switches
            s.procs += len(k.procs)
            for n, v in k.fired.items():
                s.fired[n] = s.fired.get(n, 0) + v
            s.inter.add(events_hash(k))
        if k.rejected:
            bad = [r for r in k.rejected if r not in ('_exit',)]
            if bad and not getattr(k, 'allow_rejected', False):
                raise self.K.HarnessError('escaped the simulator: %s' % bad[:3])
        return k


def events_hash(k):
    h = hashlib.sha1()
    for e in k.events:
        if isinstance(e[1], str) and e[1].startswith('STD'):
            h.update(repr(e[:2]).encode())
        else:
            h.update(repr(e[:5]).encode('utf8', 'backslashreplace'))
    return h.hexdigest()[:12]


class Runner(object):
    def __init__(self, prop):
        from . import kernel as K
        K.install()
        self.K = K
        self.prop = prop
        self.mod = load(prop)
        self.package = K.Package(K.REPO)
        self.base = K.base_vfs(self.package)
        self.stats = Stats()
        if hasattr(self.mod, 'prepare'):
            self.mod.prepare(self)

    def one(self, ch, stats=None):
        """Returns (violation or None, ctx)."""
        from .choices import Violation, Discard
        stats = stats or self.stats
        ctx = Ctx(self.K, self.package, self.base, ch, stats, self.prop)
        ctx.runner = self
        v = None
        try:
            self.mod.run(ctx)
        except Violation as e:
            v = e
        except Discard:
            stats.discarded += 1
            return None, ctx
        stats.runs += 1
        if not ctx.trivial:
            stats.nontrivial += 1
            stats.sigs.add(h64(repr(ctx.sig) if ctx.sig else repr(ch.log)))
        if len(stats.samples) < 2 and not ctx.trivial and stats.runs % 7 == 1:
            stats.samples.append('; '.join(ctx.case)[:600])
        return v, ctx


def choices_for(prop, seed, i):
    from .choices import Choices, Prng
    return Choices(Prng('run', seed, prop, i))


# ---------------------------------------------------------------------------
#  worker
# ---------------------------------------------------------------------------
def limits():
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


def worker(prop, seed, w, nw, total, deadline, start=None):
    limits()
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    fdno = out.fileno()
    state = {'i': -1}

    def alarm(sig, frame):
        real('write')(fdno, (json.dumps({'t': 'hang', 'i': state['i']}) + '\n').encode())
        real('_exit')(9)
    signal.signal(signal.SIGALRM, alarm)
    r = Runner(prop)
    last = _time()
    for i in range(w if start is None else start, total, nw):
        if _time() > deadline:
            break
        state['i'] = i
        signal.alarm(RUN_LIMIT)
        ch = choices_for(prop, seed, i)
        try:
            v, ctx = r.one(ch)
        except BaseException as e:
            signal.alarm(0)
            import traceback
            out.write(json.dumps({'t': 'error', 'i': i, 'text': ''.join(
                r.K.BASE['format_exception'](type(e), e, e.__traceback__))[-3000:]}) + '\n')
            break
        signal.alarm(0)
        if v is not None:
            out.write(json.dumps({'t': 'violation', 'i': i, 'choices': ch.log, 'prop': v.prop, 'kind': v.kind,
                                  'detail': v.detail}) + '\n')
            break
        if _time() - last > 3:
            last = _time()
            out.write(json.dumps({'t': 'beat', 'i': i}) + '\n')
    out.write(json.dumps({'t': 'done', 'stats': r.stats.dump()}) + '\n')
    out.flush()
    os._exit(0)


# ---------------------------------------------------------------------------
#  minimiser
# ---------------------------------------------------------------------------
def try_choices(r, log, kind):
    """Re-runs a choice sequence; the log actually used if the same kind fails."""
    from .choices import Choices
    ch = Choices(replay=log)
    try:
        v, ctx = r.one(ch, Stats())
    except r.K.HarnessError:
        return None
    if v is not None and v.kind == kind:
        return ch.log, v, ctx
    return None


def minimise(r, log, kind, budget):
    end = _time() + budget
    best = try_choices(r, log, kind)
    if best is None:
        return None
    cur = list(best[0])
    while cur and cur[-1] == 0:
        cur.pop()
    tries = 0

    def attempt(cand):
        nonlocal best, cur, tries
        tries += 1
        x = try_choices(r, cand, kind)
        if x is None:
            return False
        new = list(x[0])
        while new and new[-1] == 0:
            new.pop()
        if (len(new), sum(new)) < (len(cur), sum(cur)):
            best, cur = x, new
            return True
        return False

    improved = True
    while improved and _time() < end:
        improved = False
        size = max(1, len(cur) // 2)
        while size and _time() < end:                        # drop chunks
            i = len(cur) - size
            while i >= 0 and _time() < end:
                if attempt(cur[:i] + cur[i + size:]):
                    improved = True
                i -= size
                if i > len(cur) - size:
                    i = len(cur) - size
            size //= 2
        size = max(1, len(cur) // 4)
        while size and _time() < end:                        # zero chunks
            for i in range(0, len(cur), size):
                if _time() > end:
                    break
                if any(cur[i:i + size]) and attempt(cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:]):
                    improved = True
            size //= 2
        i = len(cur) - 1
        while i >= 0 and _time() < end:                      # lower single values
            if i < len(cur) and cur[i]:
                lo = 0
                for cand in (1, cur[i] // 2, cur[i] - 1):
                    if lo <= cand < cur[i] and attempt(cur[:i] + [cand] + cur[i + 1:]):
                        improved = True
                        break
            i -= 1
    return cur, best[1], best[2], tries


def describe(ctx):
    out = []
    for n, k in enumerate(ctx.kernels[-6:]):
        ev = []
        for e in k.events[-220:]:
            ev.append(' '.join(str(x) if not isinstance(x, bytes) else repr(x)[:80] for x in e if x is not None))
        out.append({'processes': [{'pid': p.pid, 'name': p.name, 'argv': p.argv, 'exit': p.exit, 'killed': p.killed,
                                   'faults': [{a: (b if isinstance(b, (int, str, bool)) else str(b))
                                               for a, b in f.items()} for f in p.plan.values()]}
                                  for p in k.procs], 'events': ev})
    return out


def minimise_main(args):
    """Subprocess: minimise and write the replay file, print its path."""
    limits()
    with open(args.minimise) as f:
        d = json.load(f)
    r = Runner(d['prop'])
    signal.alarm(600)
    res = minimise(r, d['choices'], d['kind'], args.budget)
    if res is None:
        print(json.dumps({'ok': False}))
        sys.stdout.flush()
        os._exit(0)
    log, v, ctx, tries = res
    rep = {'property': d['prop'], 'verif_seed': d['seed'], 'run': d['i'], 'kind': v.kind, 'detail': v.detail,
           'choices': log, 'choices_before': len(d['choices']), 'attempts': tries, 'case': ctx.case,
           'trace': describe(ctx), 'repo_digest': r.package.digest}
    name = '%s-%s.json' % (d['prop'], h64(repr((log, v.kind)))[:10])
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', name)
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
        f.write('\n')
    print(json.dumps({'ok': True, 'path': path, 'detail': v.detail, 'kind': v.kind}))
    sys.stdout.flush()
    os._exit(0)


def replay_main(args):
    """Exit 1 and a VIOLATION line if the recorded failure happens again, else 0."""
    from .choices import Choices
    limits()
    with open(args.replay) as f:
        d = json.load(f)

    def alarm(sig, frame):
        real('write')(1, ('VIOLATION property=%s replay=%s\nhang: no end after %d s\n'
                     % (d['property'], args.replay, RUN_LIMIT)).encode())
        real('_exit')(1)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(RUN_LIMIT)
    r = Runner(d['property'])
    ch = Choices(replay=d['choices']) if d['choices'] is not None else choices_for(d['property'], d['verif_seed'], d['run'])
    v, ctx = r.one(ch)
    signal.alarm(0)
    for k in ctx.kernels:
        if args.verbose:
            for e in k.events:
                print(e)
    print('events ' + ' '.join(events_hash(k) for k in ctx.kernels))
    if args.verbose:
        print('\n'.join(ctx.case))
    if v is None:
        print('property=%s held on %s' % (d['property'], args.replay))
        code = 0
    else:
        print('VIOLATION property=%s replay=%s' % (v.prop, args.replay))
        print('%s: %s' % (v.kind, v.detail))
        code = 1
    sys.stdout.flush()
    os._exit(code)


# ---------------------------------------------------------------------------
#  known findings
# ---------------------------------------------------------------------------
def known(prop):
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        d = json.load(f)
    return [k for k in d['known'] if k['property'] == prop]


def still_there(k):
    """Runs the history of a known finding against the present code."""
    p = spawn(['--known', k['id']])
    try:
        o, _ = p.communicate(timeout=RUN_LIMIT + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        return True
    return p.returncode != 0


def known_main(args):
    from .choices import Choices
    limits()
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        k = [x for x in json.load(f)['known'] if x['id'] == args.known][0]
    r = Runner(k['property'])
    ctx = Ctx(r.K, r.package, r.base, Choices(replay=[]), r.stats, k['property'])
    ctx.runner = r
    res = r.mod.known_case(ctx, k)
    sys.stdout.flush()
    os._exit(1 if res else 0)


# ---------------------------------------------------------------------------
#  master
# ---------------------------------------------------------------------------
def spawn(args):
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env.setdefault('PYTHONHASHSEED', '0')
    return subprocess.Popen([sys.executable, '-B', '-W', 'ignore', os.path.join(HERE, 'main.py')] + args, stdout=subprocess.PIPE,
                            stdin=subprocess.DEVNULL, env=env, cwd=HERE)


def finish(code, procs=()):
    for p in procs:
        if p.poll() is None:
            p.kill()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def confirm(prop, seed, m):
    """A fresh process decides: True for a violation, None if there is nothing, False if it cannot say."""
    tmp = os.path.join(HERE, 'replays', '.confirm-%s-%d.json' % (prop, os.getpid()))
    os.makedirs(os.path.dirname(tmp), exist_ok=True)
    with open(tmp, 'w') as f:
        json.dump({'property': prop, 'verif_seed': seed, 'run': m['i'], 'choices': m.get('choices')}, f)
    try:
        p = spawn(['--replay', tmp])
        try:
            o, _ = p.communicate(timeout=RUN_LIMIT + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            return False
    finally:
        os.unlink(tmp)
    return True if p.returncode == 1 and b'VIOLATION property=' in o else None if p.returncode == 0 else False


def master(args):
    prop = args.prop
    t0 = _time()
    mod = load(prop)
    tier = args.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    total = args.seeds or mod.SEEDS[tier]
    cap = args.cap or mod.CAP[tier]
    deadline = t0 + cap
    nw = min(WORKERS, total)
    procs, bufs = [], {}
    stats = Stats()
    bad, errors, done = [], [], 0
    open_fds = set()
    last = {}
    at = {}
    restarts = {w: 0 for w in range(nw)}

    def start(w, i=None):
        p = spawn([prop, '--worker', '%d/%d' % (w, nw), '--seed', str(seed), '--seeds', str(total),
                   '--deadline', repr(deadline)] + (['--from', str(i)] if i is not None else []))
        procs.append(p)
        bufs[p.stdout.fileno()] = [p, b'', w, False]
        open_fds.add(p.stdout.fileno())
        last[w] = _time()
        at[w] = w if i is None else i

    def again(w, why):
        """The worker stopped for a reason that a fresh process does not confirm: goes on with the next run."""
        nonlocal done
        stats.probes['worker restarted: ' + why] = stats.probes.get('worker restarted: ' + why, 0) + 1
        restarts[w] += 1
        if at[w] + nw >= total or _time() > deadline:
            done += 1
        elif restarts[w] > 6:
            errors.append({'i': at[w], 'text': 'worker %d stopped again and again: %s' % (w, why)})
        else:
            start(w, at[w] + nw)

    for w in range(nw):
        start(w)
    stop_at = None
    while open_fds:
        rd, _, _ = select.select(list(open_fds), [], [], 2)
        for fd in rd:
            data = os.read(fd, 1 << 20)
            ent = bufs[fd]
            w = ent[2]
            if not data:
                open_fds.discard(fd)
                if not ent[3]:
                    again(w, 'it died')
                continue
            ent[1] += data
            *lines, ent[1] = ent[1].split(b'\n')
            for ln in lines:
                if not ln.strip().startswith(b'{"t"'):
                    continue
                m = json.loads(ln)
                last[w] = _time()
                at[w] = m.get('i', at[w])
                if m['t'] == 'done':
                    stats.merge(m['stats'])
                    if not ent[3]:
                        done += 1
                    ent[3] = True
                elif m['t'] in ('violation', 'hang', 'error'):
                    ent[3] = True
                    if m['t'] == 'hang':
                        m = {'t': 'hang', 'i': m['i'], 'choices': None, 'prop': prop, 'kind': 'hang',
                             'detail': 'the run did not end within %d s' % RUN_LIMIT}
                    res = confirm(prop, seed, m)
                    if res is None:
                        again(w, m['t'] + ' not confirmed')
                    elif res:
                        bad.append(m)
                    else:
                        errors.append(m)
        now = _time()
        if bad and stop_at is None:
            stop_at = now + 1.5                  # a moment for other workers to report a simpler one
        if stop_at is not None and now > stop_at or errors:
            break
        for w, fd in ((e[2], f) for f, e in bufs.items()):
            if fd in open_fds and now - last[w] > RUN_LIMIT + 60 and now > deadline + 60:
                errors.append({'i': -1, 'text': 'worker %d is silent' % w})
                open_fds.discard(fd)
    for p in procs:
        if p.poll() is None and (bad or errors):
            p.kill()
    if errors and not bad:
        print('ERROR in the harness, run %d (VERIF_SEED=%d):\n%s' % (errors[0]['i'], seed, errors[0]['text']))
        finish(2, procs)
    if not bad and done < nw:
        print('ERROR: %d of %d workers ended without a report' % (nw - done, nw))
        finish(2, procs)

    code = 0
    lines = []
    if bad:
        bad.sort(key=lambda m: (m['choices'] is None, len(m['choices'] or ()), m['i']))
        m = bad[0]
        m['seed'] = seed
        lines = report(prop, m, args)
        code = 1
    for k in known(prop):
        if still_there(k):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    wall = _time() - t0
    evidence(mod, prop, tier, seed, stats, wall, len(bad), total)
    print('%s %s: %d simulated runs (%d processes, %d system calls, %.1f s simulated), %d distinct non-trivial cases, '
          '%d distinct interleavings, %.1f s' % (prop, tier, stats.runs, stats.procs, stats.calls, stats.simtime / 1e9,
                                                len(stats.sigs), len(stats.inter), wall))
    print('faults: %s' % (', '.join('%s %d' % x for x in sorted(stats.fired.items())) or 'none'))
    print('probes: %s' % (', '.join('%s %d' % x for x in sorted(stats.probes.items())) or 'none'))
    if code == 0 and not stats.runs:
        print('ERROR: nothing was explored')
        finish(2)
    for ln in lines:
        print(ln)
    finish(code, procs)


def report(prop, m, args):
    """Minimises, writes and verifies the replay; returns output lines."""
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    if m['choices'] is None:
        path = os.path.join(HERE, 'replays', '%s-hang-%d-%d.json' % (prop, m['seed'], m['i']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'verif_seed': m['seed'], 'run': m['i'], 'choices': None, 'kind': m['kind'],
                       'detail': m['detail']}, f)
        return ['VIOLATION property=%s replay=%s' % (prop, path), '%s: %s' % (m['kind'], m['detail'])]
    tmp = os.path.join(HERE, 'replays', '.raw-%s-%d.json' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(m, f)
    budget = 45 if args.tier == 'quick' else 120
    path, detail, kind = None, m['detail'], m['kind']
    try:
        p = spawn(['--minimise', tmp, '--budget', str(budget)])
        try:
            o, _ = p.communicate(timeout=budget * 2 + 120)
            for ln in o.decode('utf8', 'replace').splitlines():
                if ln.startswith('{"ok"'):
                    x = json.loads(ln)
                    if x['ok']:
                        path, detail, kind = x['path'], x['detail'], x['kind']
        except subprocess.TimeoutExpired:
            p.kill()
    finally:
        os.unlink(tmp)
    extra = []
    if path is None:                             # keep the raw run
        path = os.path.join(HERE, 'replays', '%s-raw-%d-%d.json' % (prop, m['seed'], m['i']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'verif_seed': m['seed'], 'run': m['i'], 'choices': m['choices'],
                       'kind': m['kind'], 'detail': m['detail']}, f)
        extra.append('not minimised')
    seen = []
    for _ in range(2):                           # fresh processes must fail the same way
        p = spawn(['--replay', path])
        try:
            o, _ = p.communicate(timeout=RUN_LIMIT + 60)
            seen.append((p.returncode, o))
        except subprocess.TimeoutExpired:
            p.kill()
            seen.append((None, b''))
    same = seen[0] == seen[1] and seen[0][0] == 1
    extra.append('replayed twice in fresh processes: %s' % ('identical' if same else 'NOT identical'))
    return ['VIOLATION property=%s replay=%s' % (prop, path), '%s: %s' % (kind, detail),
            'VERIF_SEED=%d run=%d; %s' % (m['seed'], m['i'], '; '.join(extra))]


def evidence(mod, prop, tier, seed, s, wall, nviol, total):
    cov = {
        'evaluations': s.runs,
        'distinct_nontrivial': len(s.sigs),
        'rule': mod.RULE,
        'samples': s.samples or ['(none)'],
        'discarded': s.discarded,
        'seeds_planned': total,
        'runs_per_hour': int(s.runs / wall * 3600) if wall else 0,
        'simulated_seconds': round(s.simtime / 1e9, 3),
        'simulated_processes': s.procs,
        'system_calls': s.calls,
        'context_switches': s.switches,
        'faults_injected': dict(sorted(s.fired.items())),
        'distinct_interleavings': len(s.inter),
        'interleaving_measure': 'SHA-1 of the ordered event log of a run: (process, call number, operation, paths), '
                                'injected faults and crashes',
        'probes': dict(sorted(s.probes.items())),
        'real_components': getattr(mod, 'REAL', REAL),
        'stubbed_components': getattr(mod, 'STUB', STUB),
    }
    d = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
         'assumptions': getattr(mod, 'ASSUME', ASSUME), 'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))


REAL = ['pp/yup.py', 'pp/yugen.py', 'pp/yuconfig.py', 'pp/yulic.py', '__init__.py', '__main__.py', 'pylib/*',
        'lib/*.yu', 'the Python standard library above the system call layer']
STUB = ['file system and its durability (sim/vfs.py)', 'clock', 'process scheduling, kill and power loss',
        'pid, tempfile names, urandom', 'standard streams']
ASSUME = ['file system with ordered metadata journalling: rename is atomic, fsync makes data and all earlier metadata '
          'durable', 'a system call is atomic towards other processes',
          'the code runs on the interpreter of /opt/venv (PyPy 3.9); CPython string hashing is simulated']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--replay')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--seeds', type=int, default=0)
    ap.add_argument('--cap', type=float, default=0)
    ap.add_argument('--worker')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--deadline', type=float, default=0)
    ap.add_argument('--from', type=int, dest='start')
    ap.add_argument('--minimise')
    ap.add_argument('--known')
    ap.add_argument('--budget', type=float, default=45)
    ap.add_argument('--run', type=int, default=-1, help='one run of the search, by number')
    args = ap.parse_args()
    if args.minimise:
        minimise_main(args)
    elif args.known:
        known_main(args)
    elif args.replay:
        replay_main(args)
    elif args.worker:
        w, nw = args.worker.split('/')
        worker(args.prop, args.seed, int(w), int(nw), args.seeds, args.deadline, args.start)
    elif args.run >= 0:
        seed = int(os.environ.get('VERIF_SEED', '1'))
        r = Runner(args.prop)
        ch = choices_for(args.prop, seed, args.run)
        v, ctx = r.one(ch)
        if args.verbose:
            for k in ctx.kernels:
                print('--- kernel')
                for e in k.events:
                    print(e)
        print('\n'.join(ctx.case))
        print('events ' + ' '.join(events_hash(k) for k in ctx.kernels), 'choices', h64(repr(ch.log)))
        if v:
            print('VIOLATION', v.kind, v.detail)
        sys.stdout.flush()
        os._exit(1 if v else 0)
    elif args.prop:
        try:
            master(args)
        except SystemExit:
            raise
        except BaseException as e:
            import traceback
            traceback.print_exc()
            finish(2)
    else:
        ap.error('no property')
