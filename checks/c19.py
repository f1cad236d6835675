"""C19 No exception escapes or corrupts the translator.

MemoryError, RecursionError and KeyboardInterrupt are raised at seeded function
calls of the real translator (Python functions and calls of built-ins, during
parsing, evaluation, final text processing, saving), and endless recursion is
run against a seeded stack limit in real processes: whatever happens, no output
is wrong or partial, the verdict tells the truth, the other files of the batch
are translated, and the process goes on as a fresh one.
"""
import ctypes
import os
import resource
import shutil
import subprocess
import sys
import tempfile

from sim import kernel as K
from sim import gen as G
from sim.scen import *
from checks.c01 import short

LEVEL = 'fault_enumeration'
SEEDS = {'quick': 6000, 'thorough': 120000}
CAP = {'quick': 32, 'thorough': 700}
RULE = ('seeded batches of 1-3 sources (good, failing, irreducible) with and without previous outputs, by cli(), translate() '
        'and the codec; an undisturbed run counts the calls made by pp/, then MemoryError, RecursionError or KeyboardInterrupt '
        'is raised at 2-6 seeded ones of them (any, one of the last ones, or a seeded place of the code), each in a process of its own, which then does the whole batch again '
        'undisturbed; every 16th run: 2-4 sources with endless or deep recursion of 13 kinds among good ones, in a real '
        'process with a seeded stack limit of 0.25-8 MB; non-trivial: an exception was raised; distinct by (texts, way, '
        'exception, position)')
REAL = ['pp/yup.py', 'pp/yugen.py', 'pp/yuconfig.py', 'pp/yulic.py', '__init__.py', '__main__.py', 'pylib/*', 'lib/*.yu',
        'the Python standard library above the system call layer',
        'in the runs against the stack limit everything, operating system included']


# what the fragments of sim/gen.py use rarely
RICH = [r'r1 ($unq "a\tb") ($unq "c\x41")', r'r2 ($strlen "abc\n") ($strlen abc)', r"r3 ($unq 'q\x42')",
        r'($set fmt "%d_%s")r4 (${} "%s" % (1 + 2))', r'r5 ($round 2.5)', r'r6 ($ord A) ($lower "ABC")',
        'r7 ($re-split "," "a,b,c")', 'r8 ($range 4)', 'r10 (${} [ x*2 for x in (1, 2) ])',
        'r11 ($abs -4) ($hex 255) ($str 5)', '($set f13 \\a.\\b..[($a)+($b)])r13 ($f13 1)']


class Thrower(object):
    """Counts the calls made by pp/ and raises an exception at the n-th one."""

    def __init__(self, n=None, e=None):
        self.n, self.e = n, e
        self.count = 0
        self.sites = {}
        self.where = None
        self.inside = False

    def prof(self, frame, event, arg):
        if event not in ('call', 'c_call'):
            return
        c = frame.f_code
        if not c.co_filename.startswith(K.PKG + '/pp/'):
            return
        self.count += 1
        if self.n is None:
            s = self.sites.setdefault((c.co_name, frame.f_lineno, event), [])
            if len(s) < 8:
                s.append(self.count)
        if self.count == self.n:
            sys.setprofile(None)
            self.where = '%s %s:%d' % (event, c.co_name, frame.f_lineno)
            f = frame if event == 'c_call' else frame.f_back
            while f is not None and f.f_code.co_name not in ('yuparse', 'yueval'):
                f = f.f_back
            self.inside = f is not None
            raise self.e() if self.e is not RecursionError else self.e('maximum recursion depth exceeded')

    def __enter__(self):
        sys.setprofile(self.prof)

    def __exit__(self, *a):
        sys.setprofile(None)


def job(way, files, args, thrower, log):
    """Body: the batch once under the thrower, then (if that raised) once more; puts verdicts into log."""
    def once(p):
        import yupp as y
        sys.argv = ['build.py']
        try:
            if way == 'cli':
                return ('value', y.cli(list(args) + files))
            if way == 'translate':
                return ('value', [y.translate(f) for f in files])
            return ('value', [codec_source(p, f) for f in files])
        except K.SimCrash:
            raise
        except SystemExit as e:
            return ('exit', e.code)
        except BaseException as e:
            return ('raised', type(e).__name__, str(e)[:300])

    def body(p):
        K.yupp(p)
        with thrower:
            r = once(p)
        log.append((r, p.kernel.vfs.tree(W), p.std[1].decode('utf8', 'replace')))
        if thrower.n:
            r = once(p)
            log.append((r, p.kernel.vfs.tree(W), ''))
    return body


def run(ctx):
    if ctx.ch.int(16) == 0:
        return real_stack(ctx)
    ch = ctx.ch
    way = ch.weighted([(6, 'cli'), (3, 'translate'), (2, 'codec')])
    pr = Project(ctx, n=ch.range(1, 3), kinds=((7, 'ok'), (2, 'fail'), (1, 'ast')), big=5, defines=way == 'cli',
                 names=NAMES if way != 'codec' else ['g-1.yu-py', 'p.py', 'q.yu-py'], opts=way == 'cli')
    v = ctx.base.clone()
    for s in pr.sources:
        for _ in range(ch.range(1, 3)):
            s.text += ch.pick(RICH) + '\n'
    if way == 'codec':
        for s in pr.sources:
            s.text = '# coding: yupp\n' + s.text
    pr.install(v)
    outs = [s.output for s in pr.sources]
    prev = {}
    for o in outs:
        if ch.flag(60):
            prev[o] = b'PREVIOUS %s\n' % o.encode()
            v.put(wpath(o), prev[o], mode=ch.pick([0o644, 0o400]), mtime=1_500_000_000 * 10**9 - 10**12)
    v.settle()
    files = [s.name for s in pr.sources]
    args = [a for a in pr.args([])]
    pr.describe()
    ctx.note(way)

    def perform(thrower):
        log = []
        w = v.clone()
        k = K.Kernel(ch, w, ctx.pk)
        p = k.spawn('run', job(way, files, args, thrower, log), cwd=W)
        ctx.run(k)
        return log, p

    counter = Thrower()
    glog, gp = perform(counter)
    gold_r, gold_t, _ = glog[0]
    total = counter.count
    sites = list(counter.sites.values())
    if gold_r[0] == 'raised' and way != 'codec':
        ctx.fail('raised', 'undisturbed %s: %s' % (way, gold_r))
    if not total:
        ctx.trivial = True
        return

    def golden_ok(o):
        return o in gold_t and gold_t[o][2] != prev.get(o) and gold_t[o][0] == 'f'

    where = []
    for _ in range(ch.range(2, 6)):
        # any call, one of the last, or one of a rarely executed place
        n = ch.weighted([(4, 'any'), (2, 'last'), (5, 'site')])
        if n == 'site':
            n = ch.pick(ch.pick(sites))
        else:
            n = 1 + (ch.int(total) if n == 'any' else max(0, total - 1 - ch.int(120)))
        e = ch.pick([MemoryError, RecursionError, KeyboardInterrupt])
        t = Thrower(n, e)
        log, p = perform(t)
        if t.where is None:
            ctx.fail('harness', 'call %d of %d was not met' % (n, total))
        ctx.fired('exception:' + e.__name__)
        ctx.probe('raised in parsing or evaluation' if t.inside else 'raised elsewhere')
        place = '%s at call %d of %d (%s, %s parsing and evaluation) in %s %s' % (
            e.__name__, n, total, t.where, 'in' if t.inside else 'out of', way, args + files)
        where.append((n, e.__name__))
        if len(log) < 2:
            ctx.fail('ended', '%s: %s' % (place, p.exc_text))
        (r, tree, out), (r2, tree2, _) = log
        done = []
        for s in pr.sources:
            o = s.output
            got = tree.get(o)
            new = golden_ok(o) and got is not None and got[2] == gold_t[o][2]
            old = got is not None and got[2] == prev.get(o) or got is None and (
                o not in prev or tree.get(o + '.bak', (0, 0, None))[2] == prev[o])
            if new:
                done.append(o)
            elif not old:
                ctx.fail('partial', '%s: %s is %s; undisturbed %s, before %s\n%s\n%s' % (
                    place, o, short(got and got[2]), short(gold_t.get(o, (0, 0, None))[2]), short(prev.get(o)), s.text, out[-500:]))
            elif o in prev and got is None:
                pass
        junk = sorted(f for f in tree if G.is_temp(f) and f not in gold_t)
        if junk:
            ctx.fail('junk', '%s: left %s' % (place, junk))
        golden_failed = len([o for o in outs if not golden_ok(o)])
        failed = len(outs) - len(done)
        if r[0] == 'raised':
            if t.inside:
                ctx.fail('escaped', '%s: %s' % (place, r))
            if r[1] != e.__name__:
                ctx.fail('changed', '%s: became %s' % (place, r))
        elif r[0] == 'exit':
            ctx.fail('exit', '%s: %s' % (place, r))
        elif way == 'cli':
            if r[1] % 4 or not failed <= r[1] // 4 <= golden_failed + 1:
                ctx.fail('verdict', '%s: %s, but %d outputs are new of %d (%d undisturbed)\n%s' % (
                    place, r, len(done), len(outs), len(outs) - golden_failed, out[-800:]))
        elif way == 'translate':
            bad = len([1 for ok, _ in r[1] if not ok])
            told = [o for ok, o in r[1] if ok]
            if not failed <= bad <= golden_failed + 1 or [o for o in told if o not in done]:
                ctx.fail('verdict', '%s: %s, but new are %s of %s\n%s' % (place, r, done, outs, out[-800:]))
        else:
            for i, (s, code) in enumerate(zip(pr.sources, r[1])):
                if code and (gold_r[0] != 'value' or code != gold_r[1][i]):
                    ctx.fail('verdict', '%s: %s gave the code %r, undisturbed %r' % (place, s.name, code[:300], gold_r[1:]))
        # once more, undisturbed
        if r2 != gold_r:
            ctx.fail('after', '%s: the next one in that process ended with %s, a fresh one with %s' % (place, r2, gold_r))
        for o in outs:
            a, b = tree2.get(o), gold_t.get(o)
            if golden_ok(o) and (a is None or a[2] != b[2] or way == 'cli' and a[1] != b[1]):
                ctx.fail('after', '%s: the next one in that process gave %s for %s, a fresh one %s' % (place, a and (oct(a[1]), short(a[2])), o, (oct(b[1]), short(b[2]))))
    ctx.sig = (way, args, [s.text for s in pr.sources], where)


# ---------------------------------------------------------------------------
#  the real stack
# ---------------------------------------------------------------------------
CPU = 12


# (source, expected word or None if it has no end)
def deep(ch, i):
    n = ch.pick([500, 3000, 20000])
    w = 'w%d' % i
    return ch.pick([
        ('($set r \\n.[a ($r ($n)) b])($r 1)', None), ('($set r \\n.[a ($r (${} n + 1)) b])\n\n($r 1)', None),
        ('($macro mm () ($mm))($mm) ($mm)', None), ('($macro mm (A) x ($mm ($A)y))\n($mm 1)', None),
        ('($macro ma () ($mb))($macro mb () ($ma))($ma)', None), ('($import "deep.py") ($deep 1)', None),
        ('($import deep)', None), ('($import "own%d.txt")' % i, None),
        ('(${} ' + '(' * n + '7' + ')' * n + ') ' + w, '7 ' + w), ('($! ' + '(' * n + ' c ' + ')' * n + ') ' + w, w),
        ('($ ' * n, None), ('(' * n + w + ')' * n, '(' * n + w + ')' * n), ('(${} len([' + '[' * n + ']' * n + '])) ' + w, '1 ' + w),
    ])


def real_stack(ctx):
    ch = ctx.ch
    mb = ch.pick([0.25, 0.5, 1, 2, 4, 8])
    srcs = []
    for i in range(ch.range(2, 4)):
        name = 'f%d.yu-c' % i
        if ch.flag(55):
            text, want = deep(ch, i)
        else:
            text, want = 'int ($(1 2) \\i.[ x($i)_%d; ]) good%d' % (i, i), 'good%d' % i
        srcs.append((name, text + '\n', want))
    if all(w is not None and 'good' in str(w) for _, _, w in srcs):
        name = srcs[0][0]
        srcs[0] = (name, '($set r \\n.[a ($r ($n)) b])($r 1)\n', None)
    old = ch.flag(50)
    d = tempfile.mkdtemp(prefix='yupp-c19-')
    try:
        os.mkdir(d + '/site')
        os.symlink(K.REPO, d + '/site/yupp')
        w = d + '/w'
        os.mkdir(w)
        for f, t in [('deep.py', 'def deep(x):\n    return deep(x) + 1\n'), ('deep.yu', '($set r \\n.[a ($r ($n)) b])($r 1)\n')] + \
                [('own%d.txt' % i, '($import "own%d.txt")\n' % i) for i in range(4)] + [(n, t) for n, t, _ in srcs]:
            with open(w + '/' + f, 'w') as h:
                h.write(t)
        for n, _, _ in srcs:
            if old:
                with open(w + '/' + n[:2] + '.c', 'w') as h:
                    h.write('PREVIOUS\n')
        size = int(mb * 2**20)

        def limit():
            resource.setrlimit(resource.RLIMIT_STACK, (size, size))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU))
            ctypes.CDLL(None).prctl(1, 9)   # dies with its parent
        env = dict(os.environ, PYTHONPATH=d + '/site', PYTHONDONTWRITEBYTECODE='1')
        try:
            p = subprocess.run([sys.executable, '-B', '-m', 'yupp', '-q'] + [n for n, _, _ in srcs], cwd=w, env=env,
                               preexec_fn=limit, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        except subprocess.TimeoutExpired:
            p = None
        if p is None or p.returncode in (-9, -24) or p.returncode in (137, 152):
            # killed by its limit of processor time
            ctx.probe('real: no end within %d s of processor time' % CPU + '')
            ctx.trivial = True
            return
        out = p.stdout.decode('utf8', 'replace')
        ctx.fired('stack limit %s MB' % mb)
        ctx.note('stack %s MB: %s' % (mb, '; '.join('%s %s' % (n, t.strip()[:60]) for n, t, _ in srcs)))
        where = 'stack %s MB, %s' % (mb, [(n, t[:70]) for n, t, _ in srcs])
        if p.returncode < 0 or p.returncode > 128:
            ctx.fail('killed', '%s: the process ended by signal or status %d\n%s' % (where, p.returncode, out[-800:]))
        failed = 0
        for n, t, want in srcs:
            o = w + '/' + n[:2] + '.c'
            got = None
            if os.path.exists(o):
                with open(o, encoding='utf8') as h:
                    got = h.read()
            if got is None or old and got == 'PREVIOUS\n':
                failed += 1
                if want and 'good' in want:
                    ctx.fail('batch', '%s: %s was not translated\n%s' % (where, n, out[-800:]))
                if old and got is None:
                    ctx.fail('lost', '%s: the previous output of %s is gone' % (where, n))
            elif want is None or want not in got:
                ctx.fail('wrong', '%s: %s gave %r\n%s' % (where, n, got[:300], out[-500:]))
        if p.returncode != 4 * failed:
            ctx.fail('verdict', '%s: exit %d, %d failed\n%s' % (where, p.returncode, failed, out[-800:]))
        ctx.sig = (mb, old, [t for _, t, _ in srcs])
        ctx.probe('real process')
    finally:
        shutil.rmtree(d, ignore_errors=True)
