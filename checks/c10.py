"""C10 The same input always gives the same output.

Twin runs: one project is translated in two simulated environments that agree
in nothing but the project - salt of the hashes, ids of objects, process ids,
clock, its speed, time zone and year, order of directory entries, buffer sizes,
short reads and writes, inode numbers, other variables of the environment,
other files in the directory, other translations before - and everything the
two runs left or said is compared byte by byte.
"""
import io
import os
import time

from sim import kernel as K
from sim import gen as G
from sim import pygen as P
from sim.choices import Prng
from sim.scen import *
from checks.c01 import short

LEVEL = 'exploration'
SEEDS = {'quick': 2500, 'thorough': 60000}
CAP = {'quick': 35, 'thorough': 600}
RULE = ('seeded projects (command line batches with libraries, scripts, passages and failing sources, traces on or off; '
        'the API; text given by -i; REPL sessions; Python sources through the codec; the sources of eg/) are run in two '
        'environments that differ in a seeded subset of: hash salt and object ids, process id, clock, its tick, time zone, '
        'order of directory entries, buffer size, short reads, short writes, inode numbers, environment variables, unrelated files, an earlier '
        'translation in the same process; trees, standard streams, verdicts and returned values must agree; '
        'non-trivial: at least one file or text was produced and two or more circumstances differ; distinct by (workload, circumstances, sources)')

EXAMPLES = ['argv.yu-c', 'coro.yu-c', 'gpio.yu-c', 'hello.yu-c', 'passage.yu-c', 'unfold.yu-c']


class Shorts(object):
    """Every n-th read or write is short."""

    def __init__(self, seed, pct):
        self.seed, self.pct = seed, pct

    def get(self, n, d=None):
        r = Prng('shorts', self.seed, n).bits()
        if r % 100 < self.pct:
            return {'at': n, 'kind': 'short', 'sel': r // 100 % 7}
        return d


def pyexprs(g, ch, ast=True):
    """Fragments whose evaluation goes through sets, dictionaries and scripts."""
    n = g.uid()
    k = ch.range(2, 6)
    vs = ['v%s_%d' % (n, i) for i in range(k)]
    f = ch.int(7 if ast else 6)
    if f == 6:
        return ''.join('($set %s %d)' % (x, i * 7) for i, x in enumerate(vs)) + '($set l%s \\x.[b ($x)])i (${} %s) j' % (
            n, ' + '.join(vs + ['l' + n] if ch.flag(50) else ['l' + n] + vs))
    if f == 0:
        return ''.join('($set %s %d)' % (x, i * 7) for i, x in enumerate(vs)) + 'e (${} %s)' % ' + '.join(vs)
    if f == 1:
        return 'e (${} no_%s + %s)' % (n, ' + '.join('un%s' % x for x in vs))
    if f == 2:
        return '($unique (` %s))' % ' '.join(str(ch.int(5)) for _ in range(6))
    if f == 3:
        return '($set m%s \\%s.[%s])\n($m%s %s)' % (n, '.\\'.join(vs), ' '.join('($%s)' % x for x in vs), n,
                                                     ' '.join('\\%s %d' % (x, i) for i, x in reversed(list(enumerate(vs)))))
    if f == 4:
        return '    ($set b%s \\p.[\n    one ($p)\n\n      two\n    three])\n    ($b%s 4)' % (n, n)
    return '($set d%s (` %s))($range 1 3) ($len ($d%s)) ($reversed (` %s))' % (n, ' '.join(vs), n, ' '.join(map(str, range(k))))


LIBS = ['stdlib', 'hlib', 'h']


class Env(object):
    NAMES = ['hash', 'pid', 'clock', 'tick', 'zone', 'order', 'buffer', 'short', 'inode', 'environ', 'junk', 'before']

    def __init__(self, ch, vary):
        self.v = {n: ch.int(1 << 20) + 1 for n in vary}

    def __getattr__(self, n):
        return self.v.get(n)


def launch(ctx, v, env, body, chdir=W, **kw):
    ch = ctx.ch
    now = 1_600_000_000
    if env.clock:
        now += env.clock * 977
    k = K.Kernel(ch, v, ctx.pk, now=now * 10**9 + (env.clock or 0), tick=10_000 if not env.tick else env.tick * 31)
    if env.pid:
        k.next_pid = 2 + env.pid % 4000000
    if env.order:
        k.dirsalt = env.order
    hs = K.HashSim(env.hash) if env.hash else None
    if env.buffer:
        kw['bufsize'] = [512, 1024, 4096, 65536, 131072, 1][env.buffer % 6] if env.buffer % 6 != 5 else 2048
    p = k.spawn('p', body, hashsim=hs, cwd=chdir, **kw)
    if env.short:
        p.plan = Shorts(env.short, 20 + env.short % 60)
    saved = os.environ.get('TZ'), {n: os.environ.get(n) for n in ('COLUMNS', 'LINES', 'TERM', 'USER', 'HOME', 'VERIF_X')}
    try:
        if env.zone:
            os.environ['TZ'] = ['Asia/Tokyo', 'UTC-14', 'America/New_York', 'UTC+11', 'XXX-3:30'][env.zone % 5]
            time.tzset()
        if env.environ:
            os.environ.update(COLUMNS=str(20 + env.environ % 200), LINES=str(env.environ % 50), TERM='dumb', USER='u%d' % env.environ,
                              HOME='/home/%d' % env.environ, VERIF_X='1')
        ctx.run(k)
    finally:
        for n, x in [('TZ', saved[0])] + list(saved[1].items()):
            if x is None:
                os.environ.pop(n, None)
            else:
                os.environ[n] = x
        time.tzset()
    return p, k


def run(ctx):
    ch = ctx.ch
    work = ch.weighted([(8, 'cli'), (3, 'api'), (3, 'text'), (2, 'repl'), (3, 'codec'), (1, 'example')])
    v = ctx.base.clone()
    v.makedirs(W + '/sub')
    files = {}
    argv, stdin = [], ''
    what = []
    body = None
    g = G.Gen(ch)

    def text(kind, n=None, final=True):
        s = g.source('t.yu-c', kind, frags=[f for f in G.Gen.FRAGS if f != 'names'], size=n or ch.range(1, 4))
        t = s.text.split('\n')[:-1]
        lib = kind != 'ast' and ch.flag(25)           # the AST of a source with a library is huge
        for _ in range(ch.int(4)):
            t.insert(ch.int(len(t) + 1), pyexprs(g, ch, not lib))
        if lib:
            t.insert(0, '($import %s)' % ch.pick(LIBS))
        if ch.flag(10):
            t.insert(ch.int(len(t) + 1), '($__TITLE__ 0)')
        what.append(s.frags)
        return '\n'.join(t) + '\n'

    opts = []
    if work == 'cli':
        n = ch.range(1, 4)
        names = list(NAMES)
        srcs = []
        for i in range(n):
            nm = names.pop(ch.int(len(names)))
            kind = ch.weighted([(5, 'ok'), (2, 'fail'), (2, 'ast'), (2, 'pass')])
            if kind == 'pass':
                files[nm] = g.passages(nm, tag='q%d' % i).text
                what.append('pass')
            else:
                files[nm] = text(kind)
            srcs.append(nm)
        for o, pct in ((['--pp-browse'], 30), (['--no-read-only'], 20), (['-b', '2'], 20), (['-l', '1'], 15), (['-t', '1'], 15),
                       (['-t', '2'], 4), (['-o', 'out'], 15), (['--pp-skip-comments', '3'], 10), (['-Wunbound'], 20), (['--type-file'], 10)):
            if ch.flag(pct):
                opts += o
        if '-t' in opts:                              # traces are long
            srcs = srcs[:1]
            files[srcs[0]] = '($set a 4)\nint x = ($a);\n' + pyexprs(g, ch) + '\n' + ('(${} a+b)\n' if ch.flag(30) else '')
        if '-o' in opts:
            v.makedirs(W + '/out')
        argv = opts + srcs
        body = K.run_cli(ch.pick(['main', 'script', 'ppmain']))
    elif work == 'api':
        files['a.yu-c'] = text(ch.weighted([(5, 'ok'), (2, 'fail'), (2, 'ast')]))
        if ch.flag(50):
            files['.yuconfig'] = ch.pick(['pp_browse = True\n', 'read_only = False\ndirectory = [ "sub" ]\n', 'pp_define = [ "A:1", "B:2", "C" ]\n'])
        body = body_translate('a.yu-c')
    elif work == 'text':
        argv = ['-i', text(ch.weighted([(5, 'ok'), (2, 'fail'), (2, 'ast')]))] + (['--pp-browse'] if ch.flag(40) else [])
        body = K.run_cli('main')
    elif work == 'repl':
        lines = []
        for _ in range(ch.range(1, 4)):
            lines += text(ch.weighted([(5, 'ok'), (2, 'fail'), (2, 'ast')]), 1).split('\n')[:-1] + ['test']
        stdin = '\n'.join(lines + ['exit']) + '\n'
        body = K.run_cli('main')
    elif work == 'codec':
        sc = P.Script(ch, raising=ch.flag(50), syntax=ch.flag(10))
        files.update(sc.files)
        files['s.py'] = sc.data
        whole = ch.flag(40)
        what.append(sc.chain)
        body = lambda p: run_script(p, 's.py', whole=whole, chunk=None)
    else:
        e = ch.pick(EXAMPLES)
        root = K.REPO + '/eg'
        for f in os.listdir(root):
            if os.path.isfile(root + '/' + f) and not f.endswith(('.c', '.yugen.py')) and f.count('.') == 1 or f in (e,):
                with open(root + '/' + f, 'rb') as h:
                    files[f] = h.read()
        files[e] = files[e].replace(b'($__TITLE__)', b'($__TITLE__ 0)')
        argv = ['-q', '--pp-browse', e]
        what.append(e)
        body = K.run_cli('main')
    for d in ('', 'sub/'):
        for f, t in g.files.items():
            v.put(W + '/' + d + f, t)
    for f, t in files.items():
        v.put(W + '/' + f, t)
    v.settle()

    vary = [n for n in Env.NAMES if ch.flag(45)]
    envs = Env(ch, []), Env(ch, vary)
    ctx.note('%s %s; differ in %s' % (work, argv, ' '.join(vary)))
    for f in sorted(files):
        ctx.note('%s: %s' % (f, short(files[f] if isinstance(files[f], bytes) else files[f].encode('utf8'))))
    res = []
    for env in envs:
        w = v.clone()
        if env.inode:
            w.next_ino = getattr(w, 'next_ino', 100) + env.inode
        extra = []
        if env.junk:
            extra = ['zz%d.yu-c' % env.junk, 'A.junk', 'sub/zz.c']
            for f in extra:
                w.put(W + '/' + f, 'junk ($\n')
        b = body
        if env.before and work in ('api', 'cli'):
            w.makedirs('/simfs/other')
            w.put('/simfs/other/o.yu-c', '($set q 5)\n($import "k.py")a ($q) (${} kk)\n')
            w.put('/simfs/other/k.py', 'kk = 5\n')
            main = ch.flag(30)

            def b(p, _b=body):
                y = K.yupp(p)
                sys.argv = ['x']
                y.translate('/simfs/other/o.yu-c')
                p.std[1] = p.std[2] = b''
                if work == 'cli':
                    return ('exit', y.cli(list(argv)))
                return _b(p)
        elif work == 'cli':
            def b(p):
                y = K.yupp(p)
                sys.argv = ['x']
                return ('exit', y.cli(list(argv)))
        p, k = launch(ctx, w, env, b, argv=argv, stdin=stdin)
        t = w.tree(W)
        for f in extra:
            t.pop(f, None)
        r = {'tree': t, 'stdout': p.out, 'stderr': p.errout, 'exit': p.exit, 'result': repr(p.result),
             'exc': (p.exc_text or '').strip().split('\n')[-1], 'traceback': p.ns.get('traceback'), 'code': p.ns.get('code')}
        res.append(r)
    a, b = res
    for x in ('exit', 'result', 'exc', 'code', 'traceback', 'stdout', 'stderr'):
        if a[x] != b[x]:
            ctx.fail(x, '%s differs (%s):\n%s\n---\n%s' % (x, ' '.join(vary), tail(a[x], b[x]), tail(b[x], a[x])))
    if a['tree'] != b['tree']:
        for f in sorted(set(a['tree']) | set(b['tree'])):
            if a['tree'].get(f) != b['tree'].get(f):
                x, y = a['tree'].get(f), b['tree'].get(f)
                ctx.fail('tree', '%s differs (%s): %s\n---\n%s' % (f, ' '.join(vary), diff(x, y), diff(y, x)))
    ctx.trivial = len(vary) < 2 or (len(a['tree']) == len(v.tree(W)) and not a['stdout'])
    ctx.probe('twins:' + work)
    for n in vary:
        ctx.fired('differs:' + n)
    ctx.sig = (work, vary, what, opts)


def tail(x, y):
    """x from a bit before the place where it stops agreeing with y."""
    x, y = str(x), str(y)
    i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
    return x[max(0, i - 200):i + 300]


def diff(x, y):
    if x is None or y is None or x[:2] != y[:2]:
        return repr(x)[:200]
    return tail(x[2], y[2])
