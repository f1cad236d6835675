"""C05 Isolation of translations inside one process.

A seeded history of command lines, translate() calls, texts and REPL sessions
in one long-lived process - with failures, irreducible results, I/O errors and
exceptions on the way; every operation is repeated by a fresh process on a copy
of the file system taken just before it, and must produce the same files, the
same verdict and the same output.
"""
import re

from sim import kernel as K
from sim import gen as G
from sim.scen import *
from checks.c01 import short

LEVEL = 'exploration'
SEEDS = {'quick': 1500, 'thorough': 40000}
CAP = {'quick': 40, 'thorough': 700}
RULE = ('seeded histories of 2-6 operations (command line with 1-4 files and changing options, translate(), -i text, REPL '
        'input) in one process over sources made to leave traces: definitions, scripts that redefine built-in names, '
        'a changed output name, several passages, counters, broken texts; some operations meet an I/O error or an '
        'exception; non-trivial: at least two operations were compared with a fresh process; distinct by (operations, '
        'fragments, faults)')

SCRIPTS = [
    'K = 5\ndef upper(s):\n    return "U" + str(s)\n',
    'K = 6\ndef inc(x):\n    return x + 100\ndef helper(x):\n    return x * 7\n',
    'import math\npi = 3\ndef helper(x):\n    return x * 9\nlen = 4\n',
    'N = 0\nL = []\ndef count(*a):\n    global N\n    N += 1\n    L.append(N)\n    return len(L)\n',
    'def helper(x):\n    raise ValueError("no")\nquiet = 1\n',
]
LEAVE = [
    '($import "s%(s)d.py") ($K) ($helper 4)',
    '($import "s%(s)d.py") ($inc 3)',
    '($import "s%(s)d.py") ($upper "abc")',
    '($import "s%(s)d.py") ($count) ($count)',
    'k ($K)', 'u ($upper "xyz")', 'i ($inc 4)', 'h ($helper 2)', 'p (${} int(pi*100))', 'l ($len (` 1 2 3))', 'c ($count)',
    '($set __OUTPUT_FILE__ "other%(n)d.c")',
    'pass ($__PASSAGE__ (` one two three))', 'pass ($__PASSAGE__ (1 2 3))', 'pass ($__PASSAGE__ ("one" 2))',
    '($set __OUTPUT_FILE__ ($__PASSAGE__ ("p%(n)da.c" "p%(n)db.c")))\nx', '($set pq%(n)d ($__PASSAGE__ (0 5 1)))[($pq%(n)d)] (${} 7 // pq%(n)d)',
    'd0 ($DEF0) d1 ($DEF1)',
    '($import lib%(s)d) ($libv)', '($libv)', '($import stdlib)\n($unfold 3 [a] \\n.[b($n)])',
    '($set c%(n)d 5)($emit c%(n)d inc)($emit c%(n)d inc)', '($unique (` 1 2 1 3))', '($unique (` 2 3 2 1))',
    '($__FILE__) ($__OUTPUT_FILE__) ($__MODULE_NAME__)',
    '($print "printed %(n)d")', 'a ($typeof 5) b', '($index (` 1 2) 2)', '"str ($set" x', "'''($inc 3)'''", '# ($inc 2) comment',
    '/* ($inc 2) */', '// ($inc 7)', '($($\\x.[($x)($x)]) 3)', '($macro M%(n)d (P) <($P)>)\n($M%(n)d q)', '($M%(n)d z)',
    '($skip) rest', '\n\n\n($set qq 3)\n\n\n($qq)', '    ($set tt 3)\n    ($tt)', 'w ($no_such_atom 3)',
    '($set r \\n.($ [($r (${} n+1))] ? (${} n < 20) | z))\n($r 0)', '($set inc 3) ($inc)', '($set upper "v")($upper)',
    '($lazy a) ($repr 5) ($reduce add 1)', '($crc32 "abc%(n)d")', '($import (${} "lib%(s)d"))',
    '($import libtop) ($onlyv)', '($import liblow) ($onlyv)'
]
BAD = [b for _, b in G.Gen.FAILS] + [G.Gen.AST, '($import "s4.py") ($helper 1)',
                                   '($import "bad.py")', '($__PASSAGE__ 3)', '($set __OUTPUT_FILE__ "nodir/x.c")', '\x00($',
                                   '($__PASSAGE__ (` one ($div 1 0)))']
NAMES5 = ['a.yu-c', 'b.yu-h', 'c.yu-py', 'd.yu', 'sub/e.yu-c', 'sub/f.yu']


def make_source(ch, name):
    parts = []
    for _ in range(ch.range(1, 5)):
        parts.append(ch.pick(LEAVE) % {'s': ch.int(5), 'n': ch.int(3)})
    if ch.flag(25):
        parts.insert(ch.int(len(parts) + 1), ch.pick(BAD))
    head = ''
    if name.endswith('py') and ch.flag(50):
        head = ch.pick(['# coding: yupp\n', '#!/usr/bin/python\n# coding: yupp.utf8\n'])
    return head + '\n'.join(parts) + '\n'


# text of the sources, files that may be what it needs, a new version of them
FOCUS = [('($import lib0) ($libv)', ['lib0.yu', 'sub/lib0.yu'], 'of %(n)d\n($set libv f%(n)d)'),
         ('($import libtop) ($onlyv)', ['libtop.yu', 'sub/libtop.yu'], 'of %(n)d\n($set onlyv f%(n)d)'),
         ('($import "s1.py") ($helper 4) ($inc 5)', ['s1.py', 'sub/s1.py'], 'def helper(x):\n    return x + %(n)d\ndef inc(x):\n    return x\n'),
         ('($import "t.txt")', ['t.txt', 'sub/t.txt'], 'text %(n)d\n'),
         ('d ($DEF0) ($__OUTPUT_FILE__)', ['.yuconfig', '.yuconfig', 'a.yuconfig', 'sub/e.yuconfig'], 'pp_define.append("DEF0:%(n)d")\n')]


def edit(ch, name):
    """What the user changes between two operations: (file, its new text; None: removed)."""
    f = ch.weighted([(4, name), (3, 'lib'), (3, 'script'), (2, 'config')])
    if f == 'lib':
        f = ch.pick(['dir1/', 'dir2/', '', 'sub/']) + ch.pick(['lib0.yu', 'lib0.yu', 'lib1.yu', 'lib2.yu', 'libtop.yu', 'liblow.yu'])
        return f, 'edited %d\n($set libv e%d)($set onlyv o%d)' % (ch.int(50), ch.int(50), ch.int(50)) if ch.flag(80) else None
    if f == 'script':
        return '%ss%d.py' % (ch.pick(['', 'sub/']), ch.int(5)), ch.pick(SCRIPTS + ['K = 77\ndef helper(x):\n    return x + 1000\n'] * 4)
    if f == 'config':
        return ch.pick(['.yuconfig', 'a.yuconfig']), ch.pick([None, 'read_only = False\n', 'pp_browse = True\n', 'directory.append("dir2")\n',
                                                             'pp_define.append("DEF1:5")\n'])
    return name, make_source(ch, name) if ch.flag(92) else None


OPTS = [['-q'], ['--no-read-only'], ['--pp-browse'], ['-D', 'DEF0:3'], ['-D', 'DEF1'], ['-D', 'inc:9'], ['-o', 'out'],
        ['-d', 'dir1'], ['-d', 'dir2'], ['--pp-skip-comments', '1'], ['--pp-skip-comments', '3'], ['--pp-no-trim-app-indent'],
        ['--pp-no-reduce-emptiness'], ['-Wno-unbound'], ['-l', '3'], ['-b', '2'], ['-b', '0'], ['--type-file'], ['-t', '1'],
        ['-l', '5']]


def do_op(op):
    """Performs one operation in the current process; returns its verdict."""
    import yupp as y
    kind, arg = op[0], op[1]
    sys.argv = ['build.py']
    try:
        if kind == 'translate':
            sys.argv = ['build.py']
            return ('value', y.translate(arg))
        if kind == 'cli':
            return ('value', y.cli(list(arg)))
        if kind == 'repl':
            sys.stdin = io_text(op[2])
            return ('value', y.cli(list(arg)))
    except SystemExit as e:
        return ('exit', e.code)
    except K.SimCrash:
        raise
    except BaseException as e:
        return ('raised', type(e).__name__, str(e)[:200])


def io_text(t):
    import io
    return io.StringIO(t)


def norm(b, pid):
    return re.sub(rb'tmp[a-z0-9_]{8}', b'TEMP', re.sub(rb'(?<![0-9])%d(?![0-9])' % pid, b'PID', b))


def run(ctx):
    ch = ctx.ch
    v = ctx.base.clone()
    v.makedirs(W + '/sub')
    v.makedirs(W + '/out')
    for d in ('dir1', 'dir2'):
        for i in range(3):
            v.put('%s/%s/lib%d.yu' % (W, d, i), '%s line %d\n($set libv %s%d)' % (d, i, d, i))
    for d, n in ((W, 'top'), (W + '/sub', 'low')):       # a library of one directory only
        if ch.flag(70):
            v.put('%s/lib%s.yu' % (d, n), '%s only\n($set onlyv %s)' % (n, n))
    for d in (W, W + '/sub'):
        v.put(d + '/lib0.yu', 'top lib\n($set libv top)')
        for i, t in enumerate(SCRIPTS):
            v.put('%s/s%d.py' % (d, i), t)
        v.put(d + '/bad.py', ch.pick(['1/0\n', 'def (\n', 'import no_such_module_x\n', 'raise KeyError("x")\n']))
    texts = {}
    focus = ch.pick(FOCUS) if ch.flag(25) else None
    for nm in NAMES5:
        texts[nm] = make_source(ch, nm)
        if focus:
            texts[nm] += focus[0] + '\n'
        v.put(W + '/' + nm, texts[nm])
    if ch.flag(25):
        cfg = ch.pick(['pp_define.append("DEF0:77")\n', 'directory.append("dir1")\n', 'pp_browse = True\n',
                       'pp_reduce_emptiness = False\n', 'quiet = True\nread_only = False\n', 'type_output = True\n',
                       'force = True\n', '1/0\n'])
        v.put(W + '/' + ch.pick(['.yuconfig', 'a.yuconfig', 'c.yuconfig']), cfg)
    ops = []
    for _ in range(ch.range(2, 6)):
        kind = ch.weighted([(5, 'cli'), (4, 'translate'), (1, 'text'), (2, 'repl')])
        if kind == 'translate':
            ops.append(('translate', ch.pick(NAMES5)))
        elif kind == 'cli':
            a = [x for o in ch.subset(OPTS, 12) for x in o]
            ops.append(('cli', a + [ch.pick(NAMES5) for _ in range(ch.range(1, 4))]))
        elif kind == 'text':
            a = [x for o in ch.subset(OPTS, 10) for x in o]
            ops.append(('cli', a + ['-i', make_source(ch, 'x')[:400] or 'x', ch.pick(NAMES5)]))
        else:
            lines = ''
            for _ in range(ch.range(1, 3)):
                lines += make_source(ch, 'x') + 'test\n'
            ops.append(('repl', ['-q'] if ch.flag(50) else [], lines + ch.pick(['exit\n', ''])))
    edits = [None] + [edit(ch, ch.pick(NAMES5)) if ch.flag(30) else None for _ in ops[1:]]
    if focus:                                      # one imported file is what changes
        f = ch.pick(focus[1])
        for i in range(1, len(ops)):
            if ch.flag(60):
                n = ch.int(90)
                edits[i] = f, (focus[2] % {'n': n} if ch.flag(85) else None)
    exc = None
    if ch.flag(25):
        exc = (ch.int(max(1, len(ops) - 1)), ch.pick([MemoryError, KeyboardInterrupt, RecursionError]), ch.int(3000))
    v.settle()
    for o in ops:
        ctx.note(repr(o)[:300])
    for nm, t in texts.items():
        ctx.note('%s: %r' % (nm, t[:240]))

    k = K.Kernel(ch, v, ctx.pk)
    shots = []

    def body(p):
        import yupp                                # noqa
        for i, op in enumerate(ops):
            if edits[i]:
                f, t = edits[i]
                if t is not None:
                    v.put(W + '/' + f, t)
                elif v.lookup(W + '/' + f) is not None:
                    v.unlink(W + '/' + f)
            snap = v.clone()
            t0 = k.now
            o0, e0 = len(p.std[1]), len(p.std[2])
            if exc is not None and exc[0] == i:
                with thrower(exc[1], exc[2], ctx):
                    r = do_op(op)
            else:
                r = do_op(op)
            sys.stdout.flush()
            sys.stderr.flush()
            shots.append((snap, t0, r, p.std[1][o0:], p.std[2][e0:], v.clone(), p.faulted))
            p.faulted = False
            k.now += 2_000_000_000
    p = k.spawn('long', body, cwd=W)
    p.faulted = False
    if ch.flag(30):
        n = ch.range(5, 400)
        p.plan[n] = {'at': n, 'kind': 'errno', 'sel': ch.int(6)}
    ctx.run(k)
    if p.exc is not None:
        raise K.HarnessError(p.exc_text)
    compared = 0
    for i, op in enumerate(ops):
        snap, t0, r, so, se, after, faulted = shots[i]
        if faulted or exc is not None and exc[0] == i:
            ctx.probe('disturbed operation')
            continue
        parts = split_op(op)
        fv = snap
        res = None
        ftext = b''
        if len(parts) == 1:
            got = fresh(ctx, fv, parts[0], t0)
            compare(ctx, i, op, 'a fresh process', (r, norm(so, p.pid), norm(se, p.pid), after), got)
            compared += 1
        else:                                      # every file of a batch by a process of its own
            total = 0
            bad = False
            for q in parts:
                g = fresh(ctx, fv, q, t0)
                if g[0][0] != 'value':
                    bad = True
                    break
                total += g[0][1]
            if bad:
                ctx.probe('batch refused')
                continue
            compare(ctx, i, op, 'one process per file', (r, None, None, after), (('value', min(total, 252)), None, None, fv))
            compared += 1
    if compared < 2:
        ctx.trivial = True
    ctx.probe('operations compared', compared)
    ctx.sig = ([(o[0], repr(o[1])) for o in ops], sorted(texts.items()), [s[6] for s in shots], exc and exc[1].__name__)


class thrower(object):
    """Raises an exception at the n-th function call inside the code under test."""

    def __init__(self, e, n, ctx):
        self.e, self.n, self.ctx = e, n, ctx

    def prof(self, frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(K.PKG + '/pp/'):
            self.n -= 1
            if self.n == 0:
                sys.setprofile(None)
                self.ctx.fired('exception:' + self.e.__name__)
                raise self.e('injected')

    def __enter__(self):
        sys.setprofile(self.prof)

    def __exit__(self, *a):
        sys.setprofile(None)


def split_op(op):
    """A batch as single-file command lines."""
    if op[0] != 'cli' or '-i' in op[1]:
        return [op]
    files = []
    a = list(op[1])
    while a and a[-1] in NAMES5:
        files.insert(0, a.pop())
    return [('cli', a + [f]) for f in files] if len(files) > 1 else [op]


def fresh(ctx, fv, op, t0):
    k = K.Kernel(ctx.ch, fv, ctx.pk, now=t0)
    p = k.spawn('fresh', lambda p: do_op(op), cwd=W)
    ctx.run(k)
    if p.exc is not None:
        raise K.HarnessError(p.exc_text)
    return (p.result, norm(p.std[1], p.pid), norm(p.std[2], p.pid), fv)


def compare(ctx, i, op, what, a, b):
    ta, tb = a[3].tree(W), b[3].tree(W)
    bad = sorted(f for f in set(ta) | set(tb) if ta.get(f) != tb.get(f))
    if bad:
        f = bad[0]
        ctx.fail('files', 'operation %d %r: %s differs: %s in the long-lived process, %s by %s'
                 % (i, op, f, show(ta.get(f)), show(tb.get(f)), what))
    if a[0] != b[0]:
        ctx.fail('verdict', 'operation %d %r: %r in the long-lived process, %r by %s' % (i, op, a[0], b[0], what))
    for n, s in ((1, 'stdout'), (2, 'stderr')):
        if a[n] is not None and a[n] != b[n]:
            j = next((j for j in range(min(len(a[n]), len(b[n]))) if a[n][j] != b[n][j]), min(len(a[n]), len(b[n])))
            ctx.fail(s, 'operation %d %r: %s differs: ...%r in the long-lived process, ...%r by %s'
                     % (i, op, s, a[n][max(0, j - 60):j + 120], b[n][max(0, j - 60):j + 120], what))


def show(x):
    return 'absent' if x is None else 'mode %o, %s' % (x[1], short(x[2]))
