"""C11 A REPL session survives whatever is typed.

A seeded session - blocks of text with known results, irreducible, broken and
hostile ones, imports of libraries that change between the blocks, failing
reads, exceptions inside translations, input in seeded chunks - is compared
with its parts: the transcript must be the prompts plus what every block gives
alone in a fresh process on the files of that moment.
"""
import errno
import io

from sim import kernel as K
from sim import gen as G
from sim.scen import *
from checks.c01 import short
from checks import c05

LEVEL = 'exploration'
SEEDS = {'quick': 1500, 'thorough': 40000}
CAP = {'quick': 35, 'thorough': 600}
RULE = ('seeded sessions of 2-8 blocks (text with a result known to the generator, irreducible, failing, hostile and empty '
        'ones, leaving definitions, scripts, options and passages behind), typed line by line or delivered in chunks, with '
        'libraries edited between blocks, read errors and exceptions (MemoryError, RecursionError, KeyboardInterrupt) inside '
        'translations, ended by exit, end of input, an interrupt or a failing read; the transcript is compared with fresh '
        'processes per block and with the known results; non-trivial: two or more blocks compared; distinct by (lines, faults)')
PROMPT = '[yupp]# '
HOSTILE = ['(' * 300, '($' * 120, ')' * 50, '($(' * 60 + '))' * 60, '"' * 7, "'''", '\x00', '\x0c\x0b\x1c\x85', '  \t ', '($test)',
           '($exit)', 'test it', 'exit now', 'TEST', 'x' * 6000, '($set exit 5)($exit)', 'ÿþýü', 'Ж', '漢', '\ufeff', '$', '\\', '`', '}',
           '($import "quit.py")', '($import "intr.py")', '(${} __import__("sys").exit())', '(${} 1 if exit else 0)',
           '(${} __import__("sys").exit(5))', '($($\\x.[($x)($x)]) ($\\x.[($x)($x)]))', '($__FILE__)($__OUTPUT_FILE__)', '($__PASSAGE__ (` a b))',
           '($set __OUTPUT_FILE__ "x.c")', '($import "")', '($import "/")', '($import ".")', '($lib_none)', '[yupp]# ', '($print "[yupp]# ")',
           '(${} open("written.txt", "r").read())', '($upper 1 2)', '($)', '($ )', '(` )', '(${})', '($! ', '($set', '($macro m (', '($emit',
           '($r \\', '($reduce)', '($lazy)', '($set a ($a)) ($a)', '($let ', '($__TITLE__ 0)', '(${} 10**5000)', '($unfold 3)', '-1', '($skip)x',
           '(${} [][0])', '(${} {}["a"])', '(${} "%s%s" % 1)', '(${} next(iter([])))', '(${} (_ for _ in ()).throw(GeneratorExit))',
           '(${} chr(254)+chr(255))', '(${} chr(55357))'] + [c % w for c in ('int %s', '%s %s', '%s;', '"%s"', '($set x %s', '%s  ;', '\t-- %s', '// %s')
                                                 for w in ('test', 'exit') for w in [(w,) * c.count('%s')]]
# text that is only text, though it looks like a command
WORDS = ['int test', 'int exit', 'test exit', 'exit test', 'run the test', 'testexit', 'test;', 'exit.', '_test', 'Test', 'EXIT', 'test 1']
# the exact end of these depends on the stack; whatever it is, it must be the end of the block only
DEEP = ['($set r \\n.[a ($r ($n)) b])($r 1)', '($ ' * 4000, '(${} ' + '(' * 3000 + '1' + ')' * 3000 + ')', '($macro mm () ($mm))($mm) ($mm)',
        '($import "deep.py") ($deep 1)']


class Typed(io.RawIOBase):
    """Standard input: lines in seeded pieces; hooks before a line is delivered; ends as told."""

    def __init__(self, ch, lines, hooks, end):
        self.parts = []
        for i, ln in enumerate(lines):
            b = (ln + '\n').encode('utf8', 'surrogatepass')
            self.parts.append((hooks.get(i), b))
        self.end = end
        self.hook = None

    def readable(self):
        return True

    def readinto(self, buf):
        if not self.parts:
            if self.end:
                raise self.end()
            return 0
        hook, b = self.parts[0]
        if hook:
            hook()
        n = min(len(buf), len(b))
        buf[:n] = b[:n]
        if n == len(b):
            self.parts.pop(0)
        else:
            self.parts[0] = (None, b[n:])
        return n


class inside(c05.thrower):
    """Counts the calls made by parsing and evaluation only (an exception between them may leave)."""

    def __init__(self, e, n, ctx):
        c05.thrower.__init__(self, e, n, ctx)
        self.depth = 0

    def prof(self, frame, event, arg):
        if frame.f_code.co_name in ('yuparse', 'yueval') and frame.f_code.co_filename.startswith(K.PKG + '/pp/'):
            self.depth += {'call': 1, 'return': -1}.get(event, 0)
            return
        if self.depth:
            c05.thrower.prof(self, frame, event, arg)


def block(ch, g):
    """(lines, expected result or None, kind)"""
    kind = ch.weighted([(5, 'ok'), (2, 'fail'), (1, 'ast'), (4, 'leave'), (5, 'hostile'), (1, 'empty'), (1, 'deep')])
    if kind == 'deep':
        return [ch.pick(DEEP)], None, kind
    if kind == 'empty':
        return ch.pick([[], [''], ['   ', '\t']]), None, kind
    if kind == 'hostile':
        lines = [ch.pick(HOSTILE) for _ in range(ch.range(1, 3))]
        if ch.flag(40):
            lines.insert(ch.int(len(lines) + 1), c05.make_source(ch, 'x').rstrip('\n'))
        return '\n'.join(lines).split('\n'), None, kind
    if kind == 'leave':
        return c05.make_source(ch, 'x').split('\n')[:-1], None, kind
    s = g.source('t.yu-c', kind, frags=[f for f in G.Gen.FRAGS if f != 'names'], size=ch.range(1, 4))
    if ch.flag(25):                                # plain lines around it
        w = [ch.pick(WORDS) for _ in range(ch.range(1, 2))]
        s.text = '\n'.join(w) + '\n' + s.text
        s.out = s.out and '\n'.join(w) + '\n' + s.out
    return s.text.split('\n')[:-1], s.out, kind


def run(ctx):
    ch = ctx.ch
    v = ctx.base.clone()
    g = G.Gen(ch, 'q')
    blocks = [block(ch, g) for _ in range(ch.range(2, 8))]
    blocks = [(b[0], b[1], b[2]) for b in blocks if not any(x.strip() in ('test', 'exit') for x in b[0])]
    if not blocks:
        return skip(ctx)
    v.makedirs(W)
    for i, t in enumerate(c05.SCRIPTS):
        v.put('%s/s%d.py' % (W, i), t)
    v.put(W + '/bad.py', '1/0\n')
    v.put(W + '/quit.py', 'import sys\nsys.exit(7)\n')
    v.put(W + '/intr.py', 'raise KeyboardInterrupt\n')
    v.put(W + '/deep.py', 'def deep(x):\n    return deep(x) + 1\n')
    for i in range(2):
        v.put(W + '/lib%d.yu' % i, 'lib line %d\n($set libv first%d)' % (i, i))
    for d, t in g.files.items():
        v.put(W + '/' + d, t)
    v.settle()
    before = v.tree(W)
    tail = ch.pick([[], [], ['unfinished ($set'], ['one', 'two ($']])
    end = ch.weighted([(4, 'exit'), (3, 'eof'), (1, 'interrupt'), (1, 'eio')])
    quiet = ch.flag(60)
    argv = (['-q'] if quiet else []) + [x for o in ch.subset([['-D', 'DEF0:4'], ['--pp-skip-comments', '1'], ['--pp-no-reduce-emptiness'],
                                                             ['-Wno-unbound'], ['--pp-browse']], 10) for x in o]
    argv = ['-q'] * quiet + [a for a in argv if a != '-q']
    exc = (ch.int(len(blocks)), ch.pick([MemoryError, KeyboardInterrupt, RecursionError]), ch.int(900)) if ch.flag(25) else None
    fault = (ch.int(len(blocks)), ch.pick([errno.EIO, errno.EACCES, errno.EMFILE, errno.ESTALE])) if ch.flag(15) else None
    edits = {}
    lines = []
    hooks = {}
    snaps = {}
    for i, (b, want, kind) in enumerate(blocks):
        if ch.flag(15):
            edits[i] = (W + '/lib%d.yu' % ch.int(2), 'edited line\n($set libv edited%d)' % i)
        hooks[len(lines)] = (lambda i: lambda: start(i))(i)
        lines += b + [ch.pick(['test', 'test', '  test', 'test \t'])]
    lines += tail + (['exit'] if end == 'exit' else [])
    bad = set(x[0] for x in (exc, fault) if x) | set(i for i, b in enumerate(blocks) if b[2] == 'deep')
    ctx.note('yupp %s (%s), exception %s, fault %s, edits %s' % (' '.join(argv), end, exc, fault, edits))
    for b in blocks:
        ctx.note('%s: %r' % (b[2], '\n'.join(b[0])[:300]))
    first = ch.pick([b for b in blocks if ''.join(b[0]).strip() and '\0' not in ''.join(b[0])] or [None]) if ch.flag(25) else None
    if first and first[2] == 'deep':
        first = None
    source = first and ch.pick(['', '', 'web.yu-c', 'sub/w-b.yu'])
    extra = (['-i', '\n'.join(first[0]) + '\n'] if not first[0][0].startswith('-') else ['--input=' + '\n'.join(first[0]) + '\n']) if first else []
    if source:
        extra += ['--input-source', source]
    if extra:
        ctx.note('%s' % extra)
        quiet = True
        argv = ['-q'] + [a for a in argv if a != '-q']
    v0 = v.clone()
    k = K.Kernel(ch, v, ctx.pk)
    t = {}

    def start(i):
        """Block i is about to be typed."""
        t['marks'].append(len(p.std[1]))
        if i in edits:
            v.put(*edits[i])
        snaps[i] = v.clone()
        p.sticky = None
        if t.get('thrower'):
            t.pop('thrower').__exit__()
        if exc and exc[0] == i:
            t['thrower'] = inside(exc[1], exc[2], ctx)
            t['thrower'].__enter__()
        if fault and fault[0] == i:
            p.sticky = sticky_errno(fault[1], ('open-r', 'read', 'stat'), W + '/')

    def session(p):
        y = K.yupp(p)
        sys.argv = ['build.py']
        raw = Typed(ch, lines, hooks, {'interrupt': KeyboardInterrupt, 'eio': lambda: OSError(errno.EIO, 'error')}.get(end))
        sys.stdin = io.TextIOWrapper(io.BufferedReader(raw, 1 if ch.flag(50) else 64), 'utf-8', 'surrogateescape')
        p.keep.append(sys.stdin)
        try:
            return y.cli(argv + extra)
        finally:
            if t.get('thrower'):
                t.pop('thrower').__exit__()
            p.sticky = None
            sys.stdout.flush()
    t['marks'] = []
    p = k.spawn('repl', session, cwd=W)
    ctx.run(k)
    out = p.std[1].decode('utf8')
    done = v.tree(W)
    for i in sorted(edits):
        e = edits[i]
        f = e[0][len(W) + 1:]
        before[f] = ('f', before[f][1], e[1].encode()) if f in before else done.get(f)
    if len(snaps) < len(blocks):
        ctx.fail('ended', 'the session ended after block %d of %d (%s, exit %s): %s' % (len(snaps) - 1, len(blocks), p.exc, p.exit, out[-500:] + p.errout[-300:]))
    if end in ('exit', 'eof') and (p.exc is not None or p.result != 0):
        ctx.fail('end', 'the session must end with 0: %s, result %s; %s' % (p.exc, p.result, (out + p.errout)[-500:]))
    diff = sorted(f for f in set(before) | set(done) if before.get(f) != done.get(f) and '__pycache__' not in f)
    if diff:
        ctx.fail('files', 'the session changed %s' % diff)
    if first:
        given_text(ctx, v0, argv, first, source, p.std[1][:t['marks'][0]].decode('utf8') if t['marks'] else out)
    # the parts
    compared = 0
    marks = t['marks'] + [len(p.std[1])]
    for i, (b, want, kind) in enumerate(blocks):
        got = p.std[1][marks[i]:marks[i + 1]].decode('utf8')
        n = PROMPT * (len(b) + 1)
        if i == len(blocks) - 1:
            last = PROMPT * (len(tail) + 1) + ('\n' if end == 'eof' else '')
        else:
            last = ''
        # the prompt for the first line of a block comes before it is delivered
        n = n[len(PROMPT):]
        last = last or PROMPT
        where = 'block %d %r' % (i, '\n'.join(b)[:300])
        if not got.startswith(n) or not got.endswith(last):
            ctx.fail('prompts', '%s: %r' % (where, got[-700:]))
        got = got[len(n):len(got) - len(last)]
        if i in bad:
            ctx.probe('disturbed block' if kind != 'deep' else 'out of stack')
            if not got.strip() and ''.join(b).strip():
                ctx.fail('silent', '%s shows nothing' % where)
            continue
        if not ''.join(b).strip():
            if got:
                ctx.fail('empty', '%s: %r' % (where, got))
            continue
        if want is not None:
            res = '\n--> %s\n* OK *\n' % want
            if argv == ['-q'] and not got.endswith(res):
                ctx.fail('result', '%s shows %r, must show %r' % (where, got[-400:], res[-400:]))
            ctx.probe('known result')
        if kind == 'fail' and ('* OK *' in got or 'rror' not in got):
            ctx.fail('error', '%s shows no error: %r' % (where, got[-400:]))
        alone = fresh(ctx, snaps[i], argv, b)
        if got != alone:
            j = next((j for j in range(min(len(got), len(alone))) if got[j] != alone[j]), min(len(got), len(alone)))
            ctx.fail('carried', '%s: the session shows ...%r, a fresh process ...%r' % (where, got[max(0, j - 60):j + 160], alone[max(0, j - 60):j + 160]))
        if not got.strip():
            ctx.fail('silent', '%s shows nothing' % where)
        compared += 1
        ctx.probe('block: ' + kind)
    ctx.probe('end: ' + end)
    ctx.trivial = compared < 2
    ctx.sig = (lines, argv, end, repr(exc), repr(fault), sorted(edits.items()))


def given_text(ctx, v, argv, b, source, got):
    """The text given with -i shows what it shows if it is typed."""
    tail = PROMPT + 'Type "exit" or source code + "test".\n' + PROMPT
    what = '-i %r%s' % ('\n'.join(b[0])[:300], ' of ' + source if source else '')
    if not got.endswith(tail):
        ctx.fail('prompts', '%s: %r' % (what, got[-700:]))
    got = got[:-len(tail)]
    if b[1] is not None:
        res = '\n%s\n* OK *\n' % b[1]
        if argv == ['-q'] and not got.endswith(res):
            ctx.fail('text', '%s shows %r, must show %r' % (what, got[-400:], res[-400:]))
        ctx.probe('known result of -i')
    if b[2] == 'fail' and ('* OK *' in got or 'rror' not in got):
        ctx.fail('text', '%s shows no error: %r' % (what, got[-400:]))
    if not source:
        alone = fresh(ctx, v.clone(), argv, b[0])
        i = alone.rfind('\n--> ')
        if got not in [alone.replace('\n--> ', '\n', n) for n in range(3)] + [alone[:i + 1] + alone[i + 5:]]:
            ctx.fail('text', '%s shows %r, typed it shows %r' % (what, got[-700:], alone[-700:]))
        ctx.probe('text given with -i as typed')


def skip(ctx):
    ctx.trivial = True


def fresh(ctx, fv, argv, b):
    """What a block shows in a session of its own."""
    fv.settle()
    k = K.Kernel(ctx.ch, fv, ctx.pk)
    marks = []

    def session(p):
        y = K.yupp(p)
        sys.argv = ['build.py']
        raw = Typed(ctx.ch, b + ['test', 'exit'], {0: lambda: marks.append(len(p.std[1]))}, None)
        sys.stdin = io.TextIOWrapper(io.BufferedReader(raw, 64), 'utf-8', 'surrogateescape')
        p.keep.append(sys.stdin)
        r = y.cli(argv)
        sys.stdout.flush()
        return r
    p = k.spawn('fresh', session, cwd=W)
    ctx.run(k)
    got = p.std[1][marks[0]:].decode('utf8')
    if p.exc is not None:
        ctx.fail('ended', 'a session of one block %r ended: %s; %s' % ('\n'.join(b)[:300], p.exc, (got + p.errout)[-500:]))
    n = PROMPT * len(b)
    return got[len(n):len(got) - len(PROMPT)]
