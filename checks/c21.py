"""C21 Tracebacks of preprocessed programs point at the generated code.

A seeded script with a chain of calls, every one marked in the text, is started
through the codec several times - fresh, cached, regenerated after an edit,
under several names, with seeded chunks; the traceback Python prints is
compared with the markers found in the generated file.
"""
import posixpath
import re

from sim import kernel as K
from sim import pygen
from sim.scen import *
from checks.c01 import short

LEVEL = 'exploration'
SEEDS = {'quick': 2500, 'thorough': 60000}
CAP = {'quick': 35, 'thorough': 600}
RULE = ('seeded scripts in 7 forms of the header and 9 encodings whose calls go 1-5 levels deep through plain functions, '
        'functions made by macros, in imported libraries, after multi-line constructs and through ordinary modules, ending '
        'with an exception (also chained) or with invalid Python; started 2-4 times: fresh, cached, after an edit, forced, by '
        'relative, absolute and symbolic names, with seeded chunks; every frame of every traceback is compared with the '
        'markers in the generated file; non-trivial: at least one frame of the script is shown; distinct by (header, chain, '
        'ways)')
FRAME = re.compile(r'^  File "([^"]*)", line (\d+), in (\S+)\n(?:    (.*)\n)?', re.M)


class Rec(object):
    pass


def start(s, fn, chunk, whole, normal):
    return lambda p: run_script(p, fn, chunk, whole, normal, view=True)


def run(ctx):
    ch = ctx.ch
    syntax = ch.flag(15)
    name = ch.pick(['prog.py', 'p-1.yu-py', 'sub/prog.py'])
    out = name[:-3] + '.yugen.py' if name.endswith('.py') else name[:-6] + '.py'
    # ordinary files of other and of similar names
    base, gen = posixpath.basename(name), posixpath.basename(out)
    s = pygen.Script(ch, syntax=syntax, ordinary=['helper%d.py', 'helper%d.py', 'pkg%d/' + base, 'x%d' + base, 'pkg%d/' + gen,
                                                  'w%d/real/target.py', 'pkg%d/simfs/w/' + name])
    if ch.flag(10) and not syntax:
        s.data = s.data.replace(b'\n', b'\n($set __OUTPUT_FILE__ "other.py")', 1) if len(s.head) == 1 else s.data
        if b'OUTPUT_FILE' in s.data:
            out = 'other.py'
    v = ctx.base.clone()
    v.makedirs(W + '/sub')
    v.makedirs(W + '/real')
    link = ch.flag(15) and 'sub' not in name
    v.put(W + ('/real/target.py' if link else '/' + name), s.data)
    if link:
        v.symlink('real/target.py', W + '/' + name)
    for f, d in s.files.items():
        v.makedirs(posixpath.dirname(W + '/' + f))
        if '/' in f:
            v.put(W + '/' + f, d)
            continue
        v.put(W + '/' + f, d)
        v.put(W + '/sub/' + f, d)
    conf = ''
    if ch.flag(20):
        conf = ch.pick(['force = True\n', 'pp_reduce_emptiness = False\n', 'pp_skip_comments = 2\n', 'pp_trim_app_indent = False\n'])
        v.put(W + '/.yuconfig', conf)
    v.settle()
    ctx.note('%s %r chain %s %s: %r' % (name, s.head, [c[0] for c in s.chain], conf.strip(), s.text[:600]))
    now = 1_600_000_000 * 10**9 + ch.int(10**9)
    ways = []
    shown = 0
    plain = None
    def prepare(i, now):
        """Edits before start i; (act, arg, chunk, whole, normal), inode of the output"""
        v.now = now
        act = ch.weighted([(4, ''), (1, 'touch'), (1, 'longer'), (1, 'rm')]) if i else ''
        path = W + ('/real/target.py' if link else '/' + name)
        if act == 'touch':
            v.put(path, s.data)
        elif act == 'longer':
            e = b'\r\n' if s.eol == '\r\n' else b'\n'
            h = e.join(x.encode() for x in s.head) + e
            s.data = h + b'added%d = 1' % i + e + s.data[len(h):]
            v.put(path, s.data)
        elif act == 'rm' and v.lookup(W + '/' + out):
            v.unlink(W + '/' + out)
        b4 = v.lookup(W + '/' + out)
        arg = ch.pick([name, './' + name, W + '/' + name, 'sub/../' + name])
        whole = ch.flag(30)
        return (act, arg, ch.pick([None, None, 64, 333]), whole, ch.flag(50)), b4 and b4.ino

    def judge(r, v, now):
        """r: what start() and the process left."""
        nonlocal plain, shown
        (act, arg, chunk, whole, _), b4 = r.plan
        o = v.lookup(W + '/' + out)
        way = (act, arg, chunk, whole, 'cached' if o and o.ino == b4 else 'fresh')
        ways.append(way)
        ctx.probe(way[4])
        if r.exc is not None:
            ctx.fail('raised', '%s: %s' % (way, r.exc_text[-600:]))
        if o is None:
            ctx.fail('no-output', '%s: nothing is generated: %s %s' % (way, short(r.out), short(r.errout)))
        text = v.get(W + '/' + out).decode('utf8').split('\n')
        shown += 1
        if s.error:
            return check_syntax(ctx, s, r, way, out, text)
        check_frames(ctx, s, r, way, out, text, v)
        if plain is None or text != plain[0] or way[4] == 'fresh':
            q, _ = solo(ctx, v.clone(), lambda q: run_plain(q, W + '/' + out, '\n'.join(text)), now=now)
            plain = text, q.ns.get('views')
        mine = r.ns.get('views')
        for x in sorted(plain[1] or {}):
            if mine[x] != plain[1][x]:
                ctx.fail('view', '%s: what `traceback` shows (%s) differs from what it shows of the generated file run by '
                                 'itself: %s | %s' % (way, x, mine[x], plain[1][x]))
        ctx.probe('compared with the generated file run by itself')

    rounds = ch.range(2, 4)
    if ch.flag(30):                                # one process goes on while its source is edited
        k = K.Kernel(ch, v, ctx.pk, now=now)
        recs = []

        def body(p):
            for i in range(rounds):
                k.now += ch.pick([10**9, 3 * 10**9])
                r = Rec()
                r.plan = prepare(i, lambda: k.now)
                v.now = lambda: k.now
                k.now += 10**9
                n1, n2 = len(p.std[1]), len(p.std[2])
                r.exc = r.exc_text = None
                start(s, *r.plan[0][1:])(p)
                sys.stdout.flush()
                sys.stderr.flush()
                r.ns = dict(p.ns)
                p.ns.pop('views', None)
                r.out, r.errout = [p.std[x][n:].decode('utf8', 'replace') for x, n in ((1, n1), (2, n2))]
                r.v = v.clone()
                recs.append(r)
        p = k.spawn('long', body, cwd=W)
        ctx.run(k)
        if p.exc is not None:
            ctx.fail('raised', 'in one process, start %d: %s' % (len(recs), p.exc_text[-600:]))
        for r in recs:
            judge(r, r.v, k.now)
        ctx.probe('several starts in one process')
        ways.append('one process')
        rounds = 0
    for i in range(rounds):
        now += ch.pick([0, 10**6, 3 * 10**9])
        plan = prepare(i, lambda: now)
        v.settle()
        now += 5 * 10**6
        p, k = solo(ctx, v, start(s, *plan[0][1:]), now=now)
        now = k.now
        r = Rec()
        r.plan, r.exc, r.exc_text, r.ns, r.out, r.errout = plan, p.exc, p.exc_text, p.ns, p.out, p.errout
        judge(r, v, now)
    if not shown:
        ctx.trivial = True
    ctx.sig = (s.head, s.chain, s.what, s.error, ways, conf)


def check_syntax(ctx, s, p, way, out, text):
    if p.ns['code'].strip():
        ctx.fail('invalid-run', '%s: code that is not valid Python is given to Python: %s' % (way, short(p.ns['code'])))
    if p.ns['traceback']:
        ctx.fail('invalid-run', '%s: %s' % (way, p.ns['traceback']))
    m = re.findall(r'File "([^"]*)", line (\d+)', p.errout)
    lines = [i + 1 for i, x in enumerate(text) if s.error in x]
    if not re.search('SyntaxError|IndentationError', p.errout) or not m:
        ctx.fail('invalid-silent', '%s: invalid Python is not reported: %s | %s' % (way, short(p.out), short(p.errout)))
    fn, ln = m[-1]
    if not fn.endswith(posixpath.basename(out)) or int(ln) not in lines:
        ctx.fail('invalid-place', '%s: the error on line %s of %s is reported in %s, line %s' % (way, lines, out, fn, ln))
    ctx.probe('invalid Python reported')


def cut3(chain):
    """At most three equal frames one after another are shown."""
    r = []
    for c in chain:
        if r[-3:] != [c] * 3:
            r.append(c)
    return r


def check_frames(ctx, s, p, way, out, text, v):
    tb = p.ns['traceback']
    if not tb:
        ctx.fail('no-error', '%s: the script did not raise: %s\n%s %s' % (way, short(p.ns['code']), p.out[-300:], p.errout[-300:]))
    frames = FRAME.findall(tb)
    rep = re.findall(r'\[Previous line repeated (\d+) more times?\]', tb)
    if sum(map(int, rep)) + len(frames) != len(s.chain):
        ctx.fail('frames', '%s: %d frames and %s repeated ones are shown, there are %d: %s' % (
            way, len(frames), rep, len(s.chain), tb))
    for (fn, ln, fun, line), (mark, own, wfun) in zip(frames, cut3(s.chain)):
        ln = int(ln)
        if fun != wfun:
            ctx.fail('frames', '%s: frame of %s is shown as %s: %s' % (way, wfun, fun, tb))
        if own:
            want = text
            if fn != W + '/' + out:
                ctx.fail('file', '%s: the frame at %s is shown in %s, not in %s: %s' % (way, mark, fn, out, tb))
        else:
            if fn != W + '/' + s.helpers[mark]:
                ctx.fail('file', '%s: the frame at %s is shown in %s: %s' % (way, mark, fn, tb))
            want = v.get(fn).decode().split('\n')
        lines = [i + 1 for i, x in enumerate(want) if x.endswith('# ' + mark)]
        if ln not in lines:
            ctx.fail('line', '%s: the frame at %s is shown at line %d of %s, it is line %s: %s' % (way, mark, ln, fn, lines, tb))
        if line.strip() != want[ln - 1].strip():
            ctx.fail('text', '%s: line %d of %s is shown as %r, it is %r: %s' % (way, ln, fn, line, want[ln - 1], tb))
        ctx.probe('frame of the script' if own else 'frame of an ordinary file')
