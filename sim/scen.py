"""Scenario building blocks shared by the checks."""
import codecs
import errno
import io
import posixpath
import re
import sys

from . import gen as G
from . import kernel as K

W = '/simfs/w'

MUT = ('open-w', 'write', 'close-w', 'fsync', 'rename', 'unlink', 'chmod', 'truncate', 'link', 'mkdir', 'utime')

NAMES = ['a.yu-c', 'b.yu-h', 'c.c.yu', 'd.yu', 'e.c', 'f', 'g-1.yu-py', 'H.YU-CPP', 'x.tar.yu-gz', 'm.n.yu-c',
         'sub/s.yu-c', 'ü.yu-c']


# ---------------------------------------------------------------------------
#  bodies
# ---------------------------------------------------------------------------
def body_translate(fn):
    """The public API: yupp.translate(fn) -> (ok, output name)."""
    def body(p):
        y = K.yupp(p)
        sys.argv = ['build.py']
        r = y.translate(fn)
        p.ns['translate'] = (fn, r)
        return r
    return body


CODING = re.compile(br'^[ \t\f]*#.*?coding[:=][ \t]*([-_.a-zA-Z0-9]+)')


def codec_source(p, fn, chunk=None):
    """What CPython does to run the script `fn` (Parser/tokenizer.c, fp_setreadl):
    lines are read raw up to the magic comment; then the file is opened as text
    in that encoding one byte back, the rest of that line is thrown away and all
    other lines come from readline(), i.e. from the incremental decoder in
    pieces of `chunk` bytes.  Returns the text that is compiled."""
    K.yupp(p)
    sys.argv = [fn]
    f = open(fn, 'rb')
    head = []
    enc = None
    for _ in range(2):
        ln = f.readline()
        head.append(ln)
        m = CODING.match(ln)
        if m:
            enc = m.group(1).decode()
            break
        if not re.match(br'^[ \t\f]*(?:#|\r?$)', ln):
            break
    pos = sum(map(len, head))
    raw = b''.join(head).decode('utf8', 'replace').replace('\r\n', '\n')
    if enc is None:
        rest = f.read().decode('utf8')
    else:
        f.seek(pos - 1)
        t = io.TextIOWrapper(f, encoding=enc)
        if chunk:
            t._CHUNK_SIZE = chunk
        p.keep.append(t)
        t.readline()
        rest = ''
        while True:
            ln = t.readline()
            if not ln:
                break
            rest += ln
    f.close()
    p.ns['code'] = rest
    p.ns['head'] = raw
    return rest


def body_codec(fn, chunk=None):
    return lambda p: codec_source(p, fn, chunk)


# ---------------------------------------------------------------------------
#  faults
# ---------------------------------------------------------------------------
def mutating(oplog):
    return [i for i, (op, path) in enumerate(oplog) if op in MUT]


def pick_call(ch, oplog, bias=75):
    """Index of a system call, mostly one that changes something."""
    m = mutating(oplog)
    if m and ch.flag(bias):
        return ch.pick(m)
    return ch.int(len(oplog)) if oplog else 0


def crash_fault(ch, oplog, power=True):
    f = {'at': pick_call(ch, oplog), 'kind': 'kill'}
    if power and ch.flag(50):
        f['kind'] = 'power'
    f['after'] = ch.flag(35)
    f['sel'] = ch.int(8)
    return f


def errno_fault(ch, oplog):
    return {'at': pick_call(ch, oplog), 'kind': 'errno', 'sel': ch.int(6)}


def sticky_errno(e, ops, prefix=W):
    def f(op, path):
        return e if op in ops and path and path.startswith(prefix) else 0
    return f


class StickyFrom(object):
    """From call n on, every operation of the given kinds fails."""

    def __init__(self, p, n, e, ops):
        self.p, self.n, self.e, self.ops = p, n, e, ops

    def __call__(self, op, path):
        if self.p.calls - 1 >= self.n and op in self.ops:
            return self.e
        return 0


STICKY = [(errno.ENOSPC, ('open-w', 'write', 'fsync', 'close-w', 'mkdir')),
          (errno.EROFS, ('open-w', 'rename', 'unlink', 'chmod', 'mkdir')),
          (errno.EIO, ('write', 'fsync', 'rename', 'unlink', 'chmod', 'open-w')),
          (errno.EACCES, ('open-w', 'rename', 'unlink', 'chmod'))]


# ---------------------------------------------------------------------------
#  one project with one or more sources
# ---------------------------------------------------------------------------
class Project(object):
    """Sources, support files and the command line of a simulated user."""

    def __init__(self, ctx, n=1, kinds=((6, 'ok'),), names=None, big=12, opts=True, frags=None, distinct=True,
                 defines=True, outdir=True):
        ch = ctx.ch
        self.ctx = ctx
        self.ch = ch
        self.gen = G.Gen(ch)
        self.sources = []
        pool = list(names or NAMES)
        self.outdir = 'out' if opts and outdir and ch.flag(20) else ''
        outs = set()
        for _ in range(n):
            for _try in range(20):
                nm = ch.pick(pool)
                o = G.output_name(nm, self.outdir)
                if not (nm in outs or o in outs):
                    break
                pool.remove(nm)
            outs |= {nm, o}
            s = self.gen.source(nm, ch.weighted(list(kinds)), big=big, frags=frags, defines=defines and ch.flag(25))
            s.output = o
            self.sources.append(s)
        self.browse = opts and ch.flag(20)
        self.read_only = not (opts and ch.flag(30))
        self.quiet = not (opts and ch.flag(25))
        self.defines = {}
        for s in self.sources:
            for d, x in s.defines.items():
                self.defines.setdefault(d, x)
                if self.defines[d] != x:         # one -D for the whole command line
                    s.out = s.out and s.out.replace('d %d\n' % x, 'd %d\n' % self.defines[d])
        self.type_file = opts and ch.flag(8)
        self.libdir = ''

    def args(self, files=None):
        a = []
        if self.quiet:
            a.append('-q')
        if self.outdir:
            a += ['-o', self.outdir]
        if self.browse:
            a.append('--pp-browse')
        if not self.read_only:
            a.append('--no-read-only')
        if self.type_file:
            a.append('--type-file')
        for d, x in sorted(self.defines.items()):
            a += ['-D', '%s:%d' % (d, x)]
        return a + (files if files is not None else [s.name for s in self.sources])

    def install(self, v, sources=True):
        v.makedirs(W + '/sub')
        if self.outdir:
            v.makedirs(W + '/' + self.outdir)
        for f, d in self.gen.files.items():
            v.put(W + '/' + f, d)
            v.put(W + '/sub/' + f, d)
        if sources:
            for s in self.sources:
                v.put(W + '/' + s.name, s.text)

    def describe(self):
        self.ctx.note('yupp %s' % ' '.join(self.args()))
        for s in self.sources:
            self.ctx.note('%s (%s): %s' % (s.name, s.kind, ' | '.join(s.text.strip().split('\n'))[:300]))


def wpath(rel):
    return rel if rel.startswith('/') else W + '/' + rel


def spawn_cli(k, project, entry='main', argv=None, **kw):
    kw.setdefault('cwd', W)
    return k.spawn('yupp', K.run_cli(entry), argv=argv if argv is not None else project.args(), **kw)


def kernel(ctx, v, **kw):
    return K.Kernel(ctx.ch, v, ctx.pk, **kw)


def solo(ctx, v, body, now=None, **kw):
    """Runs one fault-free process on v; returns (process, kernel)."""
    k = K.Kernel(ctx.ch, v, ctx.pk, **({'now': now} if now else {}))
    kw.setdefault('cwd', W)
    p = k.spawn('p', body, **kw)
    ctx.run(k)
    return p, k


ENTRIES = ['main', 'script', 'ppmain', 'cli']


def entry_exit(entry, p):
    """Exit status as the operating system would see it (cli() returns it)."""
    if entry == 'cli' and p.exc is None and p.exit == 0:
        return p.result
    return p.exit


ADDRESS = re.compile(r' at 0x[0-9a-f]+')


def views(e, cut):
    """What the functions of `traceback` make of an exception; cut(tb): without
    the frames of the simulator."""
    import io
    import traceback
    t = cut(e.__traceback__)
    r = {'format_exception': ''.join(traceback.format_exception(type(e), e, t))}
    for n in (0, 1, 2, 5, -1, -3):
        r['limit %d' % n] = ''.join(traceback.format_exception(type(e), e, t, limit=n))
    lst = traceback.extract_tb(t)
    r['extract_tb'] = repr([tuple(f)[:4] for f in lst])
    r['format_list'] = ''.join(traceback.format_list(lst))
    r['of tuples'] = ''.join(traceback.format_list([tuple(f)[:4] for f in lst]))
    r['from_list'] = ''.join(traceback.StackSummary.from_list([tuple(f)[:4] for f in lst]).format())
    out = io.StringIO()
    traceback.print_tb(t, file=out)
    traceback.print_exception(type(e), e, t, limit=2, file=out)
    r['print_tb'] = out.getvalue()
    r['locals'] = ADDRESS.sub('', ''.join(traceback.StackSummary.extract(
        (x for x in traceback.walk_tb(t) if x[0].f_code.co_name != '<module>'), capture_locals=True).format()))
    r['lazy'] = ''.join(traceback.StackSummary.extract(traceback.walk_tb(t), lookup_lines=False).format())
    for n in (2, -1):
        sys.tracebacklimit = n
        r['tracebacklimit %d' % n] = ''.join(traceback.format_exception(type(e), e, t))
    del sys.tracebacklimit
    old, sys.stderr = sys.stderr, io.StringIO()
    try:
        sys.excepthook(type(e), e, t)
        r['uncaught'] = sys.stderr.getvalue()
    finally:
        sys.stderr = old
    return r


def run_plain(p, name, text):
    """The generated text as an ordinary file: the views of its exception."""
    try:
        exec(compile(text, name, 'exec'), {'__name__': '__main__'})
    except (Exception, KeyboardInterrupt) as e:
        p.ns['views'] = views(e, lambda t: t.tb_next)


def run_script(p, fn, chunk=None, whole=False, normal=True, view=False):
    """Reads the script as Python does (CPython; whole=True: PyPy, which decodes
    the whole file at once), compiles and runs it; p.ns: head, code, traceback."""
    import os
    import traceback
    if whole:
        K.yupp(p)
        sys.argv = [fn]
        with open(fn, 'rb') as f:
            data = f.read()
        enc = [m.group(1) for m in map(CODING.match, data.split(b'\n')[:2]) if m][0].decode()
        rest = codecs.lookup(enc).decode(data)[0]
        p.ns['head'] = ''
        p.ns['code'] = rest
    else:
        rest = codec_source(p, fn, chunk)
    p.ns['traceback'] = None
    p.ns['ops'] = p.calls
    # CPython does not normalise the name of the script, PyPy does
    name = os.path.abspath(fn) if normal else os.path.join(os.getcwd(), fn)
    try:
        exec(compile(p.ns['head'] + rest, name, 'exec'), {'__name__': '__main__'})
    except (Exception, KeyboardInterrupt) as e:
        t = e.__traceback__.tb_next                  # without this function
        p.ns['traceback'] = ''.join(traceback.format_exception(type(e), e, t))
        if view:
            p.ns['views'] = views(e, lambda t: t.tb_next)
    return rest
