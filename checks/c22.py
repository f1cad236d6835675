"""C22 The editor plugin leads from the output to its origin and back.

A simulated editor (a stub of the Sublime Text API: windows, views, the queue of
events) runs the plugin through a seeded history of openings, closings, changes
of focus, clicks and commands, while the real tool translates the sources again
in other simulated processes and files are removed or damaged; where the command
leads is compared with a model that reads the browse information itself.
"""
import json
import posixpath
import re

from sim import kernel as K
from sim import gen as G
from sim.scen import *
from checks.c01 import short
from checks.c16 import Maker, bisect, WORD

LEVEL = 'exploration'
SEEDS = {'quick': 2500, 'thorough': 60000}
CAP = {'quick': 35, 'thorough': 600}
PLUGIN = K.REPO + '/sublime_text/Data/Packages/yupp/yupp.py'
RULE = ('seeded histories of 10-40 steps (open, close, focus, click, command, translate again with or without browsing, edit, '
        'remove or damage a file) of one editor over 1-3 sources with libraries in several directories; events are delivered '
        'with seeded delays, translations run to their end or go on during the next steps; after a change has been seen by the '
        'editor every command in an output must lead where the browse information says and, repeated, through all origins back '
        'to its place; without browse information the command switches between output and source; no handler may raise; '
        'non-trivial: at least 3 checked commands; distinct by (steps, texts)')


class Region(object):
    def __init__(self, a, b=None):
        self.a, self.b = a, a if b is None else b

    def begin(self):
        return min(self.a, self.b)

    def end(self):
        return max(self.a, self.b)

    def size(self):
        return self.end() - self.begin()

    def empty(self):
        return self.a == self.b


class Selection(list):
    def add(self, r):
        self[:] = [x for x in self if x.a != r.a] + [r]


class View(object):
    def __init__(self, ed, fn):
        self._ed, self._fn, self._sel = ed, fn, Selection([Region(0)])
        self._loading, self._loaded, self._ro, self._shown, self._regions = True, False, False, None, {}

    def file_name(self):
        return self._fn

    def is_loading(self):
        return self._loading

    def is_read_only(self):
        return self._ro

    def set_read_only(self, f):
        self._ro = bool(f)

    def sel(self):
        return self._sel

    def show_at_center(self, x):
        if self._loading:
            return                                 # does not work before the file is loaded
        self._shown = x.begin() if isinstance(x, Region) else x + 0

    show = show_at_center

    def window(self):
        return self._ed if self in self._ed.all else None

    def add_regions(self, key, regions, *a):
        self._regions[key] = [r.begin() for r in regions]

    def erase_regions(self, key):
        self._regions.pop(key, None)

    def size(self):
        return 10**6

    def set_status(self, *a):
        pass

    def id(self):
        return id(self)


class Editor(object):
    """The window, its views and the queue of events."""

    def __init__(self, folders, exists):
        self.all, self.active, self.queue, self._folders, self.exists = [], None, [], folders, exists

    # API of a window
    def folders(self):
        return list(self._folders)

    def open_file(self, fn, flags=0):
        if not isinstance(fn, str):
            raise TypeError('open_file(%r)' % (fn,))
        fn = posixpath.normpath(posixpath.join('/', fn))
        for w in self.all:
            if w._fn == fn:
                break
        else:
            w = View(self, fn)
            self.all.append(w)
            if self.exists(fn):
                self.queue.append(('on_load', w))
            else:
                w._loading = False
        self.focus(w)
        return w

    def focus_view(self, w):
        self.focus(w)

    def active_view(self):
        return self.active

    def views(self):
        return list(self.all)

    def id(self):
        return 1

    # user
    def focus(self, w):
        if self.active is not w and self.active is not None:
            self.queue.append(('on_deactivated', self.active))
        self.active = w
        self.queue.append(('on_activated', w))

    def close(self, w):
        self.all.remove(w)
        self.queue.append(('on_close', w))
        if self.active is w:
            self.active = None
            if self.all:
                self.focus(self.all[-1])


def stubs(ed):
    import types
    s, sp = types.ModuleType('sublime'), types.ModuleType('sublime_plugin')
    s.Region, s.HIDDEN, s.PERSISTENT, s.ENCODED_POSITION, s.TRANSIENT = Region, 128, 16, 1, 4
    s.DRAW_OUTLINED, s.DRAW_EMPTY = 32, 1
    s.active_window = lambda: ed
    s.windows = lambda: [ed]
    s.status_message = s.error_message = s.message_dialog = lambda *a: None
    s.version = lambda: '4143'
    s.set_timeout = s.set_timeout_async = lambda f, n=0: ed.queue.append((f, None))

    class EventListener(object):
        pass

    class TextCommand(object):
        def __init__(self, view):
            self.view = view

        def is_enabled(self):
            return True

    class WindowCommand(object):
        def __init__(self, window):
            self.window = window

    class ApplicationCommand(object):
        pass
    for c in (EventListener, TextCommand, WindowCommand, ApplicationCommand):
        setattr(sp, c.__name__, c)
    return s, sp


def snake(n):
    n = n[:-7] if n.endswith('Command') else n
    return re.sub('(?<!^)(?=[A-Z])', '_', n).lower()


class Stop(Exception):
    pass


class Session(object):
    def __init__(self, ctx, v, ed, files, outs, mk, folders):
        self.ctx, self.v, self.ed, self.files, self.outs, self.mk, self.folders = ctx, v, ed, files, outs, mk, folders
        self.fail = None
        self.checked = 0
        self.seen = {}                             # output -> state of the disk at a quiet load or activation
        self.log = []

    # -- plugin -----------------------------------------------------------
    def load(self):
        s, sp = stubs(self.ed)
        sys.modules['sublime'], sys.modules['sublime_plugin'] = s, sp
        g = {'__name__': 'yupp.yupp', '__file__': '/simfs/st/yupp.py'}
        exec(compile(TEXT(), PLUGIN, 'exec'), g)
        isclass = lambda x, b: isinstance(x, type) and issubclass(x, b) and x is not b
        self.listeners = [c() for n, c in sorted(g.items()) if isclass(c, sp.EventListener)]
        self.command = [c for n, c in sorted(g.items()) if isclass(c, sp.TextCommand) and snake(n) == 'goto_origin'][0]

    def stop(self, kind, msg):
        self.fail = (kind, msg + '\nsteps: ' + '; '.join(self.log[-60:]))
        raise Stop()

    def guard(self, what, f, *a):
        try:
            return f(*a)
        except (Stop, K.SimCrash):
            raise
        except BaseException as e:
            self.stop('raised', '%s: %s' % (what, ''.join(K.BASE['format_exception'](type(e), e, e.__traceback__))[-900:]))

    def event(self, name, w):
        if callable(name):
            return self.guard('a timeout', name)
        self.log.append('[%s %s]' % (name, w._fn and posixpath.basename(w._fn)))
        if name == 'on_load':
            w._loading, w._loaded = False, True
        b4 = self.state(w._fn) if w._fn else None
        calm = self.quiet()
        for li in self.listeners:
            for n in (name, name + '_async'):
                h = getattr(li, n, None)
                if h is not None:
                    self.guard('%s(%s)' % (n, w._fn), h, w)
        if name in ('on_load', 'on_activated'):
            # seen only if nothing changed during it
            self.seen[w._fn] = b4 if b4 and w._loaded and w in self.ed.all and self.quiet() and b4 == self.state(w._fn) else None
        if name == 'on_load' and w._fn and calm and self.quiet():
            nd = self.v.lookup(w._fn)
            if nd is not None and w._ro != (not nd.mode & 0o200):
                self.stop('read-only', '%s of mode %o is loaded read only: %s' % (w._fn, nd.mode, w._ro))
        if name == 'on_close':
            self.seen.pop(w._fn, None)

    def deliver(self, n):
        while self.ed.queue and n:
            n -= 1
            self.event(*self.ed.queue.pop(0))

    def quiet(self):
        return all(q.finished for q in self.procs)

    def state(self, fn):
        r = []
        for x in (fn, fn + '.json'):
            nd = self.v.lookup(x)
            r.append(nd and (nd.mtime, self.v.get(x)))
        return r

    # -- model ------------------------------------------------------------
    def find(self, fruit, name):
        p = posixpath.normpath(posixpath.join(self.cwd, name))
        if self.v.get(p) is not None:
            return p
        for bases in ([posixpath.dirname(fruit)], self.folders):
            for n in (name, posixpath.basename(name)):
                for base in bases:
                    p = posixpath.normpath(posixpath.join(base, n))
                    if self.v.get(p) is not None:
                        return p
        return None

    def way(self, fruit, j, pos):
        """Origins of a position, the call before the definition."""
        off, br = j['offset'], j['browse']
        i = bisect(off, pos)
        at = pos + (off[i - 1][1] if i else 0)
        i = bisect(br, at)
        if not i:
            return []
        i -= 1
        k = i
        while k > 0 and br[k - 1][0] == br[i][0]:
            k -= 1
        r = []
        for n in range(k, i + 1):
            f = self.find(fruit, j['files'][br[n][1]])
            p = br[n][2]
            if k == i and p >= 0:
                p += at - br[n][0]
            if f is not None and (f, abs(p)) not in r:
                r.append((f, abs(p)))
        self.single = k == i
        return r

    def press(self, edit=1):
        w = self.ed.active
        self.guard('the command in %s at %d' % (w._fn, w._sel[0].begin()), lambda: self.command(w).run(edit))
        x = self.ed.active
        return x and (x._fn, x._sel[0].begin())

    def aside(self, x, keep):
        """Something else happens in the editor, then the user comes back."""
        ch = self.ctx.ch
        ed, w = self.ed, self.ed.active
        other = [y for y in ed.all if y._fn not in keep]
        other = [y for y in other if y._fn in self.outs and ch.flag(70)] or other
        if other and ch.flag(70):
            y = ch.pick(other)
            self.log.append('aside close %s' % y._fn)
            ed.close(y)
        else:
            f = ch.pick(sorted(self.outs) + self.others + self.sources)
            self.log.append('aside open %s' % f)
            ed.open_file(f)
            self.deliver(-1)
            if f not in keep and ch.flag(50):
                ed.close(ed.active)
        self.deliver(-1)
        ed.focus(w)
        self.deliver(-1)

    def checked_press(self):
        ch = self.ctx.ch
        w = self.ed.active
        self.deliver(-1)
        fn, pos = w._fn, w._sel[0].begin()
        seen, disk = self.seen.get(fn), self.state(fn)
        if not self.quiet() or seen is None or seen != disk or self.ed.active is not w:
            self.log.append('-> %s' % (self.press(),))
            return
        out = self.v.get(fn)
        if fn not in self.outs or out is None:
            if fn in self.others:
                x = self.press()
                if x != (fn, pos) or len(self.ed.queue):
                    self.stop('unrelated', 'the command in %s at %d leads to %s' % (fn, pos, x))
                return
            self.log.append('-> %s' % (self.press(),))
            return
        raw = self.v.get(fn + '.json')
        if raw is None:
            src = self.outs[fn]
            if self.v.get(src) is None:
                self.log.append('-> %s' % (self.press(),))
                return
            n = ch.range(1, 3)
            for i in range(n):
                x = self.press()
                if x is None or x[0] != (src, fn)[i % 2]:
                    self.stop('switch', 'no browse information: the command in %s leads to %s' % ((fn, src)[i % 2], x))
                self.deliver(-1 if ch.flag(70) else ch.int(3))
            self.checked += 1
            self.ctx.probe('switched between output and source')
            return
        try:
            j = json.loads(raw.decode())
            j['files'], j['browse'][0], j['offset']
        except Exception:
            self.log.append('-> %s' % (self.press(),))
            return
        if any(self.v.get(posixpath.join(W, f)) is None for f in j['files']):
            self.log.append('-> %s' % (self.press(),))       # an origin is removed
            return
        r = self.way(fn, j, pos)
        steps = r + [(fn, pos)]
        text = out.decode('utf8').replace('\r\n', '\n')
        m = next((m for m in WORD.finditer(text) if m.start() <= pos < m.end()), None)
        for i, want in enumerate(steps):
            x = self.press()
            self.deliver(-1 if ch.flag(80) else ch.int(3))
            if x != want:
                self.stop('origin' if i < len(r) else 'back', 'command %d in %s at %d leads to %s, the browse information says %s\n%s\n%r' % (
                    i + 1, fn, pos, x, steps, raw.decode()[:1500], text))
            if i < len(r) and ch.flag(25):
                self.aside(x, [fn] + [f for f, _ in r])
            if x[0] != fn and self.ed.active._shown is None and not self.ed.active._loading:
                self.stop('shown', 'the place %s is not shown' % (x,))
        if m and r and self.single and self.fresh.get(fn) == [self.v.get(f) for f in self.sources]:
            f, p = r[0]
            src = self.v.get(f).decode('utf8').replace('\r\n', '\n')
            k = pos - m.start()
            if src[p - k:p - k + len(m.group())] != m.group():
                self.stop('word', '%s of %s at %d leads to %s:%d, where is %r\n%s\n%r\n%r' % (
                    m.group(), fn, pos, f, p, src[p - k:p - k + 20], raw.decode()[:1500], text, src))
            self.ctx.probe('word found in its origin')
        self.checked += 1
        self.ctx.probe('command checked: %d origins' % len(r))


_text = []


def TEXT():
    if not _text:
        with K.R['io_open'](PLUGIN, encoding='utf8') as f:
            _text.append(f.read())
    return _text[0]


def run(ctx):
    ch = ctx.ch
    TEXT()
    v = ctx.base.clone()
    g = G.Gen(ch)
    mk = Maker(ch, g)
    names = ['a.yu-c', 'sub/b.yu-py', 'sub/c.yu-h', 'd.yu', 'e.py']
    files = [names.pop(ch.int(len(names))) for _ in range(ch.range(1, 3))]
    v.makedirs(W + '/sub')
    v.makedirs(W + '/inc/deep')
    v.makedirs('/simfs/st')
    where = {}
    libdirs = ch.pick([['inc', 'inc/deep'], ['inc/deep', 'inc']])

    def text(f):
        lines = []
        for _ in range(ch.range(1, 6)):
            lines += mk.lines(f.endswith('py'))
        if ch.flag(50):
            if 'shared' not in mk.libs:
                mk.libs['shared'] = '%s\n%s' % (mk.w('I'), mk.w('J'))
            lines.insert(ch.int(len(lines) + 1), '($import shared)')
        if ch.flag(40):
            # macros in macros, also those of a library
            n = mk.k
            a, b, c = mk.w('M'), mk.w('M'), mk.w('A')
            d = ['($macro in%d (P) %s ($P))' % (n, a)]
            if ch.flag(50):
                mk.libs['m%d' % n] = '\n'.join(d)
                d = ['($import m%d)' % n]
            lines += d + ['($macro out%d (P) ($in%d ($P)) %s%s)' % (n, n, b, ch.pick(['', ' ($in%d z)' % n]))]
            lines += [ch.pick(['($out%d %s)', '($in%d ($out' + str(n) + ' %s))', 'x ($out%d ($in' + str(n) + ' %s))']) % (n, c)]
            for x in (a, b, c):
                mk.decl[x] = ''
        lines.append(mk.w('F'))
        return '\n'.join(lines) + ('\n' if ch.flag(80) else '')

    def write(f):
        v.put(W + '/' + f, text(f))
        for n in mk.libs:
            if n not in where:
                where[n] = ch.pick(['', 'inc', 'inc/deep', 'inc/deep', 'inc'])
                v.put(W + '/' + (where[n] + '/' if where[n] else '') + n + '.yu', mk.libs[n])
                if where[n] == libdirs[0] and ch.flag(70):
                    # another file of this name in a directory that is searched later
                    v.put(W + '/' + libdirs[1] + '/' + n + '.yu', 'a library that nobody imports\n')
        for n, t in g.files.items():
            if v.get(W + '/' + n) is None:
                v.put(W + '/' + n, t)
    for f in files:
        write(f)
    v.put(W + '/notes.txt', 'nothing of yupp')
    outs = {W + '/' + G.output_name(f): W + '/' + f for f in files}
    folders = ch.pick([[W], [W, W + '/inc'], [W + '/inc', W], [W + '/inc', W], ['/simfs/st', W], []])
    ed = Editor(folders, lambda fn: v.get(fn) is not None)
    s = Session(ctx, v, ed, files, outs, mk, folders)
    s.procs = []
    s.others = [W + '/notes.txt']
    s.fresh = {}
    s.sources = [W + '/' + f for f in files]
    base = 1_600_000_000 * 10**9
    k = K.Kernel(ch, v, ctx.pk, now=base, preempt=ch.pick([3, 20, 60]), tick=ch.pick([10_000, 1_000_000]))

    def translate(browse, which):
        p = k.spawn('yupp', K.run_cli('main'), cwd=W,
                    argv=['-q', '--pp-browse' if browse else '--pp-no-browse', '-d', libdirs[0], '-d', W + '/' + libdirs[1]] + which)
        p.tempname_seed = (p.pid, k.start)
        s.procs.append(p)
        return p

    def body(p):
        s.load()
        targets = sorted(outs) * 3 + s.sources + s.others
        for n in range(ch.range(10, 40)):
            act = ch.weighted([(12, 'command'), (5, 'open'), (2, 'click'), (2, 'focus'), (2, 'close'), (4, 'translate'), (1, 'edit'),
                               (1, 'damage'), (2, 'new'), (1, 'wait')]) if n else 'translate'
            if act in ('edit', 'damage', 'click', 'command', 'focus', 'close') and not ed.all and n:
                act = 'open'
            if act == 'translate':
                which = [f for f in files if ch.flag(70)] or files[:1]
                browse = ch.flag(80 if n else 60)
                alone = s.quiet()
                q = translate(browse, which)
                s.log.append('translate %s %s' % (which, 'browse' if browse else ''))
                k.now += ch.pick([10**6, 2 * 10**9])
                src = [v.get(f) for f in s.sources]
                for f in which:
                    s.fresh.pop(W + '/' + G.output_name(f), None)
                if ch.flag(70):
                    while not s.quiet():
                        k._yield(p)
                        if p.dead:
                            raise K.SimCrash()
                    k.now += 10**9
                    s.log[-1] += ' = %s' % q.exit
                    for f in which:
                        if alone and browse and q.exit == 0:
                            s.fresh[W + '/' + G.output_name(f)] = src
                    if ed.active is not None and ch.flag(80):
                        ed.focus(ed.active)         # back from the terminal
                    if not n and ch.flag(40):
                        for f in sorted(outs):
                            ed.open_file(f)
                        s.deliver(-1)
                        s.log.append('open all outputs')
                continue
            if act == 'wait':
                while not s.quiet():
                    k._yield(p)
                    if p.dead:
                        raise K.SimCrash()
                k.now += 10**9
                if ed.active is not None:
                    ed.focus(ed.active)
                s.log.append('wait')
            elif act == 'open':
                f = ch.pick(targets)
                s.log.append('open ' + f[len(W) + 1:])
                ed.open_file(f)
            elif act == 'new':
                w = View(ed, None)                  # without a name
                ed.all.append(w)
                ed.queue.append(('on_new', w))
                ed.focus(w)
                if ch.flag(30):
                    ed.queue.append(('on_load', w))
                s.log.append('new')
            elif act == 'focus':
                w = ch.pick(ed.all)
                s.log.append('focus %s' % w._fn)
                ed.focus(w)
            elif act == 'close':
                w = ch.pick(ed.all)
                s.log.append('close %s' % w._fn)
                ed.close(w)
            elif act == 'edit':
                f = ch.pick(files)
                s.log.append('edit ' + f)
                write(f)
                s.fresh.clear()
            elif act == 'damage':
                f = ch.pick(sorted(outs) + [o + '.json' for o in sorted(outs)] * 2 + s.sources)
                how = ch.pick(['rm', 'rm', 'cut', 'empty', 'garbage', 'list'] if f.endswith('.json') else ['rm'])
                s.log.append('%s %s' % (how, f[len(W) + 1:]))
                x = v.get(f)
                if x is None:
                    continue
                s.fresh.clear()
                if how == 'rm':
                    v.unlink(f)
                    if f in s.sources:
                        write(f[len(W) + 1:]) if ch.flag(80) else None
                else:
                    v.put(f, {'cut': x[:len(x) // 2], 'empty': b'', 'garbage': b'\xff\x00{', 'list': b'[]'}[how])
            elif act in ('click', 'command'):
                w = ed.active
                if w is None or w._fn is None or v.get(w._fn) is None:
                    if w is not None:
                        s.deliver(-1)
                        if ed.active is w:
                            s.press()
                    continue
                if act == 'click' or w._fn in outs and ch.flag(70):
                    t = v.get(w._fn).decode('utf8', 'replace').replace('\r\n', '\n')
                    ms = list(WORD.finditer(t))
                    ms = [m for m in ms if m.group()[0] in 'IJM' and ch.flag(40)] or ms
                    m = ch.pick(ms) if ms and ch.flag(75) else None
                    pos = m.start() + ch.pick([0, 0, 1, 2]) if m else ch.int(len(t) + 1)
                    w._sel.clear()
                    w._sel.add(Region(pos) if ch.flag(90) else Region(pos + 3, pos))
                    s.log.append('click %s:%d' % (w._fn, pos))
                if act == 'command':
                    s.log.append('command')
                    tree = s.quiet() and v.tree(W)
                    s.checked_press()
                    if tree and s.quiet() and v.tree(W) != tree:
                        s.stop('changed', 'the command changed a file')
            if ch.flag(75):
                s.deliver(-1)
            else:
                s.deliver(ch.int(3))

    def guarded(p):
        try:
            body(p)
        except Stop:
            pass
    ctx.note('%s folders %s: %r' % (files, folders, [v.get(W + '/' + f).decode()[:400] for f in files]))
    s.cwd = ch.pick(['/simfs/st', '/simfs/st', W])
    ep = k.spawn('editor', guarded, cwd=s.cwd)
    ctx.run(k)
    if s.fail:
        ctx.fail(*s.fail)
    if ep.exc is not None:
        raise K.HarnessError(ep.exc_text)
    ctx.trivial = s.checked < 3
    ctx.sig = (files, folders, s.log)
