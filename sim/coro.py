"""Generated programs of coroutines: text for the tool, reference model, schedules.

A program is a set of coroutines over shared flags F and semaphores S.  The
same statement tree is emitted as C with the macros of corolib (direct code or
coroutine.h) or as Python with the macros of coroutine-py, and interpreted by
the model below, which knows nothing of labels or generators of the library.
"""
import os
import shutil
import subprocess
import tempfile

READY, WAIT, YIELD, END = 0, 1, 2, 3
NF = 4


class Restart(Exception):
    pass


# ---------------------------------------------------------------------------
#  expressions: (C text, Python text, function of (model, coroutine))
# ---------------------------------------------------------------------------
def expr(ch, locs=()):
    def atom():
        j = ch.int(NF)
        k = ch.int(3)
        f = ch.int(7 if locs else 6)
        if f == 6:
            n = ch.pick(list(locs))
            return ('%s > %d' % (n, k),) * 2 + (lambda m, c: int(c.loc[n] > k),)
        if f == 0:
            return 'g%d' % j, 'F[ %d ]' % j, lambda m, c: m.F[j]
        if f == 1:
            return '!F[ %d ]' % j, 'not F[ %d ]' % j, lambda m, c: int(not m.F[j])
        op = ['>', '==', '!=', '<='][f - 2]
        fn = {'>': lambda a, b: a > b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<=': lambda a, b: a <= b}[op]
        return ('F[ %d ] %s %d' % (j, op, k),) * 2 + (lambda m, c: int(fn(m.F[j], k)),)
    a = atom()
    if ch.flag(30):
        b = atom()
        if ch.flag(50):
            return '%s && %s' % (a[0], b[0]), '%s and %s' % (a[1], b[1]), lambda m, c: int(bool(a[2](m, c) and b[2](m, c)))
        return '%s || %s' % (a[0], b[0]), '%s or %s' % (a[1], b[1]), lambda m, c: int(bool(a[2](m, c) or b[2](m, c)))
    return a


class Coro(object):
    def __init__(self, name):
        self.name = name
        self.body = []
        self.locals = []
        self.enter = False           # logs every entry
        self.exit = False            # logs every exit
        self.tag = 0
        self.param = None            # value of the parameter if it comes from a template


class Program(object):
    """lang: 'c' or 'py'."""

    def __init__(self, ch, lang='c', sems=0, weights=None):
        self.ch = ch
        self.lang = lang
        self.nsem = sems
        self.seminit = [ch.range(0, 2) for _ in range(sems)]
        self.k = 0
        self.w = dict(weights or {})
        n = ch.weighted([(2, 1), (4, 2), (3, 3), (2, 4)])
        names = ch.pick([['A', 'B', 'C', 'D'], ['task_1', 'task_2', 'task', 'Task'], ['i', 'co_p', 'L', 'main_'],
                         ['a', 'aa', 'aaa', 'a_a']])
        self.coros = []
        for i in range(n):
            c = Coro(names[i])
            c.tag = 100 * (i + 1)
            c.enter = ch.flag(50) and lang == 'c'
            c.exit = ch.flag(40) and lang == 'c'
            self.cur = c
            self.idx = i
            self.n = n
            c.body = self.block(0, ch.range(1, 5))
            self.coros.append(c)
        # twins made by a macro
        if lang == 'c' and ch.flag(25):
            c = self.coros[-1]
            d = Coro(c.name + '2')
            d.body, d.locals, d.enter, d.exit, d.tag = c.body, c.locals, c.enter, c.exit, c.tag
            c.param, d.param = 1, 2
            self.coros.append(d)

    def sites(self):
        """{number in the log: semaphore}"""
        r = {}

        def walk(b, c):
            for s in b:
                if s[0] in ('acq', 'rel', 'crit'):
                    r[s[2] + (c.param or 0) * 1000000] = s[1]
                for x in s[1:]:
                    if isinstance(x, list):
                        walk(x, c)
        for c in self.coros:
            walk(c.body, c)
        return r

    # -- statements -----------------------------------------------------------
    def local(self):
        v = 'v%d' % len(self.cur.locals)
        self.cur.locals.append(v)
        return v

    def ev(self):
        self.k += 1
        return self.cur.tag * 100 + self.k % 9000

    def block(self, depth, n):
        return [self.stmt(depth) for _ in range(n)]

    def stmt(self, depth):
        ch = self.ch
        w = {'log': 5, 'yield': 5, 'wait': 5, 'waitnot': 0, 'loop': 3, 'forever': 2, 'if': 3, 'inc': 2, 'set': 4, 'quit': 1,
             'restart': 1, 'waitcoro': 2, 'ifalive': 1, 'acq': 0, 'rel': 0, 'crit': 0}
        if self.lang == 'py':
            w.update(waitnot=3, restart=0, waitcoro=1, **{'return': 1})
        if self.nsem:
            w.update(acq=3, rel=3, crit=5)
        w.update(self.w)
        if depth >= 3:
            w.update(loop=0, forever=0, **{'if': 0})
        if self.idx == 0:                          # children come before their parents
            w.update(waitcoro=0, ifalive=0)
        k = ch.weighted([(x, n) for n, x in w.items() if x])
        if k in ('log', 'yield', 'quit', 'restart', 'return'):
            return (k, self.ev())
        if k in ('wait', 'waitnot'):
            return (k, self.ev(), expr(ch, self.cur.locals), ch.flag(70))
        if k == 'loop':
            v = self.local()
            return (k, v, ch.range(1, 4), self.block(depth + 1, ch.range(1, 3)), ch.flag(30))
        if k == 'forever':
            b = self.block(depth + 1, ch.range(1, 3))
            b.insert(ch.int(len(b) + 1), ('yield', 0))
            if ch.flag(30):
                b.append(('break-if', expr(ch, self.cur.locals)))
            return (k, b)
        if k == 'if':
            return (k, expr(ch, self.cur.locals), self.block(depth + 1, ch.range(1, 2)),
                    self.block(depth + 1, 1) if ch.flag(40) else None)
        if k == 'inc':
            return (k, self.local() if not self.cur.locals or ch.flag(40) else ch.pick(self.cur.locals), self.ev())
        if k == 'set':
            return (k, ch.int(NF), ch.int(3))
        if k == 'waitcoro':
            return (k, ch.int(self.idx))
        if k == 'ifalive':
            return (k, ch.int(self.idx), self.ev())
        s = ch.int(self.nsem)
        if k == 'crit':
            return (k, s, self.ev(), [('yield', 0)] * ch.int(3) + self.block(3, ch.int(2)))
        return (k, s, self.ev())

    # -- C --------------------------------------------------------------------
    def emit(self, b, ind, tmpl):
        t = '\t' * ind
        o = []

        def num(k):
            return '%d' % k if not tmpl else '(${} %d + ($K) * 1000000)' % k
        for s in b:
            k = s[0]
            if k == 'log':
                o.append('ev( %s, 0 );' % num(s[1]))
            elif k == 'yield':
                o.append('($coro-yield);')
            elif k == 'quit':
                o.append('($coro-quit);')
            elif k == 'restart':
                o.append('($coro-restart);')
            elif k == 'wait':
                c = s[2][0]
                if s[3]:
                    o.append('($coro-wait,, ev( %s, !!(%s) ) );' % (num(s[1]), c))
                elif c.startswith('g') and ' ' not in c:
                    o.append('($coro-wait %s);' % c)
                else:
                    o.append('($coro-wait,, %s );' % c)
            elif k == 'loop':
                if s[4]:
                    o += ['%s = 0;' % s[1], 'while ( %s++ < %d ) {' % (s[1], s[2])]
                else:
                    o.append('for ( %s = 0; %s < %d; %s++ ) {' % (s[1], s[1], s[2], s[1]))
                o += self.emit(s[3], 1, tmpl) + ['}']
            elif k == 'forever':
                o += ['for ( ; ; ) {'] + self.emit(s[1], 1, tmpl) + ['}']
            elif k == 'break-if':
                o.append('if ( %s ) break;' % s[1][0])
            elif k == 'if':
                o += ['if ( %s ) {' % s[1][0]] + self.emit(s[2], 1, tmpl)
                if s[3] is not None:
                    o += ['} else {'] + self.emit(s[3], 1, tmpl)
                o.append('}')
            elif k == 'inc':
                o.append('%s++; ev( %s, %s );' % (s[1], num(s[2]), s[1]))
            elif k == 'set':
                o.append('F[ %d ] = %d;' % (s[1], s[2]))
            elif k == 'waitcoro':
                o.append('($coro-wait-coro,,($coro-call %s));' % self.coros[s[1]].name)
            elif k == 'ifalive':
                o += ['if ( ($coro-alive ($coro-call %s)) ) ev( %s, 1 );' % (self.coros[s[1]].name, num(s[2])), 'else ev( %s, 2 );' % num(s[2])]
            elif k == 'acq':
                o += ['ev( %s, 4 );' % num(s[2]), '($semaphore-acquire S%d);' % s[1], 'ev( %s, 5 );' % num(s[2])]
            elif k == 'rel':
                o += ['ev( %s, 6 );' % num(s[2]), '($semaphore-release S%d);' % s[1]]
            elif k == 'crit':
                o += ['ev( %s, 4 );' % num(s[2]), '($semaphore-acquire S%d);' % s[1], 'ev( %s, 5 );' % num(s[2])]
                o += self.emit(s[3], 0, tmpl) + ['ev( %s, 6 );' % num(s[2]), '($semaphore-release S%d);' % s[1]]
        return [t + x if x else x for x in o]

    def text(self, mode):
        ch = self.ch
        o = []
        if mode is not None:
            o.append('($set corolib-use-c-macro %d)' % mode)
        o += ['($import corolib)', '($coro-h)', '', '#include <stddef.h>', 'int printf( const char *, ... );', 'int scanf( const char *, ... );',
              'static int F[ %d ];' % NF] + ['#define g%d F[ %d ]' % (j, j) for j in range(NF)]
        o += ['static int ev( int k, int v ) { printf( "%d %d\\n", k, v ); return v; }', '']
        for s in range(self.nsem):
            o.append('static semaphore_t S%d;' % s)
        done = False
        for c in self.coros:
            if c.param and done:
                continue
            x = []
            name = c.name
            if c.param:
                name = '($NM)'
            x += ['($coro-context %s);' % name, '($coro-define %s ]' % name]
            x += self.emit(c.body, 1, bool(c.param))
            num = ('%d' if not c.param else '(${} %d + ($K) * 1000000)')
            enter = ['\t($coro-local) int %s;' % v for v in c.locals] + (['\tev( %s, 7 );' % num % (c.tag + 98)] if c.enter else [])
            if enter or c.exit:
                x += ['[ \\enter ]'] + enter if enter else []
                if c.exit:
                    x += ['[ \\exit ]', '\tev( %s, 8 );' % num % (c.tag + 99)]
            x += ['[ )', '']
            if c.param:
                done = True
                x = ['($macro make (NM K)'] + x + [')']
                x += ['($make %s %d)' % (d.name, d.param) for d in self.coros if d.param]
            o += x
        o += ['static void state( void ) { printf( "s %s\\n", %s ); }' % (
            ' '.join(['%d'] * (NF + self.nsem)), ', '.join(['F[ %d ]' % j for j in range(NF)] + ['(int)S%d' % s for s in range(self.nsem)]))]
        o += ['int main( void )', '{', '\tint op, a, st;']
        for s in range(self.nsem):
            o.append('\t($semaphore-init S%d %d);' % (s, self.seminit[s]))
        for c in self.coros:
            o.append('\t($coro-context-init %s);' % c.name)
        o += ['\twhile ( scanf( "%d %d", &op, &a ) == 2 ) {', '\t\tif ( op == 0 ) {', '\t\t\tst = -1;']
        for i, c in enumerate(self.coros):
            o.append('\t\t\tif ( a == %d ) st = ($coro-call %s);' % (i, c.name))
        o += ['\t\t\tprintf( "r %d %d %d\\n", a, st, ($coro-alive st) );', '\t\t}', '\t\tif ( op == 1 ) F[ a / 100 ] = a % 100;']
        for i, c in enumerate(self.coros):
            o.append('\t\tif ( op == 2 && a == %d ) ($coro-context-init %s);' % (i, c.name))
        for s in range(self.nsem):
            o.append('\t\tif ( op == 3 && a / 100 == %d ) ($semaphore-init S%d [a %% 100]);' % (s, s))
        o += ['\t\tstate();', '\t}', '\treturn 0;', '}']
        return '\n'.join(o) + '\n'

    def text_h(self):
        """The same program written by hand with the macros of coroutine.h."""
        import re

        def raw(line, final, k):
            line = re.sub(r'\(\$\{\} (\d+) \+ \(\$K\) \* 1000000\)', lambda m: str(int(m.group(1)) + (k or 0) * 1000000), line)
            line = re.sub(r'\(\$coro-call (\w+)\)', r'CORO_CALL( \1 )', line)
            line = re.sub(r'\(\$coro-alive (CORO_CALL\( \w+ \)|\w+)\)', r'CORO_ALIVE( \1 )', line)
            line = re.sub(r'\(\$coro-(yield|quit|restart)\)', lambda m: 'CORO_%s( %s )' % (m.group(1).upper(), final), line)
            more = ', ' + final if final else ''
            line = re.sub(r'^(\s*)\(\$coro-wait-coro,,(.*)\);$', lambda m: '%sCORO_WAIT_CORO( %s%s );' % (m.group(1), m.group(2), more), line)
            line = re.sub(r'^(\s*)\(\$coro-wait(?:,,| )(.*)\);$', lambda m: '%sCORO_WAIT( %s%s );' % (m.group(1), m.group(2), more), line)
            line = re.sub(r'\(\$semaphore-acquire (\w+)\)', lambda m: 'SEMAPHORE_ACQUIRE( %s%s )' % (m.group(1), more), line)
            line = re.sub(r'\(\$semaphore-release (\w+)\)', r'SEMAPHORE_RELEASE( \1 )', line)
            line = re.sub(r'\(\$semaphore-init (\w+) \[?([^\])]*)\]?\)', r'SEMAPHORE_INIT( \1, \2 )', line)
            return re.sub(r'\(\$coro-context-init (\w+)\)', r'CORO_CONTEXT_INIT( \1 )', line)
        lines = self.text(0).split('\n')
        i = lines.index('($coro-h)')
        o = ['#include "coroutine.h"']
        j = next(n for n, x in enumerate(lines) if x.startswith(('($coro-context ', '($macro make')))
        e = lines.index(next(x for x in lines if x.startswith('static void state(')))
        o += lines[i + 1:j]
        for c in self.coros:
            add = (c.param or 0) * 1000000
            final = 'ev( %d, 8 )' % (c.tag + 99 + add) if c.exit else ''
            o += ['CORO_CONTEXT( %s );' % c.name, 'CORO_DEFINE( %s )' % c.name, '{']
            o += ['\tCORO_LOCAL int %s;' % v for v in c.locals]
            o += ['\tCORO_BEGIN( %s );' % ('ev( %d, 7 )' % (c.tag + 98 + add) if c.enter else '')]
            o += [raw(x, final, c.param) for x in self.emit(c.body, 1, bool(c.param))]
            o += ['\tCORO_END( %s );' % final, '}', '']
        o += [raw(x, '', 0) for x in lines[e:]]
        return '\n'.join(o)

    # -- Python ----------------------------------------------------------------
    def emit_py(self, b, ind):
        t = '    ' * ind
        o = []
        for s in b:
            k = s[0]
            if k == 'log':
                o.append('ev(%d, 0)' % s[1])
            elif k == 'yield':
                o.append('($coro-yield)')
            elif k == 'quit':
                o.append('($coro-quit)')
            elif k == 'return':
                o.append('return')
            elif k in ('wait', 'waitnot'):
                m = 'coro-wait' if k == 'wait' else 'coro-wait-not'
                c = s[2][1]
                if s[3]:
                    o.append('($%s,, ev(%d, int(bool(%s))) )' % (m, s[1], c))
                else:
                    o.append('($%s,, %s )' % (m, c))
            elif k == 'loop':
                if s[4]:
                    o += ['%s = 0' % s[1], 'while %s < %d:' % (s[1], s[2]), '    %s += 1' % s[1]]
                else:
                    o.append('for %s in range(%d):' % (s[1], s[2]))
                o += self.emit_py(s[3], 1)
            elif k == 'forever':
                o += ['while True:'] + self.emit_py(s[1], 1)
            elif k == 'break-if':
                o += ['if %s:' % s[1][1], '    break']
            elif k == 'if':
                o += ['if %s:' % s[1][1]] + self.emit_py(s[2], 1)
                if s[3] is not None:
                    o += ['else:'] + self.emit_py(s[3], 1)
            elif k == 'inc':
                o += ['%s += 1' % s[1], 'ev(%d, %s)' % (s[2], s[1])]
            elif k == 'set':
                o.append('F[%d] = %d' % (s[1], s[2]))
            elif k == 'waitcoro':
                o.append('($coro-wait,, not ($coro-alive ($coro-call co%d)) )' % s[1])
            elif k == 'ifalive':
                o += ['if ($coro-alive ($coro-call co%d)):' % s[1], '    ev(%d, 1)' % s[2], 'else:', '    ev(%d, 2)' % s[2]]
        return [t + x for x in o]

    def text_py(self, head):
        o = list(head) + ['', '($import coroutine-py)', '', 'F = [0] * %d' % NF, 'LOG = []', '', 'def ev(k, v):', '    LOG.append((k, v))', '    return v', '']
        for i, c in enumerate(self.coros):
            o.append('def ($coro %s):' % c.name)
            glob = ['co%d' % j for j in range(i)]
            for v in c.locals:
                o.append('    %s = 0' % v)
            o += self.emit_py(c.body, 1)
            o += ['    if False: yield', '']
        for i, c in enumerate(self.coros):
            o += ['def call%d():' % i, '    st = ($coro-call co%d)' % i, '    return st, ($coro-alive st)', '',
                  'def init%d():' % i, '    global co%d' % i, '    ($coro-init %s)' % c.name, '    co%d = %s' % (i, c.name), '',
                  'def uninit%d():' % i, '    ($coro-uninit co%d)' % i, '']
        return '\n'.join(o)


# ---------------------------------------------------------------------------
#  model
# ---------------------------------------------------------------------------
class CoState(object):
    def __init__(self, c):
        self.c = c
        self.loc = {v: 0 for v in c.locals}
        self.gen = None


class Model(object):
    """statics: locals survive a restart (C); otherwise they start anew (Python)."""

    def __init__(self, prog, statics=True):
        self.p = prog
        self.statics = statics
        self.F = [0] * NF
        self.S = list(prog.seminit)
        self.co = [CoState(c) for c in prog.coros]
        self.log = []
        self.stuck = {}              # coroutine -> what it waits for
        self.steps = 0

    def ev(self, c, k, v):
        if c.c.param:
            k += c.c.param * 1000000
        self.log.append('%d %d' % (k, v))
        return v

    def block(self, c, b):
        for s in b:
            k = s[0]
            self.steps += 1
            if k == 'log':
                self.ev(c, s[1], 0)
            elif k == 'yield':
                yield YIELD
            elif k == 'quit':
                while True:
                    yield END
            elif k == 'return':
                raise Restart('return')
            elif k == 'restart':
                yield YIELD
                raise Restart()
            elif k in ('wait', 'waitnot'):
                while True:
                    v = s[2][2](self, c)
                    if s[3]:
                        v = self.ev(c, s[1], int(bool(v)))
                    if bool(v) == (k == 'wait'):
                        break
                    yield WAIT
            elif k == 'loop':
                if s[4]:
                    c.loc[s[1]] = 0
                    while True:
                        t = c.loc[s[1]]
                        if self.statics:
                            c.loc[s[1]] = t + 1
                            if not t < s[2]:
                                break
                        else:
                            if not t < s[2]:
                                break
                            c.loc[s[1]] = t + 1
                        yield from self.block(c, s[3])
                        if c.brk:
                            break
                elif self.statics:
                    c.loc[s[1]] = 0
                    while c.loc[s[1]] < s[2]:
                        yield from self.block(c, s[3])
                        if c.brk:
                            break
                        c.loc[s[1]] += 1
                else:
                    for x in range(s[2]):
                        c.loc[s[1]] = x
                        yield from self.block(c, s[3])
                        if c.brk:
                            break
                c.brk = False
            elif k == 'forever':
                while True:
                    yield from self.block(c, s[1])
                    if c.brk:
                        break
                c.brk = False
            elif k == 'break-if':
                if s[1][2](self, c):
                    c.brk = True
                    return
            elif k == 'if':
                if s[1][2](self, c):
                    yield from self.block(c, s[2])
                elif s[3] is not None:
                    yield from self.block(c, s[3])
                if c.brk:
                    return
            elif k == 'inc':
                c.loc[s[1]] += 1
                self.ev(c, s[2], c.loc[s[1]])
            elif k == 'set':
                self.F[s[1]] = s[2]
            elif k == 'waitcoro':
                while self.call(s[1]) < END:
                    yield WAIT
            elif k == 'ifalive':
                self.ev(c, s[2], 1 if self.call(s[1]) < END else 2)
            elif k == 'acq':
                self.ev(c, s[2], 4)
                while not self.S[s[1]] > 0:
                    yield WAIT
                self.S[s[1]] -= 1
                self.ev(c, s[2], 5)
            elif k == 'rel':
                self.ev(c, s[2], 6)
                self.S[s[1]] += 1
            elif k == 'crit':
                self.ev(c, s[2], 4)
                while not self.S[s[1]] > 0:
                    yield WAIT
                self.S[s[1]] -= 1
                self.ev(c, s[2], 5)
                yield from self.block(c, s[3])
                if c.brk:
                    return
                self.ev(c, s[2], 6)
                self.S[s[1]] += 1

    def life(self, c):
        yield from self.block(c, c.c.body)
        while self.statics:
            yield END

    def call(self, i):
        c = self.co[i]
        if c.c.enter:
            self.ev(c, c.c.tag + 98, 7)
        while True:
            if c.gen is None:
                c.brk = False
                c.gen = self.life(c)
            try:
                st = next(c.gen)
                break
            except Restart as e:
                if e.args:
                    raise StopIteration
                c.gen = None                       # restart
        if c.c.exit:
            self.ev(c, c.c.tag + 99, 8)
        return st

    def init(self, i):
        self.co[i].gen = None
        self.co[i].brk = False
        if not self.statics:
            self.co[i] = CoState(self.co[i].c)

    def close(self, i):
        c = self.co[i]
        if c.gen is None:
            c.gen = self.life(c)
        c.gen.close()

    def state(self):
        self.log.append('s ' + ' '.join(map(str, self.F + self.S)))

    def run(self, cmds):
        """The log a program must print for the commands."""
        self.log = []
        for op, a in cmds:
            if op == 0:
                try:
                    st = self.call(a)
                    self.log.append('r %d %d %d' % (a, st, st < END))
                except (StopIteration, RuntimeError) as e:      # Python: it has ended or was closed
                    self.log.append('r %d %s' % (a, type(e).__name__))
            elif op == 1:
                self.F[a // 100] = a % 100
            elif op == 2:
                self.init(a)
            elif op == 3:
                self.S[a // 100] = a % 100
            else:
                self.close(a)
            self.state()
        return self.log


# ---------------------------------------------------------------------------
#  schedules
# ---------------------------------------------------------------------------
def schedule(ch, prog, n, crash=True, sem=True, close=False):
    """Seeded order of calls and events from outside: (op, argument)."""
    cmds = []
    nc = len(prog.coros)
    style = ch.weighted([(3, 'random'), (2, 'robin'), (2, 'bursts'), (1, 'one'), (1, 'stall')])
    stalled = ch.int(nc)
    last = 0
    for t in range(n):
        r = ch.int(100)
        if r < 22:
            cmds.append((1, ch.int(NF) * 100 + ch.int(3)))
        elif crash and r < 26:
            cmds.append((2, ch.int(nc)))
        elif close and r < 28:
            cmds.append((4, ch.int(nc)))
        elif sem and prog.nsem and r < 28:
            cmds.append((3, ch.int(prog.nsem) * 100 + ch.int(4)))
        else:
            if style == 'random':
                i = ch.int(nc)
            elif style == 'robin':
                i = t % nc
            elif style == 'bursts':
                i = last if ch.flag(70) else ch.int(nc)
            elif style == 'one':
                i = stalled
            else:
                i = ch.int(nc)
                if i == stalled and t < n * 2 // 3:
                    i = (i + 1) % nc
            last = i
            cmds.append((0, i))
    return cmds


# ---------------------------------------------------------------------------
#  building and running C programs in a scratch directory
# ---------------------------------------------------------------------------
class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='coro-')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def build(self, name, text, opt, include):
        """Returns the path of the program or raises ValueError with the messages."""
        with open('%s/%s.c' % (self.d, name), 'w', encoding='utf8') as f:
            f.write(text)
        exe = '%s/%s' % (self.d, name)
        p = subprocess.run(['gcc', '-w', '-pipe', opt, '-I', include, '-o', name, name + '.c'], cwd=self.d, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=60)
        if p.returncode:
            raise ValueError(p.stdout.decode('utf8', 'replace')[:1500])
        return exe

    def run(self, exe, cmds):
        s = ''.join('%d %d\n' % c for c in cmds)
        try:
            p = subprocess.run([exe], input=s.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
        except subprocess.TimeoutExpired:
            return ['does not end']
        r = p.stdout.decode('utf8', 'replace').split('\n')[:-1]
        if p.returncode:
            r.append('exit %d' % p.returncode)
        return r
