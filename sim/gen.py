"""Generator of yupp projects together with what they must translate to.

Every fragment is a pair (source text, output text); a source is a sequence of
fragments on lines of their own, its expected output is known without running
anything.  Fragments that must fail, or leave an AST, are generated too.
"""

import posixpath
import re

WORDS = ['alpha', 'beta', 'theta', 'delta', 'omega', 'kappa', 'sigma', 'rho']
LATIN = ['é', 'ß', '£', '¿', 'Ñ', '«q»', 'ü']


class Source(object):
    def __init__(self, name):
        self.name = name
        self.text = ''
        self.out = None              # expected text, None if the translation must fail
        self.kind = 'ok'             # 'ok' 'fail' 'ast'
        self.output = output_name(name)
        self.uses = set()            # names of other files it reads
        self.defines = {}            # -D needed

    def ast_name(self):
        return self.output.rsplit('.', 1)[0] + '.ast' if '.' in self.output.rsplit('/', 1)[-1] else self.output + '.ast'


def is_temp(f):
    """Name of a file an interrupted save may leave, whatever scheme the names follow."""
    b = posixpath.basename(f) or 'x'
    return ('tmp' in b or b[0] in '.#~_' and b != '.yuconfig' or b[-1] in '~#' or re.search(r'[0-9]{4}', b) is not None
            or b.endswith(('.new', '.part', '.partial', '.swp', '.save', '.temp')))


def output_name(fn, output_dir=''):
    """Name of the output, from the documentation of the naming scheme."""
    d, _, b = fn.rpartition('/')
    if output_dir:
        d = output_dir
    stem, dot, ext = b.rpartition('.')
    if not dot or not stem:
        r = b + '.yugen'
    elif ext.lower().startswith('yu-') and len(ext) > 3:
        r = stem + '.' + ext[3:]
    elif ext.lower() == 'yu':
        r = stem if '.' in stem.lstrip('.') else stem + '.yugen'
    else:
        r = stem + '.yugen.' + ext
    return d + '/' + r if d else r


class Gen(object):
    def __init__(self, ch, tag=''):
        self.ch = ch
        self.n = 0
        self.tag = tag
        self.files = {}              # support files: name -> text
        self.libs = {}               # name -> (line, var, value)
        self.scripts = {}            # name -> (function, k)
        self.incs = {}

    def uid(self):
        self.n += 1
        return '%s%d' % (self.tag, self.n)

    def word(self):
        return self.ch.pick(WORDS)

    # -- fragments: (source, output), both without the final end of line ------
    def f_plain(self, s):
        t = 'int p%s = %d;' % (self.uid(), self.ch.int(100))
        return t, t

    def f_call(self, s):
        t = 'f( x, (y + %d) );  /* %s */' % (self.ch.int(9), self.word())
        return t, t

    def f_set(self, s):
        v, k = 'v' + self.uid(), self.ch.int(1000)
        return '($set %s %d)\nint x = ($%s);' % (v, k, v), 'int x = %d;' % k

    def f_reset(self, s):
        v, k = 'w' + self.uid(), self.ch.int(1000)
        return '($set %s %d)\na ($%s)\n($set %s %d)\nb ($%s)' % (v, k, v, v, k + 1, v), 'a %d\nb %d' % (k, k + 1)

    def f_macro(self, s):
        v, w = 'm' + self.uid(), self.word()
        return '($macro %s (P) call_($P)( ($P) );)\n($%s %s)' % (v, v, w), 'call_%s( %s );' % (w, w)

    def f_expr(self, s):
        a, b = self.ch.int(50), self.ch.int(50)
        return 'int e = (${} %d * 3 + %d);' % (a, b), 'int e = %d;' % (a * 3 + b)

    def f_lambda(self, s):
        v, a, b = 'l' + self.uid(), self.ch.int(50), self.ch.int(50)
        return '($set %s \\a.\\b.[($a) + ($b)])\nint y = ($%s %d %d);' % (v, v, a, b), 'int y = %d + %d;' % (a, b)

    def f_cond(self, s):
        c = self.ch.int(2)
        return 'int c = ($ yes ? %d | no );' % c, 'int c = %s;' % ('yes' if c else 'no')

    def f_map(self, s):
        n = self.ch.range(1, 4)
        return ('($(%s) \\i.[t($i)=(${} i*i);])' % ' '.join(str(i) for i in range(n)),
                ''.join('t%d=%d;' % (i, i * i) for i in range(n)))

    def f_recursion(self, s):
        v, n = 'r' + self.uid(), self.ch.range(1, 4)
        return ('($set %s \\n.[($ ((($%s (${} n-1)) ($n)) ? (${} n > 0) | 0)])\n'.replace('((($', '(($') % (v, v)
                + '($%s %d)' % (v, n), ''.join(str(i) for i in range(n + 1)))

    def f_emit(self, s):
        v, k = 'c' + self.uid(), self.ch.int(20)
        return ('($set %s %d)int a = ($emit %s inc); int b = ($emit %s inc);' % (v, k, v, v),
                'int a = %d; int b = %d;' % (k, k + 1))

    def f_unique(self, s):
        l = [self.ch.int(4) for _ in range(self.ch.range(2, 5))]
        u = []
        for x in l:
            if x not in u:
                u.append(x)
        return 'u ($unique (` %s))' % ' '.join(map(str, l)), 'u ' + ''.join(map(str, u))

    def f_string(self, s):
        v, w = 's' + self.uid(), self.word()
        return '($set %s "%s")\nchar * z = ($%s); ($unq %s)' % (v, w, v, v), 'char * z = "%s"; %s' % (w, w)

    def f_format(self, s):
        a, b = self.word(), self.word()
        return 'puts( ($ "($1), ($p) ($0)" %s %s \\p 2) );' % (a, b), 'puts( "%s, 2 %s" );' % (b, a)

    def f_comment(self, s):
        k = self.ch.int(100)
        return '($! %s )\nint k = %d;' % (self.word(), k), 'int k = %d;' % k

    def f_latin(self, s):
        t = 'char * q = "%s %s";' % (self.ch.pick(LATIN), self.word())
        return t, t

    def f_builtin(self, s):
        a = self.ch.int(200)
        return 'h ($hex %d) ($inc %d) ($cmp %d 50)' % (a, a, a), \
            'h %s %d %d' % (hex(a), a + 1, (a > 50) - (a < 50))

    def f_names(self, s):
        b = s.name.rsplit('/', 1)[-1]
        return ('($__FILE__) ($__OUTPUT_FILE__) ($__MODULE_NAME__)',
                '"%s" "%s" %s' % (b, s.output.rsplit('/', 1)[-1], posixpath.splitext(b)[0].replace('-', '_').upper()))

    def f_define(self, s):
        d = 'DEF%d' % self.ch.int(3)
        k = s.defines.setdefault(d, 10 + self.ch.int(50))
        return 'd ($%s)' % d, 'd %d' % k

    def f_unbound(self, s):
        w = 'UNB%d' % self.ch.int(3)
        return 'z ($%s)' % w, 'z %s' % w

    def f_lib(self, s):
        n = 'lib%s%d' % (self.tag, self.ch.int(3))
        if n not in self.libs:
            self.libs[n] = ('int %s_line = %d;' % (n, self.ch.int(90)), n + '_v', self.ch.int(900))
            self.files[n + '.yu'] = '%s\n($set %s %d)' % self.libs[n]
        line, v, k = self.libs[n]
        if n + '.yu' in s.uses:
            return 'b ($import %s) ($%s)' % (n, v), 'b  %d' % k
        s.uses.add(n + '.yu')
        return '($import %s)\nc ($%s)' % (n, v), '%s\n\nc %d' % (line, k)

    def f_inc(self, s):
        n = 'inc%s%d.yu' % (self.tag, self.ch.int(2))
        if n not in self.incs:
            self.incs[n] = 'inc_%s_%d' % (self.word(), self.ch.int(90))
            self.files[n] = self.incs[n]
        s.uses.add(n)
        return 'i ($import "%s") ;' % n, 'i %s ;' % self.incs[n]

    def f_script(self, s):
        n = 'scr%s%d' % (self.tag, self.ch.int(2))
        if n not in self.scripts:
            self.scripts[n] = self.ch.range(1, 9)
            self.files[n + '.py'] = 'K_%s = %d\ndef fn_%s(x):\n    return x * K_%s\n' % (n, self.scripts[n], n, n)
        s.uses.add(n + '.py')
        a, k = self.ch.int(50), self.scripts[n]
        return 'j ($import "%s.py") ($fn_%s %d) ($K_%s) (${} fn_%s(%d))' % (n, n, a, n, n, a + 1), \
            'j  %d %d %d' % (a * k, k, (a + 1) * k)

    def f_eval_import(self, s):
        v, k = 'x' + self.uid(), self.ch.int(90)
        return '($import (${} "($set %s %d)ev"))\ng ($%s)' % (v, k, v), 'ev\ng %d' % k

    def f_big(self, s):
        n = self.ch.pick([9000, 20000, 70000])
        if self.ch.flag(40):
            return 'B' + 'x' * n, 'B' + 'x' * n
        return 'B(${} "x"*%d)' % n, 'B' + 'x' * n

    FRAGS = ['plain', 'call', 'set', 'expr', 'macro', 'lambda', 'cond', 'map', 'emit', 'unique', 'string', 'format',
             'comment', 'latin', 'builtin', 'names', 'lib', 'inc', 'script', 'eval_import', 'reset', 'recursion',
             'unbound']

    # -- fragments that make a translation fail --------------------------------
    FAILS = [('syntax', '($set'), ('zerodiv', 'a (${} 1/0) b'), ('noimport', '($import nolib)'),
             ('noname', 'a (${} no_such+1) b'), ('nofile', '($import "no.yu")'), ('arity', '($UNBX 3)'),
             ('paren', 'int x = ($div 1'), ('raise', 'a ($index 3) b'), ('bracket', '($set q [abc )')]
    AST = 'a ($\\p.[b ($p)]) c'

    def source(self, name, kind='ok', size=None, frags=None, big=0, defines=False):
        """One source file; kind: 'ok', 'fail' or 'ast'."""
        s = Source(name)
        s.kind = kind
        ch = self.ch
        pool = list(frags or self.FRAGS)
        if defines:
            pool += ['define'] * 3
        n = size if size is not None else ch.range(1, 6)
        src, out = [], []
        self.used = []
        for _ in range(n):
            f = ch.pick(pool)
            self.used.append(f)
            a, b = getattr(self, 'f_' + f)(s)
            src.append(a)
            out.append(b)
        if big and ch.flag(big):
            a, b = self.f_big(s)
            src.append(a)
            out.append(b)
        if kind == 'fail':
            name, bad = ch.pick(self.FAILS)
            src.insert(ch.int(len(src) + 1), bad)
            self.used.append('!' + name)
        elif kind == 'ast':
            src.insert(ch.int(len(src) + 1), self.AST)
        s.text = '\n'.join(src) + '\n'
        s.out = '\n'.join(out) + '\n' if kind == 'ok' else None
        s.frags = list(self.used)
        return s

    # -- sources of several passages -------------------------------------------
    def count_passes(self, src, out, n):
        # the longest list decides how often the source is translated
        src.append('n ($__PASSAGE__ (%s))' % ' '.join(str(i) for i in range(n)))
        for i in range(n):
            out[i].append('n %d' % i)

    def passages(self, name, tag='', bad=True, own=True):
        """A source translated once per alternative.  Returns a Source with
        .passes = [(output, text or None if the pass fails)], .kind 'passes'."""
        ch = self.ch
        s = Source(name)
        s.kind = 'passes'
        n = ch.range(1, 5)
        names = ch.weighted([(4, 'list'), (2, 'set'), (2, 'none')]) if own else 'none'
        outs = ['p%s_%d.c' % (tag, i) for i in range(n)]
        src, out = [], [[] for _ in range(n)]
        if names == 'list':
            src.append('($set __OUTPUT_FILE__ ($__PASSAGE__ (%s)))' % ' '.join('"%s"' % o for o in outs))
        elif names == 'set':
            src.append('($set fnames%s ($__PASSAGE__ (%s)))' % (tag, ' '.join('"%s"' % o for o in outs)))
            src.append('($set __OUTPUT_FILE__ ($fnames%s))' % tag)
        else:
            outs = [s.output] * n
        fail = ch.int(n) if bad and ch.flag(30) else None
        last = ch.flag(60)
        if not last:
            self.count_passes(src, out, n)
        for _ in range(ch.range(1, 5)):
            k = ch.int(900)
            f = ch.int(8)
            if f == 7:                               # a list that is too short for the last passes
                m = ch.range(1, n)
                src.append('w ($__PASSAGE__ (%s)).' % ' '.join(str(k + i) for i in range(m)))
                for i in range(n):
                    out[i].append('w %s.' % (k + i if i < m else ''))
            elif f == 0:
                vals = [ch.int(100) for _ in range(n)]
                src.append('x ($__PASSAGE__ (%s))' % ' '.join(map(str, vals)))
                for i in range(n):
                    out[i].append('x %d' % vals[i])
            elif f == 1:
                v = 'c' + self.uid()
                src.append('($set %s %d)y ($emit %s inc) ($emit %s inc)' % (v, k, v, v))
                for o in out:
                    o.append('y %d %d' % (k, k + 1))
            elif f == 2:
                v = 'q' + self.uid()
                src.append('($set %s ($__PASSAGE__ (%s)))z (${} %s*2)' % (v, ' '.join(str(k + i) for i in range(n)), v))
                for i in range(n):
                    out[i].append('z %d' % ((k + i) * 2))
            elif f == 3:
                for t, o in [self.f_set(s)] if ch.flag(50) else [self.f_macro(s)]:
                    src.append(t)
                    for x in out:
                        x.append(o)
            elif f == 4:
                src.append('u ($unique (` %d %d %d))' % (k % 7, k % 5, k % 7))
                for o in out:
                    o.append('u %s' % (''.join(map(str, [k % 7] + [k % 5] * (k % 5 != k % 7)))))
            elif f == 5:
                t, o = self.f_lib(s) if ch.flag(50) else self.f_script(s)
                src.append(t)
                for x in out:
                    x.append(o)
            else:
                src.append('plain %d' % k)
                for o in out:
                    o.append('plain %d' % k)
        if fail is not None:
            v = 'bad' + self.uid()
            src.append('($set %s ($__PASSAGE__ (%s)))d (${} 10 // %s)'
                       % (v, ' '.join('0' if i == fail else '2' for i in range(n)), v))
            for o in out:
                o.append('d 5')
        if last:
            self.count_passes(src, out, n)
        s.text = '\n'.join(src) + '\n'
        s.passes = []
        for i in range(n):
            skip = 1 if names == 'list' else 2 if names == 'set' else 0
            t = '\n' * bool(skip) + '\n'.join(out[i]) + '\n'
            s.passes.append((outs[i], None if i == fail else t))
            if i == fail:
                break
        s.good = fail is None
        return s
