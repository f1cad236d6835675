"""Python sources for the `coding: yupp` codec: every source carries version
markers, so that it is visible what a generated text was made of."""

HEADERS = ['# coding: yupp\n', '#!/usr/bin/env python\n# coding: yupp\n', '# -*- coding: yupp.utf8 -*-\n',
           '\n# coding: yupp\n', '# coding=yupp\n', '#!/bin/x\n# vim: set fileencoding=yupp.utf8 :\n']


class PyGen(object):
    def __init__(self, ch):
        self.ch = ch
        self.n = 0

    def frag(self, big=False):
        ch = self.ch
        self.n += 1
        n, k = self.n, ch.int(100)
        return ch.pick([
            'x%d = %d' % (n, k),
            '($set v%d %d)\nx%d = ($v%d)' % (n, k, n, n),
            '($macro m%d (P)\ndef f_($P)():\n    return %d\n)\n($m%d a%d)' % (n, k, n, n),
            '($(0 1 2) \\i.[t%d_($i) = ($i)]\n)' % n if False else 'l%d = [($(1 2 3) \\i.[($i),])]' % n,
            's%d = "é %d"  # ß' % (n, k),
            '\n\n\n# plain comment %d\n\n\ny%d = 1   ' % (k, n),
            'if %d:\n    z%d = (${} %d*2)' % (k + 1, n, k),
            "d%d = '''text ($set not_code) %d\n\nmore'''" % (n, k) if False else 'd%d = "a\\tb" \'c\'' % n,
            'c%d = ($ %d ? %d | 0)' % (n, k, k % 2),
        ])

    def big(self):
        if self.ch.flag(60):                         # few long lines
            return '\n'.join('b%d = "%s"' % (i, 'xyz ' * self.ch.pick([300, 1100, 4200])) for i in range(self.ch.range(4, 12)))
        return '\n'.join('b%d = %d' % (i, i) for i in range(self.ch.pick([700, 1500])))


def expect(text, name):
    """All versions of marker `name` found in a text."""
    import re
    return re.findall(r'\b%s_ver\D{1,4}(\d+)' % name, text)


ENC = {'utf8': 'é ß «£» Å', 'utf_8': 'é Ñ', 'latin_1': 'é ß £', 'cp1251': '§ 5 ±© µ', 'koi8_r': '° ÷ ©',
       'cp1252': 'ñ «q»', 'ascii': 'plain', 'utf-8': 'Ü', 'cp437': 'é ñ ±'}       # characters up to U+00FF (grammar of yupp)


def header(ch, enc):
    """Lines of a seeded header that declares the encoding."""
    e = '.' + enc if enc else ''
    f = ch.int(7)
    if f == 0:
        return ['# coding: yupp' + e]
    if f == 1:
        return ['#!/usr/bin/env python', '# coding: yupp' + e]
    if f == 2:
        return ['# -*- coding: yupp%s -*-' % e]
    if f == 3:
        return ['', '# coding: yupp' + e]
    if f == 4:
        return ['# coding=yupp' + e]
    if f == 5:
        return ['#!/bin/x -E', '# vim: set fileencoding=yupp%s :' % e]
    return ['# a remark', '# -*- coding:yupp%s -*-' % e]


class Script(object):
    """A script whose calls are marked: `chain` lists the marker of every frame
    (marker, True if the frame belongs to the script itself, name of function)
    of the traceback it ends with; [] if it does not raise.  The generated code
    has `# <marker>` on the line that belongs to the frame."""

    def __init__(self, ch, raising=True, enc=None, syntax=False, ordinary=('helper%d.py',)):
        self.ch = ch
        self.ordinary = ordinary         # names of ordinary files
        self.helpers = {}
        self.enc = ch.pick(['', '', ''] + sorted(ENC)) if enc is None else enc
        self.words = ENC[self.enc or 'utf8']
        self.head = header(ch, self.enc)
        self.files = {}
        self.n = 0
        self.chain = []
        self.error = None
        t = []
        for _ in range(ch.int(4)):
            t.append(self.noise())
        self.what = ''
        if raising:
            depth = ch.range(1, 5)
            links = []
            for i in range(depth):
                links.append(self.link(i, 'f%d' % (i + 1) if i + 1 < depth else None))
            order = list(range(depth))
            if ch.flag(40):
                order.reverse()
            for i in order:
                t.append(links[i])
                if ch.flag(40):
                    t.append(self.noise())
            top = ch.weighted([(4, 'plain'), (1, 'if'), (1, 'macro'), (1, 'cause'), (1, 'loop')])
            self.what = top
            if top == 'plain':
                t.append('f0()  # mtop')
            elif top == 'if':
                t.append('if True:\n\n    f0()  # mtop')
            elif top == 'macro':
                t.append('($macro call (F)\n\n\n($F)()  # mtop\n)\n($call f0)')
            elif top == 'cause':
                t.append('try:\n    f0()  # mtop\nexcept BaseException as e:\n\n    raise KeyError("second") from e  # mcause')
                self.chain.append(('mcause', True, '<module>'))
            else:
                t.append('for i in [($(1 2 3) \\i.[\n    ($i),])]:\n    f0()  # mtop')
            self.chain.insert(0, ('mtop', True, '<module>'))
        if syntax:
            self.error = 'msyn'
            t.insert(ch.int(len(t) + 1), ch.pick(['def (  # msyn', 'x = = 1  # msyn', 'y = 1 1  # msyn',
                                                  '($macro br (A) z ($A) 1  # msyn\n)\n($br a)', 'return = 2  # msyn']))
        for _ in range(ch.int(3)):
            t.append(self.noise())
        if not any(x.strip() for x in t):
            t.append('x0 = 1')
        self.eol = ch.weighted([(8, '\n'), (1, '\r\n')])
        self.body = '\n'.join(t) + ('\n' if ch.flag(90) else '')
        self.text = ('\n'.join(self.head) + '\n' + self.body).replace('\n', self.eol)
        self.data = self.text.encode(self.enc or 'utf8')

    def link(self, i, nxt):
        """Definition of f<i>, that calls `nxt` or raises; appends its frames."""
        ch = self.ch
        m = 'm%d' % i
        k = ch.int(90) + 10
        form = ch.int(11)
        if nxt is None:
            act = ch.pick(['raise ValueError("boom %d")' % k, '[][%d]' % k, '{}["%s"]' % self.words, 'undefined_%d' % k,
                           'assert %d < 0, "no"' % k, 'raise KeyboardInterrupt', 'raise SystemError("%s")' % self.words])
        else:
            act = ch.pick(['%s()' % nxt, 'g = %s()' % nxt, 'return [%s() for _ in [1]]' % nxt])
        if form == 9:                                # by turns through two functions of one line
            n = ch.int(5)
            e = '%s()' % nxt if nxt else ch.pick(['1 / 0', '[][%d]' % k, 'undefined_%d' % k, '{}["%s"]' % self.words])
            self.chain.extend([(m, True, 'f%d' % i), (m, True, '<listcomp>')] * n + [(m, True, 'f%d' % i)])
            return 'def f%d(n=%d): return [f%d(n - 1) for _ in [0]][0] if n else %s  # %s' % (i, n, i, e, m)
        if form == 10 and nxt:                       # by turns through equal ordinary files
            n = ch.range(1, 7)
            self.chain.append((m, True, 'f%d' % i))
            for j in range(n, -1, -1):
                self.chain.append(('helper%d' % i + 'ab'[j % 2], False, 'h'))
            d = []
            for c in 'ab':
                f = 'same%s%d.py' % (c, i)
                self.helpers['helper%d%s' % (i, c)] = f
                self.files[f] = 'def h(fs, n):\n    return fs[(n - 1) %% 2](fs, n - 1) if n else fs[2]()  # helper%d%s\n' % (i, c)
                p = '/simfs/w/' + f
                d.append('s%s%d = {}\nexec(compile(open(%r).read(), %r, "exec"), s%s%d)' % (c, i, p, p, c, i))
            return '\n'.join(d) + '\ndef f%d():\n    [sa%d["h"], sb%d["h"]][%d]([sa%d["h"], sb%d["h"], %s], %d)  # %s' % (
                i, i, i, n % 2, i, i, nxt, n, m)
        if form == 10:
            form = 0
        self.chain.append((m, True, 'f%d' % i))
        if 'for _' in act and form != 4:
            self.chain.append((m, True, '<listcomp>'))
        if form == 0:
            return 'def f%d():\n    %s  # %s' % (i, act, m)
        if form == 1:
            return 'def f%d():\n\n    a = """\n($! gone )\n    text\n"""\n\n    %s  # %s' % (i, act, m)
        if form == 2:
            return '($macro mk%d (N)\n\ndef ($N)():\n    b = 1\n\n    %s  # %s\n)\n($mk%d f%d)' % (i, act, m, i, i)
        if form == 3:
            self.files['lib%d.yu' % i] = '\n\ndef f%d():\n    ($set q 1)\n    %s  # %s\n' % (i, act, m)
            return '($import lib%d)' % i
        if form == 4:
            if nxt is None:
                return 'def f%d():\n    ($set s %d)%s  # %s' % (i, k, act, m)
            # through a function of an ordinary module
            self.chain.append(('helper%d' % i, False, 'h'))
            f = ch.pick(list(self.ordinary)) % i
            self.helpers['helper%d' % i] = f
            self.files[f] = '# ordinary\n' * ch.int(4) + 'def h(f):\n    return f()  # helper%d\n' % i
            p = '/simfs/w/' + f
            return 'ns%d = {}\nexec(compile(open(%r).read(), %r, "exec"), ns%d)\ndef f%d():\n    ns%d["h"](%s)  # %s' % (
                i, p, p, i, i, i, nxt, m)
        if form == 8:
            n = ch.int(7)                            # called by itself n times
            self.chain.extend([('mr%d' % i, True, 'f%d' % i)] * n)
            if n:
                # the last one raises, the others are at the call
                last = self.chain.index((m, True, 'f%d' % i))
                own = self.chain[last:len(self.chain) - n]
                self.chain[last:] = [('mr%d' % i, True, 'f%d' % i)] * n + own
            return 'def f%d(n=%d):\n    if n:\n\n        f%d(n - 1)  # mr%d\n    %s  # %s' % (i, n, i, i, act, m)
        if form == 5:
            return 'class C%d(object):\n    def m(self):\n        pass\n\n\n\n\ndef f%d():\n    if 1:\n        %s  # %s' % (i, i, act, m)
        if form == 6:
            return '($set name%d f%d)\ndef ($name%d)():\n    %s  # %s' % (i, i, i, act, m)
        return 'def f%d():\n    v = [($(1 2 3) \\j.[\n      ($j),])]\n    %s  # %s' % (i, act, m)

    def noise(self):
        ch = self.ch
        self.n += 1
        n, k, w = self.n, ch.int(500), self.words
        return ch.pick([
            'x%d = %d' % (n, k),
            's%d = "%s" + u"%s"' % (n, w, w[:2]),
            '($set v%d %d)\n\n\nv%d = ($v%d)' % (n, k, n, n),
            '($macro w%d (P)\ndef f_($P)():\n\n    return %d\n)\n($w%d a%d)' % (n, k, n, n),
            'l%d = [($(1 2 3) \\i.[($i),])]' % n,
            '# %s remark %d' % (w, k),
            '\n\n\n\n# after empty lines',
            'd%d = """%s\n\n\n  ($! removed )\nend"""' % (n, w),
            'e%d = (${} %d*2)' % (n, k),
            'if %d:\n    z%d = ($ %d ? %d | 0)' % (k + 1, n, k, k % 2),
        ])
