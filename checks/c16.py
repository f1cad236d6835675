"""C16 Browse information matches the output it lies beside.

Seeded batches of sources with words of known origin (in the source, in
libraries found in several directories, in macros, values, arguments and
strings) are translated with browsing on, in one process or many, over a
history of regenerations; the way of the editor plugin from every word of the
output back to its origin must end at the word, and the output must be the one
made without browsing.
"""
import json
import re

from sim import kernel as K
from sim import gen as G
from sim.scen import *
from checks.c01 import short

LEVEL = 'exploration'
SEEDS = {'quick': 2500, 'thorough': 60000}
CAP = {'quick': 30, 'thorough': 600}
RULE = ('seeded batches of 1-3 sources (C and Python outputs, seeded option sets, LF and CRLF) translated twice in seeded '
        'order with an edit between, every second time by one process; every marked word of every output is followed back by '
        'the algorithm of the editor plugin; files, order and range of all offsets are checked; the text is compared with '
        'that of a translation without browsing (but for white space at the ends of lines); non-trivial: 10 or more words '
        'followed; distinct by (texts, options)')
WORD = re.compile(r'\bW\d+[A-Z]_')


class Maker(object):
    def __init__(self, ch, g):
        self.ch, self.g, self.k = ch, g, 0
        self.decl = {}                             # word of a macro -> number of the macro
        self.libs = {}

    def w(self, c):
        self.k += 1
        return 'W%d%s_' % (self.k, c)

    def lines(self, py):
        ch = self.ch
        w = self.w
        f = ch.int(19)
        if f == 0:
            n = 'mm%d' % self.k
            a, b, c, d = w('M'), w('M'), w('A'), w('A')
            for x in (a, b, c, d):
                self.decl[x] = n
            return ['($macro %s (P) %s ($P) %s)' % (n, a, b), '($%s %s) ($%s,,%s)' % (n, c, n, d)]
        if f == 1:
            n = 'ss%d' % self.k
            return ['($set %s [%s])' % (n, w('S')), '($%s) ($%s)' % (n, n)]
        if f == 2:
            n = 'll%d' % self.k
            return ['($set %s \\p.[%s ($p)])' % (n, w('L')), '($%s %s) ($%s [%s])' % (n, w('C'), n, w('D'))]
        if f == 3:
            return [ch.pick(['', '\t', '    ', 'x ']) + '($ ]', '\t\t' + w('G'), '', '', '', '\t\t\t' + w('H'), '[ )']
        if f == 4:
            return ['($(1 2) \\i.[ %s])' % w('R')]
        if f == 5:
            return ["'%s'" % w('Q') + ' "%s"' % w('E') + (' # %s' % w('Y') if py else ' /* %s */ // %s' % (w('Y'), w('Z')))]
        if f == 6:
            n = ch.pick(sorted(self.libs) or [None])
            if n is None or ch.flag(60):
                n = 'w%d' % self.k
                self.libs[n] = '%s ($set q 1)\n%s\n\n\n\n  %s' % (w('I'), w('J'), w('K'))
            return [ch.pick(['($import %s)', '($import "%s.yu")']) % n, w('N')]
        if f == 7:
            return ['', '', '', '']
        if f == 8:
            s = G.Source('x')
            return getattr(self.g, 'f_' + ch.pick([x for x in G.Gen.FRAGS if x not in ('names',)]))(s)[0].split('\n')
        if f == 9:
            return ['($! %s)' % ch.pick(['c', 'a\n\n\nb']), w('B') + '  ']
        if f == 10:
            return ['   ($set z%d %d)   ' % (self.k, self.k), '\t' + w('T') + '\t']
        if f == 11:
            return ['($ %d ? %s | %s)' % (ch.int(2), w('U'), w('V'))] + [w('O')]
        if f == 12:
            return ['é £ ' + w('P')]
        if f in (13, 14):
            n = 'tt%d' % self.k
            block = ['\t' * ch.int(4) + w('S') if ch.flag(80) else '' for _ in range(ch.range(1, 5))]
            ind = lambda: ch.pick(['', '\t', '\t\t', '   '])
            if f == 13:
                return ['($set %s ]' % n] + block + ['[ )'] + [ind() + '($%s)' % n for _ in range(ch.range(1, 2))]
            return ['($set %s \\p.]' % n] + block + [ind() + '($p)', '[ )'] + [ind() + '($%s %s)' % (n, w('A')),
                    ind() + '($%s ]' % n, '\t\t' + w('A'), '', '\t' + w('A'), '[ )']
        if f == 15:
            return [ch.pick(['', '  ', '\t']) + '($(1 2 3) \\i.]', '\t' * ch.int(3) + w('L'), ch.pick(['', '\t']) + w('L'), '[ )']
        return ['\t' * ch.int(3) + 'int %s = %d;' % (w('W'), ch.int(9))] + ([w('X')] if ch.flag(50) else [])


def run(ctx):
    ch = ctx.ch
    if ch.flag(20):
        return passes(ctx)
    v = ctx.base.clone()
    g = G.Gen(ch)
    mk = Maker(ch, g)
    names = ['a.yu-c', 'b.yu-py', 'sub/c.yu-h', 'd.yu']
    files = [names.pop(ch.int(len(names))) for _ in range(ch.range(1, 3))]
    v.makedirs(W + '/sub')
    v.makedirs(W + '/inc/deep')
    crlf = {f: ch.flag(10) for f in files}
    opts = [x for o in ch.subset([['--pp-no-reduce-emptiness'], ['--pp-no-trim-app-indent'], ['--no-read-only'], ['-Wno-unbound'],
                                  ['--pp-skip-comments', '0'], ['-D', 'D:1']], 25) for x in o] + ['-d', 'inc', '-d', W + '/inc/deep']
    texts = {}
    where = {}

    def write(f):
        lines = []
        for _ in range(ch.range(1, 10)):
            lines += mk.lines(f.endswith('py'))
        lines.append(mk.w('F'))
        texts[f] = '\n'.join(lines) + ('\n' if ch.flag(80) else '')
        v.put(W + '/' + f, texts[f].replace('\n', '\r\n') if crlf[f] else texts[f])
        for n in mk.libs:
            if n not in where:
                where[n] = ch.pick(['', 'sub', 'inc', 'inc/deep'])
        for n, d in where.items():
            if d == 'sub' and any('/' not in x and n in texts.get(x, '') for x in files):
                d = where[n] = 'inc'                # found from everywhere
            v.put(W + '/' + (d + '/' if d else '') + n + '.yu', mk.libs[n])
        for n, t in g.files.items():
            v.put(W + '/' + n, t)
    for f in files:
        write(f)
    followed = 0
    now = 1_600_000_000 * 10**9
    for step in range(2):
        v.settle()
        group = ch.flag(50)
        ctx.note('%s%s' % (opts, ' one process' if group else ''))
        order = list(files)
        if ch.flag(50):
            order.reverse()
        plain = v.clone()
        for batch in ([order] if group else [[f] for f in order]):
            a, _ = solo(ctx, v, K.run_cli('main'), now=now, argv=['-q', '--pp-browse'] + opts + batch)
            b, _ = solo(ctx, plain, K.run_cli('main'), now=now, argv=['-q', '--pp-no-browse'] + opts + batch)
            now += 10 * 10**9
            if a.exit != b.exit:
                ctx.fail('verdict', 'exit %s with browsing, %s without: %s' % (a.exit, b.exit, a.out[-600:]))
        for f in files:
            o = G.output_name(f)
            x, y = v.get(W + '/' + o), plain.get(W + '/' + o)
            if (x is None) != (y is None):
                ctx.fail('output', '%s: with browsing %s, without %s\n%s' % (f, short(x), short(y), texts[f]))
            if x is None:
                ctx.probe('not translated')
                continue
            if step == 0 and plain.get(W + '/' + o + '.json') is not None:
                ctx.fail('unwanted', '%s.json exists without browsing' % o)
            x, y = x.decode('utf8'), y.decode('utf8')
            if norm(x) != norm(y):
                ctx.fail('text', '%s: with browsing %r, without %r\n%s' % (f, norm(x), norm(y), texts[f]))
            followed += follow(ctx, v, f, o, x, texts, mk, where)
        if step == 0:
            write(ch.pick(files))
    ctx.trivial = followed < 10
    ctx.probe('words followed', followed)
    ctx.sig = (sorted(texts.items()), opts)


def passes(ctx):
    """Every pass of a source gives the browse information of the source in which the passages are replaced by
    the alternative of that pass."""
    ch = ctx.ch
    v = ctx.base.clone()
    g = G.Gen(ch)
    mk = Maker(ch, g)
    v.makedirs(W + '/inc')
    f = ch.pick(['a.yu-c', 'b.yu-py', 'd.yu'])
    n = ch.range(2, 4)
    e = ch.pick(['.c', '.py', '']) if f != 'd.yu' else '.txt'
    outs = ['o%d%s' % (i, e) for i in range(n)]
    other = ch.flag(50) and ['z.yu-c', 'z.yu-h'][ch.int(2)]
    vals = {}                                        # text of the passage: text of its alternatives

    def passage(alts):
        t = '($__PASSAGE__ (%s))' % ' '.join(alts)
        vals[t] = [a.ljust(len(t)) for a in alts]
        return t
    lines = ['($set __OUTPUT_FILE__ %s)' % passage(['"%s"' % o for o in outs])]
    for i in range(ch.range(1, 3)):
        alts = [str(ch.int(2)) for _ in range(n)]
        lines.append('($set pn%d %s)' % (i, passage(alts)))
        for x in 'ab':
            v.put('%s/%sl%s%d.yu' % (W, ch.pick(['', 'inc/']), x, i), '%s\n($set l%s%d \\p.[%s ($p) %s])\n' % (
                mk.w('I') if ch.flag(40) else '', x, i, mk.w('L'), mk.w('L')))
            lines.append('($import l%s%d)' % (x, i))
        lines.append(ch.pick(['%s ($ ($la%d %s) ? pn%d | ($lb%d %s)) %s', '%s ($ [($la%d %s)] ? (${} pn%d > 0) | [($lb%d %s)]) %s'])
                     % (mk.w('O'), i, mk.w('C'), i, i, mk.w('C'), mk.w('O')))
    for _ in range(ch.range(0, 5)):
        lines += mk.lines(f.endswith('py'))
    lines.append(mk.w('F'))
    text = '\n'.join(lines) + '\n'
    for m, t in list(mk.libs.items()):
        v.put('%s/%s.yu' % (W, m), t)
    for m, t in g.files.items():
        v.put(W + '/' + m, t)
    v.put(W + '/' + f, text)
    if other:
        v.put(W + '/' + other, mk.w('Z') + ' ($set q 1)\n' + '\n'.join(mk.lines(False)) + '\n')
        for m, t in list(mk.libs.items()):
            v.put('%s/%s.yu' % (W, m), t)
        for m, t in g.files.items():
            v.put(W + '/' + m, t)
    v.settle()
    opts = ['-d', 'inc'] + ch.pick([[], ['--pp-no-reduce-emptiness'], ['--pp-no-trim-app-indent'], ['--pp-skip-comments', '0']])
    ctx.note('%r %s then %s' % (text, opts, other))
    base = v.clone()
    argv = ['-q', '--pp-browse'] + opts
    a, _ = solo(ctx, v, K.run_cli('main'), argv=argv + [f] + ([other] if other else []))
    compared = 0
    refs = [(outs[i], f, i) for i in range(n)] + ([(G.output_name(other), other, None)] if other else [])
    for o, src, i in refs:
        b = base.clone()
        if i is not None:
            t = text
            for x, alts in vals.items():
                t = t.replace(x, alts[i])
            b.put(W + '/' + src, t)
        solo(ctx, b, K.run_cli('main'), argv=argv + [src])
        for x in ('', '.json'):
            p, q = v.get(W + '/' + o + x), b.get(W + '/' + o + x)
            if q is None:
                ctx.probe('not translated')
                if i is not None:
                    ctx.trivial = compared == 0
                    ctx.sig = (text, opts, other)
                    return                           # the passes after a failing one are not made
                continue
            compared += 1
            if p != q:
                ctx.fail('pass', '%s of %s%s: %s; of the source with this alternative alone: %s\n%r' % (
                    o + x, src, '' if i is None else ', pass %d' % i, p and p[:900], q[:900], text))
    ctx.probe('passes compared with sources of one pass', compared)
    ctx.trivial = compared < 2
    ctx.sig = (text, opts, other)


def norm(t):
    r = [x.rstrip() for x in t.split('\n')]
    while r and not r[-1]:
        r.pop()
    return r


def bisect(a, x):
    lo, hi = 0, len(a)
    while lo < hi:
        m = (lo + hi) // 2
        if x < a[m][0]:
            hi = m
        else:
            lo = m + 1
    return lo


def follow(ctx, v, f, o, out, texts, mk, where):
    """Follows every marked word of the output back to its origin."""
    raw = v.get(W + '/' + o + '.json')
    if raw is None:
        ctx.fail('missing', 'no %s.json' % o)
    j = json.loads(raw.decode())
    detail = '%s: %s\n%r\n%r' % (f, raw.decode()[:1500], texts[f], out)

    def path(n):
        for p in (n if n.startswith('/') else W + '/' + n, W + '/' + posixpath.dirname(f) + '/' + n):
            if v.get(p) is not None:
                return p
        return None
    srcs = []
    took = ' '.join([texts[f]] + sorted(mk.libs.values()))
    for n in j['files']:
        p = path(n)
        if p is None:
            ctx.fail('files', '%r does not exist; %s' % (n, detail))
        base = posixpath.splitext(posixpath.basename(n))[0]
        if p != W + '/' + f and base not in took:
            ctx.fail('files', '%r took no part; %s' % (n, detail))
        srcs.append(v.get(p).decode('utf8').replace('\r\n', '\n'))
    if len(set(j['files'])) != len(j['files']):
        ctx.fail('files', 'named twice; ' + detail)
    off, br = j['offset'], j['browse']
    for a, b in list(zip(off, off[1:])) + list(zip(br, br[1:])):
        if a[0] > b[0]:
            ctx.fail('order', '%s before %s; %s' % (a, b, detail))
    for p, d in off:
        if not 0 <= p <= len(out):
            ctx.fail('range', 'offset %d of %d; %s' % (p, len(out), detail))
    last = off[-1][1] if off else 0
    for p, i, s in br:
        if not (0 <= p <= len(out) + max(last, 0)) or not 0 <= i < len(srcs) or abs(s) > len(srcs[i]):
            ctx.fail('range', 'entry %s; %s' % ((p, i, s), detail))
    n = 0
    for m in WORD.finditer(out):
        w = m.group()
        i = bisect(off, m.start())
        pos = m.start() + (off[i - 1][1] if i else 0)
        i = bisect(br, pos) - 1
        if i < 0:
            ctx.fail('nowhere', '%s at %d has no origin; %s' % (w, m.start(), detail))
        at, fi, to = br[i]
        src = srcs[fi]
        if w in mk.decl:
            # the definition of the macro, and before it the place of the call
            name = mk.decl[w]
            if to >= 0 or not src[-to:].startswith(name + ' (P) '):
                ctx.fail('macro', '%s at %d leads to %s:%d, not to the definition; %s' % (w, m.start(), j['files'][fi], to, detail))
            call = br[i - 1] if i and br[i - 1][0] == at else None
            if not call or call[2] < 1 or not re.match(r'\$%s[ ,]' % name, srcs[call[1]][call[2] - 1:]):
                ctx.fail('call', '%s at %d: the call of the macro is %s; %s' % (w, m.start(), call, detail))
        else:
            p = to + (pos - at) if to >= 0 else -to
            if src[p:p + len(w)] != w:
                ctx.fail('attribution', '%s at %d leads to %s:%d, where is %r; %s' % (w, m.start(), j['files'][fi], p, src[p:p + 20], detail))
        n += 1
    return n
