"""C18 Imports are loud, contained and found in the documented order.

Seeded layouts of import directories with a different marker in every
candidate file, chains of imports, broken libraries and scripts, faults on the
calls that read them: which file is taken, what becomes of the text, of the
verdict, of the message and of the other files of the batch.
"""
import re

from sim import kernel as K
from sim import gen as G
from sim.scen import *

LEVEL = 'fault_enumeration'
SEEDS = {'quick': 6000, 'thorough': 120000}
CAP = {'quick': 30, 'thorough': 600}
RULE = ('seeded batches of 1-3 sources importing libraries, texts and scripts by name from the current directory, the one of '
        'the source, 0-4 directories given by -d or by a configuration script and the library directory, with a marker '
        'telling which file was taken; libraries import others; some are missing, directories, undecodable, unparsable, '
        'raise one of 20 exceptions or meet an I/O error on opening or reading; the reference is a search in a list; '
        'non-trivial: two or more imports resolved or a failure; distinct by (layout, references, defects, faults)')

# name of the defect -> text of a script that cannot be imported
RAISES = {
    'Exception': 'raise Exception("oops")', 'exit 0': 'import sys\nsys.exit(0)', 'exit': 'raise SystemExit',
    'interrupt': 'raise KeyboardInterrupt', 'memory': 'raise MemoryError', 'recursion': 'def f():\n    return f()\nf()',
    'unicode': 'b"\\xff".decode("utf8")', 'two arguments': 'class E(Exception):\n    def __init__(s, a, b):\n        s.a = a\nraise E(1, 2)',
    'base': 'class E(BaseException):\n    pass\nraise E', 'stop': 'raise StopIteration', 'generator exit': 'raise GeneratorExit',
    'assert': 'assert False', 'key': '{}["k"]', 'os': 'open("/simfs/none/x")', 'name': 'undefined_name', 'zero': '1 / 0',
    'module': 'import no_such_module_at_all', 'mute': 'class E(Exception):\n    def __init__(s, a):\n        pass\nraise E(3)',
    'own text': 'class E(Exception):\n    def __str__(s):\n        return "nothing"\nraise E(3)', 'args': 'raise Exception(["ps_import"], 2)',
    'like ps': 'raise Exception("ps_import: looks like ours")', 'like python': 'raise ValueError("python: looks like ours")',
    'syntax': 'x = = 1', 'indent': 'if 1:\nx = 1', 'coding': '# coding: no-such-codec\nx = 1',
}
BROKEN = {'unclosed': '($set a', 'undecodable': b'ab\xff\xfecd', 'import': '($import no_such_lib_%d)', 'script': '($import "no_such_%d.py")',
          'unbound': '($set x ($)'}


class Layout(object):
    """Directories, the files in them and the reference: which one a name means."""

    def __init__(self, ctx):
        ch = self.ch = ctx.ch
        self.k = 0
        self.v = ctx.base.clone()
        self.own = set()
        self.scripts = []
        self.srcdir = ch.pick(['', 'src', 'a/b'])
        dirs = ['inc', W + '/abs', 'inc/deep', './dot/', '../w/up', 'none', 'src']
        self.dirs = [d for d in dirs if ch.flag(35)]
        if ch.flag(40):
            self.dirs.reverse()
        self.lib = K.PKG + '/lib'
        for d in ['', self.srcdir] + self.dirs:
            if d != 'none':
                self.v.makedirs(self.full(d))

    def full(self, d, name=''):
        return posixpath.normpath(posixpath.join(W, d, name))

    def order(self):
        return ['', self.srcdir] + self.dirs + [self.lib]

    def word(self):
        self.k += 1
        return 'MARK%d_' % self.k

    def find(self, name):
        for d in self.order():
            p = self.full(d, name)
            if self.v.get(p) is not None:
                return p
        return None


class Ref(object):
    """One imported name: how it is written and what it means."""

    def __init__(self, lay, ctx, depth=0):
        ch = lay.ch
        lay.k += 1
        self.kind = ch.weighted([(4, 'lib'), (3, 'text'), (4, 'script')])
        base = 'n%d' % lay.k
        own = ch.flag(12)
        if own and self.kind == 'lib':
            left = [x for x in ('stdlib', 'coroutine', 'h') if x not in lay.own]
            base = ch.pick(left) if left else base               # a user's file of the name of a library
            lay.own.add(base)
        self.id = base
        sub = ch.pick(['', '', '', 'x/']) if self.kind != 'lib' else ''
        if self.kind == 'script':
            if lay.scripts and ch.flag(25):            # scripts of one name in two places
                base, sub = ch.pick(lay.scripts), 'y%d/' % lay.k
            lay.scripts.append(base)
        self.name = {'lib': base + '.yu', 'text': sub + base + ch.pick(['.txt', '.yu', '.h', '']),
                     'script': sub + base + ch.pick(['.py', '.PY'])}[self.kind]
        self.absolute = self.kind != 'lib' and ch.flag(8)
        self.base = base
        self.defect = None
        self.inner = None
        self.files = {}
        where = [d for d in lay.order()[:-1] if d != 'none' and ch.flag(45)]
        missing = ch.flag(4)
        if not where and not missing:
            where = [ch.pick([d for d in lay.order()[:-1] if d != 'none'])]
        if missing and not own:
            where = []
        for d in where:
            p = lay.full(d, self.name)
            if lay.v.get(p) is not None:
                continue
            lay.v.makedirs(posixpath.dirname(p))
            if ch.flag(8):
                lay.v.makedirs(p)                  # a directory of that name is not a file
                continue
            self.write(lay, p, ctx, depth)
        self.path = lay.find(self.name)
        if self.absolute and self.path:
            self.name = self.path
        f = self.files.get(self.path)
        self.defect, self.mark, self.inner, self.calls = f if f else (None, None, None, None)
        self.missing = self.path is None

    def write(self, lay, p, ctx, depth):
        ch = lay.ch
        mark = lay.word()
        inner = None
        calls = None
        defect = None
        if self.kind == 'script':
            text = '#' * (ch.flag(3) and ch.pick([9000, 70000, 140000])) + '\nprint("RUN %s")\nv_%s = "%s"\ndef f_%s(x):\n    return "%s" + str(x)\n' % (mark, self.id, mark, self.id, mark)
            if ch.flag(12):
                defect = ch.pick(sorted(RAISES))
                n = ch.int(2) if defect != 'coding' else 0
                text = (text + RAISES[defect] if n else RAISES[defect] + '\n' + text) + '\n'
            elif ch.flag(15):
                calls = ch.pick(sorted(set(RAISES) - {'syntax', 'indent', 'coding', 'module'}))
                text += 'def b_%s(x):\n%s\n' % (self.id, ''.join('    %s\n' % s for s in RAISES[calls].split('\n')))
        else:
            inner = Ref(lay, ctx, depth + 1) if depth < 2 and ch.flag(25) else None
            text = '%s ($set d_%s %sD)\n($macro m_%s (A) %sM-($A))\n' % (mark, self.id, mark, self.id, mark)
            if inner:
                text += inner.text() + '\n'
            if ch.flag(3):                             # long: what is used stands at its end
                text = ('%s\n' % ('l' * ch.pick([90, 4500, 18000]))) * ch.pick([2, 4]) + text
            if ch.flag(12):
                defect = ch.pick(sorted(BROKEN))
                t = BROKEN[defect]
                if isinstance(t, bytes):
                    text = text.encode() + t
                else:
                    text += (t % lay.k if '%' in t else t) + '\n'
        lay.v.put(p, text)
        self.files[p] = (defect, mark, inner, calls)

    def text(self):
        if self.kind == 'lib':
            return '($import %s)' % self.name[:-3]
        return '($import "%s")' % self.name

    def chain(self):
        """This reference and those in the file it means."""
        r = [self]
        if not self.missing and self.inner:
            r += self.inner.chain()
        return r

    def bad(self):
        return self.missing or self.defect or self.inner and self.inner.bad()


def run(ctx):
    ch = ctx.ch
    lay = Layout(ctx)
    v = lay.v
    pool = [Ref(lay, ctx) for _ in range(ch.range(1, 4))]
    if ch.flag(35):                                  # mostly good ones
        good = [r for r in pool if not r.bad()]
        pool = good or pool
    files, texts, expect, wrong, runs = [], {}, {}, {}, {}
    for n in range(ch.range(1, 3)):
        f = posixpath.join(lay.srcdir, ['s%d.yu-c', 't%d.yu-py', 'u%d.yu-h'][ch.int(3)] % n)
        refs = ch.subset(pool, 60) if n or ch.flag(20) else list(pool)
        if refs and ch.flag(25):
            refs = refs + [ch.pick(refs)]            # twice
        files.append(f)
        lines, words, bad, done, loud = [], [], None, set(), None

        def put(r):
            """Words of the output which an import of r adds."""
            nonlocal bad, loud
            if bad:
                return
            if r.missing:
                bad = r
                return
            once = r.kind != 'text'
            if once and r.name in done:
                return
            done.add(r.name)
            if r.kind == 'script' or r.defect == 'undecodable':
                if r.defect:
                    bad = r
                elif r.kind == 'script':
                    runs[r.mark] = runs.get(r.mark, 0) + 1
                return
            if r.mark is None:                       # the library of yupp itself
                return
            words.append(r.mark)
            if r.inner:
                put(r.inner)
            if r.defect and not bad:
                bad = r
        for r in refs:
            lines.append(ch.pick(['', 'text ', '  ']) + r.text())
            put(r)
            if bad or r.mark is None:
                continue
            if r.kind == 'script':
                lines.append('($v_%s) ($f_%s 7)' % (r.id, r.id))
                words += [r.mark, r.mark + '7']
                if r.calls and ch.flag(60) and not loud:
                    lines.append('($b_%s 1)' % r.id)
                    loud = (r, len(lines))
            else:
                lines.append('($d_%s) ($m_%s 9)' % (r.id, r.id))
                words += [r.mark + 'D', r.mark + 'M-9']
        lines.append('MARK0_')
        words.append('MARK0_')
        texts[f] = '\n'.join(lines) + '\n'
        expect[f] = words
        wrong[f] = (bad, loud)
        v.put(W + '/' + f, texts[f])
    v.settle()
    how = ch.pick(['-d', '-d', 'config', 'translate'])
    argv = ['-q']
    if how == '-d':
        for d in lay.dirs:
            argv += ['-d', d]
    else:
        if lay.dirs or ch.flag(50):
            v.put(W + '/.yuconfig', 'directory = %r\n' % lay.dirs)
    kw = {}
    if how == 'translate':
        def body(p):
            import sys
            y = K.yupp(p)
            sys.argv = ['build.py']
            p.result = [y.translate(f) for f in files]
            return p.result
        kw = {'argv': []}
    else:
        body = K.run_cli(ch.pick(['main', 'script', 'cli']))
        if how == 'config':                          # the command line has no directories, those of the script do not count
            argv = ['-q'] + [x for d in lay.dirs for x in ('-d', d)]
        kw = {'argv': argv + files}
    v.settle()
    libs = {}
    for r in pool:
        for x in r.chain():
            if x.path:
                libs[x.path] = x
    faults, target = [], None
    if ch.flag(45) and libs:
        gp, gk = solo(ctx, v.clone(), body, **kw)
        reads = [(i, path) for i, (op, path) in enumerate(gp.oplog) if op in ('open-r', 'read') and path in libs]
        if reads:
            i, target = ch.pick(reads)
            faults = [{'at': i, 'kind': ch.pick(['errno', 'errno', 'short']), 'sel': ch.int(6)}]
    k = K.Kernel(ch, v, ctx.pk)
    p = k.spawn('run', body, faults=faults, cwd=W, **kw)
    ctx.run(k)
    ctx.note('%s %s' % (how, kw['argv']))
    for f in files:
        ctx.note('%s: %s' % (f, texts[f].strip().replace('\n', ' | ')))
    for path, r in sorted(libs.items()):
        ctx.note('%s: %s' % (path, r.defect or r.calls or 'good'))
    hit = target if any('short' not in x for x in k.fired) else None
    if p.exc is not None:
        ctx.fail('escaped', '%s: %s' % (type(p.exc).__name__, p.exc_text[-600:]))
    # which files of the batch fail
    failing, fault_used = [], False
    for f in files:
        o = W + '/' + G.output_name(f)
        bad, loud = wrong[f]
        got = v.get(o)
        words = None if got is None else [x.strip('"') for x in re.findall(r'MARK[\w-]+', got.decode('utf8'))]
        if bad or loud:
            failing.append(f)
            if got is not None:
                ctx.fail('silent', '%s was translated, though %s; output %r' % (f, why(bad, loud), got))
            continue
        if got is None and hit and any(hit in [y.path for y in r.chain()] for r in pool if r.text() in texts[f]) and not fault_used:
            fault_used = True
            failing.append(f)
            if base(hit) not in p.out:
                ctx.fail('unnamed', '%s failed by an error on reading %s, which the message does not name: %s' % (f, hit, p.out[-600:]))
            continue
        if words != expect[f]:
            ctx.fail('wrong', '%s gave %s, expected %s; directories %s; %s' % (f, words, expect[f], lay.order(), p.out[-700:]))
    if hit and not fault_used and not any(wrong[f][0] or wrong[f][1] for f in files):
        ctx.fail('silent', 'an error on reading %s did not make a translation fail: %s' % (hit, p.out[-400:]))
    if not hit:
        ran = re.findall(r'RUN (MARK\d+_)', p.out)
        for r in libs.values():
            if r.kind == 'script' and not r.defect and ran.count(r.mark) != runs.get(r.mark, 0):
                ctx.fail('once', '%s was run %d times, expected %d' % (r.path, ran.count(r.mark), runs.get(r.mark, 0)))
    for f in failing:
        bad, loud = wrong[f]
        if bad and not hit:
            named(ctx, p, f, bad, texts[f])
        elif loud and not hit:
            m = 'File "%s", line %d' % (f, loud[1])
            if m not in p.out:
                ctx.fail('unnamed', '%s: ($b_%s 1) raised, but there is no %r in %s' % (f, loud[0].id, m, p.out[-900:]))
    if how == 'translate':
        verdict = [not ok for ok, _ in p.result]
        if verdict != [f in failing for f in files]:
            ctx.fail('verdict', 'translate() gave %s, failing are %s: %s' % (p.result, failing, p.out[-500:]))
    else:
        st = p.exit if p.exit else (p.result if isinstance(p.result, int) else 0)
        if st != 4 * len(failing):
            ctx.fail('verdict', 'exit %s, failing are %s of %s: %s' % (st, failing, files, p.out[-500:]))
    ctx.trivial = not failing and len(libs) < 2
    ctx.probe('way ' + how)
    for r in libs.values():
        if r.defect or r.calls:
            ctx.probe('defect: ' + (r.defect or r.calls))
    ctx.sig = (how, lay.dirs, lay.srcdir, sorted(texts.items()), sorted((a, r.defect, r.calls) for a, r in libs.items()), sorted(k.fired))


def base(path):
    b = posixpath.basename(path)
    return b[:-3] if b.endswith('.yu') else b


def why(bad, loud):
    if bad is None:
        return 'a function of %s raised %s' % (loud[0].name, loud[0].calls)
    return '%s is %s' % (bad.name, 'missing' if bad.missing else bad.defect)


def named(ctx, p, f, bad, text):
    """The message about a missing or broken import names it."""
    out = p.out
    if bad.missing or bad.kind == 'script':
        want = [bad.text()]                          # the line of the import is shown
    elif bad.defect == 'undecodable':
        want = [bad.text()]
    else:
        want = ['File "%s"' % x for x in (bad.path, posixpath.relpath(bad.path, W))] + [posixpath.basename(bad.path)]
    if not any(w in out for w in want):
        ctx.fail('unnamed', '%s: %s, but there is none of %s in %s' % (f, why(bad, None), want, out[-900:]))
