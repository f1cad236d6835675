"""C06 Never stale generated code.

Seeded histories: the source, its declared dependencies and its configuration
scripts are edited at seeded moments (down to the same tick of the file system
clock), removed, replaced by older copies, the output is removed or rolled
back, runs crash or fail; every later undisturbed run must give code made of
the present contents.
"""
from sim import kernel as K
from sim import pygen
from sim.scen import *
from checks.c01 import short

LEVEL = 'exploration'
SEEDS = {'quick': 2500, 'thorough': 60000}
CAP = {'quick': 35, 'thorough': 700}
RULE = ('seeded histories of 3-8 steps over a source with `coding: yupp`, 0-3 dependencies and two configuration scripts: '
        'edit, remove and re-create, crash or I/O error in a run, roll-back or removal of the output, file timestamps of '
        '1 ns to 2 s granularity, 0 to 3 s between the steps; after every undisturbed run the code is compared with the '
        'version markers of the present contents and with a regeneration from scratch; non-trivial: at least one edit '
        'happened while an output existed; distinct by the sequence of (step, gap, granularity, fault, cached or not)')


class World(object):
    def __init__(self, ctx):
        ch = ctx.ch
        self.ctx, self.ch = ctx, ch
        self.v = v = ctx.base.clone()
        v.gran = ch.pick([1, 10_000_000, 1_000_000_000, 2_000_000_000, 4_000_000])
        self.sub = ch.flag(30)
        self.dir = 'sub/' if self.sub else ''
        v.makedirs(W + '/sub')
        v.makedirs(W + '/inc')
        self.name = self.dir + ch.pick(['prog.py', 'prog.yu-py', 'p-x.py'])
        base = self.name.rsplit('.', 1)[0]
        self.out = base + ('.py' if self.name.endswith('yu-py') else '.yugen.py')
        self.cfg1, self.cfg2 = '.yuconfig', base + '.yuconfig'
        self.ndep = ch.int(4)
        self.deps = []
        for i in range(self.ndep):
            kind = ch.pick(['yu', 'py'])
            where = ch.pick([self.dir, 'inc/'])
            self.deps.append((where + 'dep%d.%s' % (i, kind), 'dep%d' % i, kind))
        self.ver = {}
        self.n = 0
        self.header = ch.pick(pygen.HEADERS)
        g = pygen.PyGen(ch)
        self.frags = [g.frag() for _ in range(ch.range(0, 4))]
        if ch.flag(10):
            self.frags.append(g.big())
        self.use1 = ch.flag(60)
        self.use2 = ch.flag(50)
        self.force = False
        self.listed2 = ch.flag(50)

    def write(self, what, now=None):
        """The user saves a file with its next version."""
        self.n += 1
        n = self.n
        v = self.v
        if what == 'src':
            t = [self.header + 'src_ver = %d' % n]
            t += ['($import "%s")' % d.rsplit('/', 1)[-1] if k == 'py' else '($import %s)' % d.rsplit('/', 1)[-1][:-3]
                  for d, m, k in self.deps]
            t += ['%s_ver_py = ($%s_value)' % (m, m) for d, m, k in self.deps if k == 'py']
            if self.use1:
                t.append('one_ver = ($ONE)')
            if self.use2:
                t.append('two_ver = ($TWO)')
            v.put(W + '/' + self.name, '\n'.join(t + self.frags) + '\n')
        elif what == 'cfg1':
            t = 'directory.append("inc")\npp_define.append("ONE:%d")\n' % n
            t += ''.join('dependency.append("%s")\n' % d for d, m, k in (self.deps if not self.listed2 else self.deps[:1]))
            v.put(W + '/' + self.cfg1, t)
        elif what == 'cfg2':
            t = 'pp_define.append("TWO:%d")\n' % n
            t += ''.join('dependency.append("%s")\n' % d for d, m, k in (self.deps[1:] if self.listed2 else []))
            v.put(W + '/' + self.cfg2, t)
        else:
            d, m, k = self.deps[int(what[3:])]
            if k == 'yu':
                v.put(W + '/' + d, '%s_ver = %d\n' % (m, n))
            else:
                v.put(W + '/' + d, '%s_value = %d\n' % (m, n))
        self.ver[what] = n
        v.settle()

    def want(self):
        w = {'src': self.ver['src']}
        if self.use1:
            w['one'] = self.ver['cfg1']
        if self.use2:
            w['two'] = self.ver['cfg2']
        for i, (d, m, k) in enumerate(self.deps):
            w[m] = self.ver['dep%d' % i]
        return w

    def got(self, text):
        import re
        r = {}
        for m, ver in re.findall(r'^(\w+?)_ver(?:_py)? = (\d+)$', text, re.M):
            r.setdefault(m, set()).add(int(ver))
        return r


def body(w, api, chunk):
    if api == 'codec':
        return body_codec(w.name, chunk)

    def b(p):
        y = K.yupp(p)
        sys.argv = ['build.py']
        ok, name = y.translate(w.name)
        if not ok:
            return ''
        with open(name, encoding='utf8') as f:
            return f.read()
    return b


def known_case(ctx, k):
    """Known finding edit-during-translation: the source is saved again after it
    was read and before the output gets its time stamp."""
    v = ctx.base.clone()
    v.gran = 1
    v.makedirs(W)
    v.put(W + '/p.py', '# coding: yupp\nsrc_ver = 1\n')
    v.settle()
    b = body_codec('p.py')
    gp, gk = solo(ctx, v.clone(), b)
    at = [i for i, (op, f) in enumerate(gp.oplog) if op == 'open-w'][0]
    kk = kernel(ctx, v)
    kk.spawn('run', b, cwd=W, faults=[{'at': at, 'kind': 'call', 'name': 'edit', 'fn': lambda k, p: v.put(
        W + '/p.py', '# coding: yupp\nsrc_ver = 2\n')}])
    ctx.run(kk)
    p, k2 = solo(ctx, v, b, now=kk.now + 5 * 10**9)
    return 'src_ver = 1' in p.result and b'src_ver = 2' in v.get(W + '/p.py')


def run(ctx):
    ch = ctx.ch
    w = World(ctx)
    v = w.v
    now = 1_600_000_000 * 10**9 + ch.int(2_000_000_000)
    v.now = lambda: now
    things = ['src', 'cfg1', 'cfg2'] + ['dep%d' % i for i in range(w.ndep)]
    for t in things:
        w.write(t)
    if ch.flag(25):
        return one_process(ctx, w, things, now)
    sig = [v.gran, w.ndep, w.use1, w.use2]
    edits = 0
    racy = False
    had = False
    made = None
    for step in range(ch.range(3, 8)):
        act = ch.weighted([(7, 'edit'), (3, 'none'), (1, 'rm-out'), (1, 'roll-back'), (1, 'two'), (1, 'rm-dep'), (1, 'empty-out')])
        if step == 0:
            act = 'none'
        gap = ch.pick([0, 1, 1000, 5_000_000, 700_000_000, 3_000_000_000])
        now += gap
        v.now = lambda: now
        what = ''
        if act in ('edit', 'two'):
            what = ch.pick(things)
            w.write(what)
            edits += had
            if act == 'two':
                now += ch.pick([0, 2_000_000, 1_000_000_000])
                w.write(ch.pick(things))
            racy = False
        elif act == 'rm-dep' and w.ndep:
            # removed, a run in between fails or works, re-created with new contents
            i = ch.int(w.ndep)
            v.unlink(W + '/' + w.deps[i][0])
            v.settle()
            p, k = solo(ctx, v, body(w, 'codec', None), now=now)
            now = k.now
            if p.result and 'dep%d' % i not in w.ver:
                pass
            got = w.got(p.result or '')
            if p.result and w.deps[i][1] in got:
                ctx.fail('stale-removed', 'dependency %s is removed, its contents are still in the code: %s'
                         % (w.deps[i][0], got))
            now += ch.pick([0, 1000, 1_000_000_000])
            v.now = lambda: now
            w.write('dep%d' % i)
            edits += had
            what = 'dep%d' % i
            racy = False
        elif act == 'rm-out' and v.get(W + '/' + w.out) is not None:
            v.unlink(W + '/' + w.out)
            v.settle()
        elif act == 'roll-back' and v.get(W + '/' + w.out + '.bak') is not None:
            v.rename(W + '/' + w.out + '.bak', W + '/' + w.out)
            v.settle()
            if racy:
                racy = True
        elif act == 'empty-out':
            continue
        gap2 = ch.pick([0, 1, 20_000, 5_000_000, 1_000_000_000])
        now += gap2
        v.now = lambda: now
        api = ch.weighted([(3, 'codec'), (1, 'translate')])
        chunk = ch.pick([None, None, 1000])
        fault = ch.weighted([(6, ''), (2, 'crash'), (2, 'errno'), (1, 'short'), (1, 'edit-during')])
        before = v.lookup(W + '/' + w.out)
        f = ''
        b4 = before and (before.ino, before.mtime)
        if fault:
            gp, gk = solo(ctx, v.clone(), body(w, api, chunk), now=now)
            f = crash_fault(ch, gp.oplog) if fault == 'crash' else errno_fault(ch, gp.oplog) if fault == 'errno' else \
                {'at': ch.int(len(gp.oplog)), 'kind': 'short', 'sel': ch.int(7)}
            if fault == 'errno' and gp.oplog[f['at']][1].endswith('.yuconfig'):
                fault = f = ''                   # an unreadable script is only reported
            if fault == 'edit-during':
                t = ch.pick(things)
                f = {'at': ch.int(len(gp.oplog)), 'kind': 'call', 'name': 'edit-during-run', 'fn': lambda k, p: w.write(t)}
        k = K.Kernel(ch, v, ctx.pk, now=now)
        p = k.spawn('run', body(w, api, chunk), cwd=W, faults=[f] if f else [])
        ctx.run(k)
        now = k.now
        v.now = lambda: now
        o = v.lookup(W + '/' + w.out)
        reused = o is not None and b4 == (o.ino, o.mtime)
        had = had or o is not None
        if not reused:
            made = api
        sig.append((act, what[:3], gap, gap2, api, fault, dict(k.fired), reused))
        ctx.note('%s %s +%d run by %s%s -> %s' % (act, what, gap + gap2, api, ' fault ' + str(k.fired) if fault else '',
                                                 'reused' if reused else 'regenerated' if o else 'no output'))
        if 'edit-during-run' in k.fired:
            racy = True
            ctx.probe('edited during a translation')
            continue
        if p.killed:
            continue
        if k.fired and not p.result:
            continue                             # the error ended the run, nothing was delivered
        text = p.result or ''
        if p.exc is not None and not k.fired:
            ctx.fail('raised', p.exc_text[-500:])
        want, got = w.want(), w.got(text)
        if any(got.get(m) != {x} for m, x in want.items()):
            if racy and reused:
                ctx.probe('known finding edit-during-translation met')
                continue
            ctx.fail('stale' if reused else 'wrong',
                     'step %d: the code is made of %s, the present contents are %s (%s)'
                     % (step, {m: sorted(x) for m, x in got.items()}, want, '; '.join(ctx.case[-3:])))
        ctx.probe('reused' if reused else 'regenerated')
        if not reused and not k.fired:
            racy = False
        if not k.fired and ch.flag(50):
            rv = v.clone()
            for x in (w.out, w.out + '.bak'):
                if rv.lookup(W + '/' + x):
                    rv.unlink(W + '/' + x)
            q, qk = solo(ctx, rv, body(w, api, None), now=now)
            same = q.result == text
            if made != api:
                # translate() and the codec differ in one blank line after the header
                same = [x for x in (q.result or '').split('\n') if x] == [x for x in text.split('\n') if x]
            if not same and not racy:
                ctx.fail('differs', 'the code differs from a regeneration: %s / %s' % (short(text), short(q.result)))
    if not edits:
        ctx.trivial = True
    ctx.sig = sig


def one_process(ctx, w, things, now):
    """The same history inside one long-lived process (a build script, a server)."""
    ch, v = ctx.ch, w.v
    plan = []
    for _ in range(ch.range(3, 7)):
        plan.append((ch.weighted([(3, ''), (4, ch.pick(things))]), ch.pick([0, 1, 5_000_000, 3_000_000_000]),
                     ch.weighted([(3, 'translate'), (2, 'codec')]), ch.flag(15)))
    k = K.Kernel(ch, v, ctx.pk, now=now)
    seen = []

    def body_all(p):
        for what, gap, api, rm in plan:
            k.now += gap
            if what:
                w.write(what)
            if rm and v.lookup(W + '/' + w.out):
                v.unlink(W + '/' + w.out)
            k.now += gap
            b4 = v.lookup(W + '/' + w.out)
            b4 = b4 and (b4.ino, b4.mtime)
            text = body(w, api, None)(p)
            o = v.lookup(W + '/' + w.out)
            seen.append((what, api, text, dict(w.want()), o is not None and b4 == (o.ino, o.mtime)))
    p = k.spawn('long', body_all, cwd=W)
    ctx.run(k)
    if p.exc is not None:
        ctx.fail('raised', p.exc_text[-500:])
    for i, (what, api, text, want, reused) in enumerate(seen):
        got = w.got(text or '')
        ctx.note('%s, %s -> %s' % (what or 'nothing', api, 'reused' if reused else 'regenerated'))
        if any(got.get(m) != {x} for m, x in want.items()):
            ctx.fail('stale' if reused else 'wrong', 'run %d of one process: the code is made of %s, the present contents are %s (%s)'
                     % (i, {m: sorted(x) for m, x in got.items()}, want, '; '.join(ctx.case[-4:])))
        ctx.probe('reused' if reused else 'regenerated')
    ctx.sig = ['one', v.gran, w.ndep, plan, [x[4] for x in seen]]
