"""C20 Regeneration histories refine a model of the directory.

A model of a few lines says what a translation does to a directory.  Seeded
histories of command lines and API calls - in processes of their own, or many
in one - with edits, removals, restarts and crashes in between are run against
both; after every operation the directory must be exactly the model's.
"""
from sim import kernel as K
from sim import gen as G
from sim.scen import *
from checks.c01 import short

LEVEL = 'exploration'
SEEDS = {'quick': 2500, 'thorough': 60000}
CAP = {'quick': 35, 'thorough': 600}
RULE = ('seeded histories of 3-9 operations over 1-4 sources (all naming forms, two of them may share an output, some choose '
        'the name themselves): batches by the command line with seeded options, translate() with a configuration script, '
        'each in a process of its own or several in one, user edits, removals and mode changes of sources, outputs, backups '
        'and other files between them, one crash in some; after every operation the whole tree (names, bytes, modes) is '
        'compared with the model; non-trivial: two or more translations wrote something; distinct by the history')
FRAGS = [f for f in G.Gen.FRAGS if f != 'names']
FILES = ['a.yu-c', 'a.c.yu', 'b.yu-h', 'd.yu', 'e.c', 'f', 'g-1.yu-py', 'H.YU-CPP', 'x.tar.yu-gz', 'sub/s.yu-c', 'ü.yu-c', 'b.h.yu',
         '.hid.yu-c', 'k.yugen.c', 'p.q', 'r.YU', 'a b.yu-c', 'long.name.yu-', 'v1.2/t.yu', 'v1.2/u', 'v1.2/w.yu-c', 'v1.2/m.h.yu', './c.yu',
         'v1.2/../sub/n.yu', 'v.yu-d/o.yu-py']
DIRS = ['', 'sub/', 'v1.2/', 'v.yu-d/']
OUT = ['out', 'out', 'out.d', './out', 'o.yu-x']


class Model(object):
    """What a translation does: {path: (kind, mode, data)}."""

    def __init__(self, tree):
        self.t = dict(tree)
        self.saves = 0

    def save(self, out, data, ro, browse, json):
        out = posixpath.normpath(out)
        if out in self.t:
            self.t[out + '.bak'] = self.t[out]
        self.t[out] = ('f', 0o400 if ro else 0o644, data)
        if browse:
            self.t[out + '.json'] = ('f', 0o644, json)
        self.saves += 1

    def save_ast(self, out, data):
        a = posixpath.normpath(posixpath.splitext(out)[0] + '.ast')
        self.t[a] = ('f', self.t[a][1] if a in self.t and False else 0o644, data)
        self.saves += 1


class Src(object):
    def __init__(self, ctx, g, name):
        self.ctx, self.ch, self.g, self.name = ctx, ctx.ch, g, name
        self.path = posixpath.normpath(name)
        self.own = None
        self.write()

    def write(self):
        ch = self.ch
        kind = ch.weighted([(7, 'ok'), (2, 'fail'), (1, 'ast')])
        self.s = self.g.source(self.name, kind, frags=FRAGS, size=ch.range(1, 4), big=5)
        self.own = ch.pick(['own.c', 'sub/own.h', 'own', 'a.c']) if ch.flag(12) else None
        if self.own:
            self.s.text = '($set __OUTPUT_FILE__ "%s")\n' % self.own + self.s.text
            self.s.out = self.s.out and '\n' + self.s.out
        self.kind = kind

    def output(self, outdir):
        return self.own or G.output_name(self.name, outdir)


def run(ctx):
    ch = ctx.ch
    v = ctx.base.clone()
    for d in ('sub', 'out', 'out.d', 'v1.2', 'v.yu-d', 'o.yu-x'):
        v.makedirs(W + '/' + d)
    g = G.Gen(ch)
    names = list(FILES)
    srcs = [Src(ctx, g, names.pop(ch.int(len(names)))) for _ in range(ch.range(1, 4))]
    conf = {}
    if ch.flag(40):
        conf = {k: x for k, x in (('read_only', False), ('pp_browse', True)) if ch.flag(50)}
        v.put(W + '/.yuconfig', ''.join('%s = %r\n' % x for x in sorted(conf.items())))

    def put(s):
        for f, d in g.files.items():
            for x in DIRS:
                if v.get(W + '/' + x + f) != d.encode():
                    v.put(W + '/' + x + f, d)
        v.put(W + '/' + s.name, s.s.text)
    for s in srcs:
        put(s)
    v.settle()
    ops = []
    for _ in range(ch.range(3, 9)):
        ops.append(ch.weighted([(6, 'cli'), (3, 'api'), (3, 'edit'), (1, 'remove'), (1, 'junk'), (1, 'rm-src'), (1, 'mode')]))
    together = ch.flag(40)
    m = Model(v.tree(W))
    hist = []
    left = set()                                   # temporary files of crashed runs
    missing = set()
    now = [1_600_000_000 * 10**9]
    crash = ch.int(len(ops)) if not together and ch.flag(25) else None

    def reference(s, opts):
        """(json, ast) made by a fresh process in a directory with nothing else in it."""
        fv = v.clone()
        o = s.output(opts['outdir'])
        a = posixpath.splitext(G.output_name(s.name, opts['outdir']))[0] + '.ast'
        for f in (o, o + '.bak', o + '.json', a):
            n = fv.lookup(W + '/' + f)
            if n is not None and posixpath.normpath(f) != s.path and n.kind == 'f':
                fv.unlink(W + '/' + f)
        k = K.Kernel(ch, fv, ctx.pk, now=now[0])
        argv = ['-q'] + (['-o', opts['outdir']] if opts['outdir'] else []) + (['--pp-browse'] if opts['browse'] else []) + [s.name]
        p = k.spawn('ref', K.run_cli('main'), argv=argv, cwd=W)
        ctx.run(k)
        return fv.get(W + '/' + o + '.json'), fv.get(W + '/' + a)

    def reused(s, opts):
        """translate() reuses an output that is newer than the source and the configuration."""
        o = v.lookup(W + '/' + G.output_name(s.name, opts['outdir']))
        deps = [s.name, '.yuconfig', posixpath.splitext(s.name)[0] + '.yuconfig']
        deps = [v.lookup(W + '/' + d) for d in deps]
        return s not in missing and o is not None and o.kind == 'f' and all(d is None or d.mtime < o.mtime for d in deps)

    def model(op, files, opts):
        for s in files:
            if op == 'api' and reused(s, opts):
                ctx.probe('reused by translate()')
                s.good = True
                continue
            s.good = s not in missing and s.kind == 'ok'
            if s in missing or s.kind == 'fail':
                continue
            o = s.output(opts['outdir'])
            json, ast = reference(s, opts) if opts['browse'] or s.kind == 'ast' else (None, None)
            if s.kind == 'ast':
                if ast is None:
                    ctx.fail('ast', '%s: no AST file' % s.name)
                m.save_ast(G.output_name(s.name, opts['outdir']), ast)
            else:
                if opts['browse'] and json is None:
                    ctx.fail('json', '%s: no browse information' % s.name)
                m.save(o, s.s.out.encode('utf8'), opts['ro'], opts['browse'], json)

    def check(i, op, p, crashed=None):
        t = v.tree(W)
        for f in left:                             # may be overwritten or remain
            if f in t:
                m.t[f] = t[f]
            else:
                m.t.pop(f, None)
        if t == m.t:
            return
        bad = sorted(f for f in set(t) | set(m.t) if t.get(f) != m.t.get(f))
        f = bad[0]
        ctx.fail('tree', 'operation %d %s: %s is %s, the model says %s (%d differ: %s)\n%s\n%s'
                 % (i, op, f, show(t.get(f)), show(m.t.get(f)), len(bad), bad[:4], '; '.join(map(str, ctx.case[-12:])), p and p.out[-300:]))

    def user(op):
        s = ch.pick(srcs)
        outs = sorted(f for f, n in v.tree(W).items() if n[0] == 'f' and posixpath.basename(f) not in g.files
                      and f not in [x.path for x in srcs] and f != '.yuconfig'
                      and not (op == 'mode' and G.is_temp(f)))
        if op == 'edit':
            s.write()
            put(s)
            missing.discard(s)
        elif op == 'rm-src':
            if s not in missing:
                v.unlink(W + '/' + s.name)
                missing.add(s)
        elif op == 'junk':
            f = ch.pick(['notes.txt', s.output('') + '.bak', s.output('out') + '.json', s.output('') + '.tmp', 'own.c', s.output('')])
            if posixpath.normpath(f) not in [x.path for x in srcs]:
                v.put(W + '/' + f, 'JUNK %d\n' % ch.int(9), mode=ch.pick([0o644, 0o600, 0o400, 0o666]))
        elif outs:
            f = ch.pick(outs)
            if op == 'remove':
                v.unlink(W + '/' + f)
            else:
                v.put(W + '/' + f, v.get(W + '/' + f), mode=ch.pick([0o644, 0o400, 0o444, 0o755]))
        v.settle()
        m.t = dict(v.tree(W))

    def plan(op):
        files = [ch.pick(srcs) for _ in range(ch.range(1, 3))] if op == 'cli' else [ch.pick(srcs)]
        if op == 'api':
            return files, {'outdir': '', 'browse': conf.get('pp_browse', False),
                           'ro': conf.get('read_only', True)}, [s.name for s in files]
        o = {'outdir': ch.pick(OUT) if ch.flag(20) else '', 'browse': ch.flag(20), 'ro': not ch.flag(35)}
        return files, o, (['-q'] if ch.flag(30) else []) + (['-o', o['outdir']] if o['outdir'] else []) + (
            ['--pp-browse'] if o['browse'] else []) + ([] if o['ro'] else ['--no-read-only']) + [s.name for s in files]

    def safe(files, opts):
        """No output is a source of this history."""
        return all(posixpath.normpath(s.output(opts['outdir'])) not in [x.path for x in srcs] for s in files)

    def step(op, argv):
        import yupp as y
        if op == 'cli':
            return y.cli(list(argv))
        return y.translate(argv[0])

    def one(op, argv):
        def body(p):
            K.yupp(p)
            sys.argv = ['build.py']
            return step(op, argv)
        return body

    def verdict(i, op, r, files, argv):
        good = [s.good for s in files]
        want = 4 * good.count(False)
        if op == 'cli' and r != want:
            ctx.fail('verdict', 'operation %d: yupp %s gives %r, must be %d' % (i, ' '.join(argv), r, want))
        if op == 'api' and bool(r and r[0]) != good[0]:
            ctx.fail('verdict', 'operation %d: translate(%s) gives %r' % (i, argv[0], r))

    for s in srcs:
        ctx.note('%s%s: %s' % (s.name, ' -> ' + s.own if s.own else '', s.s.text.replace('\n', ' | ')[:160]))
    ctx.note('.yuconfig: %s' % conf)
    i = 0
    while i < len(ops):
        op = ops[i]
        if op not in ('cli', 'api'):
            user(op)
            hist.append(op)
            ctx.note('user: %s' % op)
            i += 1
            continue
        if together:
            # everything that is left, in one process
            rest = ops[i:]
            k = K.Kernel(ch, v, ctx.pk, now=now[0])
            trail = []

            def body(p):
                K.yupp(p)
                sys.argv = ['build.py']
                for j, o in enumerate(rest):
                    if o not in ('cli', 'api'):
                        user(o)
                        trail.append((o, None, None, None, None))
                        continue
                    files, opts, argv = plan(o)
                    if not safe(files, opts):
                        continue
                    snap = (v.clone(), set(missing), [(s, s.own, s.kind, s.s) for s in srcs])
                    r = step(o, argv)
                    trail.append((o, files, opts, argv, (r, snap, v.tree(W))))
            p = k.spawn('all', body, cwd=W)
            ctx.run(k)
            if p.exc is not None:
                ctx.fail('raised', p.exc_text[-800:])
            final = (v, set(missing), [(s, s.own, s.kind, s.s) for s in srcs])
            for j, (o, files, opts, argv, x) in enumerate(trail):
                hist.append((o, opts and tuple(sorted(opts.items())), files and [s.kind for s in files]))
                ctx.note('%s %s (one process)' % (o, argv))
                if x is None:
                    continue
                r, snap, tree = x
                v, missing = snap[0], snap[1]
                for s, own, kind, so in snap[2]:
                    s.own, s.kind, s.s = own, kind, so
                m.t = dict(v.tree(W))
                model(o, files, opts)
                verdict(i + j, o, r, files, argv)
                if tree != m.t:
                    v = Frozen(tree)
                    check(i + j, '%s %s in one process' % (o, argv), p)
            ctx.probe('operations in one process', len(trail))
            break
        files, opts, argv = plan(op)
        i += 1
        if not safe(files, opts):
            continue
        v.settle()                                 # earlier runs have reached the disk
        before = v.tree(W)
        pre = v.clone()
        body = one(op, argv)
        faults = []
        if crash == i - 1:
            gp, gk = solo(ctx, v.clone(), body, now=now[0])
            f = crash_fault(ch, gp.oplog)
            faults = [f]
        v2, v = v, pre
        model(op, files, opts)                    # on the state before
        v = v2
        k = K.Kernel(ch, v, ctx.pk, now=now[0])
        p = k.spawn(op, body, cwd=W, faults=faults)
        ctx.run(k)
        now[0] = k.now + ch.pick([1, 10**6, 10**10])
        hist.append((op, tuple(sorted(opts.items())), [s.kind for s in files], p.killed))
        ctx.note('%s %s%s' % (op, argv, ' crashed' if p.killed else ''))
        if p.killed:
            t = v.tree(W)
            allowed = set()
            for s in files:
                o = s.output(opts['outdir'])
                allowed |= {posixpath.normpath(x) for x in (o, o + '.bak', o + '.json', posixpath.splitext(G.output_name(s.name, opts['outdir']))[0] + '.ast')}
            for f in set(t) | set(before):
                if t.get(f) != before.get(f) and f not in allowed and not (G.is_temp(f) and f not in before):
                    ctx.fail('crash', 'operation %d %s %s crashed and changed %s' % (i, op, argv, f))
            left |= {f for f in t if G.is_temp(f) and f not in before}
            m.t = dict(t)                          # history goes on from what is left
            continue
        if p.exc is not None:
            ctx.fail('raised', p.exc_text[-800:])
        verdict(i, op, p.result, files, argv)
        check(i, '%s %s' % (op, argv), p)
        ctx.probe('operations in a process of their own')
    ctx.probe('files saved', m.saves)
    if m.saves < 2:
        ctx.trivial = True
    ctx.sig = ([(s.name, s.own) for s in srcs], sorted(conf), together, hist)


class Frozen(object):
    def __init__(self, t):
        self.t = t

    def tree(self, path):
        return self.t


def show(x):
    return 'absent' if x is None else 'mode %o, %s' % (x[1], short(x[2]))
