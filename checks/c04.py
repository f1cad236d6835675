"""C04 Truthful verdict.

A batch of good, broken, irreducible, missing and unwritable sources, with and
without I/O errors: the exit status, the OK mark of every file and the result
of translate() say success only if the whole output is there, and without
faults they say exactly which files failed.
"""
import errno
import re

from sim import kernel as K
from sim import gen as G
from sim.scen import *
from checks.c01 import short

LEVEL = 'fault_enumeration'
SEEDS = {'quick': 4000, 'thorough': 70000}
CAP = {'quick': 40, 'thorough': 600}
RULE = ('seeded batches of 1-5 (now and then 62-70) files - good, broken in 9 ways, irreducible, missing, undecodable, with '
        'an output that is impossible to write - given directly or through a response file to 4 entry points and to '
        'translate(); half of the runs get an I/O error, a short write, a full disk, a persistent error or a broken '
        'standard output; non-trivial: at least one file failed or a fault fired; distinct by (entry, kinds in order, '
        'options, fault, operation hit, exit status)')


def segments(text):
    """stdout -> [(file, text of its segment)]"""
    out = []
    for ln in text.split('\n'):
        m = re.match(r'<-- \[(.*)\]$', ln)
        if m:
            out.append((m.group(1), []))
        elif out:
            out[-1][1].append(ln)
    return [(f, '\n'.join(x)) for f, x in out]


def run(ctx):
    ch = ctx.ch
    api = ch.weighted([(7, 'cli'), (2, 'translate'), (1, 'args'), (1, 'passes')])
    if api == 'passes':                           # a source may be translated several times
        from . import c12
        return c12.run(ctx)
    if api == 'args':
        return run_args(ctx)
    many = api == 'cli' and ch.flag(6)
    n = ch.range(62, 70) if many else ch.range(1, 5)
    pr = Project(ctx, n=min(n, 5), kinds=((5, 'ok'), (3, 'fail'), (1, 'ast')), opts=api == 'cli', defines=api == 'cli',
                 big=8)
    v = ctx.base.clone()
    pr.install(v)
    good, what, blocked = {}, {}, {}
    for s in pr.sources:
        out = wpath(s.output)
        how = ch.weighted([(9, ''), (1, 'missing'), (1, 'isdir'), (1, 'unreadable'), (1, 'garbage'), (1, 'outdir'),
                           (1, 'badname')])
        kind = s.kind
        if how == 'missing':
            v.unlink(wpath(s.name))
            kind = 'fail'
        elif how == 'isdir':
            v.unlink(wpath(s.name))
            v.makedirs(wpath(s.name))
            kind = 'fail'
        elif how == 'unreadable':
            v.put(wpath(s.name), v.get(wpath(s.name)), mode=0)
            kind = 'fail'
        elif how == 'garbage':
            v.put(wpath(s.name), v.get(wpath(s.name)) + b'\xff\xfe\n')
            kind = 'fail'
        elif how == 'outdir':                     # the output name is a directory
            v.makedirs(out)
            if kind == 'ok':
                kind = 'fail'
        elif how == 'badname' and api == 'cli' and kind == 'ok':
            v.unlink(wpath(s.name))
            s.name = 'no/such/dir/' + s.name
            kind = 'fail'
        what[s.name] = how or kind
        good[s.name] = kind == 'ok'
        if ch.flag(30) and kind == 'ok':
            v.put(out, 'OLD\n', mode=ch.pick([0o644, 0o400]))
    files = [s.name for s in pr.sources]
    if many:                                      # cheap failures up to the width of the exit status
        files += ['m%d' % i for i in range(n - len(files))]
        for f in files[5:]:
            good[f] = False
    faulty = ch.flag(50) and not many
    rep = api == 'cli' and not many and not faulty and ch.flag(10)
    if rep:
        files.append(ch.pick(files))
    argv = pr.args(files)
    entry = ch.pick(ENTRIES)
    resp = api == 'cli' and ch.flag(20)
    if resp:
        v.put(W + '/args.rsp', ' '.join(argv).replace(' ', ch.pick([' ', '\n', '  '])) + '\n')
        argv = ['@args.rsp']
    v.settle()
    ctx.note('%s %s' % (api, entry))
    ctx.note('yupp %s' % ' '.join(pr.args(files[:8])))
    ctx.note(', '.join('%s: %s' % x for x in what.items()))

    if api == 'translate':
        body = body_all(files)
        argv = []
    else:
        body = K.run_cli(entry)
    kw = dict(argv=argv, cwd=W, bufsize=ch.pick([8192, 512]))
    kind = None
    faults = []
    if faulty:
        gp, gk = solo(ctx, v.clone(), body, **kw)
        kind = ch.weighted([(6, 'errno'), (2, 'short'), (2, 'full'), (2, 'sticky'), (1, 'two')] +
                           ([(1, 'stdout')] if api == 'cli' else []))
        if kind in ('errno', 'two'):
            faults.append(errno_fault(ch, gp.oplog))
        if kind == 'two':
            faults.append(errno_fault(ch, gp.oplog))
        if kind == 'short':
            faults.append({'at': pick_call(ch, gp.oplog), 'kind': 'short', 'sel': ch.int(7)})
    k = K.Kernel(ch, v, ctx.pk)
    p = k.spawn('batch', body, faults=faults, **kw)
    if kind == 'full':
        v.capacity = v.used() + ch.int(400)
    elif kind == 'sticky':
        e, ops = ch.pick(STICKY)
        p.sticky = StickyFrom(p, pick_call(ch, gp.oplog), e, ops)
    elif kind == 'stdout':
        p.std_fault = (1, 1 + ch.int(max(gp.std_writes, 1)), ch.pick([errno.EPIPE, errno.ENOSPC, errno.EIO]))
    ctx.run(k)

    def complete(s):
        o = v.get(wpath(s.output)) if v.lookup(wpath(s.output)) is None or v.lookup(wpath(s.output)).kind == 'f' else None
        return s.out is not None and o == s.out.encode('utf8')

    src = {s.name: s for s in pr.sources}
    status = entry_exit(entry, p) if api == 'cli' else p.exit
    nfail = sum(not good[f] for f in files)
    ninc = sum(not (f in src and good[f] and complete(src[f])) for f in files)
    tail = (p.errout or '')[-500:] + (p.exc_text or '')[-500:]

    if api == 'cli':
        segs = segments(p.out)
        for f, text in segs:
            claims = '* OK *' in text.split('\n')
            if claims and not (good.get(f) and f in src and complete(src[f])):
                ctx.fail('false-ok', '%s (%s) is reported OK, its output holds %s instead of %s; faults %s'
                         % (f, what.get(f), short(v.get(wpath(src[f].output)) if f in src and
                            (v.lookup(wpath(src[f].output)) or v).__class__.__name__ != 'VFS' and
                            v.lookup(wpath(src[f].output)).kind == 'f' else None),
                            short(src[f].out if f in src else None), k.fired))
            if not faulty and not claims and good.get(f):
                ctx.fail('false-fail', '%s is translated, but is not reported OK\n%s' % (f, text[-300:]))
        if status == 0 and ninc:
            ctx.fail('false-zero', 'exit status 0, but %d of %d outputs are missing or wrong; %s; faults %s\n%s'
                     % (ninc, len(files), what, k.fired, tail))
        if status is not None and status % 4 == 0 and status and min(ninc, 63) * 4 > status:
            ctx.fail('low-status', 'exit status %d, but %d of %d outputs are missing or wrong; %s; faults %s\n%s'
                     % (status, ninc, len(files), what, k.fired, tail))
        if not faulty:
            if status != min(nfail, 63) * 4:
                ctx.fail('status', 'exit status %r, %d of %d files failed: %s\n%s' % (status, nfail, len(files), what, tail))
            if not pr.quiet:
                opened = [f for f, _ in segs]
                want = [f for f in files if good[f]]
                got = [f for f, t in segs if '* OK *' in t.split('\n')]
                if want != got:
                    ctx.fail('marks', 'OK marks %s, translated %s (segments %s)' % (got, want, opened))
            if nfail and not re.search('ERROR|CRITICAL|WARN|Error', p.out + p.errout):
                ctx.fail('silent', '%d files failed without any diagnosis' % nfail)
        elif status not in (0, 1, 2, 120) and (status is None or status % 4 or not 0 < status <= 252):
            ctx.fail('status', 'exit status %r under %s\n%s' % (status, k.fired, tail))
        for f in files:
            if not faulty and good[f] and not complete(src[f]):
                ctx.fail('incomplete', '%s: exit status %s, output holds %s, must be %s'
                         % (f, status, short(v.get(wpath(src[f].output))), short(src[f].out)))
    else:
        res = p.result or []
        for f, r in res:
            if isinstance(r, BaseException):
                if not faulty:
                    ctx.fail('raised', 'translate(%r) raised %s: %s (%s)' % (f, type(r).__name__, r, what.get(f)))
                continue
            ok, name = r
            if ok and not (good[f] and complete(src[f])):
                ctx.fail('false-true', 'translate(%r) is true, the output holds %s; faults %s'
                         % (f, short(v.get(wpath(src[f].output))) if v.lookup(wpath(src[f].output)) and
                            v.lookup(wpath(src[f].output)).kind == 'f' else None, k.fired))
            if ok and posixpath.normpath(wpath(name)) != posixpath.normpath(wpath(src[f].output)):
                ctx.fail('name', 'translate(%r) names %r as the output, it is %r' % (f, name, src[f].output))
            if not faulty and bool(ok) != good[f]:
                ctx.fail('false-false', 'translate(%r) is %r, but the file is %s\n%s' % (f, r, what[f], tail))
        if not faulty and len(res) != len(files):
            ctx.fail('raised', 'translate() ended the program\n' + tail)
    if not nfail and not k.fired and kind != 'full':
        ctx.trivial = True
    if kind == 'full':
        ctx.fired('disk-full')
    hit = [e[2:4] for e in k.events if len(e) > 2 and e[1] == 'FAULT']
    ctx.sig = (api, entry, tuple(what.values()), many, resp, pr.browse, pr.quiet, bool(pr.outdir), kind, hit, status)


def body_all(files):
    def body(p):
        y = K.yupp(p)
        sys.argv = ['build.py']
        out = []
        for f in files:
            try:
                out.append((f, y.translate(f)))
            except Exception as e:
                out.append((f, e))
        return out
    return body


def run_args(ctx):
    """Bad command lines end with status 2 and write nothing."""
    ch = ctx.ch
    v = ctx.base.clone()
    g = G.Gen(ch)
    s = g.source('a.yu-c')
    for f, d in g.files.items():
        v.put(W + '/' + f, d)
    v.put(W + '/a.yu-c', s.text)
    bad = ch.pick([['--no-such-option'], ['-l', '9'], ['-t', 'x'], ['-b', '7'], ['--pp-skip-comments', '8'], ['-d'],
                   ['@missing.rsp'], ['-D']])
    if bad[0].startswith('@'):
        argv = bad
    else:
        argv = [['a.yu-c'] + bad, bad + ([] if len(bad) == 1 and bad[0] in ('-d', '-D') else ['a.yu-c'])][ch.int(2)]
    v.settle()
    before = v.tree(W)
    entry = ch.pick(ENTRIES)
    p, k = solo(ctx, v, K.run_cli(entry), argv=argv)
    st = entry_exit(entry, p)
    ctx.note('yupp %s -> %s' % (' '.join(argv), st))
    if st != 2:
        ctx.fail('usage', 'yupp %s: exit status %r, not 2\n%s' % (argv, st, p.errout[-300:]))
    if v.tree(W) != before:
        ctx.fail('usage-write', 'yupp %s: files were written' % argv)
    ctx.sig = ('args', entry, tuple(argv))
