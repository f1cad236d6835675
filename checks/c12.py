"""C12 Each pass of a multi-pass source gives its own complete output.

Seeded batches of sources of several passages, mixed with ordinary ones, run by
the command line (also several times in one process), with crashes, I/O errors
and a full disk in about half of the runs; the text of every pass is known to
the generator.
"""
import errno
import re

from sim import kernel as K
from sim import gen as G
from sim.scen import *
from checks.c01 import short
from checks.c04 import segments

LEVEL = 'fault_enumeration'
SEEDS = {'quick': 4000, 'thorough': 70000}
CAP = {'quick': 35, 'thorough': 600}
RULE = ('seeded batches of 1-3 sources, most of them with 1-5 passages that choose their own output names (directly or '
        'through a variable) or share one, with definitions, counters, shorter lists, imports and a failing pass at a seeded position; '
        'the batch is run once or twice in a process; about half of the runs meet an I/O error, a crash, a power loss or a '
        'full disk; non-trivial: at least one source has two or more passes; distinct by (passes, names, failing pass, '
        'fault, operation hit, entry)')


def run(ctx):
    ch = ctx.ch
    v = ctx.base.clone()
    v.makedirs(W + '/sub')
    g = G.Gen(ch)
    srcs = []
    names = ['a.yu-c', 'b.yu-h', 'c.c.yu', 'd.yu', 'sub/s.yu-c']
    for i in range(ch.range(1, 3)):
        nm = names.pop(ch.int(len(names)))
        if ch.flag(75):
            srcs.append(g.passages(nm, tag='st'[ch.int(2)] + str(i)))
        else:
            s = g.source(nm, ch.weighted([(3, 'ok'), (1, 'fail')]))
            s.passes = [(s.output, s.out)]
            s.good = s.kind == 'ok'
            srcs.append(s)
    outdir = 'out' if ch.flag(15) else ''
    if outdir:
        v.makedirs(W + '/out')
        for s in srcs:
            o = G.output_name(s.name, outdir)
            s.passes = [(o if n == s.output else n, t) for n, t in s.passes]
            if '($__OUTPUT_FILE__)' in s.text:
                pass
    for d in ('', 'sub/'):
        for f, t in g.files.items():
            v.put(W + '/' + d + f, t)
    for s in srcs:
        v.put(W + '/' + s.name, s.text)
    entry = ch.pick(ENTRIES)
    quiet = ch.flag(25)
    browse = ch.flag(15)
    argv = (['-q'] if quiet else []) + (['-o', outdir] if outdir else []) + (['--pp-browse'] if browse else []) + \
        (['--no-read-only'] if ch.flag(30) else []) + [s.name for s in srcs]
    twice = entry == 'cli' and ch.flag(50)
    old = ch.flag(30)
    if old:
        for s in srcs:
            v.put(W + '/' + s.passes[0][0], 'OLD\n', mode=ch.pick([0o644, 0o400]))
    v.settle()
    before = v.tree(W)
    ctx.note('yupp %s (%s%s)' % (' '.join(argv), entry, ', twice' if twice else ''))
    for s in srcs:
        ctx.note('%s: %s' % (s.name, ' | '.join(s.text.strip().split('\n'))[:400]))

    def twice_body(p):
        y = K.yupp(p)
        sys.argv = ['build.py']
        r = [y.cli(list(argv))]
        p.ns['first'] = len(p.std[1])
        r.append(y.cli(list(argv)))
        return r
    body = twice_body if twice else K.run_cli(entry)
    kw = dict(argv=[] if twice else argv, cwd=W)
    kind = ch.weighted([(5, ''), (3, 'errno'), (2, 'kill'), (2, 'power'), (1, 'full'), (1, 'sticky'), (1, 'short')])
    faults = []
    if kind:
        gp, gk = solo(ctx, v.clone(), body, **kw)
        if kind == 'errno':
            faults.append(errno_fault(ch, gp.oplog))
        elif kind in ('kill', 'power'):
            f = crash_fault(ch, gp.oplog, False)
            f['kind'] = kind
            faults.append(f)
        elif kind == 'short':
            faults.append({'at': pick_call(ch, gp.oplog), 'kind': 'short', 'sel': ch.int(7)})
    k = K.Kernel(ch, v, ctx.pk)
    p = k.spawn('batch', body, faults=faults, **kw)
    if kind == 'full':
        v.capacity = v.used() + ch.int(600)
    elif kind == 'sticky':
        e, ops = ch.pick(STICKY)
        p.sticky = StickyFrom(p, pick_call(ch, gp.oplog), e, ops)
    ctx.run(k)
    if twice and p.exc is not None and not kind:
        ctx.fail("raised", p.exc_text[-800:])

    texts = {}                                    # output -> texts of its passes in order
    for s in srcs:
        for n, t in s.passes:
            if t is not None:
                texts.setdefault(n, []).append(t.encode('utf8'))
    nfail = sum(not s.good for s in srcs)
    disturbed = bool(k.fired) or kind == 'full'
    if not kind:
        status = [entry_exit(entry, p)] if not twice else p.result
        if status != [4 * nfail] * len(status):
            ctx.fail('status', 'exit status %s, %d of %d sources fail\n%s' % (status, nfail, len(srcs), (p.errout + p.out)[-600:]))
        want = sum(t is not None for s in srcs for n, t in s.passes)
        if not quiet:
            oks = p.out.split('\n').count('* OK *') - len(status)    # the start-up test
            if oks != want * len(status):
                ctx.fail('marks', '%d passes are reported OK, must be %d' % (oks, want * len(status)))
            order = re.findall(r'^--> \[(.*)\]$', p.out, re.M)
            must = [n for s in srcs for n, t in s.passes if t is not None] * len(status)
            if order != must:
                ctx.fail('order', 'passes were saved in %s, must be %s' % (order, must))
    after = v.tree(W)
    for n, ts in texts.items():
        have = v.get(W + '/' + n)
        if not kind:
            if have != ts[-1]:
                ctx.fail('output', '%s holds %s, must be %s' % (n, short(have), short(ts[-1])))
            if len(ts) > 1 and v.get(W + '/' + n + '.bak') != ts[-2]:
                ctx.fail('backup', '%s.bak holds %s, the pass before gives %s' % (n, short(v.get(W + '/' + n + '.bak')), short(ts[-2])))
        else:
            was = before[n][2] if n in before else None
            if have not in [None, was] + ts:
                ctx.fail('mixed', '%s holds %s, its passes give %s; faults %s' % (n, short(have), [short(t) for t in ts], k.fired))
    for s in srcs:
        if kind and not twice:
            # passes are made in order
            got = [v.get(W + '/' + n) == t.encode('utf8') if t is not None else None for n, t in s.passes]
            ns = [n for n, _ in s.passes]
            if len(set(ns)) == len(ns) and len(got) > 1:
                for i in range(1, len(got)):
                    if got[i] and got[i - 1] is False:
                        ctx.fail('order', '%s: pass %d is there, pass %d is not; faults %s' % (s.name, i, i - 1, k.fired))
        for n, t in s.passes:
            if t is None and n not in texts and after.get(n) != before.get(n):
                ctx.fail('failed-pass', '%s: the failed pass wrote %s' % (s.name, n))
    known = set(texts) | {s.name for s in srcs} | set(g.files) | {'sub/' + f for f in g.files}
    for f in after:
        b = re.sub(r'\.(bak|json|ast)$', '', f)
        if f not in before and b not in texts and not f.endswith('.ast') and not ((p.killed or kind == 'sticky') and G.is_temp(f)):
            ctx.fail('litter', '%s appeared (sources %s)' % (f, [s.name for s in srcs]))
    if kind and not p.killed and not twice:
        status = entry_exit(entry, p)
        inc = [s.name for s in srcs if not s.good or any(v.get(W + '/' + n) != texts[n][-1] for n, t in s.passes)]
        if status == 0 and inc:
            ctx.fail('false-zero', 'exit status 0, but %s are not complete; faults %s' % (inc, k.fired))
        if status and status % 4 == 0 and status < 4 * len(inc):
            ctx.fail('low-status', 'exit status %d, but %s are not complete; faults %s' % (status, inc, k.fired))
    ctx.trivial = all(len(s.passes) < 2 for s in srcs)
    hit = [e[2:4] for e in k.events if len(e) > 2 and e[1] in ('FAULT', 'CRASH')]
    ctx.probe('passes', sum(len(s.passes) for s in srcs))
    ctx.sig = ([(s.kind, [n for n, _ in s.passes], s.good) for s in srcs], kind, hit, entry, twice, old, outdir)
    if kind == 'full' and p.exit:
        ctx.fired('disk-full')
