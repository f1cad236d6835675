"""C08 Translations running at the same time do not harm each other.

2-4 simulated processes of the real tool in one directory, interleaved at every
system call by the seeded scheduler; one of them may be killed or meet an I/O
error.  The oracle is what each of them does alone on the same files.
"""
import errno

from sim import kernel as K
from sim import gen as G
from sim import pygen as P
from sim.scen import *
from checks.c01 import short

LEVEL = 'exploration'
SEEDS = {'quick': 4000, 'thorough': 90000}
CAP = {'quick': 35, 'thorough': 700}
RULE = ('2-4 processes - batches over different sources, over the same ones in seeded orders, over one source with different '
        'definitions, or Python scripts started through the codec with or without cached code - are interleaved at every '
        'system call with seeded preemption; in a third of the runs one of them is killed or meets an I/O error; the files '
        'are checked at every system call, the texts, verdicts and messages at the end, against the same process alone; '
        'non-trivial: at least two switches between processes that both change files; distinct by (workload, sources, '
        'sequence of changing operations by process)')


def run(ctx):
    ch = ctx.ch
    work = ch.weighted([(3, 'distinct'), (4, 'same'), (2, 'variants'), (3, 'codec')])
    n = ch.weighted([(5, 2), (2, 3), (1, 4)])
    v = ctx.base.clone()
    v.makedirs(W + '/sub')
    g = G.Gen(ch)
    jobs = []                                     # (body, argv, {output: ...})
    outs = []
    mid = {}                                      # output -> texts of its passes
    frags = [f for f in G.Gen.FRAGS]
    browse = ch.flag(40) and work in ('same', 'distinct')
    opts = ['--pp-browse'] * browse + ['--no-read-only'] * ch.flag(30) + ['-q'] * ch.flag(20)
    kinds = [(6, 'ok'), (1, 'fail'), (1, 'ast')]
    if work in ('distinct', 'same'):
        names = [x for x in NAMES if x != 'sub/s.yu-c'] + ['s2.yu-c']
        srcs = []
        for i in range(ch.range(n, n + 2) if work == 'distinct' else ch.range(1, 3)):
            nm = names.pop(ch.int(len(names)))
            k = ch.weighted(kinds)
            s = g.source(nm, k, frags=frags, size=ch.range(1, 3), big=10)
            if ch.flag(15):
                s = g.passages(nm, tag='p%d' % i, bad=False)
                outs += [o for o, _ in s.passes]
                for o, t in s.passes:
                    mid.setdefault(o, set()).add(t.encode('utf8'))
            srcs.append(s)
            outs.append(s.output)
            v.put(W + '/' + nm, s.text)
        for i in range(n):
            mine = [s.name for s in srcs]
            if work == 'distinct':
                mine = [s.name for j, s in enumerate(srcs) if j % n == i]
            elif ch.flag(50):
                mine.reverse()
            jobs.append((K.run_cli(ch.pick(['main', 'script'])), opts + mine))
    elif work == 'variants':
        s = g.source('a.yu-c', 'ok', frags=[f for f in frags if f != 'names'], size=2)
        s.text = 'w ($WORKER)\n' + s.text
        v.put(W + '/a.yu-c', s.text)
        outs.append('a.c')
        for i in range(n):
            jobs.append((K.run_cli('main'), opts + ['-D', 'WORKER:%d' % i, 'a.yu-c']))
    else:
        sc = P.Script(ch, raising=ch.flag(40), enc='')
        for f, t in sc.files.items():
            v.put(W + '/' + f, t)
        v.put(W + '/s.py', sc.data)
        outs.append('s.yugen.py')
        whole = ch.flag(40)
        for i in range(n):
            jobs.append((lambda p: run_script(p, 's.py', whole=whole), ['s.py']))
    for d in ('', 'sub/'):
        for f, t in g.files.items():
            v.put(W + '/' + d + f, t)
    outs = sorted(set(outs))
    prev = ch.weighted([(3, 'none'), (5, 'old'), (1, 'real')])
    now = 1_600_000_000 * 10**9
    if prev == 'old':
        for o in outs:
            if ch.flag(80):
                v.put(W + '/' + o, 'OLD %s\n' % o, mode=ch.pick([0o644, 0o400]))
            if ch.flag(40):
                v.put(W + '/' + o + '.bak', 'OLDER %s\n' % o, mode=ch.pick([0o644, 0o400]))
            if browse and ch.flag(50):
                v.put(W + '/' + o + '.json', '{"files": [], "browse": [], "offset": []}')
        if work == 'codec':                       # older than the script: must be regenerated
            nd = v.lookup(W + '/s.py')
            nd.mtime = now - 50 * 10**9
            for f in list(sc.files):
                v.lookup(W + '/' + f).mtime = now - 60 * 10**9
            for o in outs:
                nd = v.lookup(W + '/' + o)
                if nd is not None:
                    nd.mtime = now - 100 * 10**9
    elif prev == 'real':                          # made by an earlier run
        p, k = solo(ctx, v, jobs[0][0], argv=jobs[0][1], now=now - 90 * 10**9)
        now = k.now + 5 * 10**9
        if work == 'codec' and ch.flag(50):
            v.lookup(W + '/s.py').mtime = now - 10**9
    v.settle()
    before = v.tree(W)
    ctx.note('%s: %s' % (work, ' || '.join(' '.join(a) for _, a in jobs)))

    # every job alone
    alone = []
    for body, argv in jobs:
        w = v.clone()
        k = K.Kernel(ch, w, ctx.pk, now=now)
        p = k.spawn('p', body, argv=argv, cwd=W)
        if browse and mid:
            k.on_event.append(lambda k, p, op, path, path2: [
                mid.setdefault(o + '.json', set()).add(w.get(W + '/' + o + '.json')) for o in outs if op in MUT])
        ctx.run(k)
        hit = {x[len(W) + 1:] for e in k.events if len(e) > 4 and e[2] in MUT for x in e[3:5] if isinstance(x, str)}
        alone.append((p, w.tree(W), hit))
    goals = {}                                    # file -> contents some job alone leaves there
    for p, t, hit in alone:
        for f in set(t) | set(before):
            if f in hit:
                goals.setdefault(f, set()).add(t[f][2] if f in t else None)
    for o in outs:
        # one of several runs may back up what another one wrote
        if o in goals and work != 'distinct':
            goals.setdefault(o + '.bak', set()).update(goals[o] | mid.get(o, set()) | ({before[o][2]} if o in before else set()))

    def fine(f):
        ok = {None, before[f][2] if f in before else None} | goals.get(f, set()) | mid.get(f, set())
        return ok | fine(f[:-4]) if f.endswith('.bak') else ok

    k = K.Kernel(ch, v, ctx.pk, now=now, preempt=ch.pick([3, 15, 40, 70]), tick=ch.pick([10_000, 1_000_000]))
    kind = ch.weighted([(7, ''), (2, 'kill'), (1, 'errno')])
    victim = ch.int(n) if kind else None
    ps = []
    for i, (body, argv) in enumerate(jobs):
        faults = []
        if i == victim:
            faults = [crash_fault(ch, alone[i][0].oplog, False) if kind == 'kill' else errno_fault(ch, alone[i][0].oplog)]
            if kind == 'kill':
                faults[0]['kind'] = 'kill'
        p = k.spawn('j%d' % i, body, argv=argv, cwd=W, faults=faults)
        if victim is None and len(jobs) == 2 and ch.flag(10):
            p.plan = {}
        ps.append(p)

    def instant(k, p, op, path, path2):
        if op not in MUT:
            return
        for f in goals:
            x = v.get(W + '/' + f)
            if x not in fine(f):
                ctx.fail('partial', 'before %s %s of process %d: %s holds %s' % (op, path, p.pid, f, short(x)))
    k.on_event.append(instant)
    ctx.run(k)
    after = v.tree(W)
    for i, p in enumerate(ps):
        if i == victim and k.fired:
            continue
        q = alone[i][0]
        who = 'process %d of %d (%s)' % (i + 1, n, ' '.join(jobs[i][1]))
        extra = '; faults of another one: %s' % k.fired if k.fired else ''
        if (p.exit, repr(p.result)) != (q.exit, repr(q.result)):
            ctx.fail('verdict', '%s ends with %s, alone with %s%s\n%s' % (who, p.exit, q.exit, extra, (p.exc_text or p.out + p.errout)[-500:]))
        if work == 'codec':
            for x in ('code', 'traceback'):
                if x == 'traceback' and frames(p.ns.get(x)) == frames(q.ns.get(x)):
                    continue                      # no text of a line while the file is being replaced
                if p.ns.get(x) != q.ns.get(x):
                    ctx.fail(x, '%s got %s, alone %s%s\n%s' % (who, short(p.ns.get(x)), short(q.ns.get(x)), extra, p.errout[-500:]))
        if work != 'codec' and (p.out, p.errout) != (q.out, q.errout):      # cached code gives no warnings
            ctx.fail('messages', '%s said\n%s\nalone it says\n%s%s' % (who, (p.out + p.errout)[-500:], (q.out + q.errout)[-500:], extra))
    quiet = not k.fired
    for f in sorted(set(goals) | set(before) | set(after)):
        x = after[f][2] if f in after else None
        b = before[f][2] if f in before else None
        if f in goals and quiet:
            ok = set(goals[f])
            if f.endswith('.bak') and work != 'distinct':
                ok |= {b}
        elif f in goals:
            ok = fine(f)
        else:
            ok = {b}
        if x not in ok:
            if G.is_temp(f) and f not in before and any(p.killed for p in ps):
                continue
            ctx.fail('file', '%s holds %s, one process alone leaves %s; faults %s' % (f, short(x), [short(y) for y in ok], k.fired))
    if k.fired:                                   # C02 for the victim: nothing is lost
        for o in outs:
            held = before[o][2] if o in before else before[o + '.bak'][2] if o + '.bak' in before else None
            if held is not None and o in goals:
                have = [after[x][2] for x in (o, o + '.bak') if x in after]
                if not any(x == held or x in goals[o] | mid.get(o, set()) for x in have):
                    ctx.fail('lost', '%s: neither the previous output nor a new one is there; faults %s' % (o, k.fired))
    seq = [(e[0], e[2]) for e in k.events if len(e) > 3 and e[2] in MUT]
    sw = sum(a[0] != b[0] for a, b in zip(seq, seq[1:]))
    ctx.trivial = sw < 2
    if sw >= 2:
        ctx.probe('interleaved:' + work)
    ctx.fired('preemption', k.switches)
    ctx.sig = (work, n, prev, kind, len(outs), seq)


def frames(t):
    """A traceback without the source lines."""
    return t and [x for x in t.split('\n') if not x.startswith('    ')]
