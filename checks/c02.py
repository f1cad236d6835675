"""C02 The previous output is never lost.

State-based invariant over histories of regenerations with crashes, power
losses and I/O errors: what the output name held before a run (or, if the
output was absent, what the backup held) is found complete under the output
name or under the backup name at every instant of the run and after it; after
a successful run the backup is exactly the output that was replaced.
"""
from sim import kernel as K
from sim import gen as G
from sim.scen import *
from checks.c01 import short

LEVEL = 'fault_enumeration'
SEEDS = {'quick': 3000, 'thorough': 60000}
CAP = {'quick': 40, 'thorough': 700}
RULE = ('seeded histories of 2-5 regenerations of one output (source edited, unchanged, broken; output or backup removed '
        'or made read-only by the user in between) with a crash, power loss, I/O error or full disk in about 60% of '
        'the regenerations; non-trivial: at least one fault fired while an earlier output existed; distinct by the '
        'sequence of (edit, user action, fault, operation hit, outcome)')


def run(ctx):
    ch = ctx.ch
    v = ctx.base.clone()
    g = G.Gen(ch)
    name = ch.pick(NAMES)
    api = ch.weighted([(6, 'cli'), (2, 'translate')])
    outdir = 'out' if api == 'cli' and ch.flag(20) else ''
    browse = api == 'cli' and ch.flag(25)
    ro = api != 'cli' or not ch.flag(30)
    v.makedirs(W + '/sub')
    v.makedirs(W + '/out')
    out = wpath(G.output_name(name, outdir))
    bak = out + '.bak'
    entry = ch.pick(ENTRIES)
    argv = ['-q'] + (['-o', outdir] if outdir else []) + (['--pp-browse'] if browse else []) + \
        ([] if ro else ['--no-read-only']) + [name]
    if ch.flag(25):
        v.put(out, 'HAND MADE %d\n' % ch.int(99), mode=ch.pick([0o644, 0o444, 0o400]))
    if ch.flag(25):
        v.put(bak, 'HAND MADE BACKUP\n', mode=ch.pick([0o644, 0o400]))
    v.settle()
    now = 1_600_000_000 * 10**9
    steps = ch.range(2, 5)
    src = None
    any_fault = False
    sig = []
    for step in range(steps):
        edit = ch.weighted([(6, 'new'), (2, 'same'), (2, 'broken'), (1, 'ast')]) if src else 'new'
        if edit != 'same':
            src = g.source(name, {'new': 'ok', 'broken': 'fail', 'ast': 'ast'}[edit], big=12, size=ch.range(1, 3))
            src.output = out
            for f, d in g.files.items():
                v.put(W + '/' + f, d)
                v.put(W + '/sub/' + f, d)
            v.put(wpath(name), src.text)
        user = ch.weighted([(8, ''), (1, 'rm-out'), (1, 'rm-bak'), (1, 'ro-bak'), (1, 'rw-out'), (1, 'edit-out')])
        if user == 'rm-out' and v.get(out) is not None:
            v.unlink(out)
        elif user == 'rm-bak' and v.get(bak) is not None:
            v.unlink(bak)
        elif user == 'ro-bak' and v.get(bak) is not None:
            v.put(bak, v.get(bak), mode=0o400)
        elif user == 'rw-out' and v.get(out) is not None:
            v.put(out, v.get(out), mode=0o644)
        elif user == 'edit-out' and v.get(out) is not None:
            v.put(out, 'EDITED BY HAND %d\n' % step)
        v.settle()
        body = K.run_cli(entry) if api == 'cli' else body_translate(name)
        kw = dict(argv=argv if api == 'cli' else [], cwd=W, bufsize=ch.pick([8192, 512]))
        fkind = ch.weighted([(5, ''), (4, 'kill'), (4, 'power'), (3, 'errno'), (1, 'full'), (2, 'sticky')])
        oplog = None
        if fkind in ('kill', 'power', 'errno', 'sticky'):
            # where the calls are: a throw-away fault-free run from the same state
            gv = v.clone()
            gk = K.Kernel(ch, gv, ctx.pk, now=now)
            gp = gk.spawn('scout', body, **kw)
            ctx.run(gk)
            oplog = gp.oplog
        was_out, was_bak = v.get(out), v.get(bak)
        was_node = v.lookup(out)
        was_id = (was_node.ino, was_node.mtime) if was_node else None
        keep = was_out if was_out is not None else was_bak
        k = K.Kernel(ch, v, ctx.pk, now=now)
        faults = []
        if fkind in ('kill', 'power'):
            f = crash_fault(ch, oplog, False)
            f['kind'] = fkind
            faults = [f]
        elif fkind == 'errno':
            faults = [errno_fault(ch, oplog)]
        p = k.spawn('gen%d' % step, body, faults=faults, **kw)
        if fkind == 'full':
            v.capacity = v.used() + ch.int(200)
        elif fkind == 'sticky':
            e, ops = ch.pick(STICKY)
            p.sticky = StickyFrom(p, pick_call(ch, oplog), e, ops)

        def where():
            return 'output: %s; backup: %s; must keep %s' % (short(v.get(out)), short(v.get(bak)), short(keep))

        def instant(k, p, op, path, path2):
            if keep is not None and v.get(out) != keep and v.get(bak) != keep:
                ctx.fail('lost', 'step %d, before %s %s: %s' % (step, op, path, where()))
        k.on_event.append(instant)
        ctx.run(k)
        v.capacity = None
        if keep is not None and v.get(out) != keep and v.get(bak) != keep:
            ctx.fail('lost-after-' + ('crash' if p.killed else 'error' if k.fired else 'run'),
                     'step %d after %s: %s' % (step, k.fired, where()))
        ok = entry_exit(entry, p) == 0 if api == 'cli' else (p.result or (False,))[0]
        node = v.lookup(out)
        reused = api == 'translate' and node is not None and (node.ino, node.mtime) == was_id
        if ok and reused:
            ctx.probe('output reused')
            if v.get(bak) != was_bak:
                ctx.fail('backup', 'step %d kept the output but changed the backup: %s' % (step, where()))
        elif ok and not p.killed:
            if v.get(out) != src.out.encode('utf8') if src.out is not None else True:
                ctx.fail('wrong', 'step %d reported success, %s holds %s' % (step, out, short(v.get(out))))
            want = was_out if was_out is not None else was_bak
            if v.get(bak) != want:
                ctx.fail('backup', 'step %d succeeded: backup is %s, the replaced output was %s'
                         % (step, short(v.get(bak)), short(want)))
        if k.fired and keep is not None:
            any_fault = True
        hit = [e[2:4] for e in k.events if len(e) > 2 and e[1] in ('FAULT', 'CRASH')]
        sig.append((edit, user, fkind, hit, was_out is not None, was_bak is not None, bool(ok), p.killed))
        ctx.note('step %d: %s %s fault %s -> %s' % (step, edit, user, dict(k.fired), 'ok' if ok else 'no'))
        now = k.now + ch.pick([1, 10**6, 10**9, 10**12])
    ctx.sig = (api, entry, browse, ro, sig)
    ctx.trivial = not any_fault
    ctx.note('argv %s' % argv)
