"""C01 All-or-nothing publication.

At every instant of a translation, and after any crash, power loss or I/O
error in it, the output file is absent, its previous contents or the complete
new text; the same for the browse information and the AST file; the next
undisturbed run completes.
"""
from sim import kernel as K
from sim import gen as G
from sim.scen import *

LEVEL = 'fault_enumeration'
SEEDS = {'quick': 5000, 'thorough': 90000}
CAP = {'quick': 40, 'thorough': 700}
RULE = ('seeded project (1 source of 1-6 language fragments with a known expansion, one of 12 naming forms, random '
        'options, 0-2 earlier generations of the output, .bak/.json/.ast) translated by the real tool; one fault is '
        'placed by call number from the fault-free trace; non-trivial: the fault fired while the tool was running; '
        'distinct by (entry, options, fault kind, operation hit, previous state)')


def allowed(v, before, path, new):
    return {None, before.get(path), new}


def run(ctx):
    ch = ctx.ch
    api = ch.weighted([(6, 'cli'), (2, 'translate')])
    pr = Project(ctx, kinds=((8, 'ok'), (1, 'ast')), defines=api == 'cli')
    s = pr.sources[0]
    pr.describe()
    entry = ch.pick(ENTRIES) if api == 'cli' else None
    bufsize = ch.pick([8192, 8192, 512, 4096])
    if api == 'translate':
        s.output = G.output_name(s.name)
        pr.browse = False
        pr.read_only = True
    v = ctx.base.clone()
    pr.install(v)
    out = wpath(s.output)
    ast = posixpath.splitext(out)[0] + '.ast'
    prev = ch.weighted([(3, 'none'), (4, 'old'), (3, 'old+bak'), (1, 'bak')])
    if 'old' in prev:
        v.put(out, 'OLD OUTPUT %d\n' % ch.int(1000) + 'o' * ch.pick([0, 9000]), mode=ch.pick([0o644, 0o400]))
        if pr.browse or ch.flag(20):
            v.put(out + '.json', '{"files": [], "browse": [], "offset": [] }')
    if 'bak' in prev:
        v.put(out + '.bak', 'OLDER OUTPUT\n', mode=ch.pick([0o644, 0o400]))
    if s.kind == 'ast' and ch.flag(50):
        v.put(ast, 'OLD AST')
    v.settle()
    body = K.run_cli(entry) if api == 'cli' else body_translate(s.name)
    argv = pr.args() if api == 'cli' else []
    kw = dict(argv=argv, cwd=W, bufsize=bufsize)

    # fault-free reference
    gv = v.clone()
    gk = K.Kernel(ch, gv, ctx.pk)
    g = gk.spawn('golden', body, **kw)
    ctx.run(gk)
    gold = {f: gv.get(f) for f in (out, out + '.bak', out + '.json', ast)}
    before = {f: v.get(f) for f in gold}
    if s.kind == 'ok':
        if gold[out] != s.out.encode('utf8'):
            ctx.fail('incomplete', 'without any fault %s holds %r, not the translation %r'
                     % (s.output, short(gold[out]), short(s.out)))
    elif gold[ast] is None:
        ctx.fail('incomplete', 'no AST file after an irreducible translation')
    for f in gv.tree(W):
        if G.is_temp(f) and v.get(W + '/' + f) is None and f not in gold:
            ctx.fail('litter', '%s is left after an undisturbed run' % f)

    # the same run with a fault
    kind = ch.weighted([(4, 'kill'), (4, 'power'), (4, 'errno'), (1, 'short'), (2, 'full'), (2, 'sticky'), (2, 'double')])
    fv = v.clone()
    k = K.Kernel(ch, fv, ctx.pk)
    faults = []
    if kind in ('kill', 'power'):
        f = crash_fault(ch, g.oplog, False)
        f['kind'] = kind
        faults.append(f)
    elif kind == 'errno':
        faults.append(errno_fault(ch, g.oplog))
    elif kind == 'double':
        faults += [errno_fault(ch, g.oplog), crash_fault(ch, g.oplog)]
    elif kind == 'short':
        faults.append({'at': pick_call(ch, g.oplog), 'kind': 'short', 'sel': ch.int(7)})
    p = k.spawn('victim', body, faults=faults, **kw)
    p.pid = g.pid
    if kind == 'full':
        fv.capacity = fv.used() + ch.int(len(gold[out] or gold[ast] or b'') + 400)
    if kind == 'sticky':
        e, ops = ch.pick(STICKY)
        p.sticky = StickyFrom(p, pick_call(ch, g.oplog), e, ops)

    watch = [(out, {None, before[out], gold[out]}), (out + '.json', {None, before[out + '.json'], gold[out + '.json']}),
             (ast, {None, before[ast], gold[ast]}),
             (out + '.bak', {None, before[out + '.bak'], before[out], gold[out + '.bak']})]

    def instant(k, p, op, path, path2):
        for f, ok in watch:
            x = fv.get(f)
            if x not in ok:
                ctx.fail('partial', 'before %s %s: %s holds %s' % (op, path, f[len(W) + 1:], short(x)))
    k.on_event.append(instant)
    ctx.run(k)
    for f, ok in watch:
        x = fv.get(f)
        if x not in ok:
            ctx.fail('partial-after-' + ('crash' if p.killed else 'error'), '%s holds %s; faults %s'
                     % (f[len(W) + 1:], short(x), k.fired))
    if not k.fired and kind != 'full':
        ctx.trivial = True
    if kind == 'full' and fv.get(out) != gold[out]:
        ctx.fired('disk-full')

    # the fault is over: the next run must do the whole job
    fv.capacity = None
    k2 = K.Kernel(ch, fv, ctx.pk, now=k.now + 10**9)
    if ch.flag(30):
        k2.next_pid = p.pid                           # same pid again
    q = k2.spawn('again', body, **kw)
    ctx.run(k2)
    for f in (out,) if s.kind == 'ok' else (ast,):
        if fv.get(f) != gold[f]:
            ctx.fail('stuck', 'after %s, an undisturbed run leaves %s in %s (exit %s)\n%s'
                     % (k.fired, short(fv.get(f)), f, q.exit, (q.errout or '')[-300:]))
    hit = [e for e in k.events if len(e) > 2 and e[1] in ('FAULT', 'CRASH')]
    ctx.sig = (api, entry, kind, prev, pr.browse, pr.read_only, bool(pr.outdir), s.kind, bufsize,
               [e[2:4] for e in hit], posixpath.splitext(s.name)[1], len(gold[out] or b'') > bufsize)
    ctx.note('%s %s: %s' % (api, kind, k.fired))
    if p.killed:
        ctx.probe('crashed')
    if out not in (None,) and fv.get(out + '.json') is not None:
        ctx.probe('browse file present')


def short(x):
    if x is None:
        return 'nothing'
    return '%d bytes %r' % (len(x), x if len(x) < 120 else x[:50] + (b'...' if isinstance(x, bytes) else '...') + x[-50:])
