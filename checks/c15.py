"""C15 Generated Python coroutines behave as coroutines.

Seeded programs of Python coroutines are generated by the real tool - as a
script read through the codec in seeded chunks, fresh or cached, or as a file
translated by the command line - and driven through seeded schedules of calls,
condition changes, new starts and closings; the log of effects, evaluations of
conditions and statuses must be the log of the reference model.
"""
import builtins

from sim import kernel as K
from sim import coro as C
from sim import pygen
from sim.scen import *

LEVEL = 'exploration'
SEEDS = {'quick': 3000, 'thorough': 60000}
CAP = {'quick': 30, 'thorough': 600}
RULE = ('seeded programs of 1-4 Python coroutines (nested loops, conditions, waits until and while, yields, quits, returns, '
        'child coroutines, local state), generated through the codec (7 headers, seeded chunks, fresh or cached) or by the '
        'command line, and run through 12 seeded schedules of 10-60 calls, condition changes, new starts and closings; the '
        'complete logs must equal the log of the model; non-trivial: some coroutine was suspended and resumed; distinct by '
        '(program text, schedules)')


def run(ctx):
    ch = ctx.ch
    prog = C.Program(ch, lang='py')
    head = pygen.header(ch, ch.pick(['', '', 'utf8']))
    way = ch.weighted([(3, 'codec'), (1, 'cached'), (2, 'cli')])
    plans = [C.schedule(ch, prog, ch.range(10, 60), close=ch.flag(40)) for _ in range(12)]
    ctx.note('%s: %s' % (way, prog.text_py(head)[:3000]))
    text = prog.text_py(head)
    name = 'co.yu-py' if way == 'cli' else ch.pick(['co.py', 'co.yu-py'])
    v = ctx.base.clone()
    v.put(W + '/' + name, text)
    v.settle()
    now = 1_600_000_100 * 10**9
    if way == 'cli':
        p, k = solo(ctx, v, K.run_cli('main'), now=now, argv=['-q', '-Wno-unbound', name])
        code = v.get(W + '/co.py')
        if p.exit or code is None:
            ctx.fail('translation', 'exit %s\n%s\n%s' % (p.exit, (p.out + p.errout)[-900:], text))
        code = code.decode('utf8')
    else:
        for i in range(1 + (way == 'cached')):
            chunk = ch.pick([None, None, 1, 5, 100, 4096])
            p, k = solo(ctx, v, body_codec(name, chunk), now=now + i * 60 * 10**9)
            if p.exc is not None or 'code' not in p.ns:
                ctx.fail('translation', '%s: %s\n%s\n%s' % (way, p.exc, (p.out + p.errout)[-900:], text))
        code = p.ns['head'] + p.ns['code']
    try:
        obj = compile(code, 'generated', 'exec')
    except SyntaxError as e:
        ctx.fail('compile', 'the generated code is not valid Python: %s\n%s\n%s' % (e, code, text))
    resumed = 0
    for cmds in plans:
        want = C.Model(prog, statics=False).run(cmds)
        got = drive(obj, prog, cmds)
        if got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            ctx.fail('log', '%s, schedule %s\nline %d of the log is %r, must be %r; before it: %s\n%s'
                     % (way, ' '.join('%d:%d' % c for c in cmds), i + 1, got[i] if i < len(got) else None,
                        want[i] if i < len(want) else None, got[max(0, i - 6):i], text))
        st = [x for x in want if x.startswith('r ')]
        resumed += sum(x.split()[2] in '12' for x in st)
        ctx.probe('calls', len(st))
        ctx.fired('new start from outside', sum(c[0] == 2 for c in cmds))
        ctx.fired('closed from outside', sum(c[0] == 4 for c in cmds))
        ctx.fired('condition changed from outside', sum(c[0] == 1 for c in cmds))
        ctx.fired('preemption', sum(a != b for a, b in zip(cmds, cmds[1:])))
        ctx.stats.inter.add(hkey(cmds, want))
    ctx.probe('way: ' + way)
    ctx.trivial = not resumed
    ctx.sig = (text, plans)


def hkey(cmds, want):
    import hashlib
    return hashlib.sha1(repr((cmds, want)).encode()).hexdigest()[:12]


def drive(obj, prog, cmds):
    """The log of the generated program under a schedule."""
    ns = {'__name__': 'generated', '__builtins__': builtins}
    exec(obj, ns)
    log = []
    for i in range(len(prog.coros)):
        ns['init%d' % i]()
    F, L = ns['F'], ns['LOG']
    for op, a in cmds:
        r = None
        if op == 0:
            try:
                st, alive = ns['call%d' % a]()
                r = 'r %d %d %d' % (a, st, alive)
            except Exception as e:
                r = 'r %d %s' % (a, type(e).__name__)
        elif op == 1:
            F[a // 100] = a % 100
        elif op == 2:
            ns['init%d' % a]()
        else:
            ns['uninit%d' % a]()
        log += ['%d %d' % x for x in L]
        del L[:]
        if r:
            log.append(r)
        log.append('s ' + ' '.join('%d' % x for x in F))
    return log
