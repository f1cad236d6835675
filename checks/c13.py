"""C13 Generated C coroutines behave as coroutines.

Seeded programs of coroutines are translated by the real tool (both backends of
corolib), compiled by gcc and driven through seeded schedules of calls, stalls,
condition changes and restarts from outside; the log of the program - every
effect, every evaluation of a condition, every status - must be the log of the
reference model, for every schedule.
"""
from sim import kernel as K
from sim import coro as C
from sim.scen import *
from checks.c01 import short

LEVEL = 'exploration'
SEEDS = {'quick': 1500, 'thorough': 30000}
CAP = {'quick': 40, 'thorough': 700}
SEMS = False
RULE = ('seeded programs of 1-5 coroutines (nested loops, conditions, waits, yields, quits, restarts, child coroutines, static '
        'state, entry and exit code, twins made by a macro), each translated by both backends of corolib, and mostly also written with the macros of coroutine.h by hand, compiled, and run '
        'through 16 seeded schedules of 10-60 calls, condition changes and context initialisations (a coroutine started '
        'anew at an arbitrary moment); the complete logs must equal the log of the model; non-trivial: some coroutine was '
        'suspended and resumed in a schedule; distinct by (program text, schedules)')


def program(ch):
    return C.Program(ch)


def run(ctx):
    ch = ctx.ch
    prog = C.Program(ch)
    drive(ctx, prog, [C.schedule(ch, prog, ch.range(10, 60)) for _ in range(16)])


def translate(ctx, prog, mode):
    """Text generated by the real tool for one backend."""
    text = prog.text(mode)
    v = ctx.base.clone()
    v.makedirs(W)
    v.put(W + '/p.yu-c', text)
    v.settle()
    p, k = solo(ctx, v, K.run_cli('main'), argv=['-q', '-Wno-unbound', 'p.yu-c'])
    if p.exit or v.get(W + '/p.c') is None:
        ctx.fail('translation', 'backend %s: exit %s\n%s\n%s' % (mode, p.exit, (p.out + p.errout)[-700:], text))
    return v.get(W + '/p.c').decode('utf8')


def drive(ctx, prog, schedules, check=None):
    ch = ctx.ch
    ctx.note(prog.text(0)[:3000])
    resumed = 0
    backends = [(0, ch.pick(['-O0', '-O0', '-O1', '-O2'])), (1, '-O0')]
    if ch.flag(20):
        backends.append((None, '-O0'))
    if ch.flag(70):
        backends.append(('h', '-O0'))
    with C.Scratch() as s:
        exes = []
        for mode, opt in backends:
            text = translate(ctx, prog, mode) if mode != 'h' else prog.text_h()
            try:
                exes.append((mode, opt, s.build('p%s' % mode, text, opt, K.REPO + '/lib')))
            except ValueError as e:
                ctx.fail('compile', 'backend %s: the generated code does not compile\n%s\n%s' % (mode, e, text if mode == 'h' else prog.text(mode)))
        for cmds in schedules:
            m = C.Model(prog)
            want = m.run(cmds)
            for mode, opt, exe in exes:
                got = s.run(exe, cmds)
                if got != want:
                    i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                    ctx.fail('log', 'backend %s %s, schedule %s\nline %d of the log is %r, must be %r; before it: %s\n%s'
                             % (mode, opt, ' '.join('%d:%d' % c for c in cmds), i + 1, got[i] if i < len(got) else None,
                                want[i] if i < len(want) else None, got[max(0, i - 6):i], prog.text_h() if mode == 'h' else prog.text(mode)))
                if check:
                    check(ctx, prog, cmds, got)
            st = [x for x in want if x.startswith('r ')]
            resumed += sum(x.split()[2] in '12' for x in st)
            ctx.probe('calls', len(st))
            ctx.fired('restart from outside', sum(c[0] == 2 for c in cmds))
            ctx.fired('condition changed from outside', sum(c[0] == 1 for c in cmds))
            ctx.fired('preemption', sum(a != b for a, b in zip(cmds, cmds[1:])))
            ctx.stats.inter.add(hkey(cmds, want))
    ctx.probe('schedules', len(schedules) * len(exes))
    ctx.trivial = not resumed
    ctx.sig = (prog.text(0), schedules)


def hkey(cmds, want):
    import hashlib
    return hashlib.sha1(repr((cmds, want)).encode()).hexdigest()[:12]
