"""C14 Semaphores of generated C coroutines synchronise.

Seeded programs of coroutines around semaphores, translated by the real tool
(both backends), compiled and driven through seeded schedules with stalled and
restarted coroutines and semaphores set from outside.  The log of the program
itself is checked: conservation of the count, no entry at zero, no waiting when
it is positive, progress as soon as there are enough releases; and it must be
the log of the reference model.
"""
from sim import coro as C
from sim.scen import *
from checks import c13

LEVEL = 'exploration'
SEEDS = {'quick': 1500, 'thorough': 30000}
CAP = {'quick': 40, 'thorough': 700}
RULE = ('seeded programs of 1-5 coroutines with critical sections, separate acquires and releases on 1-3 semaphores, each '
        'translated by both backends of corolib, compiled, and run through 12 seeded schedules of 20-80 calls with stalled '
        'coroutines, coroutines started anew while they hold or wait, and semaphores set from outside, followed by a phase '
        'with enough releases in which every coroutine is called; non-trivial: some coroutine had to wait for a semaphore; '
        'distinct by (program text, schedules)')
WEIGHTS = {'crit': 8, 'acq': 4, 'rel': 4, 'quit': 0, 'waitcoro': 0, 'ifalive': 0, 'forever': 5, 'wait': 2, 'restart': 0}


def run(ctx):
    ch = ctx.ch
    prog = C.Program(ch, sems=ch.range(1, 3), weights=dict(WEIGHTS, quit=ch.flag(20), restart=ch.flag(20)))
    plans = []
    for _ in range(12):
        s = C.schedule(ch, prog, ch.range(20, 80), crash=ch.flag(40), sem=ch.flag(40))
        for i in range(prog.nsem):                # enough releases for everyone
            s.append((3, i * 100 + 60))
        s += [(0, i) for i in range(len(prog.coros))]
        plans.append(s)
    ctx.waits = 0
    c13.drive(ctx, prog, plans, history)
    ctx.trivial = not ctx.waits


def history(ctx, prog, cmds, log):
    """Invariants of semaphores over the log of the generated program alone."""
    site = prog.sites()
    S = list(prog.seminit)
    waits = {}                                    # coroutine -> site it waits at

    def bad(kind, s):
        ctx.fail(kind, '%s; schedule %s; log %s\n%s' % (s, ' '.join('%d:%d' % c for c in cmds), log[max(0, pos - 12):pos + 2], prog.text(0)))
    pos = 0
    for op, a in cmds:
        if op == 2:
            waits.pop(a, None)
        elif op == 3:
            S[a // 100] = a % 100
        called = waits.get(a) if op == 0 else None
        avail = called is not None and S[site[called]] > 0
        entered = False
        status = None
        at = called
        while pos < len(log) and not log[pos].startswith('s '):
            x = log[pos].split()
            pos += 1
            if x[0] == 'r':
                status = int(x[2])
                continue
            k, v = int(x[0]), int(x[1])
            if k not in site:
                continue
            s = site[k]
            if v == 4:
                at = k
            elif v == 5:
                if S[s] <= 0:
                    bad('overrun', 'S%d is entered at count %d' % (s, S[s]))
                S[s] -= 1
                entered = True
                at = None
            elif v == 6:
                S[s] += 1
        if pos >= len(log):
            return
        have = list(map(int, log[pos].split()[1 + C.NF:]))
        pos += 1
        if have != S:
            bad('conservation', 'the counts are %s, must be %s' % (have, S))
        if op == 0:
            if avail and not entered:
                bad('stuck', 'coroutine %d does not enter S%d, although the count was positive' % (a, site[called]))
            if status == C.WAIT and at is not None:
                waits[a] = at
                ctx.waits += 1
                if S[site[at]] > 0 and not avail:
                    bad('stuck', 'coroutine %d waits for S%d at count %d' % (a, site[at], S[site[at]]))
            else:
                waits.pop(a, None)
