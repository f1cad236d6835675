"""C03 A failed translation changes nothing.

Whatever makes a translation fail - errors in the text, missing or unreadable
files, an irreducible result, I/O errors while reading - the output, its
backup and the browse information keep their bytes, mode and identity; only an
AST file may appear, and only when the result is irreducible.
"""
from sim import kernel as K
from sim import gen as G
from sim.scen import *
from checks.c01 import short

LEVEL = 'fault_enumeration'
SEEDS = {'quick': 5000, 'thorough': 90000}
CAP = {'quick': 35, 'thorough': 600}
RULE = ('seeded sources broken in one of 9 ways at a seeded position, irreducible ones, and good ones whose reading fails '
        '(error on opening or reading the source, an imported library, text or script, forbidden encoding, missing '
        'file), over a directory with earlier output, backup, browse and AST files; entry points CLI (4 ways), '
        'translate(), codec; non-trivial: the translation did fail; distinct by (entry, cause, previous state, options)')


def snap(v, top):
    n = v.lookup(top)
    out = {}
    for f, (kind, mode, data) in v.tree(top).items():
        node = v.lookup(top + '/' + f.rstrip('/'), False)
        out[f] = (kind, mode, data, node.ino if kind != 'd' else 0, node.mtime if kind != 'd' else 0)
    return out


def run(ctx):
    ch = ctx.ch
    cause = ch.weighted([(5, 'text'), (2, 'ast'), (3, 'read'), (1, 'encoding'), (1, 'missing'), (1, 'support')])
    kinds = {'text': 'fail', 'ast': 'ast'}.get(cause, 'ok')
    api = ch.weighted([(6, 'cli'), (2, 'translate'), (2, 'codec')])
    names = NAMES if api != 'codec' else ['g-1.yu-py', 'p.py', 'q.yu-py']
    pr = Project(ctx, kinds=((1, kinds),), names=names, defines=api == 'cli', opts=api == 'cli',
                 frags=None if cause != 'support' else ['lib', 'inc', 'script', 'plain'])
    s = pr.sources[0]
    pr.describe()
    entry = ch.pick(ENTRIES)
    v = ctx.base.clone()
    if api == 'codec':
        s.text = '# coding: yupp\n' + s.text
    pr.install(v)
    out = wpath(s.output)
    ast = posixpath.splitext(out)[0] + '.ast'
    state = []
    for f, text in ((out, 'OLD OUTPUT\n'), (out + '.bak', 'OLD BACKUP\n'), (out + '.json', '{}'), (ast, 'OLD AST\n')):
        if ch.flag(55):
            v.put(f, text, mode=ch.pick([0o644, 0o400]), mtime=1_500_000_000 * 10**9 - 10**12 * (1 + ch.int(3)))
            state.append(f[len(W):])
    if cause == 'encoding':
        data = s.text.encode('utf8')
        n = ch.int(len(data) + 1)
        if api == 'codec':
            n = max(n, len('# coding: yupp\n'))
        v.put(wpath(s.name), data[:n] + ch.pick([b'\xff\xfe', b'\xc3', '\ud800'.encode('utf8', 'surrogatepass')])
              + data[n:])
    elif cause == 'missing':
        v.unlink(wpath(s.name))
        if api == 'codec':
            api = 'translate'
    elif cause == 'support':
        used = sorted(s.uses)
        if not used:
            ctx.trivial = True
        else:
            f = ch.pick(used)
            how = ch.pick(['gone', 'unreadable', 'garbage'])
            for d in (W, W + '/sub'):
                if how == 'gone':
                    v.unlink(d + '/' + f)
                elif how == 'unreadable':
                    v.put(d + '/' + f, v.get(d + '/' + f), mode=0)
                else:
                    v.put(d + '/' + f, v.get(d + '/' + f) + ('\n($set' if f.endswith('.yu') else '\n1/0\n').encode())
    v.settle()
    body = {'cli': lambda: K.run_cli(entry), 'translate': lambda: body_translate(s.name),
            'codec': lambda: body_codec(s.name)}[api]()
    more = [x for o in ch.subset([['-b', '0'], ['-b', '1'], ['-b', '2'], ['-l', '2'], ['-l', '5'], ['-Wno-unbound'],
                                  ['--pp-skip-comments', '3'], ['--pp-no-reduce-emptiness'], ['--pp-no-trim-app-indent']], 10) for x in o]
    if api != 'cli' and more:
        v.put(W + '/.yuconfig', ch.pick(['traceback = 2\n', 'traceback = 0\n', 'log_level = 5\n', 'pp_browse = True\n', 'type_output = True\n']))
    kw = dict(argv=more + pr.args() if api == 'cli' else [], cwd=W)
    faults = []
    if cause == 'read':
        gv = v.clone()
        gp, gk = solo(ctx, gv, body, **kw)
        reads = [i for i, (op, path) in enumerate(gp.oplog) if op in ('open-r', 'read') and path.startswith(W)]
        # the codec reads the header itself; errors there end the program, not the translation
        if not reads:
            raise_discard()
        faults = [{'at': ch.pick(reads), 'kind': 'errno', 'sel': ch.int(5)}]
    before = snap(v, W)
    gen_before = v.get(out)
    k = K.Kernel(ch, v, ctx.pk)
    p = k.spawn('run', body, faults=faults, **kw)

    def changed():
        after = snap(v, W)
        res = []
        for f in sorted(set(before) | set(after)):
            if f.endswith('/'):
                continue
            if before.get(f) != after.get(f):
                res.append(f)
        return res

    ctx.run(k)
    if api == 'cli':
        ok = entry_exit(entry, p) == 0
    elif api == 'translate':
        ok = p.exc is None and bool((p.result or (False,))[0])
    else:
        n = v.lookup(out)
        ok = n is not None and before.get(s.output, (0,) * 5)[3:] != (n.ino, n.mtime)
        if p.exc is not None and not k.fired and cause != 'encoding':
            ctx.fail('raised', 'the codec ended in an exception instead of a diagnosis: %s' % p.exc_text[-400:])
    ch_ = changed()
    rel = {f: x[len(W) + 1:] for f, x in (('out', out), ('bak', out + '.bak'), ('json', out + '.json'), ('ast', ast))}
    if ok:
        if cause in ('text', 'ast', 'encoding', 'missing') or cause == 'support' and not ctx.trivial:
            ctx.fail('accepted', 'a broken source (%s) was reported as translated; changed: %s' % (cause, ch_))
        ctx.trivial = True                       # the fault did no harm
        return
    allow = {rel['ast']} if kinds == 'ast' else set()
    bad = [f for f in ch_ if f not in allow]
    if bad:
        f = bad[0]
        ctx.fail('touched', '%s: failed translation (%s, %s) changed %s: %s -> %s'
                 % (s.name, cause, k.fired, bad, show(before.get(f)), show(snap(v, W).get(f))))
    if kinds == 'ast' and not k.fired and rel['ast'] not in ch_:
        ctx.fail('noast', 'irreducible result, but no AST file was written')
    if api == 'codec' and p.result:
        ctx.fail('code', 'a failed translation gave code to the interpreter: %r' % p.result[:200])
    ctx.note('%s %s previous %s' % (api, cause, state))
    ctx.sig = (api, entry if api == 'cli' else '', cause, s.frags, tuple(state), pr.browse, bool(pr.outdir), dict(k.fired))


def raise_discard():
    from sim.choices import Discard
    raise Discard()


def show(x):
    return 'absent' if x is None else 'mode %o, %s, mtime %d' % (x[1], short(x[2]), x[4])
