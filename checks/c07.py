"""C07 Cached code is the regenerated code.

A seeded script is run, run again with nothing changed, run with errors and
short reads on the way to the cached code, and regenerated from scratch; the
code given to Python, the line numbers of its traceback and the changes on the
file system are compared.
"""
from sim import kernel as K
from sim import pygen
from sim.scen import *
from checks.c01 import short

LEVEL = 'exploration'
SEEDS = {'quick': 2500, 'thorough': 60000}
CAP = {'quick': 35, 'thorough': 600}
RULE = ('seeded scripts (7 forms of the header, 9 encodings, CRLF, up to 4000 lines, imported libraries, options and '
        'dependencies in configuration scripts, also "force") run fresh, 1-3 times cached and regenerated in another directory '
        'tree, by the protocols of CPython and PyPy with seeded chunks; in one cached run an error or a short read at a seeded '
        'call of reading the cached code; non-trivial: at least one run reused the code; distinct by (header, encoding, '
        'configuration, protocols, fault and call)')
CONF = [('force = True\n', 4), ('pp_reduce_emptiness = False\n', 2), ('pp_skip_comments = 2\n', 2), ('pp_skip_comments = 3\n', 1),
        ('pp_trim_app_indent = False\n', 2), ('warn_unbound_application = False\n', 1), ('log_level = 5\n', 1),
        ('force = False\n', 1), ('pp_browse = True\n', 1), ('# nothing\n', 1)]


def start(fn, way):
    return lambda p: run_script(p, fn, way[1], way[0] == 'whole')


def result(p):
    return p.ns.get('code'), p.ns.get('traceback')


def lines(code):
    return [x for x in code.replace('\r\n', '\n').split('\n') if x.strip()]


def run(ctx):
    ch = ctx.ch
    s = pygen.Script(ch, raising=ch.flag(70))
    name = ch.pick(['prog.py', 'p-1.yu-py', 'sub/prog.py'])
    out = name[:-3] + '.yugen.py' if name.endswith('.py') else name[:-6] + '.py'
    if ch.flag(12):
        s.data += ('\n' + pygen.PyGen(ch).big()).encode(s.enc or 'utf8')
    v = ctx.base.clone()
    v.makedirs(W + '/sub')
    v.put(W + '/' + name, s.data)
    for f, d in s.files.items():
        v.put(W + '/' + f, d)
        v.put(W + '/sub/' + f, d)
    conf = []
    force = False
    for f in ('.yuconfig', posixpath.splitext(name)[0] + '.yuconfig'):
        if ch.flag(30):
            t = ch.weighted([(n, c) for c, n in CONF])
            conf.append(t)
            force = 'True' in t if 'force' in t else force
            if ch.flag(30) and s.files:
                t += 'dependency.append("%s")\n' % sorted(s.files)[0]
            v.put(W + '/' + f, t)
    if ch.flag(10):
        v.put(W + '/' + out, 'old = 1\n', mode=0o444)
    v.gran = ch.pick([1, 1000, 10**7, 10**9])
    v.settle()
    ctx.note('%s %r %s %s: %r' % (name, s.head, s.enc, conf, s.text[:500]))
    now = 1_600_000_000 * 10**9 + ch.int(10**9)
    ways = [(ch.weighted([(3, 'script'), (1, 'whole')]), ch.pick([None, None, 64, 333])) for _ in range(ch.range(2, 4))]
    now += 5 * 10**9
    p0, k = solo(ctx, v, start(name, ways[0]), now=now)
    now = k.now
    if p0.exc is not None or not p0.ns['code'].strip():
        ctx.fail('first', 'the first run gives no code: %s %s %s' % (p0.exc_text, p0.out[-300:], p0.errout[-300:]))
    first = v.get(W + '/' + out)
    if first is None:
        ctx.fail('first', 'the first run saves no code: %s' % p0.out[-300:])
    fresh = {ways[0][0]: result(p0)}
    # regenerated from scratch, by the other protocol as well
    for proto in ('script', 'whole'):
        rv = v.clone()
        for x in (out, out + '.bak'):
            if rv.lookup(W + '/' + x):
                rv.unlink(W + '/' + x)
        q, _ = solo(ctx, rv, start(name, (proto, None)), now=now)
        r = result(q)
        if proto in fresh and r != fresh[proto]:
            ctx.fail('regenerated', 'two regenerations differ: %s %s / %s %s' % (short(r[0]), r[1], short(fresh[proto][0]),
                                                                               fresh[proto][1]))
        fresh[proto] = r
        if lines(r[0]) != lines(fresh[ways[0][0]][0]):
            a = [x for x in lines(r[0]) if x not in s.head and 'coding' not in x]
            b = [x for x in lines(fresh[ways[0][0]][0]) if x not in s.head and 'coding' not in x]
            if a != b:
                ctx.fail('regenerated', 'the protocols differ: %s / %s' % (short(r[0]), short(fresh[ways[0][0]][0])))
    reuse = 0
    made = ways[0][0]
    sig = []
    for way in ways[1:]:
        now += ch.pick([0, 10**6, 10**10])
        o = v.lookup(W + '/' + out)
        b4 = (o.ino, o.mtime, o.mode, v.tree(W))
        fault, sticky = [], 0
        kind = ch.weighted([(3, ''), (2, 'errno'), (1, 'short'), (1, 'errno-all')])
        if kind and not force:
            g, _ = solo(ctx, v.clone(), start(name, way), now=now)
            # calls of the cached run that concern the generated file, up to the delivery of the code
            at = [i for i, (op, f) in enumerate(g.oplog[:g.ns['ops']]) if f and f.endswith(out)]
            if kind == 'errno-all':
                sticky = ch.pick([errno.EIO, errno.EACCES, errno.ENOMEM])
            elif at and kind == 'short':
                fault = [{'at': i, 'kind': 'short', 'sel': ch.int(7)} for i in at if ch.flag(60)]
            elif at:
                fault = [{'at': ch.pick(at), 'kind': 'errno', 'sel': ch.int(6)}]
        k = kernel(ctx, v, now=now)
        p = k.spawn('again', start(name, way), cwd=W, faults=fault)
        if sticky:
            p.sticky = lambda op, f: sticky if 'ops' not in p.ns and f and f.endswith(out) and op in (
                'open-r', 'read', 'stat') else 0
        ctx.run(k)
        now = k.now
        o = v.lookup(W + '/' + out)
        what = '%s %s' % (way, dict(k.fired) or '')
        fired = any(not x.startswith('short') for x in k.fired)
        if p.exc is not None:
            ctx.fail('raised', '%s: %s' % (what, p.exc_text[-500:]))
        saved = o is None or (o.ino, o.mtime) != b4[:2]
        code, tb = result(p)
        if fired:
            ctx.probe('error on reading the cached code')
        elif force:
            if not saved:
                ctx.fail('force', '%s: with "force" the code is not regenerated' % what)
            ctx.probe('forced')
        else:
            if saved or v.tree(W) != b4[3]:
                ctx.fail('not-reused', '%s: nothing changed, but the run changed files: %s %s' % (
                    what, [x for x in p.oplog if x[0] in MUT], p.out[-300:]))
            bad = [x for x in p.oplog if x[0] in MUT]
            if bad:
                ctx.fail('writes', '%s: a cached run wrote: %s' % (what, bad))
            if p.out.strip():
                ctx.fail('writes', '%s: a cached run prints %r' % (what, p.out[:300]))
            reuse += 1
            ctx.probe('reused')
        if saved:
            made, first = way[0], v.get(W + '/' + out)
        if lines(code) != lines(fresh[way[0]][0]):
            a = [x for x in lines(code) if x not in s.head and 'coding' not in x]
            b = [x for x in lines(fresh[way[0]][0]) if x not in s.head and 'coding' not in x]
            if a != b:
                ctx.fail('code', '%s: the code is %s, regenerated %s\n%s' % (what, short(code), short(fresh[way[0]][0]), p.out[-300:]))
        if way[0] == made and code != fresh[way[0]][0]:
            ctx.fail('code', '%s: the code is %s, regenerated %s' % (what, short(code), short(fresh[way[0]][0])))
        if way[0] == made and tb != fresh[way[0]][1] and not fired:
            ctx.fail('traceback', '%s: the traceback is %s, of the regenerated code %s' % (what, tb, fresh[way[0]][1]))
        if not saved and v.get(W + '/' + out) != first:
            ctx.fail('writes', '%s: the generated file was changed in place' % what)
        sig.append((way, tuple(sorted(k.fired)), [f['at'] for f in fault][:1], saved))
    if not reuse:
        ctx.trivial = True
    ctx.sig = (s.head, s.enc, s.eol, conf, ways, sig)
