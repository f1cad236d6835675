"""C23 An option means the same wherever it is given.

A seeded set of options is given in several ways - on the command line, in a
response file, in `.yuconfig`, in `<file>.yuconfig` that overrides the opposite
in `.yuconfig`, split between both - to the command line and translate(), over
a history of changes of the options in one directory; outputs, modes, browse information, verdicts and log messages must be the same.  Reading
the configuration meets I/O errors in some of the runs.
"""
import re

from sim import kernel as K
from sim import gen as G
from sim.scen import *
from checks.c01 import short

LEVEL = 'exploration'
SEEDS = {'quick': 2500, 'thorough': 60000}
CAP = {'quick': 35, 'thorough': 600}
RULE = ('seeded sets of 9 kinds of options, changed 1-3 times, over one source made of constructs that react to them (comments, '
        'indents, empty lines, unbound names, constants, imports from other directories, exceptions); every set is given on '
        'the command line, in a response file, in .yuconfig, in <file>.yuconfig and split over both, to yupp and to translate() '
        'in one long-lived process or in fresh ones; in every third run an operation on a '
        'configuration script fails or the script raises; non-trivial: at least one option is set; distinct by (text, options, '
        'ways, faults)')

FRAGS = [
    '/* ($set no%(n)d 1) comment ($K) */ x%(n)d', '// ($inc 2) line\ny', '# ($inc %(n)d) python\nz', 'a; /* one */ b // two',
    '    ($set i%(n)d ]\none\n  two\n[ )\n  <($i%(n)d)>', '\t($($\\p.]\nfirst\n  ($p)\n[) v%(n)d)', '  ($set s%(n)d 5)   \n  ($s%(n)d)',
    '\n\n\n\nafter %(n)d', 'text\n\n\n($! c)\n\n\nmore', '($nobody%(n)d 3)', '($ ($nobody%(n)d) ? a | b)', 'd ($DEF) e', '($ ($DEF) ? yes | no)',
    '($import far%(l)d) ($far)', '($import far%(l)d)', '($macro m%(n)d (P)\n    m ($P)\n\n\n    end\n)\n    ($m%(n)d 3)',
    '"str // ($inc 1)"', "'''\n($inc 4)\n'''", '"""\n# x\n"""', '($print "t%(n)d")', '($! gone )\nk', 'w%(n)d ($K)', '($unk%(n)d)',
]
FAILS = ['($div 1 0)', '($import nowhere)', '($', '($import bad.py)', '($ ($', '($__PASSAGE__ 3)', '($MISSING_ARG \\a.\\b.($a))']

OPTIONS = [
    # (name, [(command line, configuration)], configuration that means nothing given)
    ('comments', [(['--pp-skip-comments', '1'], 'pp_skip_comments = 1'), (['--pp-skip-comments', '2'], 'pp_skip_comments = 2'),
                  (['--pp-skip-comments', '3'], 'pp_skip_comments = PP_SKIP_COMMENTS_AUTO'),
                  (['--pp-skip-comments', '1'], 'pp_skip_comments = PP_SKIP_C_COMMENTS'),
                  (['--pp-skip-comments', '0'], 'pp_skip_comments = PP_SKIP_COMMENTS_NONE')], 'pp_skip_comments = 0'),
    ('indent', [(['--pp-no-trim-app-indent'], 'pp_trim_app_indent = False'), (['--pp-trim-app-indent'], 'pp_trim_app_indent = True')],
     'pp_trim_app_indent = True'),
    ('empty', [(['--pp-no-reduce-emptiness'], 'pp_reduce_emptiness = False'), (['--pp-reduce-emptiness'], 'pp_reduce_emptiness = True')],
     'pp_reduce_emptiness = True'),
    ('browse', [(['--pp-browse'], 'pp_browse = True'), (['--pp-no-browse'], 'pp_browse = False')], 'pp_browse = False'),
    ('unbound', [(['-Wno-unbound'], 'warn_unbound_application = False'),
                 (['--warn-no-unbound-application'], 'warn_unbound_application = False'), (['-Wunbound'], 'warn_unbound_application = True')],
     'warn_unbound_application = True'),
    ('define', [(['-D', 'DEF:7'], 'pp_define.append("DEF:7")'), (['-D', 'DEF'], 'pp_define = ["DEF"]'),
                (['--pp-define', 'DEF:0', '-D', 'K:9'], 'pp_define += ["DEF:0", "K:9"]')]
     + [(['-D', x], 'pp_define.append(%r)' % x) for x in ("DEF:'#1'", 'DEF:"a;b@c"', "K:'%s\\x41'", "DEF:'--no-read-only'", "K:`=$x`", 'K:"é"')],
     'pp_define = []'),
    ('directory', [(['-d', "di'r#2"], 'directory += ["di\'r#2"]'), (['-d', 'dir0'], 'directory.append("dir0")'), (['-d', 'dir1', '-d', 'dir0'], 'directory = ["dir1", "dir0"]'),
                   (['-d', '/simfs/w/dir1'], 'directory.append("/simfs/w/dir1")')], 'directory = []'),
    ('log', [(['-l', '3'], 'log_level = LOG_LEVEL_WARNING'), (['-l', '4'], 'log_level = 4'), (['--log', '5'], 'log_level = 5')],
     'log_level = LOG_LEVEL_DEBUG'),
    ('traceback', [(['-b', '0'], 'traceback = TRACEBACK_NONE'), (['-b', '2'], 'traceback = TRACEBACK_ALL'),
                   (['--traceback', '1'], 'traceback = 1')], 'traceback = 1'),
    ('write', [(['--no-read-only'], 'read_only = False')], 'read_only = True'),
]


def translate(fn):
    def body(p):
        y = K.yupp(p)
        sys.argv = ['build.py']
        return y.translate(fn)
    return body


def results(v, p, f, verdict):
    o = G.output_name(f)
    r = {'verdict': verdict}
    for x in (o, o + '.json', G.Source(f).ast_name(), o + '.bak'):
        nd = v.lookup(W + '/' + x)
        r[x] = nd and (v.get(W + '/' + x), oct(nd.mode & 0o777))
    # prints of the command line itself are its own
    t = '\n'.join(x for x in (p.out + p.errout).split('\n') if not re.match(r'<-- |--> |\* OK \*$', x) and x.strip())
    r['messages'] = re.sub(r'\[yupp\].*|^.*\n?copyright.*$', '', t, flags=re.M | re.I)
    return r


def run(ctx):
    ch = ctx.ch
    v = ctx.base.clone()
    f = ch.pick(['a.yu-c', 'b.yu-py', 'd.yu', 'e.py', 'sub/c.yu-h'])
    v.makedirs(W + '/sub')
    for d in ('dir0', 'dir1', "di'r#2"):
        for i in range(2):
            v.put('%s/%s/far%d.yu' % (W, d, i), 'far %s %d\n($set far %s)\n' % (d, i, d))
    v.put(W + '/bad.py', '1/0\n')
    v.put(W + '/sub/bad.py', '1/0\n')
    parts = [ch.pick(FRAGS) % {'n': i, 'l': ch.int(2)} for i in range(ch.range(2, 9))]
    if ch.flag(25):
        parts.insert(ch.int(len(parts) + 1), ch.pick(FAILS))
    text = '\n'.join(parts) + '\n'
    if f.endswith('e.py'):
        text = '# coding: yupp\n' + text
    v.put(W + '/' + f, text)
    if ch.flag(30):
        v.put(W + '/' + G.output_name(f), 'OLD\n', mode=ch.pick([0o644, 0o444]))
    own = posixpath.splitext(f)[0] + '.yuconfig'
    v.settle()
    long = ch.flag(40)
    ctx.note('%s %r' % (f, text))
    now = 1_600_000_000 * 10**9
    hist = v.clone()                                # the directory of the history
    jobs = []                                       # steps of the history in one process
    golds = []
    sig = []
    for step in range(ch.range(1, 3)):
        opts = []
        for name, alts, neutral in OPTIONS:
            if ch.flag(30):
                opts.append((name, ch.pick(alts), neutral))
        if ch.flag(30):
            opts.reverse()
        args = [x for _, (a, _), _ in opts for x in a]
        lines = [c for _, (_, c), _ in opts]
        ctx.note('options %s' % args)
        # the command line is what the others are compared with
        w = v.clone()
        p, _ = solo(ctx, w, K.run_cli(ch.pick(['main', 'script'])), now=now, argv=['-q'] + args + [f])
        gold = results(w, p, f, p.exit == 0)
        if p.exc is not None:
            ctx.fail('raised', p.exc_text[-600:])
        way = ch.weighted([(2, 'response'), (4, 'global'), (4, 'own'), (3, 'split'), (3, 'override'), (2, 'order')])
        w = v.clone()
        api, argv = True, []
        conf = {}
        if way == 'response':
            api = False
            q = ['-q'] + args + [f]
            w.put(W + '/args.rsp', ch.pick([' ', '\n', '  \n ']).join(q) + ch.pick(['', '\n']))
            argv = ['@args.rsp']
        elif way == 'order':
            api = False
            argv = ['-q'] + args + ['--', f] if ch.flag(50) else ['-q', f] + args
        elif way == 'global':
            conf = {'.yuconfig': lines}
        elif way == 'own':
            conf = {own: lines}
        elif way == 'split':
            k = ch.int(len(lines) + 1)
            conf = {'.yuconfig': lines[:k], own: lines[k:]}
        else:
            # everything is the other way round for the directory, and put right for the file
            other = []
            fix = []
            for name, alts, neutral in OPTIONS:
                mine = [o for o in opts if o[0] == name]
                if ch.flag(60):
                    other.append(ch.pick(alts)[1])
                    fix.append(neutral)
                fix += [c for _, (_, c), _ in mine]
            conf = {'.yuconfig': other, own: fix}
        for c, ls in conf.items():
            if ls:
                w.put(W + '/' + c, ch.pick(['', '# coding: utf8\n', '"""\noptions é\n"""\n']) + ch.pick(['\n', '\n\n']).join(ls) + ch.pick(['', '\n']))
        what = '%s %s: %s' % (way, 'by translate()' if api else '', conf or args)
        body, argv = (translate(f), []) if api else (K.run_cli('main'), argv)
        fault = ch.flag(30) and api and any(conf.values())
        if fault:
            sig.append(faulty(ctx, w, body, f, conf, now, gold, own, what))
        else:
            p, _ = solo(ctx, w, body, now=now, argv=argv)
            if p.exc is not None:
                ctx.fail('raised', '%s: %s' % (what, p.exc_text[-600:]))
            r = results(w, p, f, bool(p.result[0]) if api else p.exit == 0)
            compare(ctx, gold, r, what, text)
            ctx.probe('same by ' + way)
        if api and not fault:
            jobs.append((conf, what))
            golds.append(gold)
        sig.append((way, args, fault))
    # the same steps one after another in one directory, in one process or in fresh ones
    if len(jobs) > 1:
        history(ctx, hist, f, own, jobs, golds, now, long, text)
    ctx.trivial = not any(a for _, a, *_ in [s for s in sig if len(s) == 3])
    ctx.sig = (text, f, sig, long)


def put_conf(ch, v, conf, own):
    for c in ('.yuconfig', own):
        ls = conf.get(c)
        if ls:
            v.put(W + '/' + c, '\n'.join(ls) + '\n')
        elif v.lookup(W + '/' + c):
            v.unlink(W + '/' + c)


def compare(ctx, gold, r, what, text, skip=()):
    for x in gold:
        if x not in skip and gold[x] != r[x]:
            ctx.fail('differs', '%s: %s is %s, with the options on the command line %s\n%r' % (
                what, x, repr(r[x])[:700], repr(gold[x])[:700], text))


def history(ctx, v, f, own, jobs, golds, now, long, text):
    ch = ctx.ch
    o = G.output_name(f)
    got = []

    def body(p):
        y = K.yupp(p)
        for conf, what in jobs:
            put_conf(ch, v, conf, own)
            # another source, so that the cached code is not what is compared
            v.put(W + '/' + f, v.get(W + '/' + f))
            for x in (o + '.json', G.Source(f).ast_name()):
                if v.lookup(W + '/' + x):
                    v.unlink(W + '/' + x)
            p.kernel.now += 5 * 10**9
            v.lookup(W + '/' + f).mtime = p.kernel.now - 10**9
            sys.argv = ['build.py']
            r = y.translate(f)
            nd = v.lookup(W + '/' + o)
            js = v.get(W + '/' + o + '.json')
            got.append((bool(r[0]), nd and (v.get(W + '/' + o), oct(nd.mode & 0o777)), js))
    if long:
        p, _ = solo(ctx, v, body, now=now)
        if p.exc is not None:
            ctx.fail('raised', 'history %s: %s' % ([w for _, w in jobs], p.exc_text[-600:]))
    else:
        all_jobs = jobs
        for j in all_jobs:
            jobs = [j]
            p, k = solo(ctx, v, body, now=now)
            now = k.now
            if p.exc is not None:
                ctx.fail('raised', '%s: %s' % (j[1], p.exc_text[-600:]))
        jobs = all_jobs
    for (conf, what), gold, (ok, out, js) in zip(jobs, golds, got):
        if ok != gold['verdict']:
            ctx.fail('history', '%s after others: the verdict is %s' % (what, ok))
        if ok and out != gold[o]:
            ctx.fail('history', '%s after others: the output is %s, not %s\n%r' % (what, repr(out)[:700], repr(gold[o])[:700], text))
        if ok and js != (gold[o + '.json'] and gold[o + '.json'][0]):
            ctx.fail('history', '%s after others: the browse information is %s, not %s' % (what, short(js), short(gold[o + '.json'])))
    ctx.probe('history of options' + (' in one process' if long else ''))


def faulty(ctx, w, body, f, conf, now, gold, own, what):
    """Reading the configuration fails: it is said, or the result is the same."""
    ch = ctx.ch
    scripts = [c for c, ls in conf.items() if ls]
    c = ch.pick(scripts)
    kind = ch.pick(['errno', 'errno', 'mode', 'raise', 'syntax', 'directory'])
    plan = []
    if kind == 'errno':
        g, _ = solo(ctx, w.clone(), body, now=now)
        at = [i for i, (op, x) in enumerate(g.oplog) if x and x.endswith('/' + c)]
        plan = [{'at': ch.pick(at), 'kind': 'errno', 'sel': ch.int(6)}] if at else []
    elif kind == 'mode':
        w.lookup(W + '/' + c).mode = 0
    elif kind == 'raise':
        w.put(W + '/' + c, w.get(W + '/' + c) + b'\n1/0\n')
    elif kind == 'syntax':
        w.put(W + '/' + c, w.get(W + '/' + c) + b'\ndef (\n')
    elif kind == 'directory':
        w.unlink(W + '/' + c)
        w.makedirs(W + '/' + c)
    k = kernel(ctx, w, now=now)
    p = k.spawn('p', body, cwd=W, faults=plan)
    ctx.run(k)
    if p.exc is not None:
        ctx.fail('raised', '%s, %s of %s %s: %s' % (what, kind, c, k.fired, p.exc_text[-600:]))
    r = results(w, p, f, bool(p.result[0]))
    said = c in r['messages']
    if kind == 'raise':
        if not said or 'ZeroDivisionError' not in r['messages']:
            ctx.fail('silent', '%s: a configuration script raises, it says %r' % (what, r['messages'][-500:]))
        compare(ctx, gold, r, what + ' and raises at the end', '', ('messages',))
    elif kind == 'directory':
        pass                                        # not a file, no options
    elif not said and r['verdict'] and r != gold and (kind != 'errno' or k.fired):
        ctx.fail('silent', '%s: %s of %s (%s) is not reported, the result is another one: %s, not %s; %r' % (
            what, kind, c, k.fired, {x: r[x] for x in r if r[x] != gold[x]}, {x: gold[x] for x in r if r[x] != gold[x]},
            r['messages'][-300:]))
    ctx.probe('configuration %s' % kind)
    return (what, kind)
