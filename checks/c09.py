"""C09 A source is preprocessed exactly once however it is delivered.

The bytes of one source are delivered to the codec in many ways - through the
text layer of Python with seeded chunk sizes and short reads, by feeding the
incremental decoder seeded pieces, as a whole - and with every form of the
header; the code must be the same and be made by exactly one translation.
"""
import io

from sim import kernel as K
from sim import pygen
from sim.scen import *
from checks.c01 import short

LEVEL = 'exploration'
SEEDS = {'quick': 2500, 'thorough': 60000}
CAP = {'quick': 35, 'thorough': 600}
RULE = ('seeded sources in 8 forms of the header and 7 encodings, delivered by 2-4 seeded ways (chunk sizes 1 to 70000 '
        'bytes, short reads, pieces fed by hand with empty ones among them, the whole file at once, codecs.open()) as the script of a '
        'fresh process each; the code is compared with the text known to the generator; non-trivial: two deliveries '
        'differ in chunks; distinct by (header, encoding, deliveries, fragments)')

# the grammar of yupp allows the characters up to U+00FF
BAD = ['yupp.no_such_encoding', 'yuppx', 'yupp-utf8', 'yupp.', 'xyupp.utf8', 'yuppp.utf8']


def run(ctx):
    ch = ctx.ch
    if ch.flag(8):
        return refused(ctx)
    enc = ch.pick([''] + sorted(pygen.ENC))
    h = pygen.header(ch, enc)
    eol = ch.weighted([(8, '\n'), (1, '\r\n')])
    words = pygen.ENC[enc or 'utf8']
    lines, want = [], []
    for i in range(ch.range(1, 6)):
        f, k = ch.int(8), ch.int(500)
        if f == 0:
            a = b = 'x%d = %d' % (i, k)
        elif f == 1:
            a = b = 's%d = "%s" + u"%s"' % (i, words, words[:k % (len(words) + 1)])
        elif f == 2:
            a, b = '($set v%d %d)v%d = ($v%d)' % (i, k, i, i), 'v%d = %d' % (i, k)
        elif f == 3:
            a, b = '($macro m%d (P) m%d = "($P) %s")\n($m%d a%d)' % (i, i, words, i, k), '\nm%d = "a%d %s"' % (i, k, words)
        elif f == 4:
            a, b = 'l%d = [($(1 2 3) \\i.[($i),])]' % i, 'l%d = [1,2,3,]' % i
        elif f == 5:
            a = b = '# %s remark %d' % (words, k)
        elif f == 6:
            a, b = 'e%d = (${} %d*2)' % (i, k), 'e%d = %d' % (i, k * 2)
        else:
            a, b = '($print "once%d ")i%d = 1' % (i, i), 'i%d = 1' % i
        lines.append(a)
        want.append(b)
    if ch.flag(8):
        n = ch.pick([60, 300, 1000])
        lines.append('\n'.join('b%d = "%s"' % (i, words) for i in range(n)))
        want.append(lines[-1])
    body = '\n'.join(lines) + ('\n' if ch.flag(90) else '')
    text = ('\n'.join(h) + '\n' + body).replace('\n', eol)
    if ch.flag(5):
        text = '\n'.join(h) + '\n'
        lines, want, body = [], [], ''
    data = text.encode(enc or 'utf8')
    expected = [x for x in '\n'.join(want).split('\n') if x.strip()]
    prints = sum('($print' in x for x in lines)
    name = ch.pick(['prog.py', 'p-1.yu-py'])
    ctx.note('%r %s %s: %r' % (h, enc, len(data), body[:300]))
    n = ch.range(2, 4)
    codes = []
    ways = []
    for i in range(n):
        way = ch.weighted([(4, 'script'), (3, 'feed'), (1, 'whole'), (2, 'opened')])
        size = ch.pick([None, 1, 2, 3, 7, 64, 333, 4096, 70000])
        if size is not None and size < 7 and len(data) > 3000:
            size = 4096
        v = ctx.base.clone()
        v.put(W + '/' + name, data)
        v.settle()
        faults = []
        if way in ('script', 'opened') and ch.flag(30):
            faults = [{'at': j, 'kind': 'short', 'sel': ch.int(7)} for j in range(2, 9)]
        if way == 'feed':
            cuts = sorted({ch.int(len(data) + 1) for _ in range(ch.int(6))})
            b = feed(name, cuts, ch.flag(50), len(h))
        elif way == 'whole':
            b = whole(name)
        elif way == 'opened':
            b = opened(name, ch.pick(['all', 'lines', 'sized', 'line by line', 'chars']), size or 8192)
        else:
            b = body_codec(name, size)
        k = K.Kernel(ch, v, ctx.pk)
        p = k.spawn(way, b, cwd=W, faults=faults)
        ctx.run(k)
        ways.append((way, size, bool(faults)))
        ctx.probe('delivered: ' + way)
        ctx.probe('encoding ' + (enc or 'by default'))
        what = '%s %s %s' % (way, size, [f['at'] for f in faults])
        if p.exc is not None:
            ctx.fail('raised', '%s: %s' % (what, p.exc_text[-600:]))
        code = p.ns['code']
        got = [x for x in code.split('\n') if x.strip()]
        got = [x for x in got if not is_header(x, h, enc)]
        if not expected and not got:
            continue
        if got != expected:
            ctx.fail('code', '%s: the code is %s, must be %s\n%s' % (what, short('\n'.join(got)), short('\n'.join(expected)),
                                                                    (p.out + p.errout)[-300:]))
        saves = [x for x in p.oplog if x[0] == 'open-w' and x[1] and '__pycache__' not in x[1]]
        if len(saves) != 1:
            ctx.fail('twice', '%s: translated %d times: %s' % (what, len(saves), [x for x in p.oplog if x[0] in MUT]))
        if p.out.count('once') != prints:
            ctx.fail('twice', '%s: %d of %d side effects: %r' % (what, p.out.count('once'), prints, p.out[-300:]))
        out = v.get(W + '/' + ('prog.yugen.py' if name == 'prog.py' else 'p-1.py')).decode('utf8')
        if sum('coding' in x for x in out.split('\n')) > bool(enc):
            ctx.fail('header', '%s: the header of the generated file is %r' % (what, out[:200]))
        o = [x for x in out.split('\n') if x.strip()]
        o = [x for x in o if not is_header(x, h, enc)]
        if o != expected:
            ctx.fail('file', '%s: the generated file holds %s, must be %s' % (what, short('\n'.join(o)), short('\n'.join(expected))))
        if way not in ('whole', 'opened'):
            codes.append((what, code, out))
    for what, code, out in codes[1:]:
        if code != codes[0][1] or out != codes[0][2]:
            ctx.fail('differs', '%s gives %s, %s gives %s' % (what, short(code), codes[0][0], short(codes[0][1])))
    if len(set(ways)) < 2:
        ctx.trivial = True
    ctx.sig = (h, enc, eol, ways, [x[:4] for x in lines])


def is_header(x, h, enc):
    """Is x a line of the header as it comes out?"""
    if x in h and 'yupp' not in x:
        return True
    return bool(enc) and x in [y.replace('yupp.' + enc, 'utf-8') for y in h]


def feed(fn, cuts, empties, nhead):
    """The rest of the script goes to the incremental decoder in pieces."""
    def body(p):
        K.yupp(p)
        sys.argv = [fn]
        with open(fn, 'rb') as f:
            data = f.read()
        head = b''.join(data.splitlines(True)[:nhead])
        enc = [m.group(1) for m in map(CODING.match, head.split(b'\n')) if m][0].decode()
        d = codecs.getincrementaldecoder(enc)()
        pos = len(head) - 1                        # CPython goes one byte back
        out = []
        for c in [c for c in cuts if c > pos] + [len(data)]:
            out.append(d.decode(data[pos:c]))
            if empties:
                out.append(d.decode(b''))
            pos = c
        out.append(d.decode(b'', True))
        if empties:
            out.append(d.decode(b'', True))
        d.reset()
        out = ''.join(out).replace('\r\n', '\n')
        p.ns['code'] = out[out.index('\n') + 1:]
    return body


def whole(fn):
    def body(p):
        K.yupp(p)
        sys.argv = [fn]
        with open(fn, 'rb') as f:
            data = f.read()
        enc = [m.group(1) for m in map(CODING.match, data.split(b'\n')[:2]) if m][0].decode()
        p.ns['code'] = codecs.lookup(enc).decode(data)[0].replace('\r\n', '\n')
    return body


def opened(fn, how, size):
    """codecs.open() as a program that reads sources does it."""
    def body(p):
        K.yupp(p)
        sys.argv = ['/simfs/w/other']
        with open(fn, 'rb') as f:
            data = f.read()
        enc = [m.group(1) for m in map(CODING.match, data.split(b'\n')[:2]) if m][0].decode()
        with codecs.open(fn, 'r', encoding=enc) as f:
            if how == 'all':
                out = [f.read()]
            elif how == 'lines':
                out = f.readlines()
            elif how == 'sized':
                out = list(iter(lambda: f.read(size), ''))
            elif how == 'chars':
                out = list(iter(lambda: f.reader.read(size, max(1, size // 2)), ''))
            else:
                out = list(f)
        p.ns['code'] = ''.join(out)
    return body


def refused(ctx):
    ch = ctx.ch
    bad = ch.pick(BAD)
    v = ctx.base.clone()
    v.put(W + '/prog.py', '# coding: %s\nx = 1\n' % bad)
    v.settle()
    before = v.tree(W)

    def body(p):
        try:
            codec_source(p, 'prog.py')
        except LookupError as e:
            return 'refused'
        return 'accepted'
    p, k = solo(ctx, v, body)
    ctx.note('coding: %s -> %s' % (bad, p.result))
    if p.result != 'refused':
        ctx.fail('encoding', 'coding: %s is accepted: %s' % (bad, p.exc_text or p.result))
    if v.tree(W) != before:
        ctx.fail('encoding', 'coding: %s: files were written' % bad)
    ctx.sig = ('refused', bad)
