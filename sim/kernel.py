"""The simulated operating system the real yupp code runs on.

Every system call a simulated process makes goes through Kernel.call(): it is a
scheduling point, a fault point, a step of the simulated clock and an entry of
the event log.  Code of yupp itself is never stubbed: it is loaded from /repo's
working tree, once per simulated process, into fresh module objects.
"""
import _thread
import ast
import builtins
import codecs
import errno
import importlib._bootstrap as _bs
import importlib._bootstrap_external as _bse
import importlib.machinery
import inspect
import io
import linecache
import logging
import os
import posix
import posixpath
import random
import shutil
import stat as st
import sys
import tempfile
import threading
import time
import traceback
import hashlib

from .vfs import VFS, S_IF, err
from .choices import Prng, Violation

threading.stack_size(64 * 1024 * 1024)

HERE = posixpath.dirname(posixpath.dirname(posixpath.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = '/simfs/lib/yupp'
MAX_CALLS = 60000

cur = None           # the simulated process whose code is running, or None


class SimCrash(BaseException):
    """Ends a simulated process at a crash point; nothing may catch it for good."""


class HarnessError(Exception):
    pass


class Livelock(Exception):
    pass


class Stat(tuple):
    """os.stat_result look-alike with nanosecond and float times."""
    __slots__ = ()
    st_mode = property(lambda s: s[0])
    st_ino = property(lambda s: s[1])
    st_dev = property(lambda s: s[2])
    st_nlink = property(lambda s: s[3])
    st_uid = property(lambda s: s[4])
    st_gid = property(lambda s: s[5])
    st_size = property(lambda s: s[6])
    st_atime = property(lambda s: s[10] / 1e9)
    st_mtime = property(lambda s: s[11] / 1e9)
    st_ctime = property(lambda s: s[12] / 1e9)
    st_atime_ns = property(lambda s: s[10])
    st_mtime_ns = property(lambda s: s[11])
    st_ctime_ns = property(lambda s: s[12])
    st_blksize = property(lambda s: 4096)
    st_blocks = property(lambda s: (s[6] + 511) // 512)
    st_file_attributes = property(lambda s: 0)


def mkstat(n):
    size = len(n.data) if n.kind != 'd' else 4096
    if isinstance(n.data, str):
        size = len(n.data.encode('utf8', 'surrogateescape'))
    return Stat((S_IF[n.kind] | n.mode, n.ino, 77, n.nlink, 1000, 1000, size,
                 n.atime // 10**9, n.mtime // 10**9, n.ctime // 10**9, n.atime, n.mtime, n.ctime))


# ---------------------------------------------------------------------------
#  files
# ---------------------------------------------------------------------------
class FD(object):
    __slots__ = ('fd', 'node', 'flags', 'pos', 'path', 'append', 'wrote')

    def __init__(self, fd, node, flags, path):
        self.fd = fd
        self.node = node
        self.flags = flags
        self.pos = 0
        self.path = path
        self.append = bool(flags & os.O_APPEND)
        self.wrote = False


class SimRaw(io.RawIOBase):
    """Raw file over a simulated descriptor."""

    def __init__(self, name, mode='r', closefd=True, opener=None):
        self._fd = None
        self._proc = cur
        self.name = name
        flags, self._r, self._w = 0, False, False
        base = mode.replace('b', '').replace('t', '')
        kinds = [c for c in base if c in 'rwxa']
        if len(kinds) != 1:
            raise ValueError('must have exactly one of create/read/write/append mode')
        plus = '+' in base
        if kinds[0] == 'r':
            self._r = True
            self._w = plus
        else:
            self._w = True
            self._r = plus
            flags |= {'w': os.O_CREAT | os.O_TRUNC, 'x': os.O_CREAT | os.O_EXCL,
                      'a': os.O_CREAT | os.O_APPEND}[kinds[0]]
        flags |= os.O_RDWR if self._r and self._w else os.O_WRONLY if self._w else os.O_RDONLY
        self.mode = ('rb+' if self._r and self._w else 'wb' if self._w else 'rb')
        self._closefd = closefd
        if isinstance(name, int):
            if name < 0:
                raise ValueError('negative file descriptor')
            self._fd = name
            if name not in cur.fds and name not in (0, 1, 2):
                raise err(errno.EBADF)
        else:
            flags |= getattr(os, 'O_CLOEXEC', 0)
            if opener is not None:
                self._fd = opener(name, flags)
                if self._fd < 0:
                    raise ValueError('opener returned %d' % self._fd)
            else:
                self._fd = os.open(name, flags, 0o666)
            f = cur.fds.get(self._fd)
            if f is not None and f.node.kind == 'd':
                fd, self._fd = self._fd, None
                cur.kernel.sys_close(cur, fd)
                raise err(errno.EISDIR, name)
        if kinds[0] == 'a' and self._fd in cur.fds:
            cur.fds[self._fd].pos = len(cur.fds[self._fd].node.data)

    def _live(self):
        """Operations of a dead process (late finalisers) change nothing."""
        p = self._proc
        if p is None or p.dead or p.finished:
            if p is not None and cur is p and not p.finished:
                raise SimCrash()
            return False
        return True

    def readable(self):
        self._chk()
        return self._r

    def writable(self):
        self._chk()
        return self._w

    def seekable(self):
        self._chk()
        return True

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def fileno(self):
        self._chk()
        return self._fd

    def isatty(self):
        self._chk()
        return False

    def readinto(self, b):
        self._chk()
        if not self._r:
            raise io.UnsupportedOperation('File not open for reading')
        if not self._live():
            return 0
        data = self._proc.kernel.sys_read(self._proc, self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def readall(self):
        out = []
        while True:
            d = self.read(65536)
            if not d:
                return b''.join(out)
            out.append(d)

    def write(self, b):
        self._chk()
        if not self._w:
            raise io.UnsupportedOperation('File not open for writing')
        data = bytes(b)
        if not self._live():
            return len(data)
        return self._proc.kernel.sys_write(self._proc, self._fd, data)

    def seek(self, off, whence=0):
        self._chk()
        if not self._live():
            return 0
        return self._proc.kernel.sys_lseek(self._proc, self._fd, off, whence)

    def tell(self):
        return self.seek(0, 1)

    def truncate(self, size=None):
        self._chk()
        if not self._live():
            return size or 0
        if size is None:
            size = self.tell()
        self._proc.kernel.sys_ftruncate(self._proc, self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            io.RawIOBase.close(self)
        finally:
            if self._fd is not None and self._closefd and self._live():
                fd, self._fd = self._fd, None
                self._proc.kernel.sys_close(self._proc, fd)


class StdRaw(io.RawIOBase):
    """stdout / stderr of a simulated process."""

    def __init__(self, proc, fd):
        self._proc = proc
        self._fdno = fd
        self.name = '<std%d>' % fd

    def writable(self):
        return True

    def fileno(self):
        return self._fdno

    def write(self, b):
        data = bytes(b)
        p = self._proc
        if p.dead or p.finished:
            if cur is p and not p.finished:
                raise SimCrash()
            return len(data)
        return p.kernel.std_write(p, self._fdno, data)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if cur is None:
        return R['io_open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, (str, bytes, int)):
        file = os.fspath(file)
    if not isinstance(mode, str):
        raise TypeError('invalid mode: %r' % (mode,))
    modes = set(mode)
    if modes - set('axrwb+tU') or len(mode) > len(modes):
        raise ValueError('invalid mode: %r' % mode)
    text, binary = 't' in modes, 'b' in modes
    if 'U' in modes:
        mode = mode.replace('U', '')
        if not set(mode) & set('rwxa'):
            mode = 'r' + mode
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if len(set('axrw') & modes) + ('U' in modes and 'r' not in modes) != 1:
        raise ValueError('must have exactly one of create/read/write/append mode')
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    if binary and errors is not None:
        raise ValueError("binary mode doesn't take an errors argument")
    if binary and newline is not None:
        raise ValueError("binary mode doesn't take a newline argument")
    if not isinstance(file, int):
        p = file.decode() if isinstance(file, bytes) else file
        if passthrough(cur.abspath(p)) and not set('wxa+') & modes:
            return R['io_open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw = SimRaw(file, mode.replace('t', ''), closefd, opener)
    try:
        line = buffering == 1
        if buffering < 0 or line and not binary:
            buffering = cur.bufsize
        if buffering == 0:
            if binary:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        if '+' in modes:
            buf = io.BufferedRandom(raw, buffering)
        elif modes & set('wxa'):
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        cur.keep.append(buf)
        if binary:
            return buf
        if encoding is None:
            encoding = cur.locale
        t = io.TextIOWrapper(buf, encoding, errors, newline, line)
        t.mode = mode
        cur.keep.append(t)
        return t
    except BaseException:
        raw.close()
        raise


def sim_open_code(path):
    return sim_open(path, 'rb')


class SimFileIO(object):
    """Stands in for io.FileIO, including isinstance checks."""


def sim_fileio(file, mode='r', closefd=True, opener=None):
    if cur is None:
        return R['FileIO'](file, mode, closefd, opener)
    p = file if isinstance(file, int) else os.fspath(file)
    if not isinstance(p, int) and passthrough(cur.abspath(p)) and not set('wxa+') & set(mode):
        return R['FileIO'](file, mode, closefd, opener)
    return SimRaw(file, mode, closefd, opener)


PASS = tuple(sorted({posixpath.realpath(p) for p in
             (sys.prefix, sys.base_prefix, posixpath.dirname(os.__file__), '/usr/share/zoneinfo')}
             | {posixpath.dirname(os.__file__)}))
PASS_F = ('/dev/null', '/dev/urandom', '/etc/localtime')


ANC = {p[:i] for p in PASS + (HERE,) for i in range(1, len(p)) if p[i] == '/'}


def passthrough(path):
    if path in PASS_F or path in ANC:
        return True
    for p in PASS:
        if path == p or path.startswith(p + '/'):
            return True
    return False


# ---------------------------------------------------------------------------
#  the code under test
# ---------------------------------------------------------------------------
class _SetTransformer(ast.NodeTransformer):
    """{a, b} and set comprehensions become calls of __sim_set__."""

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__sim_set__', ast.Load()),
                                          [ast.List(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__sim_set__', ast.Load()),
                                          [ast.GeneratorExp(node.elt, node.generators)], []), node)


class Package(object):
    """Sources of yupp in the working tree of REPO, compiled once."""
    SKIP = {'.git', 'doc', 'eg', 'sublime_text', 'package', 'project', 'script', '.vscode', '__pycache__'}

    def __init__(self, repo):
        self.repo = repo
        self.files = {}              # relative path -> bytes
        for top, dirs, files in os.walk(repo):
            rel = os.path.relpath(top, repo)
            rel = '' if rel == '.' else rel + '/'
            dirs[:] = sorted(d for d in dirs if d not in self.SKIP and not (rel == 'lib/' and d == 'eg'))
            for f in sorted(files):
                if f.endswith(('.pyc', '.bak', '.ast')) or f.startswith('test_') or not rel and not f.endswith('.py'):
                    continue
                with R['io_open'](os.path.join(top, f), 'rb') as h:
                    self.files[rel + f] = h.read()
        self.mods = {}               # module name -> (file, is_pkg)
        for f in self.files:
            if f.endswith('.py'):
                parts = f[:-3].split('/')
                pkg = parts[-1] == '__init__'
                if pkg:
                    parts.pop()
                self.mods['.'.join(['yupp'] + parts)] = (f, pkg)
        for f in list(self.files):   # namespace packages, if someone adds one
            parts = f.split('/')[:-1]
            if f.endswith('.py'):
                for n in range(1, len(parts) + 1):
                    self.mods.setdefault('.'.join(['yupp'] + parts[:n]), (None, True))
        self.code = {}
        self.digest = hashlib.sha256(repr(sorted(self.files.items())).encode()).hexdigest()[:16]

    def get_code(self, name, simset=False):
        key = (name, simset)
        if key not in self.code:
            f, _ = self.mods[name]
            src = self.files[f]
            fn = PKG + '/' + f
            tree = compile(src, fn, 'exec', ast.PyCF_ONLY_AST, dont_inherit=True)
            if simset:
                tree = ast.fix_missing_locations(_SetTransformer().visit(tree))
            self.code[key] = compile(tree, fn, 'exec', dont_inherit=True)
        return self.code[key]


class SimLoader(object):
    def __init__(self, proc, name):
        self.proc = proc
        self.name = name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        pk = self.proc.kernel.package
        f, _ = pk.mods[self.name]
        if f is None:
            return
        module.__file__ = PKG + '/' + f
        if self.proc.hashsim is not None:
            self.proc.hashsim.install(module.__dict__)
        exec(pk.get_code(self.name, self.proc.hashsim is not None), module.__dict__)

    def get_code(self, name):
        return self.proc.kernel.package.get_code(name, False)

    def get_source(self, name):
        return self.proc.kernel.package.files[self.proc.kernel.package.mods[name][0]].decode('utf8')

    def is_package(self, name):
        return self.proc.kernel.package.mods[name][1]


class SimFinder(object):
    @classmethod
    def find_spec(cls, name, path=None, target=None):
        p = cur
        if p is None or not (name == 'yupp' or name.startswith('yupp.')):
            return None
        ent = p.kernel.package.mods.get(name)
        if ent is None:
            return None
        loader = SimLoader(p, name)
        spec = importlib.machinery.ModuleSpec(name, loader, origin=PKG + '/' + (ent[0] or ''), is_package=ent[1])
        if ent[1]:
            spec.submodule_search_locations = [posixpath.dirname(PKG + '/' + (ent[0] or name.replace('.', '/')[5:] + '/x'))]
        spec.has_location = ent[0] is not None
        return spec


class HashSim(object):
    """Randomised hashing as on CPython: iteration order of sets and hash() of
    strings depend on a salt, id() values on the process."""

    def __init__(self, salt):
        self.salt = salt
        self.ids = {}
        me = self

        def order(items):
            items = list(items)
            if len(items) < 2:
                return items
            p = Prng('set', me.salt, len(items))
            for i in range(len(items) - 1, 0, -1):
                j = p.bits() % (i + 1)
                items[i], items[j] = items[j], items[i]
            return items

        class SimSet(set):
            def __iter__(s):
                return iter(order(set.__iter__(s)))

            def pop(s):
                for x in s:
                    set.remove(s, x)
                    return x
                raise KeyError('pop from an empty set')

            def __repr__(s):
                return '{%s}' % ', '.join(map(repr, s)) if len(s) else 'set()'

        class SimFrozenSet(frozenset):
            def __iter__(s):
                return iter(order(frozenset.__iter__(s)))

        def wrap(base, klass):
            for m in ('__or__', '__and__', '__sub__', '__xor__', 'union', 'intersection', 'difference',
                      'symmetric_difference', 'copy', '__ror__', '__rand__', '__rsub__', '__rxor__'):
                def f(s, *a, _m=getattr(base, m)):
                    r = _m(s, *a)
                    return r if r is NotImplemented else klass(base.__iter__(r))
                setattr(klass, m, f)
            klass.__name__ = base.__name__
            klass.__qualname__ = base.__qualname__
        wrap(set, SimSet)
        wrap(frozenset, SimFrozenSet)
        self.set = SimSet
        self.frozenset = SimFrozenSet

    def hash(self, x):
        h = hash(x)
        if isinstance(x, (str, bytes)):
            return hash((h, self.salt))
        return h

    def id(self, x):
        e = self.ids.get(id(x))
        if e is None:
            e = (x, (len(self.ids) * 48 + 1) ^ (self.salt & 0xFFFFF000))
            self.ids[id(x)] = e
        return e[1]

    def install(self, g):
        g['set'] = self.set
        g['frozenset'] = self.frozenset
        g['hash'] = self.hash
        g['id'] = self.id
        g['__sim_set__'] = self.set


# ---------------------------------------------------------------------------
#  processes
# ---------------------------------------------------------------------------
class Proc(object):
    def __init__(self, kernel, name, body, argv=(), cwd='/', stdin='', env=None, locale='utf-8', bufsize=8192,
                 stdout_encoding='utf-8', hashsim=None, faults=()):
        self.kernel = kernel
        self.pid = kernel.next_pid
        kernel.next_pid += kernel.pid_step
        self.name = name
        self.body = body
        self.argv = list(argv)
        self.cwd = cwd
        self.locale = locale
        self.bufsize = bufsize
        self.hashsim = hashsim
        self.fds = {}
        self.next_fd = 1000
        self.keep = []
        self.calls = 0               # faultable system calls so far
        self.plan = {}               # call index -> fault
        for f in faults:
            self.plan.setdefault(f['at'], f)
        self.sticky = None           # persistent fault (disk full, read-only medium)
        self.std = {1: b'', 2: b''}
        self.std_fault = None        # (fd, nth write, errno)
        self.std_writes = 0
        self.dead = False
        self.killed = False
        self.finished = False
        self.started = False
        self.result = None
        self.exit = None             # exit status, None if killed
        self.exc = None
        self.exc_text = None
        self.in_pkg = 0
        self.codec_search = []
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.thread = None
        self.ctx = None
        self.ns = {}                 # scratch for the body
        self.oplog = []              # (name, path) of faultable calls
        self.thrown = None
        self.stdin_text = stdin
        self.profile = None
        self.mtimes = {}
        self.trace_hook = None
        self.uncaught = None
        self.recursion_limit = 1000

    def abspath(self, p):
        if p is None:
            p = '.'
        if isinstance(p, bytes):
            p = p.decode('utf8', 'surrogateescape')
        if not p.startswith('/'):
            p = self.cwd + '/' + p
        return p

    @property
    def out(self):
        return self.std[1].decode('utf8', 'replace')

    @property
    def errout(self):
        return self.std[2].decode('utf8', 'replace')


class _ProcCtx(object):
    """Interpreter-global state that belongs to one simulated process."""

    def __init__(self, proc):
        self.proc = proc
        self.modules = {}
        self.argv = list(proc.argv)
        raw1, raw2 = StdRaw(proc, 1), StdRaw(proc, 2)
        proc.keep += [raw1, raw2]
        self.stdin = io.TextIOWrapper(io.BytesIO(proc.stdin_text.encode('utf8', 'surrogateescape')), 'utf-8')
        self.stdout = io.TextIOWrapper(io.BufferedWriter(raw1), 'utf-8', 'backslashreplace', write_through=True)
        self.stderr = io.TextIOWrapper(io.BufferedWriter(raw2), 'utf-8', 'backslashreplace', write_through=True)
        proc.keep += [self.stdin, self.stdout, self.stderr]
        root = logging.RootLogger(logging.WARNING)
        self.manager = logging.Manager(root)
        self.logroot = root
        self.summary = BASE['summary']
        self.excepthook = BASE['excepthook']
        self.linecache = {}
        self.tempname = None
        self.tempdir = None
        self.byfile = dict(BASE['byfile'])
        self.bymod = dict(BASE['bymod'])
        self.importers = {}
        self.syspath = list(BASE['syspath'])

    def install(self):
        global cur
        sm = sys.modules
        for k, v in self.modules.items():
            if v is None:
                sm.pop(k, None)
            else:
                sm[k] = v
        sys.argv = self.argv
        sys.stdin, sys.stdout, sys.stderr = self.stdin, self.stdout, self.stderr
        logging.Logger.manager = self.manager
        logging.root = logging.Logger.root = self.logroot
        traceback.StackSummary = self.summary
        sys.excepthook = self.excepthook
        linecache.cache = self.linecache
        tempfile.tempdir = self.tempdir
        tempfile._name_sequence = self.tempname
        inspect.modulesbyfile, inspect._filesbymodname = self.byfile, self.bymod
        sys.path_importer_cache.update(self.importers)
        sys.path[:] = self.syspath
        cur = self.proc

    def uninstall(self):
        global cur
        cur = None
        sm = sys.modules
        mods = {}
        base = BASE['modules']
        if len(sm) != len(base) or self.modules or self.proc.touched_modules:
            for k in list(sm):
                b = base.get(k)
                if b is None:
                    v = sm[k]
                    if is_sim_module(k, v):
                        mods[k] = v
                        del sm[k]
                    else:
                        base[k] = v             # a standard module, loaded late
                elif sm[k] is not b:
                    mods[k] = sm[k]
                    sm[k] = b
            for k in base:
                if k not in sm:
                    mods[k] = None
                    sm[k] = base[k]
        self.modules = mods
        self.argv = sys.argv
        self.stdin, self.stdout, self.stderr = sys.stdin, sys.stdout, sys.stderr
        sys.argv, sys.stdin, sys.stdout, sys.stderr = BASE['std']
        logging.Logger.manager = BASE['manager']
        logging.root = logging.Logger.root = BASE['logroot']
        self.summary = traceback.StackSummary
        traceback.StackSummary = BASE['summary']
        self.excepthook = sys.excepthook
        sys.excepthook = BASE['excepthook']
        self.linecache = linecache.cache
        linecache.cache = BASE['linecache']
        self.tempname = tempfile._name_sequence
        tempfile._name_sequence = None
        self.tempdir = tempfile.tempdir
        tempfile.tempdir = BASE['tempdir']
        self.importers = {}
        for k in list(sys.path_importer_cache):
            if k not in BASE['importers']:
                self.importers[k] = sys.path_importer_cache.pop(k)
        self.syspath = sys.path[:]
        sys.path[:] = BASE['syspath']


def is_sim_module(name, mod):
    if name == 'yupp' or name.startswith('yupp.'):
        return True
    f = getattr(mod, '__file__', None)
    if f is None:
        return not isinstance(getattr(mod, '__spec__', None), importlib.machinery.ModuleSpec) or \
            getattr(mod.__spec__, 'origin', None) not in ('built-in', 'frozen')
    return not any(f.startswith(p + '/') for p in PASS)


# ---------------------------------------------------------------------------
#  kernel
# ---------------------------------------------------------------------------
MUTATING = {'open-w', 'write', 'close-w', 'fsync', 'rename', 'unlink', 'chmod', 'mkdir', 'rmdir', 'link', 'symlink',
            'truncate', 'utime'}

ERRNOS = {
    'open-r': [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENFILE, errno.ENOMEM],
    'open-w': [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EROFS, errno.EMFILE, errno.EDQUOT],
    'read': [errno.EIO, errno.ESTALE],
    'write': [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG],
    'close-w': [errno.EIO, errno.ENOSPC, errno.EDQUOT],
    'fsync': [errno.EIO, errno.ENOSPC],
    'rename': [errno.EIO, errno.EACCES, errno.ENOSPC, errno.EROFS],
    'unlink': [errno.EIO, errno.EACCES, errno.EROFS],
    'chmod': [errno.EPERM, errno.EROFS, errno.EIO],
    'stat': [errno.EIO, errno.EACCES],
    'mkdir': [errno.ENOSPC, errno.EACCES], 'rmdir': [errno.EIO], 'link': [errno.EPERM, errno.EMLINK, errno.ENOSPC],
    'symlink': [errno.EPERM, errno.ENOSPC], 'truncate': [errno.EIO], 'utime': [errno.EPERM, errno.EROFS],
    'listdir': [errno.EIO, errno.EACCES], 'readlink': [errno.EIO],
}

R = {}
BASE = {}


class Kernel(object):
    def __init__(self, ch, vfs, package, now=1_600_000_000 * 10**9, preempt=0, tick=10_000):
        self.ch = ch
        self.vfs = vfs
        self.package = package
        self.now = now
        self.start = now
        self.tick = tick
        vfs.now = lambda: self.now
        self.procs = []
        self.next_pid = 4001
        self.pid_step = 17
        self.events = []             # global event log
        self.preempt = preempt       # percent chance of a switch at a system call
        self.fired = {}              # fault kind -> count
        self.switches = 0
        self.ncalls = 0
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.running = None
        self.on_event = []           # invariant hooks, called after every effect
        self.violation = None
        self.rejected = []
        self.power_lost = None
        self.urandom = Prng('urandom', 1)
        self.yield_filter = None
        self.max_calls = MAX_CALLS

    # -- processes ------------------------------------------------------------
    def spawn(self, name, body, **kw):
        p = Proc(self, name, body, **kw)
        p.touched_modules = True
        self.procs.append(p)
        return p

    def _thread_main(self, p):
        p.lock.acquire()
        try:
            self._body(p)
        finally:
            global cur
            p.finished = True
            try:
                p.ctx.uninstall()
            finally:
                cur = None
                self.running = None
                self.main.release()

    def _body(self, p):
        try:
            try:
                p.result = p.body(p)
                p.exit = 0
            except SystemExit as e:
                c = e.code
                p.exit = 0 if c is None else c & 0xFF if isinstance(c, int) else 1
                if not (c is None or isinstance(c, int)):
                    print(c, file=sys.stderr)
            except SimCrash:
                pass
            except KeyboardInterrupt as e:
                p.exit = 130
                p.exc = e
            except Violation:
                raise
            except HarnessError:
                raise
            except BaseException as e:
                p.exit = 1
                p.exc = e
                p.exc_text = ''.join(BASE['format_exception'](type(e), e, e.__traceback__))
            if p.dead:
                p.exit = None
            else:
                # interpreter shutdown: files still open are flushed in order
                sys.setprofile(None)
                for f in p.keep[:]:
                    try:
                        if isinstance(f, (io.TextIOWrapper, io.BufferedWriter, io.BufferedRandom)) and not f.closed \
                                and not isinstance(getattr(f, 'raw', None), StdRaw):
                            f.flush()
                    except SimCrash:
                        break
                    except Exception:
                        pass
                if p.dead:
                    p.exit = None
        except SimCrash:
            p.exit = None
        except (Violation, HarnessError) as e:
            self.violation = self.violation or e
        except BaseException as e:                     # harness bug
            self.violation = self.violation or HarnessError(''.join(
                BASE['format_exception'](type(e), e, e.__traceback__)))

    def _resume(self, p):
        """Runs p from the main thread until it yields, ends or crashes."""
        if not p.started:
            p.started = True
            p.ctx = _ProcCtx(p)
            if p.tempname_seed is not None:
                p.ctx.tempname = TempNames(p.tempname_seed)
            p.thread = threading.Thread(target=self._thread_main, args=(p,), daemon=True)
            p.thread.start()
        self.running = p
        p.ctx.install()
        p.lock.release()
        self.main.acquire()

    def run(self, until=None):
        """Runs every spawned process to its end (or crash)."""
        global cur
        for p in self.procs:
            if not hasattr(p, 'tempname_seed'):
                p.tempname_seed = (p.pid, self.start)
        last = None
        while True:
            ready = [p for p in self.procs if not p.finished]
            if not ready or self.violation:
                break
            if last is not None and last in ready and len(ready) > 1:
                ready.remove(last)
                ready.insert(0, last)      # 0: keep running the same one
                # coming back here with `last` still ready means it was preempted
                p = ready[1 + self.ch.int(len(ready) - 1)]
                self.switches += 1
            else:
                p = ready[self.ch.int(len(ready))]
            last = p
            self._resume(p)
        if self.violation:
            for p in self.procs:           # unwind the others
                if p.started and not p.finished:
                    p.dead = True
                    self._resume(p)
            raise self.violation
        for p in self.procs:
            p.thread.join()

    def _yield(self, p):
        p.ctx.uninstall()
        self.main.release()
        p.lock.acquire()

    # -- the system call gate -------------------------------------------------
    def call(self, p, op, path=None, path2=None, size=None):
        """Returns a fault dict to be applied by the caller, or None."""
        if p.dead:
            raise SimCrash()
        quiet = path is not None and path.endswith('.py') and path.startswith(PKG + '/') \
            or path is not None and not path.startswith('/simfs') and not path.startswith('/tmp')
        if quiet:
            return None
        self.ncalls += 1
        if self.ncalls > self.max_calls:
            self.abort(p, Livelock('more than %d system calls' % self.max_calls))
        self.now += self.tick
        if self.preempt and sum(not q.finished for q in self.procs) > 1:
            if self.ch.flag(self.preempt):
                self._yield(p)
                if p.dead:
                    raise SimCrash()
        n = p.calls
        p.calls += 1
        p.oplog.append((op, path))
        self.events.append((p.pid, n, op, path, path2, size))
        for h in self.on_event:
            try:
                h(self, p, op, path, path2)
            except (Violation, HarnessError) as e:
                self.abort(p, e)
        f = p.plan.get(n)
        if f is not None:
            return self._fault(p, f, op, path, path2)
        if p.sticky is not None:
            e = p.sticky(op, path)
            if e:
                self._count('sticky:' + errno.errorcode[e])
                raise err(e, path) if path2 is None else err(e, path, path2)
        return None

    def _count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def _fault(self, p, f, op, path, path2):
        kind = f['kind']
        if kind == 'errno':
            pool = ERRNOS.get(op)
            if not pool:
                return None
            e = f['errno'] if f.get('errno') in pool else pool[f.get('sel', 0) % len(pool)]
            self._count('%s:%s' % (op, errno.errorcode[e]))
            self.events.append((p.pid, 'FAULT', op, errno.errorcode[e], path))
            p.faulted = True
            raise err(e, path, path2) if path2 is not None else err(e, path) if path is not None else err(e)
        if kind in ('kill', 'power'):
            if f.get('after') or op == 'write':
                return f                   # applied by the caller once (part of) the effect is in
            self.crash(p, kind, op)
        if kind == 'short':
            if op not in ('write', 'read'):
                return None
            self._count('short-' + op)
            return f
        if kind == 'throw':
            self._count('throw:' + f['exc'].__name__)
            raise f['exc']('injected')
        if kind == 'call':
            self._count(f.get('name', 'external-event'))
            f['fn'](self, p)
            return None
        return None

    def abort(self, p, e):
        """Ends the whole simulation; the code under test cannot swallow it."""
        self.violation = self.violation or e
        for q in self.procs:
            if not q.finished:
                q.dead = True
        raise SimCrash()

    def crash(self, p, kind, op=''):
        self._count(kind)
        self.events.append((p.pid, 'CRASH', kind, op))
        if kind == 'kill':
            p.dead = p.killed = True
        else:
            self.power_lost = self.vfs.power_loss(self.ch)
            for q in self.procs:
                if not q.finished:
                    q.dead = q.killed = True
        raise SimCrash()

    def after(self, p, f, op):
        if f is not None and f['kind'] in ('kill', 'power'):
            self.crash(p, f['kind'], op)

    # -- system calls ---------------------------------------------------------
    def newfd(self, p, node, flags, path):
        fd = p.next_fd
        p.next_fd += 1
        p.fds[fd] = FD(fd, node, flags, path)
        return fd

    def getfd(self, p, fd):
        f = p.fds.get(fd)
        if f is None:
            raise err(errno.EBADF)
        return f

    def sys_open(self, p, path, flags, mode=0o777, dir_fd=None):
        path = self.at(p, path, dir_fd)
        w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        f = self.call(p, 'open-w' if w else 'open-r', path)
        node = self.vfs.open(path, flags, mode)
        if not w and p.trace_hook:
            p.trace_hook('open', path, node)
        self.after(p, f, 'open')
        return self.newfd(p, node, flags, path)

    def sys_read(self, p, fd, n):
        if fd == 0:
            return b''
        o = self.getfd(p, fd)
        f = self.call(p, 'read', o.path, size=n)
        if o.node.kind == 'd':
            raise err(errno.EISDIR)
        if o.flags & os.O_WRONLY:
            raise err(errno.EBADF)
        if f is not None and f['kind'] == 'short' and n > 1:
            left = len(o.node.data) - o.pos
            n = max(1, min(n, left) * (1 + f.get('sel', 0) % 7) // 8)
        d = o.node.data[o.pos:o.pos + n]
        o.pos += len(d)
        self.after(p, f, 'read')
        return d

    def sys_pread(self, p, fd, n, off):
        o = self.getfd(p, fd)
        self.call(p, 'read', o.path, size=n)
        return o.node.data[off:off + n]

    def sys_write(self, p, fd, data):
        if fd in (1, 2):
            return self.std_write(p, fd, data)
        o = self.getfd(p, fd)
        f = self.call(p, 'write', o.path, size=len(data))
        if not o.flags & (os.O_WRONLY | os.O_RDWR):
            raise err(errno.EBADF)
        if o.append:
            o.pos = len(o.node.data)
        if f is not None and f['kind'] == 'short':
            data = data[:max(1, len(data) * (1 + f.get('sel', 0) % 7) // 8)]
        if f is not None and f['kind'] in ('kill', 'power') and not f.get('after'):
            data = data[:len(data) * (f.get('sel', 0) % 8) // 8]
        if data or f is None:
            n = self.vfs.write_node(o.node, o.pos, data)
            o.pos += n
            o.wrote = True
        else:
            n = 0
        self.after(p, f, 'write')
        return n

    def std_write(self, p, fd, data):
        if p.dead:
            raise SimCrash()
        p.std_writes += 1
        if p.std_fault and p.std_fault[0] == fd and p.std_writes >= p.std_fault[1]:
            self._count('stdout:' + errno.errorcode[p.std_fault[2]])
            raise err(p.std_fault[2])
        p.std[fd] += data
        self.events.append((p.pid, 'STD%d' % fd, data))
        return len(data)

    def sys_lseek(self, p, fd, off, whence):
        o = self.getfd(p, fd)
        if p.dead:
            raise SimCrash()
        base = 0 if whence == 0 else o.pos if whence == 1 else len(o.node.data)
        if base + off < 0:
            raise err(errno.EINVAL)
        o.pos = base + off
        return o.pos

    def sys_ftruncate(self, p, fd, size):
        o = self.getfd(p, fd)
        f = self.call(p, 'truncate', o.path)
        self.vfs.truncate_node(o.node, size)
        self.after(p, f, 'truncate')

    def sys_truncate(self, p, path, size):
        if isinstance(path, int):
            return self.sys_ftruncate(p, path, size)
        path = p.abspath(path)
        f = self.call(p, 'truncate', path)
        node = self.vfs.walk(path)
        if not node.mode & 0o200 and not self.vfs.privileged:
            raise err(errno.EACCES, path)
        self.vfs.truncate_node(node, size)
        self.after(p, f, 'truncate')

    def sys_close(self, p, fd):
        if fd in (0, 1, 2):
            return
        o = p.fds.get(fd)
        if o is None:
            raise err(errno.EBADF)
        try:
            f = self.call(p, 'close-w' if o.wrote else 'close-r', o.path)
        finally:
            p.fds.pop(fd, None)
        self.after(p, f, 'close')

    def sys_fsync(self, p, fd):
        o = self.getfd(p, fd)
        f = self.call(p, 'fsync', o.path)
        self.vfs.fsync_node(o.node)
        self.after(p, f, 'fsync')

    def at(self, p, path, dir_fd=None):
        if isinstance(path, bytes):
            path = path.decode('utf8', 'surrogateescape')
        elif not isinstance(path, str):
            path = os.fspath(path)
            if isinstance(path, bytes):
                path = path.decode('utf8', 'surrogateescape')
        if '\0' in path:
            raise ValueError('embedded null byte')
        if not path:
            raise err(errno.ENOENT, path)
        if not path.startswith('/') and dir_fd is not None:
            return self.getfd(p, dir_fd).path + '/' + path
        path = p.abspath(path)
        if not (path.startswith('/simfs') or path.startswith('/tmp') or path == '/' or path.startswith(HERE)):
            self.rejected.append(path)
        return path

    def sys_stat(self, p, path, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return self.sys_fstat(p, path)
        path = self.at(p, path, dir_fd)
        f = self.call(p, 'stat', path)
        node = self.vfs.walk(path, follow_symlinks)
        self.after(p, f, 'stat')
        return mkstat(node)

    def sys_fstat(self, p, fd):
        if fd in (0, 1, 2):
            return Stat((st.S_IFIFO | 0o600, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0))
        if p.dead:
            raise SimCrash()
        return mkstat(self.getfd(p, fd).node)

    def sys_access(self, p, path, mode, dir_fd=None, effective_ids=False, follow_symlinks=True):
        path = self.at(p, path, dir_fd)
        try:
            self.call(p, 'stat', path)
            n = self.vfs.walk(path)
        except OSError:
            return False
        if self.vfs.privileged or mode == os.F_OK:
            return True
        want = (0o400 if mode & os.R_OK else 0) | (0o200 if mode & os.W_OK else 0) | (0o100 if mode & os.X_OK else 0)
        return n.mode & want == want

    def sys_rename(self, p, src, dst, src_dir_fd=None, dst_dir_fd=None):
        src, dst = self.at(p, src, src_dir_fd), self.at(p, dst, dst_dir_fd)
        f = self.call(p, 'rename', src, dst)
        self.vfs.rename(src, dst)
        self.after(p, f, 'rename')

    def sys_unlink(self, p, path, dir_fd=None):
        path = self.at(p, path, dir_fd)
        f = self.call(p, 'unlink', path)
        self.vfs.unlink(path)
        self.after(p, f, 'unlink')

    def sys_chmod(self, p, path, mode, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            o = self.getfd(p, path)
            f = self.call(p, 'chmod', o.path)
            node = o.node
        else:
            path = self.at(p, path, dir_fd)
            f = self.call(p, 'chmod', path)
            node = self.vfs.walk(path, follow_symlinks)
        self.vfs.chmod_node(node, mode)
        self.after(p, f, 'chmod')

    def sys_utime(self, p, path, times=None, ns=None, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            node = self.getfd(p, path).node
            f = self.call(p, 'utime', self.getfd(p, path).path)
        else:
            path = self.at(p, path, dir_fd)
            f = self.call(p, 'utime', path)
            node = self.vfs.walk(path, follow_symlinks)
        if ns is not None:
            a, m = ns
        elif times is not None:
            a, m = int(times[0] * 10**9), int(times[1] * 10**9)
        else:
            a = m = self.now
        self.vfs.utime_node(node, m, a)
        self.after(p, f, 'utime')

    def sys_mkdir(self, p, path, mode=0o777, dir_fd=None):
        path = self.at(p, path, dir_fd)
        f = self.call(p, 'mkdir', path)
        self.vfs.mkdir(path, mode)
        self.after(p, f, 'mkdir')

    def sys_rmdir(self, p, path, dir_fd=None):
        path = self.at(p, path, dir_fd)
        f = self.call(p, 'rmdir', path)
        self.vfs.rmdir(path)
        self.after(p, f, 'rmdir')

    def sys_link(self, p, src, dst, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
        src, dst = self.at(p, src), self.at(p, dst)
        f = self.call(p, 'link', src, dst)
        self.vfs.link(src, dst, follow_symlinks)
        self.after(p, f, 'link')

    def sys_symlink(self, p, target, path, target_is_directory=False, dir_fd=None):
        path = self.at(p, path)
        f = self.call(p, 'symlink', path)
        self.vfs.symlink(os.fspath(target), path)
        self.after(p, f, 'symlink')

    def sys_readlink(self, p, path, dir_fd=None):
        path = self.at(p, path)
        self.call(p, 'readlink', path)
        n = self.vfs.walk(path, False)
        if n.kind != 'l':
            raise err(errno.EINVAL, path)
        return n.data

    def sys_listdir(self, p, path='.'):
        path = self.at(p, path if path is not None else '.')
        self.call(p, 'listdir', path)
        n = self.vfs.walk(path)
        if n.kind != 'd':
            raise err(errno.ENOTDIR, path)
        names = list(n.ents)
        salt = self.dirsalt
        names.sort(key=lambda x: hashlib.md5((str(salt) + x).encode('utf8', 'surrogateescape')).digest()
                   if salt else x)
        return names

    dirsalt = 0


class TempNames(object):
    def __init__(self, seed):
        self.p = Prng('tmp', seed)

    def __iter__(self):
        return self

    def __next__(self):
        return ''.join('abcdefghijklmnopqrstuvwxyz0123456789_'[(self.p.bits() >> 20) % 37] for _ in range(8))


class SimDirEntry(object):
    def __init__(self, kernel, proc, d, name):
        self.name = name
        self.path = posixpath.join(d, name)
        self._k, self._p = kernel, proc

    def _n(self, follow):
        return self._k.vfs.lookup(self._p.abspath(self.path), follow)

    def stat(self, follow_symlinks=True):
        return self._k.sys_stat(self._p, self.path, follow_symlinks=follow_symlinks)

    def is_dir(self, follow_symlinks=True):
        n = self._n(follow_symlinks)
        return n is not None and n.kind == 'd'

    def is_file(self, follow_symlinks=True):
        n = self._n(follow_symlinks)
        return n is not None and n.kind == 'f'

    def is_symlink(self):
        n = self._n(False)
        return n is not None and n.kind == 'l'

    def inode(self):
        return self._n(False).ino

    def __fspath__(self):
        return self.path


class SimScandir(object):
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


# ---------------------------------------------------------------------------
#  installation of the seams (once per worker)
# ---------------------------------------------------------------------------
def _wrap(name, sim, pathargs=(0,)):
    real = getattr(posix, name)
    R[name] = real

    def f(*a, **k):
        p = cur
        if p is None:
            return real(*a, **k)
        return sim(p, *a, **k)
    f.__name__ = name
    return f


def _pass_stat(real, sim):
    def f(p, path, *a, **k):
        if not isinstance(path, int):
            try:
                ap = p.abspath(os.fspath(path))
            except TypeError:
                ap = ''
            if passthrough(ap):
                return real(path, *a, **k)
        return sim(p, path, *a, **k)
    return f


def deny(name):
    def f(p, *a, **k):
        p.kernel.rejected.append(name)
        raise err(errno.EPERM)
    return f


def install():
    if BASE:
        return
    R['io_open'] = io.open
    R['FileIO'] = io.FileIO
    R['time'] = time.time
    K = Kernel

    def m(fn):
        return lambda p, *a, **k: fn(p.kernel, p, *a, **k)

    def lstat(p, path, dir_fd=None):
        return p.kernel.sys_stat(p, path, dir_fd=dir_fd, follow_symlinks=False)

    def scandir(p, path='.'):
        path = os.fspath(path) if path is not None else '.'
        names = p.kernel.sys_listdir(p, path)
        return SimScandir([SimDirEntry(p.kernel, p, path, n) for n in names])

    def chdir(p, path):
        path = p.kernel.at(p, path)
        n = p.kernel.vfs.walk(path)
        if n.kind != 'd':
            raise err(errno.ENOTDIR, path)
        p.cwd = posixpath.normpath(path)

    def dup(p, fd, *a):
        o = p.kernel.getfd(p, fd)
        n = p.kernel.newfd(p, o.node, o.flags, o.path)
        p.fds[n].pos = o.pos
        return n

    def sendfile(p, *a, **k):
        raise err(errno.EINVAL)

    def pwrite(p, fd, data, off):
        o = p.kernel.getfd(p, fd)
        pos, o.pos = o.pos, off
        try:
            return p.kernel.sys_write(p, fd, bytes(data))
        finally:
            o.pos = pos

    def urandom(p, n):
        return bytes((p.kernel.urandom.bits() >> 17) & 0xFF for _ in range(n))

    def sync(p):
        for i in p.kernel.vfs.inodes.values():
            if i.kind == 'f':
                i.synced, i.dirty = i.data, False
        p.kernel.vfs.commit()

    table = {
        'open': m(K.sys_open), 'read': m(K.sys_read), 'write': m(K.sys_write), 'close': m(K.sys_close),
        'stat': _pass_stat(posix.stat, m(K.sys_stat)), 'lstat': _pass_stat(posix.lstat, lstat),
        'fstat': m(K.sys_fstat), 'access': m(K.sys_access), 'rename': m(K.sys_rename), 'replace': m(K.sys_rename),
        'unlink': m(K.sys_unlink), 'remove': m(K.sys_unlink), 'chmod': m(K.sys_chmod), 'fchmod': m(K.sys_chmod),
        'utime': m(K.sys_utime), 'mkdir': m(K.sys_mkdir), 'rmdir': m(K.sys_rmdir), 'link': m(K.sys_link),
        'symlink': m(K.sys_symlink), 'readlink': _pass_stat(posix.readlink, m(K.sys_readlink)),
        'listdir': _pass_stat(posix.listdir, m(K.sys_listdir)), 'scandir': _pass_stat(posix.scandir, scandir),
        'fsync': m(K.sys_fsync), 'fdatasync': m(K.sys_fsync), 'lseek': m(K.sys_lseek),
        'ftruncate': m(K.sys_ftruncate), 'truncate': m(K.sys_truncate), 'pread': m(K.sys_pread), 'pwrite': pwrite,
        'getcwd': lambda p: p.cwd, 'getcwdb': lambda p: p.cwd.encode(), 'chdir': chdir, 'getpid': lambda p: p.pid,
        'getppid': lambda p: 1, 'getuid': lambda p: 1000, 'geteuid': lambda p: 1000, 'dup': dup,
        'sendfile': sendfile, 'urandom': urandom, 'sync': sync, 'isatty': lambda p, fd: False,
        'umask': lambda p, m: 0o022, 'chown': lambda p, *a, **k: None, 'lchown': lambda p, *a, **k: None,
        'fchown': lambda p, *a, **k: None,
        'device_encoding': lambda p, fd: None,
    }
    for n in ('system', 'fork', 'execv', 'execve', 'kill', 'killpg', 'mkfifo', 'mknod', 'chroot', '_exit', 'abort',
              'forkpty', 'setuid', 'setgid', 'pipe', 'dup2'):
        table[n] = deny(n)
    for n, fn in table.items():
        if not hasattr(posix, n):
            continue
        w = _wrap(n, fn)
        setattr(posix, n, w)
        if hasattr(os, n):
            setattr(os, n, w)
    R['posix_open_wrapped'] = os.open
    import pathlib
    acc = pathlib._NormalAccessor
    for n in ('chmod', 'listdir', 'lstat', 'mkdir', 'open', 'readlink', 'rename', 'replace', 'rmdir', 'scandir',
              'stat', 'unlink', 'utime', 'symlink'):
        if hasattr(acc, n) and hasattr(os, n):
            if n == 'symlink':
                setattr(acc, n, staticmethod(lambda a, b, t=False: os.symlink(a, b)))
            else:
                setattr(acc, n, staticmethod(getattr(os, n)))
    import _io
    for mod in (io, _io, builtins):
        mod.open = sim_open
    import tokenize
    tokenize._builtin_open = sim_open            # kept by linecache
    for mod in (io, _io):
        mod.open_code = sim_open_code_gate
        mod.FileIO = sim_fileio
    os.supports_dir_fd = set()
    os.supports_fd = set(os.supports_fd) | {os.chmod, os.utime, os.truncate, os.stat}
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False

    # importing scripts: module locks would block a real thread on another simulated process
    _bs._get_module_lock = _bs._DummyModuleLock

    # clock
    def clock(name, f):
        real = getattr(time, name)
        setattr(time, name, lambda *a, **k: real(*a, **k) if cur is None else f(cur.kernel, *a, **k))
    clock('time', lambda k: k.now / 1e9)
    clock('time_ns', lambda k: k.now)
    clock('monotonic', lambda k: (k.now - k.start) / 1e9 + 1000)
    clock('monotonic_ns', lambda k: k.now - k.start + 10**12)
    clock('perf_counter', lambda k: (k.now - k.start) / 1e9)
    clock('perf_counter_ns', lambda k: k.now - k.start)
    clock('process_time', lambda k: (k.now - k.start) / 1e9)

    def sleep(k, s):
        p = cur
        k.now += int(s * 1e9)
        if sum(not q.finished for q in k.procs) > 1:
            k._yield(p)
            if p.dead:
                raise SimCrash()
    clock('sleep', sleep)
    for name in ('localtime', 'gmtime'):
        real = getattr(time, name)
        setattr(time, name, lambda s=None, _r=real: _r(time.time() if s is None else s))
    for name, pos in (('strftime', 1), ('ctime', 0), ('asctime', 0)):
        real = getattr(time, name)

        def wrapped(*a, _r=real, _pos=pos, _n=name):
            if cur is not None and len(a) <= _pos:
                a = a + ((time.time(),) if _n == 'ctime' else (time.localtime(),))
            return _r(*a)
        setattr(time, name, wrapped)

    sys.meta_path.insert(0, SimFinder)
    sys.dont_write_bytecode = True

    # codec registry: one trampoline per name, dispatching to the current process
    R['register'] = codecs.register

    def register(fn):
        if cur is None:
            return R['register'](fn)
        cur.codec_search.append(fn)
    codecs.register = register

    def search(name):
        p = cur
        if p is None or not name.startswith('yupp'):
            return None
        for s in p.codec_search:
            if s(name) is not None:
                return trampoline(name)
        return None
    R['register'](search)

    # modules the code under test and its dependencies need, loaded before BASE is taken
    import past.builtins.misc, future.standard_library, future.builtins, past.builtins    # noqa
    import json, argparse, readline, imp, string, operator, math, datetime, zlib, textwrap, copy    # noqa
    import encodings.utf_8, encodings.ascii, encodings.latin_1, encodings.cp1251, encodings.cp1252    # noqa
    import encodings.koi8_r, encodings.utf_16, encodings.idna, encodings.unicode_escape    # noqa
    import collections, itertools, functools, gettext, locale, warnings, types, contextlib, uuid, errno as _e   # noqa
    import fcntl, socket, secrets, runpy, atexit, signal, weakref, difflib, pprint, glob, fnmatch   # noqa
    warnings.simplefilter('ignore')
    # every simulated process has the same stack, whatever the machine gives and the code asks for
    _setlimit = sys.setrecursionlimit
    _setlimit(8192)

    def setrecursionlimit(n):
        if cur is None:
            return _setlimit(n)
        cur.recursion_limit = n

    def getrecursionlimit():
        return 8192 if cur is None else cur.recursion_limit
    sys.setrecursionlimit, sys.getrecursionlimit = setrecursionlimit, getrecursionlimit
    logging.raiseExceptions = True
    BASE['modules'] = dict(sys.modules)
    BASE['std'] = (sys.argv, sys.stdin, sys.stdout, sys.stderr)
    BASE['manager'] = logging.Logger.manager
    BASE['logroot'] = logging.root
    BASE['summary'] = traceback.StackSummary
    BASE['excepthook'] = sys.excepthook
    BASE['linecache'] = linecache.cache
    BASE['tempdir'] = tempfile.tempdir
    inspect.getmodule(inspect.currentframe())
    BASE['byfile'], BASE['bymod'] = inspect.modulesbyfile, inspect._filesbymodname
    BASE['importers'] = set(sys.path_importer_cache)
    BASE['syspath'] = sys.path[:]
    BASE['format_exception'] = _plain_format_exception


def _plain_format_exception(t, e, tb):
    out = []
    while tb is not None:
        f = tb.tb_frame
        out.append('  %s:%d %s\n' % (f.f_code.co_filename, tb.tb_lineno, f.f_code.co_name))
        tb = tb.tb_next
    out = out[:3] + out[-12:] if len(out) > 16 else out
    try:
        s = str(e)
    except Exception:
        s = '?'
    out.append('%s: %s\n' % (t.__name__, s))
    return out


def sim_open_code_gate(path):
    if cur is None:
        return R['io_open'](path, 'rb')
    return sim_open_code(path)


_tramp = {}


def _info(name):
    p = cur
    if p is None:
        raise LookupError('unknown encoding: ' + name)
    for s in p.codec_search:
        i = s(name)
        if i is not None:
            return i
    raise LookupError('unknown encoding: ' + name)


def trampoline(name):
    if name not in _tramp:
        _tramp[name] = codecs.CodecInfo(
            name=name,
            encode=lambda *a, **k: _info(name).encode(*a, **k),
            decode=lambda *a, **k: _info(name).decode(*a, **k),
            incrementalencoder=lambda *a, **k: _info(name).incrementalencoder(*a, **k),
            incrementaldecoder=lambda *a, **k: _info(name).incrementaldecoder(*a, **k),
            streamwriter=lambda *a, **k: _info(name).streamwriter(*a, **k),
            streamreader=lambda *a, **k: _info(name).streamreader(*a, **k))
    return _tramp[name]


def base_vfs(package):
    """A file system with yupp installed under PKG and a working directory."""
    v = VFS()
    v.now = lambda: 1_500_000_000 * 10**9
    v.makedirs('/simfs/w')
    v.makedirs('/tmp')
    for f, data in package.files.items():
        v.put(PKG + '/' + f, data)
    v.settle()
    return v


# ---------------------------------------------------------------------------
#  bodies of simulated processes: only public entry points
# ---------------------------------------------------------------------------
def yupp(p):
    if not p.in_pkg:
        p.in_pkg = 1
        random.seed(p.pid)
    import yupp as y
    return y


def run_cli(entry='main'):
    """python -m yupp ARGS / the console script / yup.py as a module / yupp.cli()."""
    def body(p):
        import importlib
        random.seed(p.pid)
        args = p.argv
        if entry == 'script':                        # [console_scripts] yup = yupp.__main__:main
            sys.argv = ['yup'] + args
            mod = importlib.import_module('yupp.__main__')
            sys.exit(mod.main())
        if entry == 'cli':
            yupp_ = importlib.import_module('yupp')
            sys.argv = ['x'] + args
            return yupp_.cli(args)
        name = {'main': 'yupp.__main__', 'ppmain': 'yupp.pp.__main__', 'yup': 'yupp.pp.yup'}[entry]
        importlib.import_module(name.rsplit('.', 1)[0])
        fn, _ = p.kernel.package.mods[name]
        sys.argv = [PKG + '/' + fn] + args
        g = {'__name__': '__main__', '__package__': name.rsplit('.', 1)[0], '__file__': PKG + '/' + fn,
             '__builtins__': builtins, '__spec__': None}
        if p.hashsim is not None:
            p.hashsim.install(g)
        exec(p.kernel.package.get_code(name, p.hashsim is not None), g)
    return body
