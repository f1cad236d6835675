"""In-memory POSIX-like file system with a durability model.

Two views of the same tree:
  * the page-cache view, what every live process sees;
  * the durable view: directory entries and attributes as of the last commit
    (an fsync commits the ordered metadata journal) plus, per inode, the data
    that was last synced.
A process kill keeps the page-cache view.  A power loss keeps a prefix of the
metadata journal and, for every inode with unsynced data, the synced contents,
nothing, a torn prefix, or everything.
"""
import errno
import os
import posixpath
import stat as st

ELOOP_MAX = 16


def err(e, path=None, path2=None):
    if path2 is not None:
        return OSError(e, os.strerror(e), path, None, path2)
    if path is not None:
        return OSError(e, os.strerror(e), path)
    return OSError(e, os.strerror(e))


class Inode(object):
    __slots__ = ('ino', 'kind', 'mode', 'mtime', 'atime', 'ctime', 'data', 'ents', 'nlink', 'synced', 'dirty',
                 'birth')

    def __init__(self, ino, kind, mode, now, data=None):
        self.ino = ino
        self.kind = kind              # 'f' 'd' 'l'
        self.mode = mode
        self.mtime = self.atime = self.ctime = now
        self.data = data              # bytes | link target
        self.ents = {} if kind == 'd' else None
        self.nlink = 0
        self.synced = None            # durable data, None: never synced
        self.dirty = False
        self.birth = now

    def clone(self):
        n = Inode.__new__(Inode)
        n.ino = self.ino
        n.kind = self.kind
        n.mode = self.mode
        n.mtime = self.mtime
        n.atime = self.atime
        n.ctime = self.ctime
        n.data = self.data
        n.ents = dict(self.ents) if self.ents is not None else None
        n.nlink = self.nlink
        n.synced = self.synced
        n.dirty = self.dirty
        n.birth = self.birth
        return n


class VFS(object):
    def __init__(self):
        self.inodes = {}
        self.next_ino = 2
        self.root = Inode(1, 'd', 0o755, 0)
        self.inodes[1] = self.root
        self.now = lambda: 0
        self.gran = 1                 # timestamp granularity, ns
        self.journal = []             # metadata operations since the last commit
        self.durable_dirs = {1: {}}
        self.durable_attr = {}
        self.capacity = None          # bytes, None: unlimited
        self.privileged = False       # True: permission bits are not enforced

    # -- cloning and snapshots ------------------------------------------------
    def clone(self):
        n = VFS.__new__(VFS)
        n.inodes = {k: v.clone() for k, v in self.inodes.items()}
        n.next_ino = self.next_ino
        n.root = n.inodes[1]
        n.now = self.now
        n.gran = self.gran
        n.journal = list(self.journal)
        n.durable_dirs = {k: dict(v) for k, v in self.durable_dirs.items()}
        n.durable_attr = dict(self.durable_attr)
        n.capacity = self.capacity
        n.privileged = self.privileged
        return n

    def settle(self):
        """Everything written so far becomes durable (initial state)."""
        for i in self.inodes.values():
            if i.kind != 'd':
                i.synced = i.data
            i.dirty = False
        self.commit()

    def commit(self):
        if self.journal:
            for op in self.journal:
                self._apply(self.durable_dirs, self.durable_attr, op)
            self.journal = []

    @staticmethod
    def _apply(dirs, attr, op):
        k = op[0]
        if k == 'link':
            dirs.setdefault(op[1], {})[op[2]] = op[3]
            if op[4]:
                dirs.setdefault(op[3], {})
        elif k == 'unlink':
            dirs[op[1]].pop(op[2], None)
        elif k == 'rename':
            x = dirs[op[1]].pop(op[2], None)
            if x is not None:
                dirs[op[3]][op[4]] = x
        elif k == 'attr':
            attr[op[1]] = op[2:]

    def _j(self, *op):
        self.journal.append(op)

    def power_loss(self, ch):
        """Roll back to a durable state; ch decides how much survived."""
        n = ch.int(len(self.journal) + 1)
        keep = len(self.journal) - n          # 0: everything survived
        dirs = {k: dict(v) for k, v in self.durable_dirs.items()}
        attr = dict(self.durable_attr)
        for op in self.journal[:keep]:
            self._apply(dirs, attr, op)
        self.journal = []
        inodes = {}
        seen = {1}
        todo = [1]
        old = self.inodes
        info = {'journal': (keep, keep + n), 'torn': 0}
        while todo:
            i = todo.pop()
            nd = old[i].clone()
            inodes[i] = nd
            nd.ents = dict(dirs.get(i, {}))
            nd.nlink = 2
            for name in sorted(nd.ents):
                c = nd.ents[name]
                if c in inodes and inodes[c].kind != 'd':
                    inodes[c].nlink += 1
                    continue
                src = old.get(c)
                if src is None:
                    del nd.ents[name]
                    continue
                if src.kind == 'd':
                    if c not in seen:
                        seen.add(c)
                        todo.append(c)
                    continue
                cn = src.clone()
                cn.nlink = 1
                if c in attr:
                    cn.mode, cn.mtime = attr[c]
                if src.kind == 'f' and src.dirty:
                    synced = src.synced if src.synced is not None else b''
                    mode = ch.int(4)
                    if mode == 0:
                        pass                               # all of it made it
                    elif mode == 1:
                        cn.data = synced
                        info['torn'] += 1
                    elif mode == 2:
                        cn.data = src.data[:ch.int(len(src.data) + 1)]
                        info['torn'] += 1
                    else:
                        cn.data = b'\0' * len(src.data)    # size journalled, blocks not
                        info['torn'] += 1
                cn.synced = cn.data
                cn.dirty = False
                inodes[c] = cn
        self.inodes = inodes
        self.root = inodes[1]
        self.durable_dirs = {k: dict(v.ents) for k, v in inodes.items() if v.kind == 'd'}
        self.durable_attr = {}
        return info

    # -- path walking ---------------------------------------------------------
    def walk(self, path, follow=True, parent=False, _depth=0):
        """path: absolute, normal str.  Returns inode or (dir inode, name)."""
        if _depth > ELOOP_MAX:
            raise err(errno.ELOOP, path)
        parts = [p for p in path.split('/') if p and p != '.']
        cur = self.root
        stack = [cur]
        curpath = ''
        for n, name in enumerate(parts):
            last = n == len(parts) - 1
            if cur.kind != 'd':
                raise err(errno.ENOTDIR, path)
            if not cur.mode & 0o100 and not self.privileged:
                raise err(errno.EACCES, path)
            if name == '..':
                if len(stack) > 1:
                    stack.pop()
                cur = stack[-1]
                curpath = curpath.rsplit('/', 1)[0]
                if last and parent:
                    raise err(errno.EINVAL, path)
                continue
            if last and parent:
                return cur, name
            if len(name.encode('utf8', 'surrogateescape')) > 255:
                raise err(errno.ENAMETOOLONG, path)
            c = cur.ents.get(name)
            if c is None:
                raise err(errno.ENOENT, path)
            node = self.inodes[c]
            if node.kind == 'l' and (follow or not last):
                tgt = node.data
                if not tgt.startswith('/'):
                    tgt = curpath + '/' + tgt
                rest = '/'.join(parts[n + 1:])
                return self.walk(tgt + ('/' + rest if rest else ''), follow, parent, _depth + 1)
            cur = node
            stack.append(cur)
            curpath += '/' + name
        if parent:
            raise err(errno.EBUSY, path)
        return cur

    def lookup(self, path, follow=True):
        try:
            return self.walk(path, follow)
        except OSError:
            return None

    def t(self):
        n = self.now()
        return n - n % self.gran

    def _touch(self, node):
        node.mtime = node.ctime = self.t()
        self._j('attr', node.ino, node.mode, node.mtime)

    def _new(self, kind, mode, data=None):
        i = self.next_ino
        self.next_ino += 1
        n = Inode(i, kind, mode, self.t(), data)
        self.inodes[i] = n
        return n

    def _link(self, d, name, node):
        d.ents[name] = node.ino
        node.nlink += 1
        d.mtime = d.ctime = self.t()
        self._j('link', d.ino, name, node.ino, node.kind == 'd')

    def _wcheck(self, d, path):
        if not d.mode & 0o200 and not self.privileged:
            raise err(errno.EACCES, path)

    def used(self):
        return sum(len(i.data) for i in self.inodes.values() if i.kind == 'f' and i.nlink)

    # -- operations -----------------------------------------------------------
    def open(self, path, flags, mode=0o666):
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        node = None
        try:
            node = self.walk(path, not (flags & getattr(os, 'O_NOFOLLOW', 0)))
        except OSError as e:
            if e.errno != errno.ENOENT or not flags & os.O_CREAT:
                raise
        if node is None:
            d, name = self.walk(path, parent=True)
            if d.kind != 'd':
                raise err(errno.ENOTDIR, path)
            if len(name.encode('utf8', 'surrogateescape')) > 255:
                raise err(errno.ENAMETOOLONG, path)
            ln = d.ents.get(name)
            if ln is not None:                 # dangling link
                tgt = self.inodes[ln].data
                if not tgt.startswith('/'):
                    tgt = posixpath.dirname(path) + '/' + tgt
                return self.open(tgt, flags, mode)
            self._wcheck(d, path)
            node = self._new('f', mode & 0o7777 & ~0o022, b'')
            self._link(d, name, node)
            self._j('attr', node.ino, node.mode, node.mtime)
            node.dirty = True
            return node
        if flags & os.O_CREAT and flags & os.O_EXCL:
            raise err(errno.EEXIST, path)
        if node.kind == 'd':
            if acc != os.O_RDONLY or flags & os.O_CREAT:
                raise err(errno.EISDIR, path)
            return node
        if flags & getattr(os, 'O_DIRECTORY', 0):
            raise err(errno.ENOTDIR, path)
        if node.kind == 'l':
            raise err(errno.ELOOP, path)
        if not self.privileged:
            if acc in (os.O_RDONLY, os.O_RDWR) and not node.mode & 0o400:
                raise err(errno.EACCES, path)
            if acc in (os.O_WRONLY, os.O_RDWR) and not node.mode & 0o200:
                raise err(errno.EACCES, path)
        if flags & os.O_TRUNC and acc != os.O_RDONLY:
            self.truncate_node(node, 0)
        return node

    def truncate_node(self, node, n):
        d = node.data
        node.data = d[:n] if n <= len(d) else d + b'\0' * (n - len(d))
        node.dirty = True
        self._touch(node)

    def write_node(self, node, pos, buf):
        if self.capacity is not None:
            room = self.capacity - self.used()
            grow = max(0, pos + len(buf) - len(node.data))
            if grow > room:
                buf = buf[:max(0, len(buf) - (grow - max(0, room)))]
                if not buf:
                    raise err(errno.ENOSPC)
        d = node.data
        if pos > len(d):
            d = d + b'\0' * (pos - len(d))
        node.data = d[:pos] + buf + d[pos + len(buf):]
        node.dirty = True
        self._touch(node)
        return len(buf)

    def fsync_node(self, node):
        if node.kind == 'f':
            node.synced = node.data
            node.dirty = False
        self.commit()

    def unlink(self, path):
        d, name = self.walk(path, parent=True)
        c = d.ents.get(name)
        if c is None:
            raise err(errno.ENOENT, path)
        if self.inodes[c].kind == 'd':
            raise err(errno.EISDIR, path)
        self._wcheck(d, path)
        del d.ents[name]
        self.inodes[c].nlink -= 1
        d.mtime = self.t()
        self._j('unlink', d.ino, name)

    def rmdir(self, path):
        d, name = self.walk(path, parent=True)
        c = d.ents.get(name)
        if c is None:
            raise err(errno.ENOENT, path)
        n = self.inodes[c]
        if n.kind != 'd':
            raise err(errno.ENOTDIR, path)
        if n.ents:
            raise err(errno.ENOTEMPTY, path)
        self._wcheck(d, path)
        del d.ents[name]
        self._j('unlink', d.ino, name)

    def mkdir(self, path, mode=0o777):
        d, name = self.walk(path, parent=True)
        if name in d.ents:
            raise err(errno.EEXIST, path)
        self._wcheck(d, path)
        n = self._new('d', mode & 0o7777 & ~0o022)
        self._link(d, name, n)
        n.nlink = 2
        return n

    def rename(self, src, dst):
        sd, sn = self.walk(src, parent=True)
        c = sd.ents.get(sn)
        if c is None:
            raise err(errno.ENOENT, src, dst)
        dd, dn = self.walk(dst, parent=True)
        self._wcheck(sd, src)
        self._wcheck(dd, dst)
        node = self.inodes[c]
        old = dd.ents.get(dn)
        if old == c:
            return
        if old is not None:
            o = self.inodes[old]
            if o.kind == 'd':
                if node.kind != 'd':
                    raise err(errno.EISDIR, src, dst)
                if o.ents:
                    raise err(errno.ENOTEMPTY, src, dst)
            elif node.kind == 'd':
                raise err(errno.ENOTDIR, src, dst)
            o.nlink -= 1
        del sd.ents[sn]
        dd.ents[dn] = c
        sd.mtime = dd.mtime = self.t()
        self._j('rename', sd.ino, sn, dd.ino, dn)

    def link(self, src, dst, follow=True):
        node = self.walk(src, follow)
        if node.kind == 'd':
            raise err(errno.EPERM, src, dst)
        d, name = self.walk(dst, parent=True)
        if name in d.ents:
            raise err(errno.EEXIST, src, dst)
        self._wcheck(d, dst)
        self._link(d, name, node)

    def symlink(self, target, path):
        d, name = self.walk(path, parent=True)
        if name in d.ents:
            raise err(errno.EEXIST, target, path)
        self._wcheck(d, path)
        self._link(d, name, self._new('l', 0o777, target))

    def chmod_node(self, node, mode):
        node.mode = mode & 0o7777
        node.ctime = self.t()
        self._j('attr', node.ino, node.mode, node.mtime)

    def utime_node(self, node, mtime, atime=None):
        node.mtime = mtime - mtime % self.gran
        if atime is not None:
            node.atime = atime
        self._j('attr', node.ino, node.mode, node.mtime)

    # -- harness helpers (no permissions, no faults) --------------------------
    def put(self, path, data, mode=0o644, mtime=None):
        if isinstance(data, str):
            data = data.encode('utf8')
        priv, self.privileged = self.privileged, True
        try:
            self.makedirs(posixpath.dirname(path))
            node = self.lookup(path)
            if node is None:
                node = self.open(path, os.O_CREAT | os.O_WRONLY, 0o644)
            node.data = data
            node.dirty = True
            self._touch(node)
            self.chmod_node(node, mode)
            if mtime is not None:
                node.mtime = mtime
        finally:
            self.privileged = priv
        return node

    def makedirs(self, path):
        priv, self.privileged = self.privileged, True
        try:
            cur = ''
            for p in [x for x in path.split('/') if x]:
                cur += '/' + p
                if self.lookup(cur) is None:
                    self.mkdir(cur)
        finally:
            self.privileged = priv

    def get(self, path):
        n = self.lookup(path)
        return None if n is None or n.kind != 'f' else n.data

    def mode(self, path):
        n = self.lookup(path)
        return None if n is None else n.mode

    def tree(self, path):
        """{relative path: (kind, mode, data)} below path."""
        out = {}
        top = self.lookup(path)
        if top is None:
            return out

        def rec(d, pre):
            for name in sorted(d.ents):
                n = self.inodes[d.ents[name]]
                if n.kind == 'd':
                    out[pre + name + '/'] = ('d', n.mode, None)
                    rec(n, pre + name + '/')
                else:
                    out[pre + name] = (n.kind, n.mode, n.data)
        rec(top, '')
        return out


S_IF = {'f': st.S_IFREG, 'd': st.S_IFDIR, 'l': st.S_IFLNK}
