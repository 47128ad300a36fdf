"""A directory tree whose entries may or may not exist: symbolic existence in the solver run, a real scratch tree on replay."""
import contextlib
import errno
import os
import shutil
import stat as st
import tempfile

ROOT = "/virtual_tree"


class Entry:
    def __init__(self, fs, name, path):
        self.fs, self.name, self.path = fs, name, path

    def is_dir(self, follow_symlinks=True):
        return self.fs.isdir(self.path)

    def is_file(self, follow_symlinks=True):
        return not self.is_dir()

    def is_symlink(self):
        return False

    def stat(self, follow_symlinks=True):
        return self.fs.stat(self.path)

    def __fspath__(self):
        return self.path


class Listing(list):
    def __enter__(self):
        return iter(self)

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class VFS:
    """entries: relative path -> (exists, isdir), each bool or symbolic. Decides existence when the code looks."""

    def __init__(self, c, entries):
        self.c = c
        self.entries = dict(entries)
        self.removed = []
        self.foreign = []
        self.real = c.mode == "conc"
        self.root = ROOT
        if self.real:
            self.root = tempfile.mkdtemp(prefix="verif_tree_")
        self.known = {}

    def p(self, rel):
        return os.path.join(self.root, rel)

    # ---------------------------------------------------------------- symbolic tree
    def rel(self, path):
        path = os.path.normpath(os.fspath(path))
        if isinstance(path, bytes):
            return None
        if path == ROOT:
            return ""
        return path[len(ROOT) + 1 :] if path.startswith(ROOT + "/") else None

    def there(self, rel):
        if rel == "":
            return True
        if rel in self.removed or rel not in self.entries:
            return False
        parent = os.path.dirname(rel)
        if parent and not (self.there(parent) and self.dirq(parent)):
            return False
        if rel not in self.known:
            self.known[rel] = bool(self.entries[rel][0])
        return self.known[rel]

    def dirq(self, rel):
        if rel == "":
            return True
        k = rel + "/"
        if k not in self.known:
            self.known[k] = bool(self.entries[rel][1])
        return self.known[k]

    def isdir(self, path):
        return self.dirq(self.rel(path))

    def stat(self, path):
        rel = self.rel(path)
        if not self.there(rel):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        return os.stat_result(((st.S_IFDIR | 0o755) if self.dirq(rel) else (st.S_IFREG | 0o644), 1, 1, 1, 0, 0, 1, 0, 0, 0))

    def children(self, path):
        rel = self.rel(path)
        if not self.there(rel):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if not self.dirq(rel):
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
        names = [e for e in self.entries if os.path.dirname(e) == rel]
        return [os.path.basename(e) for e in names if self.there(e)]

    def remove(self, path):
        rel = self.rel(path)
        self.stat(path)
        if self.dirq(rel):
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
        self.removed.append(rel)

    @contextlib.contextmanager
    def active(self):
        if self.real:
            for rel in sorted(self.entries):
                ex, isd = self.entries[rel]
                if not ex:
                    continue
                if rel and os.path.dirname(rel) and not os.path.isdir(self.p(os.path.dirname(rel))):
                    continue
                if isd:
                    os.makedirs(self.p(rel), exist_ok=True)
                else:
                    open(self.p(rel), "w").close()
            before = self.tree()
            try:
                yield self
            finally:
                self.removed = sorted(before - self.tree())
                shutil.rmtree(self.root, ignore_errors=True)
            return
        orig = {n: getattr(os, n) for n in ("stat", "lstat", "scandir", "listdir", "remove", "unlink", "rename", "replace", "access")}
        mine = lambda path: isinstance(path, (str, os.PathLike)) and self.rel(path) is not None

        def wrap(name, fn):
            def f(path=".", *a, **k):
                return fn(path, *a, **k) if mine(path) else orig[name](path, *a, **k)

            return f

        def scandir(path):
            return Listing(Entry(self, n, os.path.join(os.fspath(path), n)) for n in self.children(path))

        def access(path, *a, **k):
            try:
                self.stat(path)
                return True
            except OSError:
                return False

        def rename(src, dst, **k):
            # whatever is at the target is lost, and the source is gone from its place
            if mine(dst) and self.there(self.rel(dst)):
                self.remove(dst)
            self.remove(src)

        subs = dict(
            stat=wrap("stat", lambda p, *a, **k: self.stat(p)),
            lstat=wrap("lstat", lambda p, *a, **k: self.stat(p)),
            scandir=wrap("scandir", scandir),
            listdir=wrap("listdir", lambda p, *a, **k: self.children(p)),
            remove=wrap("remove", lambda p, *a, **k: self.remove(p)),
            unlink=wrap("unlink", lambda p, *a, **k: self.remove(p)),
            rename=wrap("rename", rename),
            replace=wrap("replace", rename),
            access=wrap("access", access),
        )
        try:
            for n, f in subs.items():
                setattr(os, n, f)
            yield self
        finally:
            for n, f in orig.items():
                setattr(os, n, f)

    def tree(self):
        out = set()
        for d, ds, fs in os.walk(self.root):
            for f in fs + ds:
                out.add(os.path.relpath(os.path.join(d, f), self.root))
        return out
