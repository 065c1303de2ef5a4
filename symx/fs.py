"""An in-memory file system for the code under analysis."""
import copy
import os as _os
import posixpath
import types

import numpy as _np

from . import npshim as N
from .engine import Sym, SymBool, Unsupported


class Blob(object):
    """the bytes of a pickled object"""

    def __init__(self, obj):
        self.obj = copy.deepcopy(obj)

    def __len__(self):
        return 100


class File(object):
    def __init__(self, fs, path, mode, content):
        self.fs, self.path, self.mode = fs, path, mode
        self.name = path
        self.content = content
        self.pos = 0
        self.closed = False
        self.can_w = any(c in mode for c in "wa+x")
        self.can_r = "r" in mode or "+" in mode
        self.bin = "b" in mode
        if "a" in mode:
            self.pos = len(self.content)

    def _flush(self):
        self.fs.files[self.path] = self.content

    def write(self, s):
        if not self.can_w:
            raise OSError("not writable")
        if isinstance(s, Blob):
            if not isinstance(self.content, list):
                self.content = []
            self.content = list(self.content) + [s]
            self._flush()
            return len(s)
        if isinstance(self.content, list):
            if self.content:
                raise Unsupported("mixed file content")
            self.content = b"" if self.bin else ""
        self.content = self.content[:self.pos] + s + self.content[self.pos + len(s):]
        self.pos += len(s)
        self._flush()
        return len(s)

    def writelines(self, ls):
        for s in ls:
            self.write(s)

    def read(self, n=-1):
        if not self.can_r:
            raise OSError("not readable")
        if isinstance(self.content, list):
            raise Unsupported("reading the bytes of a pickle")
        r = self.content[self.pos:] if n is None or n < 0 else self.content[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self):
        k = self.content.find("\n", self.pos)
        k = len(self.content) if k < 0 else k + 1
        r = self.content[self.pos:k]
        self.pos = k
        return r

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            s = self.readline()
            if not s:
                return
            yield s

    def seek(self, p, w=0):
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        self.content = self.content[:self.pos if n is None else n]
        self._flush()

    def flush(self):
        pass

    def fileno(self):
        return 99

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FS(object):
    def __init__(self):
        self.files = {}
        self.dirs = {"/", "/work"}
        self.cwd = "/work"
        self.log = []

    def ab(self, p):
        if not isinstance(p, str):
            if hasattr(p, "__fspath__"):
                p = p.__fspath__()
            elif isinstance(p, File):
                return p.path
            else:
                raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(p).__name__)
        return posixpath.normpath(posixpath.join(self.cwd, p))

    def exists(self, p):
        p = self.ab(p)
        return p in self.files or p in self.dirs

    def isfile(self, p):
        return self.ab(p) in self.files

    def isdir(self, p):
        return self.ab(p) in self.dirs

    def mkdir(self, p, mode=0o777):
        p = self.ab(p)
        if self.exists(p):
            raise FileExistsError(p)
        if posixpath.dirname(p) not in self.dirs:
            raise FileNotFoundError(p)
        self.dirs.add(p)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        p = self.ab(p)
        if p in self.dirs:
            if not exist_ok:
                raise FileExistsError(p)
            return
        q = p
        while q not in self.dirs:
            self.dirs.add(q)
            q = posixpath.dirname(q)

    def remove(self, p):
        p = self.ab(p)
        if p in self.dirs:
            raise IsADirectoryError(p)
        if p not in self.files:
            raise FileNotFoundError(p)
        del self.files[p]

    def rmdir(self, p):
        p = self.ab(p)
        if p not in self.dirs:
            raise FileNotFoundError(p)
        if self.listdir(p):
            raise OSError("Directory not empty")
        self.dirs.discard(p)

    def rmtree(self, p, ignore_errors=False, **kw):
        p = self.ab(p)
        if p not in self.dirs:
            if ignore_errors:
                return
            raise FileNotFoundError(p)
        for q in list(self.files):
            if q.startswith(p + "/"):
                del self.files[q]
        for q in list(self.dirs):
            if q == p or q.startswith(p + "/"):
                self.dirs.discard(q)

    def rename(self, a, b):
        a, b = self.ab(a), self.ab(b)
        self.files[b] = self.files.pop(a)

    def copyfile(self, a, b):
        self.files[self.ab(b)] = self.files[self.ab(a)]

    def listdir(self, p="."):
        p = self.ab(p)
        if p not in self.dirs:
            raise FileNotFoundError(p)
        pre = p.rstrip("/") + "/"
        return sorted({q[len(pre):].split("/")[0] for q in list(self.files) + list(self.dirs)
                       if q.startswith(pre) and q != p})

    def walk(self, top, **kw):
        names = self.listdir(top)
        d = [n for n in names if self.isdir(posixpath.join(top, n))]
        f = [n for n in names if n not in d]
        yield top, d, f
        for n in d:
            yield from self.walk(posixpath.join(top, n))

    def glob(self, pat, **kw):
        import fnmatch
        full = self.ab(pat)
        return sorted(p for p in list(self.files) + list(self.dirs) if fnmatch.fnmatch(p, full))

    def getsize(self, p):
        return len(self.files[self.ab(p)])

    def open(self, path, mode="r", *a, **kw):
        p = self.ab(path)
        if p in self.dirs:
            raise IsADirectoryError(p)
        if posixpath.dirname(p) not in self.dirs:
            raise FileNotFoundError(2, "No such file or directory", str(path))
        empty = b"" if "b" in mode else ""
        if "w" in mode:
            self.files[p] = empty
            return File(self, p, mode, empty)
        if "x" in mode and p in self.files:
            raise FileExistsError(p)
        if p not in self.files:
            if "a" in mode or "x" in mode:
                self.files[p] = empty
            else:
                raise FileNotFoundError(2, "No such file or directory", str(path))
        return File(self, p, mode, self.files[p])

    # -- pickle
    def dump(self, obj, f, *a, **kw):
        if hasattr(f, "write"):
            f.write(Blob(obj))
        else:
            raise TypeError("file must have a 'write' attribute")

    def pload(self, f, *a, **kw):
        c = f.content
        if isinstance(c, list) and f.pos < len(c):
            o = c[f.pos]
            f.pos += 1
            return copy.deepcopy(o.obj)
        raise EOFError("Ran out of input")

    # -- numpy files
    def np_save(self, f, a, allow_pickle=True):
        if isinstance(f, File):
            f.content = [("npy", self._arr(a))]
            f._flush()
            return
        p = self.ab(f)
        if not p.endswith(".npy"):
            p += ".npy"
        if posixpath.dirname(p) not in self.dirs:
            raise FileNotFoundError(p)
        arr, pick = self._arr(a)
        if pick and not allow_pickle:
            raise ValueError("Object arrays cannot be saved when allow_pickle=False")
        self.files[p] = [("npy", (arr, pick))]

    @staticmethod
    def _arr(a):
        if N.is_smat(a):
            o = _np.empty((), dtype=object)
            o[()] = a.copy()
            return o, True
        arr = a if isinstance(a, _np.ndarray) else N.obj(a)
        pick = arr.dtype == object and not all(isinstance(v, (Sym, SymBool, int, float)) for v in arr.flat)
        return copy.deepcopy(_np.asarray(arr)), pick

    def np_load(self, f, allow_pickle=False):
        if isinstance(f, File):
            c = f.content
        else:
            p = self.ab(f)
            if p not in self.files:
                raise FileNotFoundError(2, "No such file or directory", str(f))
            c = self.files[p]
        if not (isinstance(c, list) and c and isinstance(c[0], tuple) and c[0][0] == "npy"):
            if isinstance(c, list) and c and isinstance(c[0], Blob) and allow_pickle:
                return copy.deepcopy(c[0].obj)
            raise ValueError("Cannot load file containing pickled data when allow_pickle=False")
        arr, pick = c[0][1]
        if pick and not allow_pickle:
            raise ValueError("Object arrays cannot be loaded when allow_pickle=False")
        return copy.deepcopy(arr)

    def npz_save(self, f, a):
        p = self.ab(f)
        if not p.endswith(".npz"):
            p += ".npz"
        self.files[p] = [("npz", a.copy())]

    def npz_load(self, f):
        p = self.ab(f)
        if p not in self.files:
            raise FileNotFoundError(2, "No such file or directory", str(f))
        return self.files[p][0][1].copy()


def make_os(fs):
    m = types.ModuleType("os")
    m.__dict__.update({k: v for k, v in _os.__dict__.items()
                       if k in ("sep", "linesep", "name", "environ", "getenv", "getpid", "curdir", "pardir",
                                "PathLike", "fspath", "extsep", "altsep", "pathsep", "devnull", "error",
                                "urandom", "cpu_count")})
    m.__path__ = []
    p = types.ModuleType("os.path")
    p.__dict__.update({k: getattr(posixpath, k) for k in
                       ("join", "basename", "dirname", "split", "splitext", "normpath", "isabs", "sep", "commonprefix",
                        "relpath", "normcase")})
    p.exists = p.lexists = fs.exists
    p.isfile, p.isdir, p.getsize = fs.isfile, fs.isdir, fs.getsize
    p.getmtime = lambda q: 0.0
    p.abspath = p.realpath = fs.ab
    p.expanduser = lambda q: q
    m.path = p
    m.getcwd = lambda: fs.cwd

    def chdir(q):
        q = fs.ab(q)
        if q not in fs.dirs:
            raise FileNotFoundError(q)
        fs.cwd = q
    m.chdir = chdir
    m.mkdir, m.makedirs, m.remove, m.unlink, m.rmdir = fs.mkdir, fs.makedirs, fs.remove, fs.remove, fs.rmdir
    m.rename = m.replace = fs.rename
    m.listdir, m.walk = fs.listdir, fs.walk
    return m, p
