"""Environment for drivers of koladata.ext.storage: the Koda stand-in, an
in-memory file system and a fault/schedule-injecting wrapper around any
file system."""
import fnmatch
import io
import os
import posixpath
import sys
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append(os.path.join(V, 'shims', 'minikd'))
import koladata  # noqa
import koladata.ext.storage as _st
_gen = os.environ.get('VERIF_GEN', '')
if _gen:
  _st.__path__.append(os.path.join(_gen, 'koladata', 'ext', 'storage'))
import minikd
kd = minikd.install()
from absl import flags
flags.FLAGS(['x'], known_only=True)
from koladata.file_io import fs_interface

SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')


class _MemFile:
  def __init__(self, fs, path, mode):
    self._fs, self._path, self._b = fs, path, 'b' in mode
    self._w = mode[0] in 'wax'
    self._closed = False
    if self._w:
      self._buf = bytearray(fs.files[path]) if mode[0] == 'a' else bytearray()
      fs.files[path] = bytes(self._buf)
    else:
      self._r = io.BytesIO(fs.files[path])

  def write(self, d):
    raw = d if isinstance(d, (bytes, bytearray, memoryview)) else d.encode()
    self._buf += raw
    self._fs.files[self._path] = bytes(self._buf)
    return len(d)

  def read(self, n=-1):
    r = self._r.read(n)
    return r if self._b else r.decode()

  def readline(self, *a):
    r = self._r.readline(*a)
    return r if self._b else r.decode()

  def readlines(self):
    return [x if self._b else x.decode() for x in self._r.readlines()]

  def __iter__(self):
    return iter(self.readlines())

  def seek(self, *a):
    return self._r.seek(*a)

  def tell(self):
    return len(self._buf) if self._w else self._r.tell()

  def flush(self):
    pass

  def fileno(self):
    raise OSError('no file descriptor')

  def readable(self):
    return not self._w

  def writable(self):
    return self._w

  @property
  def closed(self):
    return self._closed

  def close(self):
    self._closed = True

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()


class MemFS(fs_interface.FileSystemInterface):
  """POSIX-like tree in memory; every method is atomic."""

  def __init__(self):
    self.files = {}
    self.dirs = {'/'}
    self.lock = threading.RLock()

  def _n(self, p):
    return posixpath.normpath(os.fspath(p))

  def exists(self, filepath):
    with self.lock:
      p = self._n(filepath)
      return p in self.files or p in self.dirs

  def is_dir(self, filepath):
    return self._n(filepath) in self.dirs

  def remove(self, filepath):
    with self.lock:
      p = self._n(filepath)
      if p not in self.files:
        raise FileNotFoundError(p)
      del self.files[p]

  def open(self, filepath, mode='r'):
    with self.lock:
      p = self._n(filepath)
      if p in self.dirs:
        raise IsADirectoryError(p)
      if mode[0] == 'r' and p not in self.files:
        raise FileNotFoundError(p)
      if mode[0] == 'x' and p in self.files:
        raise FileExistsError(p)
      if mode[0] == 'a' and p not in self.files:
        mode = 'w' + mode[1:]
      if posixpath.dirname(p) not in self.dirs:
        raise FileNotFoundError(p)
      return _MemFile(self, p, mode)

  def make_dirs(self, dirpath):
    with self.lock:
      p = self._n(dirpath)
      if p in self.files:
        raise FileExistsError(p)
      while p not in self.dirs:
        if p in self.files:
          raise NotADirectoryError(p)
        self.dirs.add(p)
        p = posixpath.dirname(p)

  def glob(self, pattern):
    with self.lock:
      d, pat = posixpath.split(pattern)
      d = self._n(d)
      res = []
      for p in list(self.files) + list(self.dirs):
        if p != '/' and posixpath.dirname(p) == d and fnmatch.fnmatchcase(posixpath.basename(p), pat):
          res.append(p)
      return res

  def rename(self, oldpath, newpath, overwrite=False):
    with self.lock:
      a, b = self._n(oldpath), self._n(newpath)
      if not overwrite and self.exists(b):
        raise ValueError(f'{b} already exists')
      if a in self.files:
        if b in self.dirs:
          raise IsADirectoryError(b)
        self.files[b] = self.files.pop(a)
      elif a in self.dirs:
        if b in self.files:
          raise NotADirectoryError(b)
        for t in (self.dirs,):
          for p in [p for p in t if p == a or p.startswith(a + '/')]:
            t.discard(p)
            t.add(b + p[len(a):])
        for p in [p for p in self.files if p.startswith(a + '/')]:
          self.files[b + p[len(a):]] = self.files.pop(p)
      else:
        raise FileNotFoundError(a)


class InjectedFault(OSError):
  pass


class HookFS(fs_interface.FileSystemInterface):
  """Calls self.hook(name, args, do) around every interaction with the inner
  file system, including writes and closes of the files it opens."""

  def __init__(self, inner):
    self.inner = inner
    self.hook = None

  def _call(self, name, args, do):
    h = self.hook
    return do() if h is None else h(name, args, do)

  def exists(self, filepath):
    return self._call('exists', (filepath,), lambda: self.inner.exists(filepath))

  def remove(self, filepath):
    return self._call('remove', (filepath,), lambda: self.inner.remove(filepath))

  def make_dirs(self, dirpath):
    return self._call('make_dirs', (dirpath,), lambda: self.inner.make_dirs(dirpath))

  def is_dir(self, filepath):
    return self._call('is_dir', (filepath,), lambda: self.inner.is_dir(filepath))

  def glob(self, pattern):
    return self._call('glob', (pattern,), lambda: self.inner.glob(pattern))

  def rename(self, oldpath, newpath, overwrite=False):
    return self._call('rename', (oldpath, newpath, overwrite),
                      lambda: self.inner.rename(oldpath, newpath, overwrite=overwrite))

  def open(self, filepath, mode='r'):
    f = self._call('open' + mode[0], (filepath, mode), lambda: self.inner.open(filepath, mode))
    return _HookFile(self, f, filepath)


class _HookFile:
  def __init__(self, fs, f, path):
    self._fs, self._f, self._path = fs, f, path

  def write(self, d):
    return self._fs._call('write', (self._path, d, self._f), lambda: self._f.write(d))

  def read(self, *a):
    return self._fs._call('read', (self._path,), lambda: self._f.read(*a))

  def close(self):
    return self._f.close()

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self._f.close()

  def __iter__(self):
    return iter(self._f)

  def __getattr__(self, n):
    return getattr(self._f, n)


class FaultPlan:
  """Fails the k-th interaction. mode: 'before' | 'after' | 'torn' | 'crash'
  (as 'before', and every later interaction fails too) | 'crash_after'."""

  def __init__(self, k, mode, mutating_only=False):
    self.k, self.mode, self.n, self.fired = k, mode, 0, False
    self.mutating_only = mutating_only
    self.lock = threading.Lock()

  def __call__(self, name, args, do):
    if self.mutating_only and name in ('exists', 'is_dir', 'glob', 'openr', 'read'):
      if self.fired and self.mode.startswith('crash'):
        raise InjectedFault('down')
      return do()
    with self.lock:
      i = self.n
      self.n += 1
      hit = i == self.k
      dead = self.fired and self.mode.startswith('crash')
      if hit:
        self.fired = True
    if dead:
      raise InjectedFault('down')
    if not hit:
      return do()
    if self.mode in ('after', 'crash_after'):
      do()
    elif self.mode == 'torn' and name == 'write':
      d = args[1]
      args[2].write(d[:len(d) // 2])
    raise InjectedFault(f'{self.mode} {name}')
