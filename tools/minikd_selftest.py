"""Validates shims/minikd against the repository's own storage unit tests.

usage: /opt/venv/bin/python tools/minikd_selftest.py [module ...]
Not a registered check: it measures how faithful the Koda stand-in is.
"""
import importlib
import os
sys_dont = __import__('sys'); sys_dont.dont_write_bytecode = True
import subprocess
import sys
import tempfile
import unittest

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + '/shims/minikd', '/repo/py']
gen = tempfile.mkdtemp()
import glob
subprocess.check_call(
    [sys.executable, '-m', 'grpc_tools.protoc', '-I/repo/py', f'--python_out={gen}']
    + glob.glob('/repo/py/koladata/ext/storage/*.proto'))
import koladata
import koladata.ext.storage as st
st.__path__.append(gen + '/koladata/ext/storage')
import minikd as mk
kd = mk.install()


def norm(ds, ids, seen=None):
  b = ds._bag
  seen = {}

  def sch(s):
    if isinstance(s, mk.DType):
      return s.name
    if s in seen:
      return ('ref', seen[s])
    seen[s] = len(seen)
    if b is None:
      return ('id',) if not ids else s
    names = b._attr_names(s)
    out = []
    for a in names:
      v = b._attr(s, a)[1]
      if a in ('__schema_name__',):
        out.append((a, v))
      elif a == '__schema_metadata__':
        out.append((a, [(m, b._attr(v, m)[1]) for m in b._attr_names(v)]))
      else:
        out.append((a, sch(v)))
    return tuple([('id', s) if ids else ('x',)] + [repr(o) for o in out])

  seenv = {}

  def val(x, s):
    if x is None:
      return None
    if s == mk._dt['SCHEMA']:
      return ('schema', sch(x))
    if not isinstance(x, mk.ItemId):
      return (x,)
    if s == mk._dt['ITEMID']:
      return x
    if x in seenv:
      return ('vref', seenv[x])
    seenv[x] = len(seenv)
    base = ('id', x) if ids else ('e',)
    if b is None:
      return base
    if isinstance(s, mk.ItemId):
      ok, it = b._attr(s, '__items__')
      if ok:
        ls = b._list(x)
        return (base, [val(y, it) for y in (ls or [])])
      ok, ks = b._attr(s, '__keys__')
      if ok:
        vs = b._attr(s, '__values__')[1]
        return (base, sorted([repr((val(k, ks), val(v, vs))) for k, v in b._dict(x).items()]))
      return (base, [(a, val(b._attr(x, a)[1], b._attr(s, a)[1])) for a in b._attr_names(s) if not a.startswith('__')])
    return (base, [(a, b._attr(x, a)[1]) for a in b._attr_names(x)])
  v = mk._map(lambda x: val(x, ds._s), ds._nd, ds._v)
  return (v, sch(ds._s))


def assert_equivalent(a, b, *, partial=False, ids_equality=False, schemas_equality=False, schema_ids_equality=False):
  if isinstance(a, mk.DataBag):
    assert_equal(a, b)
    return
  na, nb = norm(a, ids_equality or schema_ids_equality), norm(b, ids_equality or schema_ids_equality)
  if na[0] != nb[0]:
    raise AssertionError(f'{na}\n!=\n{nb}')
  if (schemas_equality or schema_ids_equality) and na[1] != nb[1]:
    raise AssertionError(f'schemas {na}\n!=\n{nb}')


def assert_equal(a, b):
  if isinstance(a, mk.DataBag):
    if a._content() != b._content():
      raise AssertionError(f'{a} != {b}')
    return
  if (a._v, a._nd, a._s) != (b._v, b._nd, b._s):
    raise AssertionError(f'{a!r} != {b!r}')


kd.testing = mk._Ns(assert_equivalent=assert_equivalent, assert_equal=assert_equal)
mods = sys.argv[1:] or [
    os.path.basename(f)[:-3] for f in sorted(glob.glob('/repo/py/koladata/ext/storage/*_test.py'))]
tot = bad = 0
from absl import flags
flags.FLAGS(['x'], known_only=True)
names = []
for m in mods:
  mod = importlib.import_module('koladata.ext.storage.' + m)
  s = unittest.defaultTestLoader.loadTestsFromModule(mod)
  r = unittest.TestResult()
  s.run(r)
  fails = r.failures + r.errors
  print(m, r.testsRun, 'failed', len(fails))
  for t, tr in fails:
    names.append((m, t, tr))
for m, t, tr in names:
  print('---', m, t.id() if hasattr(t, 'id') else t)
  print(tr[-1200:] if os.environ.get('V') else tr.strip().splitlines()[-1][:200])
