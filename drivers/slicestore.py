"""Runs DataSliceManager operations, with file-system faults, and records them."""
import base64
import itertools
import json
import os
import shutil
import sys
import tempfile

import storage_env as E
from storage_env import kd
import minikd
from koladata.ext.storage import data_slice_manager as dsm
from koladata.ext.storage import data_slice_path as dsp
from koladata.ext.storage import global_cache_lib
from koladata.file_io import file_io

COUNT = itertools.count()
READS = ('get', 'at', 'exists', 'paths', 'schema', 'history')


class Universe:
  """Schema nodes and tokens, both directions."""

  def __init__(self, u):
    self.u = u
    self.sid = {}
    for n in u:
      self.schema(n)
    self.node = {}
    for n, s in self.sid.items():
      if n != 'root':
        self.node[s._v] = n
    self.tok = {}

  def schema(self, n):
    if n in self.sid:
      return self.sid[n]
    k, e = self.u[n]['k'], self.u[n]['e']
    if n == 'root':
      s = None
    elif k == 'prim':
      s = getattr(kd, {'I': 'INT32', 'S': 'STRING', 'B': 'BYTES', 'F': 'FLOAT32', 'M': 'MASK'}[n])
    elif k == 'ent':
      s = kd.named_schema(n)
    elif k == 'list':
      s = kd.list_schema(self.schema(e[0]))
    else:
      s = kd.dict_schema(self.schema(e[0]), self.schema(e[1]))
    self.sid[n] = s
    return s

  def val(self, t):
    if t == '':
      return None
    k, x = t.split(':', 1)
    if k == 'i':
      return int(x)
    if k == 's':
      return x
    i = minikd._uu('list' if self.u[k]['k'] == 'list' else 'dict' if self.u[k]['k'] == 'dict' else 'entity', 'tok', t)
    self.tok[i] = t
    return i

  def token(self, v):
    if v is None:
      return ''
    if isinstance(v, minikd.ItemId):
      return self.tok.get(v, '?' + repr(v))
    if isinstance(v, bool) or not isinstance(v, (int, str)):
      return '?' + repr(v)
    return ('i:%d' if isinstance(v, int) else 's:%s') % v

  def bag(self, o):
    l = minikd._new_layer()
    for f in o['f']['c']:
      l['a'].setdefault(self.val(f['e']), {})[f['a']] = self.val(f['v'])
    for f in o['f']['l']:
      l['l'][self.val(f['n'])] = [self.val(x) for x in f['v']]
    for f in o['f']['d']:
      l['d'].setdefault(self.val(f['n']), {})[self.val(f['k'])] = self.val(f['v'])
    bags = [minikd.DataBag([l])] + [s._bag for s in self.sid.values() if s is not None and s._bag is not None]
    for n, a, c in o['decl']:
      bags.append(minikd._schema_bag(self.sid[n]._v, **{a: self.sid[c]._v}))
    return kd.bags.updated(*bags)


def act(x):
  return {'keys': dsp.DictGetKeys, 'values': dsp.DictGetValues, 'explode': dsp.ListExplode}[x['a']]() \
      if x['a'] != 'attr' else dsp.GetAttr(x['n'])


def mk(p):
  return dsp.DataSlicePath.from_actions([act(x) for x in p])


def unmk(p):
  res = []
  for a in p.actions:
    if isinstance(a, dsp.GetAttr):
      res.append({'a': 'attr', 'n': a.attr_name})
    else:
      res.append({'a': {dsp.DictGetKeys: 'keys', dsp.DictGetValues: 'values', dsp.ListExplode: 'explode'}[type(a)], 'n': ''})
  return res


def text(p):
  r = ''
  for x in p:
    r += {'keys': '.get_keys()', 'values': '.get_values()', 'explode': '[:]'}.get(x['a']) or (
        '.' + x['n'] if x['n'].isidentifier() else '.get_attr("%s")' % base64.b64encode(x['n'].encode()).decode())
  return r


class Facts:
  def __init__(self, U):
    self.U = U
    self.c, self.l, self.k, self.v = {}, {}, {}, {}

  def out(self):
    return {'c': [list(k) for k in self.c], 'l': [[k[0], list(k[1])] for k in self.l],
            'k': [[k[0], list(k[1])] for k in self.k], 'v': [[k[0], list(k[1])] for k in self.v]}

  def step(self, ds, a):
    """Records what the step a meets on ds and returns the slice after it."""
    t = self.U.token
    ds = ds.flatten()
    ds = ds.select(kd.has(ds))
    toks = [t(x) for x in ds._v]
    if a['a'] == 'attr':
      r = ds.get_attr(a['n'])
      for x, y in zip(toks, r._v, strict=True):
        self.c[(x, a['n'], t(y))] = 1
    elif a['a'] == 'explode':
      r = ds.explode()
      for x, y in zip(toks, r._v, strict=True):
        self.l[(x, tuple(t(z) for z in y))] = 1
    else:
      r = ds.get_keys() if a['a'] == 'keys' else ds.get_values()
      for x, y in zip(toks, r._v, strict=True):
        (self.k if a['a'] == 'keys' else self.v)[(x, tuple(sorted({t(z) for z in y})))] = 1
    return r

  def follow(self, ds, p):
    for a in p:
      ds = self.step(ds, a)
    return ds

  def below(self, ds, depth):
    if depth == 0:
      return
    s = ds.get_schema()
    if s.is_list_schema():
      st = [{'a': 'explode', 'n': ''}]
    elif s.is_dict_schema():
      st = [{'a': 'keys', 'n': ''}, {'a': 'values', 'n': ''}]
    elif s.is_entity_schema():
      st = [{'a': 'attr', 'n': n} for n in kd.dir(s)]
    else:
      st = []
    for a in st:
      self.below(self.step(ds, a), depth - 1)


class World:
  def __init__(self, u, disk=False):
    self.U = Universe(u)
    self.root = None
    if disk:
      self.root = tempfile.mkdtemp(dir=E.SCRATCH, prefix='ss')
      self.inner = file_io.get_default_file_system_interaction()
      self.base = self.root
    else:
      self.inner = E.MemFS()
      self.base = f'{E.SCRATCH}/mem{next(COUNT)}'
      self.inner.make_dirs(self.base)
    self.fs = E.HookFS(self.inner)
    self.m = {}
    self.dirs = {}
    self.cache = global_cache_lib.get_global_cache()
    self.cache.set_max_total_bytes_of_entries_in_cache(10**9)

  def close(self):
    if self.root:
      shutil.rmtree(self.root)

  def d(self, n):
    return self.dirs.get(n) or os.path.join(self.base, n)

  def undir(self, p):
    for n, q in self.dirs.items():
      if q == p:
        return n
    return os.path.relpath(p, self.base)

  def register(self, m):
    self.U.tok[m.get_data_slice().get_itemid()._v] = 'root'
    self.U.node[m.get_schema()._v] = 'root'

  def value(self, m, o):
    if o.get('bad'):
      return {'obj': lambda: kd.obj(1), 'schema': lambda: kd.INT32,
              'objlist': lambda: kd.list([kd.obj(a=1)])}[o['badkind']]()
    b = self.U.bag(o)
    s = self.U.sid[o['vt']]._v
    if o['const']:
      return minikd.DataSlice._mk(self.U.val(o['const']), 0, s, b)
    vals = {x['e']: self.U.val(x['v']) for x in o['vals']}
    try:
      at = m.get_data_slice_at(mk(o['path']))
    except Exception:  # pylint: disable=broad-except
      return minikd.DataSlice._mk(None, 0, s, b)
    nested = minikd._map(lambda x: vals.get(self.U.token(x)), at._nd, at._v)
    return minikd.DataSlice._mk(nested, at._nd, s, b)

  def raw(self, o):
    k = o['op']
    if k == 'create':
      m = dsm.DataSliceManager.create_new(self.d(o['dir']), fs=self.fs, description=o['desc'])
      hook, self.fs.hook = self.fs.hook, None
      self.register(m)
      self.fs.hook = hook
      self.m[o['h']] = m
      return {}
    if k == 'open':
      kw = {} if o['idx'] == -1 else {'at_revision_history_index': o['idx'] if o['idx'] >= 0 else -1}
      if o['ro']:
        kw['read_only'] = True
      m = dsm.DataSliceManager.create_from_dir(self.d(o['dir']), fs=self.fs, **kw)
      hook, self.fs.hook = self.fs.hook, None
      self.register(m)
      self.fs.hook = hook
      self.m[o['h']] = m
      return {}
    if k == 'cache':
      if o['what'] == 'clear':
        self.cache.clear()
      else:
        self.cache.set_max_total_bytes_of_entries_in_cache(int(o['what']))
      return {}
    m = self.m[o['h']]
    if k == 'setro':
      m.set_read_only()
      return {}
    if k == 'rocopy':
      self.m[o['h2']] = m.get_readonly_copy()
      return {}
    if k == 'branch':
      b = m.branch(None if o.get('auto') else self.d(o['dir']), revision_history_index=o['idx'],
                   description=o['desc'] or None, **({'fs': self.fs} if o.get('passfs') else {}))
      if o.get('auto'):
        self.dirs[o['dir']] = b.get_persistence_directory()
      self.m[o['h2']] = b
      return {}
    if k == 'update':
      hook, self.fs.hook = self.fs.hook, None
      v = self.value(m, o)
      self.fs.hook = hook
      m.update(at_path=mk(o['path']), attr_name=o['attr'], attr_value=v,
               **({'description': o['desc']} if o['desc'] else {}))
      return {}
    if k == 'get':
      kw = {}
      if o['pop']:
        kw['populate'] = [mk(p) for p in o['pop']]
      if o['dpop']:
        kw['populate_including_descendants'] = {mk(p) for p in o['dpop']}
      ds = m.get_data_slice(**kw)
      f = Facts(self.U)
      for p in o['pop']:
        f.follow(ds, p)
      for p in o['dpop']:
        f.below(f.follow(ds, p), o['depth'])
      if self.U.token(ds._v) != 'root' or ds._nd:
        raise RuntimeError('not the root')
      return {'v': f.out()}
    if k == 'at':
      ds = m.get_data_slice_at(mk(o['path']), **({'with_all_descendants': True} if o['flag'] else {}))
      f = Facts(self.U)
      if o['flag']:
        f.below(ds, o['depth'])
      return {'q': [self.U.token(x) for x in ds.flatten()._v], 'v': f.out()}
    if k == 'exists':
      return {'b': bool(m.exists(mk(o['path'])))}
    if k == 'paths':
      return {'ps': [unmk(p) for p in m.generate_paths(max_depth=o['depth'])]}
    if k == 'schema':
      ts, todo, seen = [], [m.get_schema()], set()
      while todo:
        s = todo.pop()
        n = self.U.node.get(s._v, '?' + str(s._v))
        if n in seen:
          continue
        seen.add(n)
        if s.is_list_schema():
          todo.append(s.get_item_schema())
        elif s.is_dict_schema():
          todo += [s.get_key_schema(), s.get_value_schema()]
        elif s.is_entity_schema():
          for a in kd.dir(s):
            c = s.get_attr(a)
            todo.append(c)
            ts.append([n, a, self.U.node.get(c._v, '?')])
      return {'ts': ts}
    if k == 'history':
      hs = []
      for r in m.get_revision_history():
        x = {'kind': '', 'desc': r.description, 'path': '', 'attr': '', 'pidx': -1, 'pdir': ''}
        if isinstance(r, dsm.CreationMetadata):
          x['kind'] = 'creation'
        elif isinstance(r, dsm.AttributeUpdateMetadata):
          x.update(kind='update', path=r.at_path, attr=r.attr_name)
        else:
          x.update(kind='branch', pidx=r.parent_revision_history_index, pdir=self.undir(r.parent_persistence_directory))
        hs.append(x)
      return {'hs': hs}
    raise AssertionError(k)

  def do(self, o):
    """Returns the recorded event and whether the planned fault fired."""
    plan = None
    if 'fault' in o:
      plan = E.FaultPlan(o['fault']['k'], o['fault']['mode'])
      self.fs.hook = plan
    nof = {'c': [], 'l': [], 'd': []}
    ev = dict({'h': '', 'h2': '', 'dir': '', 'idx': -1, 'ro': False, 'path': [], 'attr': '', 'vt': '', 'const': '', 'vals': [],
               'f': nof, 'decl': [], 'desc': '', 'pop': [], 'dpop': [], 'depth': 0, 'flag': False, 'bad': False}, **o)
    ev['ptext'] = text(ev['path'])
    for x in ('fault', 'what', 'auto', 'passfs', 'badkind'):
      ev.pop(x, None)
    ev.update(v={'c': [], 'l': [], 'k': [], 'v': []}, q=[], b=False, ps=[], ts=[], hs=[])
    try:
      ev.update(self.raw(dict(ev, **o)))
      ev['r'] = 'ok'
    except Exception as e:  # pylint: disable=broad-except
      ev['r'] = 'fault' if plan is not None and plan.fired else 'err'
      if os.environ.get('V'):
        import traceback
        traceback.print_exc()
      ev['why'] = repr(e)[:200]
    self.fs.hook = None
    return ev, plan is not None and plan.fired

  def probes(self, final):
    evs = []
    for c in final.get('caches', ['clear']):
      evs.append(self.do({'op': 'cache', 'what': c})[0])
      for d in final['dirs']:
        h = '_' + d
        e, _ = self.do({'op': 'open', 'h': h, 'dir': d})
        evs.append(e)
        if e['r'] == 'ok':
          evs += self.reads(h)
    for h in list(self.m):
      if not h.startswith('_'):
        evs += self.reads(h)
    for o in final.get('then', []):
      if o['op'] in ('create', 'open', 'cache') or o['h'] in self.m:
        evs.append(self.do(o)[0])
    return evs

  def reads(self, h):
    return [self.do(o)[0] for o in (
        {'op': 'get', 'h': h, 'dpop': [[]], 'depth': 4}, {'op': 'history', 'h': h}, {'op': 'schema', 'h': h})]


def run(job, u, disk):
  w = World(u, disk)
  w.cache.clear()
  ev = []
  fired = False
  for o in job['ops']:
    if o['op'] not in ('create', 'open', 'cache') and o['h'] not in w.m:
      continue
    e, f = w.do(o)
    ev.append(e)
    fired = fired or f
  if 'final' in job:
    ev += w.probes(job['final'])
  w.close()
  return {'ev': ev, 'u': u}, fired


def main():
  if len(sys.argv) != 3:
    return
  with open(sys.argv[1]) as f:
    arg = json.load(f)
  out = []
  for n, job in enumerate(arg['jobs']):
    disk = arg.get('disk_every', 0) and n % arg['disk_every'] == 0
    if 'sweep' not in job:
      out.append(run(job, arg['u'], disk)[0])
      continue
    for mode in job['modes']:
      k = 0
      while True:
        ops = [dict(o) for o in job['ops']]
        ops[job['sweep']]['fault'] = {'k': k, 'mode': mode}
        t, fired = run(dict(job, ops=ops), arg['u'], disk)
        out.append(t)
        if not fired or k > 400:
          break
        k += job.get('stride', 1)
  with open(sys.argv[2], 'w') as f:
    json.dump(out, f)


main()
