"""Runs DataBagManager operations, with file-system faults, and records them."""
import json
import os
import sys
import itertools
import shutil
import tempfile

import storage_env as E
from storage_env import kd
from google.protobuf import any_pb2, wrappers_pb2
from koladata.ext.storage import data_bag_manager as dbm
from koladata.ext.storage import global_cache_lib
from koladata.file_io import file_io

ENT = {k: kd.uu('cell', key=k).with_bag(None) for k in 'xyzw'}
ENT = {k: kd.new(itemid=kd.uuid(seed='cell', key=k), schema=kd.named_schema('Cell')).with_bag(None) for k in 'xyzw'}
COUNT = itertools.count()


def mkbag(cells):
  bags = [kd.attrs(ENT[c['k']], v=c['v']) for c in cells]
  return kd.bags.updated(*bags) if bags else kd.bag()


def cells(bag):
  res = []
  for k in 'xyzw':
    v = kd.maybe(ENT[k].with_bag(bag), 'v').to_py()
    if v is not None:
      res.append([k, v])
  return res


def anym(x):
  a = any_pb2.Any()
  a.Pack(wrappers_pb2.StringValue(value=x))
  return a


def unany(a):
  if a is None:
    return ''
  s = wrappers_pb2.StringValue()
  a.Unpack(s)
  return s.value


class World:
  def __init__(self, disk=False):
    self.root = None
    if disk:
      self.root = tempfile.mkdtemp(dir=E.SCRATCH, prefix='bs')
      self.inner = file_io.get_default_file_system_interaction()
      self.base = self.root
    else:
      self.inner = E.MemFS()
      self.base = f'{E.SCRATCH}/mem{next(COUNT)}'
      self.inner.make_dirs(self.base)
    self.fs = E.HookFS(self.inner)
    self.m = {}
    self.cache = global_cache_lib.get_global_cache()
    self.cache.set_max_total_bytes_of_entries_in_cache(10**9)
    self.use_cache = True

  def close(self):
    if self.root:
      shutil.rmtree(self.root)

  def d(self, n):
    return os.path.join(self.base, n)

  def raw(self, o):
    k = o['op']
    if k == 'create':
      m = dbm.DataBagManager.create_new(self.d(o['dir']), fs=self.fs)
      if not self.use_cache:
        m.bag_cache = None
      self.m[o['h']] = m
      return 'ok', None
    if k == 'open':
      m = dbm.DataBagManager.create_from_dir(self.d(o['dir']), fs=self.fs)
      if not self.use_cache:
        m.bag_cache = None
      self.m[o['h']] = m
      return 'ok', None
    if k == 'cache':
      if o['what'] == 'clear':
        self.cache.clear()
      elif o['what'] == 'off':
        self.use_cache = False
        for m in self.m.values():
          m.bag_cache = None
      elif o['what'] == 'on':
        self.use_cache = True
        for m in self.m.values():
          m.bag_cache = self.cache
      else:
        self.cache.set_max_total_bytes_of_entries_in_cache(int(o['what']))
      return 'ok', None
    m = self.m[o['h']]
    if k == 'add':
      m.add_bags([dbm.BagToAdd(b['n'], mkbag(b['c']), tuple(b['d']),
                               **({'custom_metadata': anym(b['m'])} if b['m'] else {})) for b in o['new']])
      return 'ok', None
    if k == 'names':
      return 'ok', sorted(m.get_available_bag_names())
    if k == 'meta':
      return 'ok', sorted([n, unany(a)] for n, a in m.get_custom_metadata(o['names']).items())
    kw = {'with_all_dependents': True} if o.get('wad') else {}
    names = o['names'] if len(o['names']) % 2 else set(o['names'])
    if k == 'load':
      return 'ok', sorted([n, cells(b)] for n, b in m.load_bags(names, **kw).items())
    if k == 'minimal':
      return 'ok', cells(m.get_minimal_bag(names, **kw))
    if k == 'sort':
      return 'ok', list(m.canonical_topological_sorting(set(names)))
    if k == 'branch':
      m.create_branch(names, output_dir=self.d(o['dir']), fs=self.fs, **kw)
      return 'ok', None
    if k == 'extract':
      m.extract_bags(names, output_dir=self.d(o['dir']), fs=self.fs, **kw)
      return 'ok', None
    raise AssertionError(k)

  def do(self, o):
    """Returns the recorded event and whether the planned fault fired."""
    plan = None
    if 'fault' in o:
      plan = E.FaultPlan(o['fault']['k'], o['fault']['mode'])
      self.fs.hook = plan
    v = None
    try:
      r, v = self.raw(o)
    except BaseException as e:  # pylint: disable=broad-except
      if isinstance(e, KeyboardInterrupt):
        raise
      r = 'fault' if plan is not None and plan.fired else 'err'
      if r == 'err' and not isinstance(e, Exception):
        r = 'err'
    finally:
      self.fs.hook = None
    ev = {k: o[k] for k in ('op', 'h', 'dir', 'names', 'wad', 'new', 'fault') if k in o}
    ev.setdefault('h', '')
    ev.setdefault('dir', '')
    ev.setdefault('names', [])
    ev.setdefault('wad', False)
    ev.setdefault('new', [])
    ev['r'] = r
    if v is not None:
      ev['v'] = v
    elif ev['op'] in ('names', 'meta', 'load', 'minimal', 'sort'):
      ev['v'] = []
    return ev, plan is not None and plan.fired

  def probes(self, final):
    """Reads everything back through fresh managers."""
    evs = []
    dirs = final['dirs']
    for c in final.get('caches', ['clear']):
      evs.append(self.do({'op': 'cache', 'what': c})[0])
      for d in dirs:
        h = '_' + d
        e, _ = self.do({'op': 'open', 'h': h, 'dir': d})
        evs.append(e)
        if e['r'] != 'ok':
          continue
        evs.append(self.do({'op': 'names', 'h': h})[0])
        names = evs[-1]['v']
        for op in ('load', 'minimal', 'meta', 'sort') if names else ():
          evs.append(self.do({'op': op, 'h': h, 'names': names, 'wad': False})[0])
    for h in list(self.m):
      if h.startswith('_'):
        continue
      evs.append(self.do({'op': 'names', 'h': h})[0])
      if evs[-1]['v']:
        evs.append(self.do({'op': 'minimal', 'h': h, 'names': evs[-1]['v'], 'wad': True})[0])
    for o in final.get('then', []):
      if o['op'] in ('create', 'open', 'cache') or o['h'] in self.m:
        evs.append(self.do(o)[0])
    return evs


def run(job, disk):
  w = World(disk)
  w.cache.clear()
  ev = []
  fired = False
  for o in job['ops']:
    if o['op'] not in ('create', 'open', 'cache') and o['h'] not in w.m:
      continue
    if o['op'] == 'minimal' and not o['names']:
      continue  # outside the contract
    e, f = w.do(o)
    ev.append(e)
    fired = fired or f
  if 'final' in job:
    ev += w.probes(job['final'])
  w.close()
  return {'ev': ev}, fired


def main():
  if len(sys.argv) != 3:
    return
  with open(sys.argv[1]) as f:
    arg = json.load(f)
  out = []
  for n, job in enumerate(arg['jobs']):
    disk = arg.get('disk_every', 0) and n % arg['disk_every'] == 0
    if 'sweep' not in job:
      out.append(run(job, disk)[0])
      continue
    # fault sweep: op number job['sweep'] fails at each of its interactions
    for mode in job['modes']:
      k = 0
      while True:
        ops = [dict(o) for o in job['ops']]
        ops[job['sweep']]['fault'] = {'k': k, 'mode': mode}
        t, fired = run(dict(job, ops=ops), disk)
        out.append(t)
        if not fired or k > 200:
          break
        k += 1
  with open(sys.argv[2], 'w') as f:
    json.dump(out, f)


main()
