"""Runs programs over Koda views and records every result and the heap."""
import importlib.machinery
import importlib.util
import json
import os
import sys
import types

WRITES = ('setattr', 'setattrs', 'setitem', 'append')
RANK = {'a': 1, 'b': 2, 'c': 3}


def standin(fn, depths, include_missing, args, kwnames=()):
  """Used only when the C++ helper cannot be compiled offline."""
  npos = len(args) - len(kwnames)

  def rec(c, xs):
    ln = -1
    for d, x in zip(depths, xs):
      if d > c:
        if type(x) is not tuple:
          raise TypeError('not a tuple')
        if ln == -1:
          ln = len(x)
        elif ln != len(x):
          raise TypeError('lengths')
    if ln == -1:
      if not include_missing and any(x is None for x in xs):
        return None
      return fn(*xs[:npos], **dict(zip(kwnames, xs[npos:])))
    return tuple([rec(c + 1, [x[i] if d > c else x for d, x in zip(depths, xs)]) for i in range(ln)])
  if not args:
    raise TypeError('expected at least one arg')
  return rec(0, list(args))


def load():
  so = os.environ.get('CLIB')
  name = 'koladata.ext.view.clib_py_ext'
  if so:
    loader = importlib.machinery.ExtensionFileLoader(name, so)
    m = importlib.util.module_from_spec(importlib.util.spec_from_file_location(name, so, loader=loader))
    loader.exec_module(m)
  else:
    m = types.ModuleType(name)
    m.map_structures = standin
  import koladata.ext.view as pkg
  sys.modules[name] = m
  pkg.clib_py_ext = m


load()
from koladata.ext.view import kv  # pylint: disable=g-import-not-at-top


class Obj:
  """A mutable object with attributes, compared by identity."""


class Skip(Exception):
  pass


def tree(k, n=0, v='', q=()):
  return {'k': k, 'n': n, 'v': v, 'q': list(q)}


class World:
  def __init__(self, heap):
    self.ob = {}
    self.name = {}
    self.vars = {}
    for n, o in heap.items():
      self.add(n, {'list': list, 'dict': dict, 'obj': Obj}[o['k']]())
    for n, o in heap.items():
      x = self.ob[n]
      for y in o['q']:
        x.append(self.val(y))
      for k, y in o['m']:
        if o['k'] == 'dict':
          x[self.val(k)] = self.val(y)
        else:
          setattr(x, k['v'], self.val(y))

  def add(self, n, x):
    self.ob[n] = x
    self.name[id(x)] = n

  def val(self, t):
    k = t['k']
    if k == 'N':
      return None
    if k == 'P':
      return kv.present
    if k == 'I':
      return t['n']
    if k == 'S':
      return t['v']
    if k == 'T':
      return tuple(self.val(x) for x in t['q'])
    return self.ob[t['v']]

  def tree(self, x):
    if x is None:
      return tree('N')
    if x is kv.present:
      return tree('P')
    if type(x) is int:
      return tree('I', x)
    if type(x) is str:
      return tree('S', RANK.get(x, 99), x)
    if type(x) is tuple:
      return tree('T', q=[self.tree(y) for y in x])
    if type(x) not in (list, dict, Obj):
      return tree('?', v=repr(type(x)))
    if id(x) not in self.name:
      self.add('x%d' % len(self.ob), x)
    return tree('R', v=self.name[id(x)])

  def heap(self):
    res = {}
    while len(res) < len(self.ob):
      for n, x in list(self.ob.items()):
        if n in res:
          continue
        if type(x) is list:
          res[n] = {'k': 'list', 'q': [self.tree(y) for y in x], 'm': []}
        elif type(x) is dict:
          res[n] = {'k': 'dict', 'q': [], 'm': [[self.tree(k), self.tree(y)] for k, y in x.items()]}
        else:
          res[n] = {'k': 'obj', 'q': [], 'm': [[tree('S', 99, k), self.tree(y)] for k, y in vars(x).items()]}
    return res

  def has(self, x, ty):
    return isinstance(x, ty) or type(x) is tuple and any(self.has(y, ty) for y in x)

  def do(self, o):
    ev = dict({'name': '', 'hasdef': False, 'def': tree('N'), 'lo': tree('N'), 'hi': tree('N'), 'kw': [], 'sort': False, 'n': 0,
               'inc': 'dflt', 'from': 0, 'to': 0, 'toend': False, 'expand': True, 'all': False, 'dst': ''}, **o)
    ev.update(r='ok', d=0, t=tree('N'), b=False, many=[])
    args, raw = [], []
    for a in o['args']:
      if a['name']:
        args.append(self.vars[a['name']])
        raw.append(args[-1].get())
      else:
        raw.append(self.val(a['t']))
        args.append(kv.view(raw[-1]) if a.get('boxed') else raw[-1])
    if o['op'] in WRITES and any(self.has(x, (list, dict)) for x in raw[1 if o['op'] == 'setattrs' else -1:]):
      raise Skip()
    if o['op'] in ('setattr', 'setattrs') and self.has(raw[0], type(kv.present)):
      raise Skip()
    try:
      r = self.call(o, args)
      if o['op'] == 'bool':
        ev['b'] = r
      elif o['op'] == 'align':
        ev['many'] = [{'d': x.get_depth(), 't': self.tree(x.get())} for x in r]
      elif o['op'] not in WRITES:
        ev['d'] = r.get_depth()
        ev['t'] = self.tree(r.get())
        self.vars[o['dst']] = r
    except Exception as e:  # pylint: disable=broad-except
      ev['r'] = 'err'
      ev['why'] = repr(e)[:150]
    ev['heap'] = self.heap()
    for x in ev['args']:
      x.pop('boxed', None)
    ev.pop('style', None)
    return ev

  def call(self, o, a):
    op, st = o['op'], o.get('style', 'm')
    s = a[0]
    if st in ('m', 'o') and not isinstance(s, kv.types.View):
      s = kv.view(s) if op != 'rop' else s
    k = st == 'k'
    f = lambda *x, **y: ('f', *x, *y.items())
    if op == 'view':
      return kv.view(a[0])
    if op == 'explode':
      return kv.explode(s, o['n']) if k else s.explode(ndim=o['n'])
    if op == 'implode':
      return kv.implode(s, o['n']) if k else s.implode(ndim=o['n'])
    if op == 'slice':
      x = slice(self.val(o['lo']), self.val(o['hi']))
      return kv.get_item(s, x) if k else s[x]
    if op == 'getitem':
      return kv.get_item(s, a[1]) if k else s.get_item(a[1]) if st == 'm' else s[a[1]]
    if op == 'take':
      return kv.take(s, a[1]) if k else s.take(a[1])
    if op == 'getattr':
      kw = {'default': self.val(o['def'])} if o['hasdef'] else {}
      if o['hasdef'] and o.get('style') == 'm':
        kw['default'] = kv.view(kw['default'])
      if st == 'o' and not kw and not o['name'].startswith('_'):
        return getattr(s, o['name'])
      return kv.get_attr(s, o['name'], **kw) if k else s.get_attr(o['name'], **kw)
    if op == 'flatten':
      x = (o['from'],) if o['toend'] else (o['from'], o['to'])
      return kv.flatten(s, *x) if k else s.flatten(*x)
    if op == 'expandto':
      return kv.expand_to(s, a[1], o['n']) if k else s.expand_to(a[1], ndim=o['n'])
    if op == 'collapse':
      return kv.collapse(s, o['n']) if k else s.collapse(ndim=o['n'])
    if op == 'groupby':
      return kv.group_by(s, *a[1:], sort=o['sort']) if k else s.group_by(*a[1:], sort=o['sort'])
    if op == 'select':
      x = () if o['expand'] and st == 'o' else (o['expand'],)
      return kv.select(s, a[1], *x) if k else s.select(a[1], *x)
    if op == 'invselect':
      return kv.inverse_select(s, a[1]) if k else s.inverse_select(a[1])
    if op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'and', 'or'):
      if k:
        return {'eq': kv.equal, 'ne': kv.not_equal, 'lt': kv.less, 'le': kv.less_equal, 'gt': kv.greater,
                'ge': kv.greater_equal, 'and': kv.apply_mask, 'or': kv.coalesce}[op](s, a[1])
      l, r = s, a[1]
      if st == 'o' and not isinstance(a[0], kv.types.View) and isinstance(r, kv.types.View):
        l = a[0]                       # reflected operators
      import operator as O
      return {'eq': O.eq, 'ne': O.ne, 'lt': O.lt, 'le': O.le, 'gt': O.gt, 'ge': O.ge, 'and': O.and_, 'or': O.or_}[op](l, r)
    if op == 'map':
      kw = {'ndim': o['n']} if o['n'] else {}
      if o['inc'] != 'dflt':
        kw['include_missing'] = o['inc'] == 'yes'
      if st == 'm' and len(a) == 1 and not o['kw']:
        return s.map(f, **kw)
      n = len(a) - len(o['kw'])
      return kv.map(f, *a[:n], **kw, **dict(zip(o['kw'], a[n:])))
    if op == 'deepmap':
      if st == 'm' and len(a) == 1:
        return s.deep_map(f, include_missing=o['all'])
      return kv.deep_map(f, *a, include_missing=o['all'])
    if op == 'clone':
      return kv.deep_clone(s) if k else s.deep_clone()
    if op == 'bool':
      return bool(s)
    if op == 'align':
      return kv.align(*a)
    if op == 'setattr':
      if st == 'o' and not o['name'].startswith('_'):
        setattr(s, o['name'], a[1])
        return None
      return kv.set_attrs(s, **{o['name']: a[1]}) if k else s.set_attrs(**{o['name']: a[1]})
    if op == 'setattrs':
      x = dict(zip(o['kw'], a[1:]))
      return kv.set_attrs(s, **x) if k else s.set_attrs(**x)
    if op == 'setitem':
      if st == 'o':
        s[a[1]] = a[2]
        return None
      return kv.set_item(s, a[1], a[2]) if k else s.set_item(a[1], a[2])
    if op == 'append':
      return kv.append(s, a[1]) if k else s.append(a[1])
    raise AssertionError(op)


def run(job):
  w = World(job['heap'])
  ev = [{'op': 'heap', 'heap': w.heap(), 'r': 'ok'}]
  for o in job['ops']:
    if any(a['name'] and a['name'] not in w.vars for a in o['args']):
      continue
    try:
      e = w.do(o)
    except Skip:
      continue
    ev.append(e)
    if e['r'] == 'err' and e['op'] in WRITES:
      break
  return {'ev': ev}


def main():
  with open(sys.argv[1]) as f:
    arg = json.load(f)
  out = [run(j) for j in arg['jobs']]
  with open(sys.argv[2], 'w') as f:
    json.dump(out, f)


main()
