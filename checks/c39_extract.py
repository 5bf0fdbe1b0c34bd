"""C39: what extraction copies."""
import os
import random

import databag_common as D
import vlib

LEVEL = 'model_checking'
MC = '''SPECIFICATION Spec
CONSTANTS Attrs = %s
INVARIANT Laws
CHECK_DEADLOCK FALSE
'''
OBJECT, SCHEMA, ITEMID = 184, 185, 186
KSCHEMA, ITEMS, KEYS, VALUES = 10, 11, 12, 13
PRIMS = {180: 100, 181: 110, 183: 120, 182: 140, 187: 150}


class Gen:
  """Well typed worlds: groups of objects, the schemas they have, data under these schemas spread over several bags."""

  def __init__(self, rng):
    self.rng = rng
    self.kinds, self.lines, self.groups, self.schemas = [], [], [], []
    self.odd = 0
    self.nbags = 0
    self.frozen = set()
    self.wrong = rng.random() < .06
    self.attrs = rng.sample([0, 1, 2, 9], rng.choice([1, 2, 3, 3]))

  def op(self, *a):
    self.lines.append(' '.join([a[0]] + [(':' + ','.join(map(str, x))) if isinstance(x, (list, tuple)) else str(x) for x in a[1:]]))

  def al(self, k, n, form):
    first = len(self.kinds)
    if form == 'one':
      for _ in range(n):
        self.lines.append('al1 %d' % k)
    elif form == 'full':
      self.lines.append('al %d %d :%s' % (k, n, ','.join(map(str, range(n)))))
    else:
      size, offs = form
      self.lines.append('al %d %d :%s' % (k, size, ','.join(map(str, offs))))
    self.kinds += [k] * n
    return list(range(first, first + n))

  def group(self):
    r = self.rng
    k = r.choice([0, 0, 0, 0, 5, 1, 2])
    n = r.choice([1, 2, 2, 3, 4, 5, 8])
    f = r.choice(['one', 'full', 'full', 'full', 'part'])
    form = f
    if f == 'part':
      size = r.choice([n + 1, n + 2, 40, 64, 100, 200])
      form = (size, sorted(r.sample(range(size), n)) if r.random() < .6 else list(range(n)))
    g = {'k': k, 'o': self.al(k, n, form), 'full': f == 'full', 'imp': r.random() < .6}
    if g['imp']:
      sf = r.choice(['one', form, form, 'full']) if f != 'one' else r.choice(['one', 'one', 'full'])
      g['s'] = self.al(4, n, sf)
      g['sfull'] = sf == 'full'
      if r.random() < .15:
        r.shuffle(g['s'])
        g['sfull'] = False
      g['objable'] = True
    else:
      g['s'] = self.al(3, 1, 'one') * n
      g['sfull'] = False
      g['objable'] = r.random() < .6
    self.groups.append(g)

  def typ(self, key=False):
    r = self.rng
    x = r.random()
    if key:
      ex = [g for g in self.groups if not g['imp']]
      return 1000 + r.choice(ex)['s'][0] if ex and x < .3 else r.choice([180, 183])
    ex = [g for g in self.groups if not g['imp']]
    if x < .35:
      return r.choice(list(PRIMS))
    if x < .65:
      return OBJECT
    if x < .9 and ex:
      return 1000 + r.choice(ex)['s'][0]
    return r.choice([ITEMID, SCHEMA, 180])

  def types(self):
    """The static types of every schema's attributes."""
    r = self.rng
    for g in self.groups:
      as_ = {0: r.sample(self.attrs, r.randint(0 if r.random() < .1 else 1, len(self.attrs))), 5: self.attrs, 1: [ITEMS], 2: [KEYS, VALUES]}[g['k']]
      g['t'] = {}
      g['as'] = as_
      for a in as_:
        x = r.random()
        pool = [self.typ(a == KEYS) for _ in range(1 if x < .5 else 2)]
        part = a < KSCHEMA and r.random() < .2
        for s in set(g['s']):
          g['t'][s, a] = None if part and r.random() < .4 else r.choice(pool)

  def val(self, t, miss=.15):
    r = self.rng
    if r.random() < miss:
      return 0
    if t in PRIMS:
      if self.wrong and r.random() < .05:
        self.odd = 1
        t = r.choice(list(PRIMS))
      return PRIMS[t] + r.randrange(3)
    if t == ITEMID:
      return 1000 + r.randrange(len(self.kinds))
    if t == SCHEMA:
      return r.choice([180, 183, 184] + [1000 + s for g in self.groups for s in g['s'][:2]] * 2)
    if t == OBJECT:
      gs = [g for g in self.groups if g['objable']]
      return 1000 + r.choice(r.choice(gs)['o']) if gs and r.random() < .85 else r.choice(list(PRIMS.values())) + r.randrange(3)
    gs = [g for g in self.groups if g['s'][0] == t - 1000]
    return 1000 + r.choice(gs[0]['o'])

  def key(self, t):
    return self.val(t, 0) if t >= 1000 else PRIMS[t] + self.rng.randrange(4)

  def new(self, op='nb', *a):
    self.op(op, *a)
    self.nbags += 1
    return self.nbags - 1

  def sub(self, g):
    r = self.rng
    os = list(g['o'])
    x = r.random()
    if x < .45:
      return (r.choice([2, 2, 0, 1]) if g['full'] else r.choice([0, 1, 1, 3])), os
    os = r.sample(os, r.randint(1, len(os)))
    if r.random() < .5:
      os.sort()
    if r.random() < .2:
      os.insert(r.randrange(len(os) + 1), -1)
    return r.choice([0, 1, 1, 3]), os

  def bag(self):
    return self.rng.choice([b for b in self.src if b not in self.frozen] or [self.src[0]])

  def w_schema(self, g, b):
    r = self.rng
    for a in g['as']:
      left = [s for s in dict.fromkeys(g['s']) if g['t'][s, a] is not None]
      if g['sfull'] and len(left) == len(g['s']) and len({g['t'][s, a] for s in left}) == 1 and r.random() < .5:
        self.op('sse', b, 2, sorted(left), [a], [g['t'][left[0], a]])
        continue
      if r.random() < .6 and left:
        self.op('ss', b, a, 1, left, [g['t'][s, a] for s in left])
        continue
      for s in left:
        self.op('ssi', b, a, s, g['t'][s, a])

  def w_kschema(self, g, b):
    if g['objable']:
      st, os = (2, g['o']) if g['full'] and self.rng.random() < .5 else (1, g['o'])
      self.op('sa', b, KSCHEMA, st, os, [1000 + s for s in g['s']])

  def w_data(self, g, b):
    r = self.rng
    st, os = self.sub(g)
    sch = dict(zip(g['o'], g['s']))
    if g['k'] in (0, 5):
      if not g['as']:
        return
      a = r.choice(g['as'])
      ts = [g['t'][sch[o], a] if o >= 0 else None for o in os]
      if r.random() < .07:
        a, ts = 7, [180] * len(os)  # an attribute no schema knows
      os = [-1 if t is None else o for o, t in zip(os, ts)]
      if all(o < 0 for o in os):
        return
      miss = r.choice([0, 0, .15, .5])
      vs = [0 if o < 0 else self.val(t, miss) for o, t in zip(os, ts)]
      x = r.random()
      if x < .2:
        i = r.choice([i for i, o in enumerate(os) if o >= 0])
        self.op('sai', b, a, os[i], vs[i])
      elif x < .45 and g['full'] and os == g['o']:
        self.op('sf', b, a, os, [-1 if r.random() < .2 else v for v in vs] if r.random() < .6 else vs)
      else:
        self.op('sa', b, a, st if st != 2 or -1 not in os else 1, os, vs)
    elif g['k'] == 1:
      sp, vs = [0], []
      for o in os:
        n = 0 if o < 0 else r.choice([0, 1, 1, 2, 3])
        sp.append(sp[-1] + n)
        vs += [self.val(g['t'][sch[o], ITEMS]) for _ in range(n)]
      self.op('lex', b, st, os, vs, sp)
    else:
      self.op('dst', b, st, os, [0 if o < 0 else self.key(g['t'][sch[o], KEYS]) for o in os],
              [0 if o < 0 else self.val(g['t'][sch[o], VALUES]) for o in os])

  def chain(self):
    r = self.rng
    q = r.sample(self.src, len(self.src)) if r.random() < .7 else list(self.src)
    return q[0], q[1:] if r.random() < .95 else q[1:r.randint(1, len(q))]

  def xt(self, src, fb):
    r = self.rng
    g = r.choice(self.groups)
    st, os = self.sub(g)
    x = r.random()
    if not g['imp'] and x < .55:
      t = 1000 + g['s'][0]
    elif x < .93 or not g['imp']:
      gs = [y for y in self.groups if y['objable']]
      if not gs:
        return
      t = OBJECT
      if not g['objable']:
        g = r.choice(gs)
        st, os = self.sub(g)
      if r.random() < .35:
        os = r.sample([o for y in gs for o in y['o']], r.randint(1, min(8, sum(len(y['o']) for y in gs))))
        st = r.choice([0, 1])
    elif x < .98:
      t, st, os = SCHEMA, 1, list(dict.fromkeys(g['s']))
    else:
      t = ITEMID
    if r.random() < .12:
      st, os = 9, [r.choice(os)]
    sb, sf = (src, fb) if r.random() < .15 else (-1, [])
    self.op('xt', src, fb, sb, sf, r.choice([-1, -1, -1, -1, 0, 1, 1, 2, 3]), t, st, os)
    b = self.nbags
    self.nbags += 1
    for _ in range(r.choice([0, 2, 4])):
      self.r_any(b, [])
    return b

  def r_any(self, b, fb):
    r = self.rng
    g = r.choice(self.groups)
    st, os = self.sub(g)
    if g['k'] in (0, 5):
      self.op(r.choice(['gr', 'gr', 'ga', 'gf']), b, r.choice([*self.attrs, KSCHEMA]), st, os, fb)
    elif g['k'] == 1:
      self.op('lx', b, st, os, 0, D.NIL, fb)
    else:
      self.op('dkv', b, st, os, fb)

  def run(self, n):
    r = self.rng
    for _ in range(r.choice([1, 2, 3, 4])):
      self.group()
    self.types()
    self.src = [self.new() for _ in range(r.choice([1, 1, 2, 3]))]
    for g in self.groups:
      for b in (self.src if r.random() < .1 else [self.bag()]):
        self.w_schema(g, b)
      for b in (self.src if r.random() < .1 else [self.bag()]):
        self.w_kschema(g, b)
    if r.random() < .8:  # every object has something
      for g in self.groups:
        for _ in range(r.choice([1, 3, 5])):
          self.w_data(g, self.bag())
    got = []
    for _ in range(n):
      x = r.random()
      if x < .7:
        self.w_data(r.choice(self.groups), self.bag())
      elif x < .8 and self.nbags < 7:
        p = self.bag()
        b = self.new('fork', p)
        self.src[self.src.index(p)] = b
      elif self.nbags < 9:
        b = self.xt(*self.chain())
        if b is not None:
          got.append(b)
          if r.random() < .2:
            self.xt(b, [])
      elif got:
        self.r_any(r.choice(got), [])
    for _ in range(2):
      self.xt(*self.chain())
    for b in got:
      if r.random() < .5:
        self.op('ex', b)
    return {'lines': self.lines, 'kinds': self.kinds, 'odd': self.odd}


def scenarios(rng, n):
  return [Gen(rng).run(rng.choice([3, 8, 15])) for _ in range(n)]


def check(ctx):
  ctx.assumptions += [
      'extract.cc is compiled with the data bag sources against stand-ins for Abseil and Arolla (shims); cloning with new identifiers and '
      'casting while extracting are not executed',
      'worlds are well typed: an object has one schema wherever it is reached; no schema metadata; schemas found in the data chain itself']
  ctx.model_check('ExtractMC', MC % ctx.pick('{0}', '{0, 1}'), timeout=800)
  todo = [('', (), ctx.pick(2000, 16000))]
  if ctx.thorough:
    todo.append(('san', ('-g', '-fsanitize=address,undefined'), 2000))
  for name, extra, n in todo:
    b = D.build(ctx, ('-DWITH_EXTRACT', *extra), 'databag' + name, ('op_utils/extract', 'op_utils/has'))
    ctx.require('DataBagTrace', D.drive(ctx, b, scenarios(random.Random(ctx.seed * 1000 + 39 + (500 if name else 0)), n)), label=name or None)
    os.unlink(b)
  ev = D.ev
  world = [ev('nb', [], [0]), ev('ssi', [0, 0, 1, 180]), ev('sai', [0, 0, 0, 101]), ev('sai', [0, 7, 0, 102])]

  def xt(a, s, leaf=(), depth=-1, ok=1):
    r = {'b': 1, 'leaf': list(leaf), 's': s, 'c': {'a': a, 'l': [], 'd': []}}
    return ev('xt', [0, [], -1, [], depth, 1001, 1, [0]], r if ok else (), ok)
  for bad in (xt([], [[1, 0, 180]]), xt([[0, 0, 101]], []), xt([[0, 0, 102]], [[1, 0, 180]]), xt([[0, 0, 101], [0, 7, 102]], [[1, 0, 180]]),
              xt([[0, 0, 101]], [[1, 0, 180]], depth=0, leaf=[1000]), xt([], [[1, 0, 180]], depth=0), xt([], [], ok=0)):
    ctx.control('DataBagTrace', {'x': {'kinds': [0, 3], 'odd': 0}, 'ev': [*world, bad]}, 4)
