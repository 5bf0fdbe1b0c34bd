"""Building and driving the real DataBagImpl; scenarios for its checks."""
import concurrent.futures
import json
import os
import random
import subprocess

import vlib

CORE = ('object_id dtype types types_buffer data_item data_slice slice_builder sparse_source dense_source data_list dict '
        'uuid_object schema_utils stable_fingerprint triples data_bag expr_quote_utils uuid_schemas pseudo_random '
        'op_utils/base62 non_deterministic_token').split()
NIL = -99
MC = '''SPECIFICATION Spec
CONSTANTS NObj = %d
NVal = %d
MaxOps = %d
INVARIANTS Isolated ChainLaw ReverseLaw Laws
CHECK_DEADLOCK FALSE
'''


def build(ctx, extra=(), name='databag', more=()):
  """Compiles the current tree's data bag code; returns the driver binary."""
  d = ctx.path(name)
  os.makedirs(d, exist_ok=True)
  src = os.path.join(vlib.REPO, 'koladata/internal')
  inc = [x for p in ('shims/core', 'shims/miniabsl') for x in ('-I', os.path.join(vlib.VERIF, p))]
  inc += ['-I', vlib.REPO, '-I', os.path.join(vlib.VERIF, 'shims/koda')]
  base = ['g++', '-std=c++20', '-O1', '-w', '-msse2', '-DABSL_IS_LITTLE_ENDIAN', *extra, '-c', *inc]
  units = [os.path.join(src, f + '.cc') for f in (*CORE, *more)]
  units = [u for u in units if os.path.exists(u)]
  units.append(os.path.join(vlib.VERIF, 'drivers/cc/databag_api.cc'))

  def one(u):
    o = os.path.join(d, os.path.basename(u)[:-3] + '.o')
    p = subprocess.run([*base, u, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False)
    if p.returncode:
      raise vlib.MachineryError('%s does not build:\n%s' % (u, p.stdout.decode()[-4000:]))
    return o
  with concurrent.futures.ThreadPoolExecutor(8) as ex:
    objs = list(ex.map(one, sorted(units, key=lambda u: -os.path.getsize(u))))
  out = os.path.join(d, name)
  p = subprocess.run(['g++', *extra, *objs, '-o', out, '-lpthread', '-Wl,--unresolved-symbols=ignore-in-object-files'],
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False)
  if p.returncode:
    raise vlib.MachineryError('the data bag code does not link:\n' + p.stdout.decode()[-4000:])
  for o in objs:
    os.unlink(o)
  ctx.log('built the data bag code')
  return out


class Gen:
  """One scenario: objects in various allocations, bags, operations on them."""

  def __init__(self, rng, w):
    self.rng, self.w = rng, w
    self.kinds, self.groups, self.lines = [], [], []
    self.bags = []           # [writable, update of]
    self.attrs = rng.sample([0, 1, 2, 9], rng.choice([1, 2, 3]))
    self.style = rng.choice(['one', 'one', 'two', 'mixed'])
    self.many = rng.random() < .25
    self.layout()
    self.types = rng.sample([100, 110, 120, 130, 140, 150, 160, 180], 8)[:{'one': 1, 'two': 2, 'mixed': 8}[self.style]]

  def layout(self):
    r, ks = self.rng, self.w.get('kinds', [0])
    for k in ks:
      for _ in range(7 if self.many else r.choice([1, 2, 2, 3])):
        x = r.random()
        first = len(self.kinds)
        if x < .15:
          self.lines.append('al1 %d' % k)
          n, full = 1, False
        elif x < (.2 if self.many else .55):
          n = r.choice([1, 2, 2, 3, 4, 5, 8, 9])
          self.lines.append('al %d %d :%s' % (k, n, ','.join(map(str, range(n)))))
          full = True
        else:
          size = r.choice([3, 40, 64, 65, 100, 128, 200, 256, 1000])
          n = min(size - 1, 1 if self.many and r.random() < .7 else r.choice([2, 3, 4, 6]))
          offs = sorted(r.sample(range(size), n))
          self.lines.append('al %d %d :%s' % (k, size, ','.join(map(str, offs))))
          full = False
        self.kinds += [k] * n
        self.groups.append((k, list(range(first, first + n)), full))
    self.kinds0 = list(self.kinds)

  # --- pieces
  def op(self, *a):
    self.lines.append(' '.join([a[0]] + [(':' + ','.join(map(str, x))) if isinstance(x, (list, tuple)) else str(x) for x in a[1:]]))

  def of(self, *ks):
    return [i for i, k in enumerate(self.kinds) if k in ks]

  def val(self, miss=.12):
    r = self.rng
    if r.random() < miss:
      return 0
    t = r.choice(self.types)
    if r.random() < .1:
      return 1000 + r.randrange(len(self.kinds))
    if t == 160:
      return 160 + r.randrange(2)
    if t == 180:
      return 180 + r.randrange(5)
    return t + r.randrange(3)

  def key(self, miss=.05):
    r = self.rng
    if r.random() < miss:
      return 0
    t = r.choice([t for t in self.types if t not in (140, 150)] or [100])
    return t + r.randrange(2 if t in (160, 180) else 4)

  def sval(self):
    r = self.rng
    s = self.of(3, 4)
    return 1000 + r.choice(s) if s and r.random() < .35 else 180 + r.randrange(5)

  def obs(self, *ks, dup=True):
    """A slice of objects and how to build it."""
    r = self.rng
    pool = self.of(*ks)
    whole = [g for g in self.groups if g[2] and g[0] in ks]
    if whole and r.random() < .25:
      return r.choice([2, 2, 1, 0]), list(r.choice(whole)[1])
    if r.random() < .3:
      g = r.choice([g for g in self.groups if g[0] in ks])
      pool = g[1]
    n = r.choice([1, 1, 2, 3, 4, 5, 8, 12])
    if dup:
      os = [r.choice(pool) for _ in range(n)]
    else:
      os = r.sample(pool, min(n, len(pool)))
    os = [-1 if r.random() < .1 else o for o in os]
    return r.choice([0, 1, 1, 3]), os

  def stylevals(self, os):
    vs = [self.val() for _ in os]
    for o in set(os):
      mine = [i for i, x in enumerate(os) if x == o]
      if len(mine) > 1:
        for i in mine:
          while not vs[i]:
            vs[i] = self.val()
    return vs

  def writable(self):
    bs = [i for i, b in enumerate(self.bags) if b['w']]
    if not bs:
      return self.new()
    return self.rng.choice(bs)

  def new(self):
    self.op('nb')
    self.bags.append({'w': True, 'base': None})
    return len(self.bags) - 1

  def readable(self):
    return self.rng.choice([i for i, b in enumerate(self.bags) if not b.get('gone')])

  def fbs(self, b):
    r = self.rng
    base = self.bags[b]['base']
    rest = [i for i, x in enumerate(self.bags) if i != b and not x.get('gone') and x['base'] is None]
    q = r.sample(rest, min(len(rest), r.choice(self.w.get('nfb', [0, 0, 1, 2, 3]))))
    if base is not None:
      return [base] + [x for x in q if x != base]
    return q

  def fork(self, p):
    self.op('fork', p)
    self.bags[p]['w'] = False
    self.bags.append({'w': True, 'base': None})
    return len(self.bags) - 1

  def rng_(self):
    r = self.rng
    return r.choice([0, 0, 0, 1, 2, -1, -2, -3, 5, -9]), r.choice([NIL, NIL, NIL, 0, 1, 2, 3, -1, -2, 9, -9])

  def idx(self):
    return self.rng.choice([0, 0, 1, 1, 2, 3, -1, -1, -2, 5, -7])

  # --- operations
  def w_attr(self, b):
    r = self.rng
    a = r.choice(self.attrs)
    ks = [k for k in (0, 5, 1, 2) if k in self.kinds]
    x = r.random()
    full = [g for g in self.groups if g[2] and g[0] in ks]
    if x < .5:
      st, os = self.obs(*ks)
      self.op('sa', b, a, st, os, self.stylevals(os))
    elif x < .75:
      self.op('sai', b, a, -1 if r.random() < .05 else r.choice(self.of(*ks)), self.val(.2))
    elif x < .88 and full:
      os = r.choice(full)[1]
      self.op('sf', b, a, os, [-1 if r.random() < .3 else self.val() for _ in os] if r.random() < .7 else [self.val() for _ in os])
    elif x < .95:
      n, as_ = r.choice([1, 2, 3, 5]), r.sample(self.attrs, r.randint(1, len(self.attrs)))
      self.op('cf', b, as_, n, [self.val() for _ in as_ for _ in range(n)])
      self.groups.append((0, list(range(len(self.kinds), len(self.kinds) + n)), True))
      self.kinds += [0] * n
    else:
      as_ = r.sample(self.attrs, r.randint(1, len(self.attrs)))
      self.op('cf1', b, as_, [self.val() for _ in as_])
      self.kinds.append(0)

  def r_attr(self, b):
    r = self.rng
    a, f = r.choice(self.attrs), self.fbs(b)
    ks = [k for k in (0, 5, 1, 2) if k in self.kinds]
    x = r.random()
    if x < .35:
      self.op('ga', b, a, *self.obs(*ks), f)
    elif x < .6:
      self.op('gr', b, a, *self.obs(*ks), f)
    elif x < .7:
      st, os = self.obs(*ks)
      self.op('gf', b, a, st, os, f)
    elif x < .85:
      self.op('gai', b, a, -1 if r.random() < .05 else r.choice(self.of(*ks)), f)
    else:
      self.op('gri', b, a, r.choice(self.of(*ks)), f)

  def w_unit(self, b):
    ks = [k for k in (0, 5) if k in self.kinds]
    st, os = self.obs(*ks)
    self.op('su', b, 8, st, os)

  def lobs(self):
    """Lists; now and then something that is no list."""
    if self.rng.random() < .04 and len(set(self.kinds0)) > 1:
      return self.obs(*set(self.kinds0))
    return self.obs(1)

  def lob(self):
    r = self.rng
    return -1 if r.random() < .04 else r.choice(self.of(1) if r.random() < .97 else range(len(self.kinds)))

  def splits(self, n):
    sp = [0]
    for _ in range(n):
      sp.append(sp[-1] + self.rng.choice([0, 1, 1, 2, 3]))
    return sp

  def w_list(self, b):
    r = self.rng
    x = r.random()
    f, t = self.rng_()
    if x < .2:
      st, os = self.lobs()
      self.op('lap', b, st, os, [self.val() for _ in os])
    elif x < .28:
      self.op('lapi', b, self.lob(), self.val())
    elif x < .42:
      st, os = self.lobs()
      sp = self.splits(len(os))
      self.op('lex', b, st, os, [self.val() for _ in range(sp[-1])], sp)
    elif x < .5:
      self.op('lexi', b, self.lob(), [self.val() for _ in range(r.choice([0, 1, 2, 4]))])
    elif x < .6:
      st, os = self.lobs()
      sp = self.splits(len(os))
      self.op('lrp', b, st, os, f, t, [self.val() for _ in range(sp[-1])], sp)
    elif x < .67:
      self.op('lrpi', b, self.lob(), f, t, [self.val() for _ in range(r.choice([0, 1, 2, 4]))])
    elif x < .73:
      self.op('lrm', b, *self.lobs(), f, t)
    elif x < .77:
      self.op('lrmi', b, self.lob(), f, t)
    elif x < .82:
      st, os = self.lobs()
      self.op('lri', b, st, os, [NIL if r.random() < .1 else self.idx() for _ in os])
    elif x < .9:
      st, os = self.lobs()
      self.op('lst', b, st, os, [NIL if r.random() < .1 else self.idx() for _ in os], [self.val() for _ in os])
    elif x < .94:
      self.op('lsti', b, self.lob(), self.idx(), self.val())
    elif x < .98:
      st, os = self.lobs()
      self.op('lpo', b, st, os, [NIL if r.random() < .1 else self.idx() for _ in os])
    else:
      self.op('lpoi', b, self.lob(), self.idx())

  def r_list(self, b):
    r = self.rng
    fb = self.fbs(b)
    f, t = self.rng_()
    x = r.random()
    if x < .2:
      self.op('lsz', b, *self.lobs(), r.choice([0, 1]), fb)
    elif x < .27:
      self.op('lszi', b, self.lob(), fb)
    elif x < .45:
      st, os = self.lobs()
      self.op('lgt', b, st, os, [NIL if r.random() < .1 else self.idx() for _ in os], fb)
    elif x < .55:
      self.op('lgti', b, self.lob(), self.idx(), fb)
    elif x < .85:
      self.op('lx', b, *self.lobs(), f, t, fb)
    else:
      self.op('lxi', b, self.lob(), f, t, fb)

  def dobs(self):
    if self.rng.random() < .03 and len(set(self.kinds0)) > 1:
      return self.obs(*set(self.kinds0)), True
    return self.obs(2), False

  def dob(self):
    r = self.rng
    return -1 if r.random() < .04 else r.choice(self.of(2) if r.random() < .98 else range(len(self.kinds)))

  def w_dict(self, b):
    r = self.rng
    x = r.random()
    if x < .55:
      (st, os), odd = self.dobs()
      ks = [self.key(0 if odd else .05) for _ in os]
      if r.random() < .05 and any(o >= 0 for o in os):
        ks[r.randrange(len(ks))] = r.choice([140, 151])
      self.op('dst', b, st, os, ks, [self.val() for _ in os])
    elif x < .85:
      self.op('dsti', b, self.dob(), self.key(0) if r.random() < .97 else r.choice([141, 150]), self.val(.2))
    elif x < .93:
      (st, os), _ = self.dobs()
      self.op('dcl', b, st, os)
    else:
      self.op('dcli', b, self.dob())

  def r_dict(self, b):
    r = self.rng
    fb = self.fbs(b)
    x = r.random()
    if x < .3:
      (st, os), odd = self.dobs()
      self.op('dgt', b, st, os, [self.key(0 if odd else .05) for _ in os], fb)
    elif x < .45:
      self.op('dgti', b, self.dob(), self.key(0), fb)
    elif x < .55:
      (st, os), _ = self.dobs()
      self.op('dsz', b, st, os, fb)
    elif x < .65:
      self.op('dszi', b, self.dob(), fb)
    elif x < .85:
      (st, os), _ = self.dobs()
      self.op('dkv', b, st, os, fb)
    else:
      self.op('dkvi', b, self.dob(), fb)

  def sob(self):
    r = self.rng
    return -1 if r.random() < .04 else r.choice(self.of(3, 4))

  def w_schema(self, b):
    r = self.rng
    a = r.choice(self.attrs)
    x = r.random()
    if x < .3:
      st, os = self.obs(3, 4)
      vs = [self.sval() for _ in os]
      if r.random() < .3:
        vs = [vs[0] if o == os[0] else 0 if os.count(o) == 1 and r.random() < .3 else v for o, v in zip(os, vs)]
      if r.random() < .02:
        vs[r.randrange(len(vs))] = 101
      self.op('ss', b, a, st, os, vs)
    elif x < .45:
      self.op('ss1', b, a, *self.obs(3, 4), 100 if r.random() < .02 else self.sval())
    elif x < .65:
      self.op('ssi', b, a, self.sob() if r.random() < .95 else r.randrange(len(self.kinds)), r.choice([100, 120]) if r.random() < .05 else self.sval())
    elif x < .72:
      st, os = self.obs(3, 4)
      as_ = r.sample(self.attrs, r.randint(1, len(self.attrs)))
      self.op('ssf', b, st, os, as_, [self.sval() for _ in as_])
    elif x < .82:
      full = [g for g in self.groups if g[2] and g[0] in (3, 4)]
      if full:
        as_ = r.sample(self.attrs, r.randint(1, len(self.attrs)))
        self.op('sse', b, 2, r.choice(full)[1], as_, [self.sval() for _ in as_])
    elif x < .91:
      self.op('sd', b, a, *self.obs(3, 4))
    else:
      self.op('sdi', b, a, self.sob())

  def r_schema(self, b):
    r = self.rng
    a, fb = r.choice(self.attrs), self.fbs(b)
    x = r.random()
    if x < .15:
      self.op('sg', b, a, *self.obs(3, 4), fb)
    elif x < .3:
      self.op('sgi', b, a, self.sob(), fb)
    elif x < .5:
      self.op('sgm', b, a, *self.obs(3, 4), fb)
    elif x < .65:
      self.op('sgmi', b, a, self.sob(), fb)
    elif x < .85:
      self.op('sk', b, self.sob(), fb)
    else:
      self.op('skp', b, self.sob(), fb)

  def merge(self):
    r = self.rng
    cand = [i for i, b in enumerate(self.bags) if not b.get('gone') and b['base'] is None]
    if len(cand) < 2:
      return
    b = self.writable()
    o = r.choice([i for i in cand if i != b] or [b])
    if r.random() < .35 and len(self.bags) < 9:
      self.op('mu', b, o)
      self.bags.append({'w': False, 'base': b})
      u = len(self.bags) - 1
      for _ in range(r.choice([1, 3])):
        self.read(u)
      t = self.fork(b) if r.random() < .5 and len(self.bags) < 10 else b
      self.op('mg', t, u, 2, 2)
      for _ in range(3):
        self.read(t)
      return
    t = self.fork(b) if r.random() < .25 and len(self.bags) < 10 else b
    same = r.choice([0, 1, 2, 2])
    self.op('mg', t, o, same, same if r.random() < .5 else r.choice([0, 1, 2]))
    for _ in range(2):
      self.read(t)

  KINDS = {'attr': (0, 5), 'unit': (0, 5), 'list': (1,), 'dict': (2,), 'schema': (3, 4)}

  def parts(self):
    return [p for p in ('attr', 'list', 'dict', 'schema') if p in self.w and any(k in self.kinds for k in self.KINDS[p])]

  def write(self, b):
    ps = [p for p in [*self.parts(), *(['unit'] if 'unit' in self.w else [])]]
    p = self.rng.choices(ps, [self.w[p] for p in ps])[0]
    getattr(self, 'w_' + p)(b)

  def read(self, b):
    ps = self.parts()
    p = self.rng.choices(ps, [self.w[p] for p in ps])[0]
    getattr(self, 'r_' + p)(b)

  def run_layers(self, n):
    """Bulk writes that keep an allocation in a dense form, single writes on top of them in forks, merges of both."""
    r = self.rng
    first = len(self.kinds)
    size, k = r.choice([100, 128, 130, 200, 256]), 7
    offs = sorted(r.sample(range(size), k))
    self.op('al', 0, size, offs)
    self.kinds += [0] * k
    self.kinds0 = list(self.kinds)
    g = list(range(first, first + k))
    self.groups.append((0, g, False))
    attrs = self.attrs[:r.choice([1, 1, 2])]
    # how often a write is a bulk one; whether forks pile up; whether the values have one type
    bulk, deep, one = r.choice([0, 0, .15, .3, .6]), r.random() < .5, r.random() < .7
    t0 = r.choice([100, 110, 130, 160])

    def val(miss):
      if not one:
        return self.val(miss)
      return 0 if r.random() < miss else t0 + r.randrange(2)

    def write(b, dense):
      a = r.choice(attrs)
      if dense:
        os = r.sample(g, r.choice([k, k, k - 1, 5]))
        self.op('sa', b, a, r.choice([0, 1]), os, [val(.3) for _ in os])
      elif r.random() < .6:
        self.op('sai', b, a, r.choice(g), val(.35))
      else:
        self.op('sa', b, a, r.choice([0, 1]), [r.choice(g)], [val(.35)])

    def look(b):
      for a in attrs:
        self.op(r.choice(['ga', 'gr', 'gr']), b, a, r.choice([0, 1]), g, self.fbs(b))
        for _ in range(2):
          self.op(r.choice(['gai', 'gri']), b, a, r.choice(g), self.fbs(b))

    for _ in range(r.choice([2, 2, 3])):
      b = self.new()
      if r.random() < .8:
        write(b, r.random() < 2 * bulk)
    if deep and r.random() < .5:
      f = r.randrange(len(self.bags))
      for _ in range(r.choice([3, 4, 5])):
        f = self.fork(f)
        for _ in range(r.choice([1, 2])):
          write(f, r.random() < bulk)
    for _ in range(n):
      x = r.random()
      b = self.writable()
      if x < .45:
        for _ in range(r.choice([1, 1, 2])):
          write(b, r.random() < bulk)
      elif x < .65 and len(self.bags) < 9:
        ps = [i for i, q in enumerate(self.bags) if q['base'] is None]
        f = self.fork(ps[-1] if deep and r.random() < .8 else r.choice(ps))
        for _ in range(r.choice([0, 1, 1, 2, 3])):
          write(f, r.random() < bulk)
      elif x < .9 and self.w.get('merge'):
        if r.random() < .2:
          self.merge()
          continue
        o = r.choice([i for i, q in enumerate(self.bags) if i != b and q['base'] is None] or [b])
        same = r.choice([0, 1, 1, 2, 2])
        self.op('mg', b, o, same, same if r.random() < .6 else r.choice([0, 1, 2]))
        look(b)
      else:
        look(self.readable())
    for b in range(len(self.bags)):
      look(b)
    return {'lines': self.lines, 'kinds': self.kinds0}

  def run(self, n):
    r, w = self.rng, self.w
    if r.random() < w.get('layers', 0):
      return self.run_layers(n // 2)
    for _ in range(r.choice(w.get('nbags', [1, 2, 3]))):
      self.new()
    for _ in range(n):
      x = r.random()
      if x < .4:
        self.write(self.writable())
      elif x < .4 + w.get('fork', .03):
        if len(self.bags) < 8:
          p = r.choice([i for i, b in enumerate(self.bags) if not b.get('gone') and b['base'] is None])
          self.fork(p)
      elif x < .55 + w.get('merge', .0) and w.get('merge') and x > .55:
        self.merge()
      elif x < .57 and w.get('fork', 0) > .05:
        b = self.readable()
        y = r.random()
        if y < .25 and sum(1 for x in self.bags if x['w']) > 1:
          self.op('fz', b)
          self.write(b)
        elif y < .5 and not self.bags[b]['w'] and self.bags[b]['base'] is None:
          # the bag is given up; its forks live on
          self.op('drop', b)
          self.bags[b]['gone'] = True
          for x in self.bags:
            if x['base'] == b:
              x['gone'] = True
        else:
          self.op(r.choice(['isf', 'ise', 'isp']), b)
      elif x > 1 - w.get('ex', .0):
        self.op(r.choice(['ex', 'ex', 'ise', 'isp']), self.readable())
      else:
        self.read(self.readable())
    for b in range(len(self.bags)):
      if not self.bags[b].get('gone'):
        for _ in range(2):
          self.read(b)
        if w.get('ex'):
          self.op('ex', b)
    if not any('gone' not in b for b in self.bags):
      self.new()
    return {'lines': self.lines, 'kinds': self.kinds0}


def drive(ctx, binary, scens):
  """Runs the scenarios in several processes; a process that dies yields a trace that ends in `crash`."""
  def part(js):
    res, todo = [], list(js)
    while todo:
      text = ''.join('scen %d\n%s\ngo\n' % (i, '\n'.join(s['lines'])) for i, s in todo)
      p = subprocess.run([binary], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False,
                         env={**os.environ, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1', 'UBSAN_OPTIONS': 'halt_on_error=1'})
      ls = p.stdout.decode().split('\n')
      for line in ls[:-1]:
        res.append(json.loads(line))
      done = len(ls) - 1
      if p.returncode == 0 and done == len(todo):
        return res
      i, _ = todo[done]
      tail = ls[-1]
      # the process died: in an operation (its line has begun), or between two of them
      if tail.endswith('],'):
        tail += '"ok":-1,"r":[]}]}'
      elif tail.endswith('}') or tail.endswith('"ev":['):
        tail += (',' if tail.endswith('}') else '') + '{"op":"nb","a":[],"ok":-1,"r":[]}]}'
      else:
        raise vlib.MachineryError('the driver stopped in scenario %d: %s' % (i, p.stderr.decode(errors='replace')[-1000:]))
      tr = json.loads(tail)
      tr['note'] = p.stderr.decode(errors='replace')[-800:]
      res.append(tr)
      todo = todo[done + 1:]
    return res
  js = list(enumerate(scens))
  with concurrent.futures.ThreadPoolExecutor(8) as ex:
    out = [t for q in ex.map(part, [js[k::8] for k in range(8)]) for t in q]
  for t in out:
    t['x'] = {'kinds': scens[t['sid']]['kinds'], 'odd': scens[t['sid']].get('odd', 0)}
  out.sort(key=lambda t: t['sid'])
  ctx.log('%d scenarios' % len(out))
  return out


FOCUS = {
    'attr': {'attr': 6, 'unit': 1, 'kinds': [0, 5], 'layers': .08},
    'fork': {'attr': 2, 'list': 1, 'dict': 1, 'schema': 1, 'kinds': [0, 1, 2, 3], 'fork': .15, 'layers': .12},
    'list': {'list': 1, 'kinds': [1, 0]},
    'dict': {'dict': 1, 'kinds': [2, 0]},
    'schema': {'schema': 1, 'kinds': [3, 4]},
    'merge': {'attr': 2, 'list': 1, 'dict': 1, 'schema': 1, 'kinds': [0, 1, 2, 3, 4], 'fork': .08, 'merge': .15, 'nbags': [2, 3, 4], 'layers': .25},
    'ex': {'attr': 2, 'list': 1, 'dict': 1, 'kinds': [0, 1, 2], 'fork': .08, 'ex': .15},
}


def ev(op, a, r=(), ok=1):
  return {'op': op, 'a': list(a), 'ok': ok, 'r': r if isinstance(r, dict) else list(r)}


def run(ctx, focus, salt, controls):
  """Laws of the specification, then the real bags' recorded operations against it."""
  ctx.assumptions += [
      'the data bag sources (koladata/internal) are compiled against stand-ins for Abseil and Arolla (shims/core, shims/miniabsl), on '
      'which the repository\'s own data_bag, data_bag_merge, data_bag_schema and extract_content gtests pass; data slices, operators and '
      'Python bindings above them are not executed',
      'one thread; at most a few dozen objects in allocations of 1 to 1000 objects, at most ten bags, scenarios of 10 to 60 operations']
  ctx.model_check('DataBagMC', MC % (2, 2, ctx.pick(2, 3)), timeout=800)
  todo = [('', (), ctx.pick(1600, 16000))]
  if ctx.thorough:
    todo.append(('san', ('-g', '-fsanitize=address,undefined'), 2000))
  for name, extra, n in todo:
    b = build(ctx, extra, 'databag' + name)
    rng = random.Random(ctx.seed * 1000 + salt + (500 if name else 0))
    sc = [Gen(rng, FOCUS[focus]).run(rng.choice([10, 20, 40])) for _ in range(n)]
    ctx.require('DataBagTrace', drive(ctx, b, sc), label=name or None)
    os.unlink(b)
  for kinds, evs in controls:
    ctx.control('DataBagTrace', {'x': {'kinds': list(kinds), 'odd': 0}, 'ev': evs}, len(evs) - 1)
