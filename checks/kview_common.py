"""Programs over Koda views."""
import os
import subprocess


def T(k, n=0, v='', q=()):
  return {'k': k, 'n': n, 'v': v, 'q': list(q)}


N, P = T('N'), T('P')
RANK = {'a': 1, 'b': 2, 'c': 3}
I = lambda n: T('I', n)
S = lambda c: T('S', RANK[c], c)
R = lambda n: T('R', 0, n)
TUP = lambda q: T('T', 0, '', q)


def build(ctx):
  """The view extension module from the current tree, or '' if it cannot be built here."""
  so = ctx.path('clib_py_ext.so')
  inc = subprocess.run(['/opt/venv/bin/python', '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'],
                       stdout=subprocess.PIPE, check=True).stdout.decode().strip()
  src = [os.path.join(ctx_repo(), 'py/koladata/ext/view', x) for x in ('clib.cc', 'clib_module.cc')]
  p = subprocess.run(['g++', '-std=c++20', '-O1', '-fPIC', '-shared', '-I', os.path.join(os.path.dirname(os.path.dirname(
      os.path.abspath(__file__))), 'shims/cc'), '-I', ctx_repo(), '-I', inc, *src, '-o', so,
      '-labsl_throw_delegate', '-labsl_raw_logging_internal'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False)
  if p.returncode:
    ctx.log('the extension module does not build offline; using a stand-in for map_structures')
    ctx.assumptions.append('clib.cc could not be compiled offline; its stand-in was used')
    return ''
  return so


def ctx_repo():
  import vlib
  return vlib.REPO


class Gen:
  def __init__(self, rng):
    self.r = rng
    self.heap = {}
    self.n = 0
    self.vs = {}                        # name -> depth (a guess)

  def obj(self, k, depth):
    self.n += 1
    n = 'o%d' % self.n
    self.heap[n] = o = {'k': k, 'q': [], 'm': []}
    r = self.r
    if k == 'list':
      o['q'] = [self.value(depth - 1) for _ in range(r.choice([0, 1, 2, 2, 3]))]
    elif k == 'dict':
      ks = []
      for x in r.sample([I(1), I(2), S('a'), S('b'), N, TUP([I(1)])], r.choice([0, 1, 2, 3])):
        ks.append([x, self.value(depth - 1)])
      o['m'] = ks
    else:
      o['m'] = [[T('S', 99, a), self.value(depth - 1)] for a in r.sample(['p', 'q', '_r'], r.choice([1, 2, 2, 3]))]
    return R(n)

  def prim(self):
    r = self.r
    return r.choice([N, I(1), I(1), I(2), I(3), I(0), I(-1), S('a'), S('b'), P])

  def value(self, depth, ty=None):
    r = self.r
    if depth <= 0 or r.random() < .25:
      if self.heap and r.random() < .15:
        # only containers that are complete: anything already made
        return R(r.choice(sorted(self.heap))) if False else self.prim()
      return self.prim()
    k = r.choice(['list', 'list', 'tuple', 'obj', 'dict'])
    if k == 'tuple':
      return TUP([self.value(depth - 1) for _ in range(r.choice([0, 1, 2, 3]))])
    return self.obj(k, depth)

  def uniform(self, depth, leaf, shape=None):
    """A jagged tree of tuples or lists with leaves from leaf()."""
    r = self.r
    if depth == 0:
      if leaf is None:
        return self.prim()
      return leaf()
    n = r.choice([0, 1, 2, 2, 3])
    return TUP([self.uniform(depth - 1, leaf) for _ in range(n)])

  def like(self, t, depth, leaf):
    """A tree of the same shape with other leaves."""
    if depth == 0:
      return leaf()
    return TUP([self.like(x, depth - 1, leaf) for x in t['q']])


def lit(t, boxed=False):
  return {'name': '', 't': t, 'boxed': boxed}


def var(n):
  return {'name': n, 't': N}


def program(rng, n, *, writes=False):
  g = Gen(rng)
  r = rng
  ops = []
  shape = {}                             # var -> (depth, tree) when known

  def new(op, depth, **kw):
    name = 'v%d' % len(ops)
    ops.append(dict({'op': op, 'dst': name, 'style': r.choice('mko')}, **kw))
    shape[name] = depth
    return name

  def base():
    """A fresh view of a chosen depth, in related shapes."""
    d = r.choice([0, 1, 1, 2, 2, 3])
    kind = r.choice(['prim', 'prim', 'int', 'mask', 'obj', 'list', 'dict', 'tup', 'str', 'shared'])
    pool = []

    def leaf():
      if r.random() < .2:
        return N
      if kind == 'int':
        return I(r.choice([0, 1, 1, 2, 3]))
      if kind == 'str':
        return S(r.choice('abc'))
      if kind == 'mask':
        return r.choice([P, P, N])
      if kind == 'prim':
        return g.prim()
      if kind == 'tup':
        return TUP([g.prim() for _ in range(r.choice([0, 1, 2]))])
      if kind == 'shared' and pool and r.random() < .6:
        return r.choice(pool)
      pool.append(g.obj({'shared': r.choice(['list', 'obj', 'dict'])}.get(kind, kind), 2))
      return pool[-1]
    t = g.uniform(d, leaf)
    fam = []
    fam.append(mk(t, d))
    for _ in range(r.choice([0, 1, 2])):   # same shape, other leaves
      k2 = r.choice(['int', 'mask', 'prim', 'str', 'keys', 'mask'])
      lf = {'int': lambda: r.choice([N, I(0), I(1), I(2), I(-1)]), 'mask': lambda: r.choice([P, P, N]), 'prim': g.prim,
            'str': lambda: S(r.choice('ab')), 'keys': lambda: r.choice([I(0), I(1), S('a'), N, I(-2)])}[k2]
      d2 = r.choice([d, d, d, max(0, d - 1), d + 1]) if r.random() < .6 else d
      u = g.like(t, min(d, d2), (lambda: TUP([lf() for _ in range(r.choice([0, 1, 2]))])) if d2 > d else lf)
      fam.append(mk(u, d2))
    return fam

  def mk(t, d):
    a = new('view', 0, args=[lit(t)])
    if d == 0:
      return a
    return new('explode', d, args=[var(a)], n=d)

  fams = [base()]
  for _ in range(r.choice([0, 1, 1])):
    fams.append(base())

  def pick(like=None):
    if like is not None and r.random() < .75:
      for f in fams:
        if like in f:
          return var(r.choice(f))
    x = r.random()
    if x < .2:
      return lit(g.prim(), boxed=r.random() < .3)
    return var(r.choice(sorted(shape)))

  def self_():
    f = r.choice(fams)
    if r.random() < .8:
      return r.choice(f)
    return r.choice(sorted(shape))
  W = ['setattr', 'setattrs', 'setitem', 'append', 'clone', 'getattr', 'getitem', 'explode', 'flatten']
  Q = ['explode', 'implode', 'slice', 'getitem', 'take', 'getattr', 'flatten', 'flatten', 'expandto', 'collapse', 'groupby',
       'groupby', 'select', 'select', 'invselect', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'and', 'or', 'map', 'map', 'deepmap',
       'bool', 'align', 'clone']
  for _ in range(n):
    op = r.choice(W if writes and r.random() < .75 else Q)
    s = self_()
    d = shape[s]
    kw = {}
    args = [var(s)]
    nd = d
    if op == 'explode':
      kw['n'] = r.choice([1, 1, 1, 2, 0, -1])
      nd = d + max(0, kw['n'])
    elif op == 'implode':
      kw['n'] = r.choice([1, 1, 0, 2, -1, 9])
      nd = 0 if kw['n'] < 0 else max(0, d - kw['n'])
    elif op == 'slice':
      e = lambda: r.choice([N, N, I(0), I(1), I(-1), I(2), I(-5), I(7)])
      kw.update(lo=e(), hi=e())
      nd = d + 1
    elif op in ('getitem', 'take'):
      args.append(pick(s))
      if op == 'take':
        nd = max(0, d - 1)
    elif op == 'getattr':
      kw.update(name=r.choice(['p', 'q', '_r']), hasdef=r.random() < .6)
      kw['def'] = g.prim()
    elif op == 'flatten':
      kw.update({'from': r.choice([0, 0, 1, 2, -1, -2, -9, 9]), 'to': r.choice([0, 1, 2, 3, -1, -2, 9, -9]), 'toend': r.random() < .4})
      nd = 1
    elif op == 'expandto':
      args.append(pick(s))
      kw['n'] = r.choice([0, 0, 0, 1, 1, 2, -1])
    elif op == 'collapse':
      kw['n'] = r.choice([1, 1, 0, 2, 3, -1])
      nd = max(0, d - 1)
    elif op == 'groupby':
      args += [pick(s) for _ in range(r.choice([0, 1, 1, 2]))]
      kw['sort'] = r.random() < .5
      nd = d + 1
    elif op == 'select':
      args.append(pick(s))
      kw['expand'] = r.random() < .6
    elif op in ('invselect', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'and', 'or', 'append', 'setattr'):
      args.append(pick(s))
      if op not in ('invselect', 'append', 'setattr') and r.random() < .1:
        args[0] = lit(g.prim())
      if op == 'setattr':
        kw['name'] = r.choice(['p', 'q', '_r'])
    elif op == 'setattrs':
      kw['kw'] = r.sample(['p', 'q', '_r'], r.choice([1, 2, 2, 3]))
      args += [pick(s) for _ in kw['kw']]
    elif op == 'setitem':
      args += [pick(s), pick(s)]
    elif op == 'map':
      m = r.choice([0, 0, 1, 2])
      args += [pick(s) for _ in range(m)]
      kw.update(n=r.choice([0, 0, 0, 1, 1, 2, -1]), inc=r.choice(['dflt', 'dflt', 'yes', 'no']),
                kw=r.choice([[], [], ['kx'], ['ky', 'kx']])[:m + 1])
    elif op in ('deepmap', 'align'):
      args += [pick(s) for _ in range(r.choice([0, 0, 1, 1, 2]))]
      kw['all'] = r.random() < .4
      kw['inc'] = 'dflt'
    name = new(op, nd, args=args, **kw)
    if op in ('bool', 'align', 'setattr', 'setattrs', 'setitem', 'append'):
      ops[-1]['dst'] = ''
      del shape[name]
    elif r.random() < .5:
      r.choice(fams).append(name)
  if not g.heap:
    g.obj('list', 0)
  return {'heap': g.heap, 'ops': ops}


def rows(rng):
  """Operations on several views of one shape, with longer rows."""
  r = rng
  g = Gen(rng)
  d = r.choice([1, 1, 2])
  ops = []

  def add(op, args, dst, **kw):
    ops.append(dict({'op': op, 'dst': dst, 'style': r.choice('mko'), 'args': args}, **kw))

  def tree(dd):
    if dd == 0:
      return N
    return TUP([tree(dd - 1) for _ in range(r.choice([2, 4, 5]) if dd == 1 else r.choice([1, 2, 3]))])
  t = tree(d)
  leaf = {'i': lambda: I(r.choice([0, 1, 2])), 's': lambda: S(r.choice('abc')), 'j': lambda: I(r.choice([-1, 3])),
          'm': lambda: r.choice([P, P, N]), 't': lambda: TUP([I(r.choice([0, 1])), S(r.choice('ab'))]), 'n': lambda: r.choice([N, I(1)])}
  for n, lf in leaf.items():
    add('view', [lit(g.like(t, d, (lambda lf=lf: N if r.random() < .1 else lf())))], n + '0')
    add('explode', [var(n + '0')], n, n=d)
  for i in range(6):
    ks = r.sample(sorted(leaf), r.choice([0, 1, 2, 2, 3]))
    add('groupby', [var(r.choice(sorted(leaf))), *map(var, ks)], 'g%d' % i, sort=r.random() < .6)
    add('collapse', [var('g%d' % i)], 'c%d' % i, n=r.choice([1, 1, 2]))
  x = r.choice('istj')
  add('select', [var(x), var('m')], 'f', expand=True)
  add('groupby', [var('f')], 'fg', sort=True)
  add('invselect', [var('f'), var('m')], 'f2')
  add('or', [var('f2'), var(x)], 'f3')
  add('take', [var(x), lit(I(r.choice([0, 1, -1, 3, -4, 9])))], 'tk')
  add('take', [var(x), var('i')], 'tk2')
  add('collapse', [var('n')], 'cn', n=r.choice(range(d + 1)))
  for i, o in enumerate(['lt', 'le', 'gt', 'ge', 'eq', 'ne']):
    a = r.choice(['ij', 'ji', 'ss', 'tt', 'in', 'im', 'si'])
    add(o, [var(a[0]), var(a[1])], 'q%d' % i)
    add('select', [var(x), var('q%d' % i)], 'qs%d' % i, expand=True)
  return {'heap': {'o1': {'k': 'list', 'q': [], 'm': []}}, 'ops': ops}


def model(ctx, gen=True):
  cfg = 'INIT Init\nNEXT Next\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS\nGen=%s\nWide=%s\n'
  ctx.model_check('KViewMC', cfg % ('FALSE', 'FALSE'))
  if gen:
    return ctx.generate('KViewMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\nGen=TRUE\nWide=%s\n'
                        % ('TRUE' if ctx.thorough else 'FALSE'))


def pair(rng, v, w):
  """Every operation on one pair of views."""
  ops = []

  def add(op, args, **kw):
    ops.append(dict({'op': op, 'dst': 'r%d' % len(ops), 'style': rng.choice('mko'), 'args': [dict(a) for a in args]}, **kw))
    if op in ('bool', 'align'):
      ops[-1]['dst'] = ''
  for n, x in (('a', v), ('b', w)):
    add('view', [lit(x['t'])])
    ops[-1]['dst'] = n + '0'
    add('explode', [var(n + '0')], n=x['d'])
    ops[-1]['dst'] = n
  a, b = var('a'), var('b')
  for n in (0, 1, 2, 3, -1):
    add('implode', [a], n=n)
    add('collapse', [a], n=n)
    add('expandto', [a, b], n=n)
  for f in (-3, -1, 0, 1, 2):
    for t in (-1, 0, 1, 2, 3):
      if rng.random() < .4:
        add('flatten', [a], **{'from': f, 'to': t, 'toend': rng.random() < .2})
  add('explode', [a], n=1)
  add('slice', [a], lo=rng.choice([N, I(0), I(1), I(-1)]), hi=rng.choice([N, I(1), I(-1), I(0)]))
  for op in ('getitem', 'take', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'and', 'or', 'invselect'):
    add(op, [a, b])
  for e in (True, False):
    add('select', [a, b], expand=e)
    add('groupby', [a, b], sort=e)
    add('groupby', [a], sort=e)
    add('deepmap', [a, b], all=e)
    add('deepmap', [a], all=e)
  for n in (0, 1, 2):
    for inc in ('dflt', 'yes', 'no'):
      add('map', [a, b], n=n, inc=inc, kw=rng.choice([[], ['kx'], ['kx', 'ky']]))
    add('map', [a], n=n, inc='dflt', kw=[])
  add('align', [a, b])
  add('bool', [a])
  add('clone', [a])
  return {'heap': {'o1': {'k': 'list', 'q': [], 'm': []}}, 'ops': ops}


def negative(ctx):
  h = {'o1': {'k': 'list', 'q': [], 'm': []}}
  base = {'name': '', 'hasdef': False, 'def': N, 'lo': N, 'hi': N, 'kw': [], 'sort': False, 'n': 0, 'inc': 'dflt', 'from': 0, 'to': 0,
          'toend': True, 'expand': True, 'all': False, 'r': 'ok', 'b': False, 'many': [], 'heap': h}
  t = TUP([I(1), N])
  ctx.control('KViewTrace', {'ev': [
      {'op': 'heap', 'heap': h, 'r': 'ok'},
      dict(base, op='view', dst='a', args=[{'name': '', 't': t}], d=0, t=t),
      dict(base, op='explode', n=1, dst='b', args=[{'name': 'a', 't': N}], d=1, t=t),
      dict(base, op='eq', dst='c', args=[{'name': 'b', 't': N}, {'name': '', 't': N}], d=1, t=TUP([N, P]))]}, 3)
