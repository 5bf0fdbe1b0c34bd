"""C27: reductions of streams and loops over streams."""
import random
import par_common as pc

LEVEL = 'model_checking'
KINDS = ['red', 'red', 'slice', 'for', 'for', 'for', 'whl', 'whl', 'twice']


def code(rank, rng, bad=False):
  n = rng.choice([0, 1, 1, 2, 3]) if rank else 1
  if rank == 0:
    return 1000 + (9 if bad else rng.randint(1, 8))
  v = int(''.join(str(rng.randint(1, 8)) for _ in range(n)) or '0')
  if bad:
    v = int('9' + str(v)[:2])
  return 1000 * (rank + 1) + v


def loop(s, rng, kind, so, e, si, conds):
  """Adds the tables of a loop; returns its operation.  conds: streams that a condition may return."""
  tabs = len(s.x['tab']) if s.x else 0
  whl = kind == 'whl'
  n = rng.choice([1, 2, 3, 5])                     # states before something stops it
  x0 = rng.randrange(10)
  mode = rng.randrange(2)
  ok = [0, 0, 0, 1, 8] + ([] if whl else [2, 3])
  body = [rng.choice(ok) for _ in range(10)]
  if rng.random() < .3:
    body[rng.randrange(10)] = rng.choice([4, 4, 5, 6, 7])
  s.tab(tabs, body)
  ct = ft = -1
  if whl or rng.random() < .5:
    ct = tabs + 1
    cond = [rng.choice([0, 0, 9])] * 10
    stop = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8])
    if whl or rng.random() < .6:
      cond[(x0 + n) % 10] = stop
    if conds and rng.random() < .7:
      for _ in range(rng.choice([1, 2])):
        j = rng.choice(conds)
        cond[(x0 + rng.randrange(n)) % 10] = 10 + j
    s.tab(ct, cond)
  if kind == 'for' and rng.random() < .6:
    ft = len(s.x['tab'])
    s.tab(ft, [rng.choice([0, 0, 1, 2, 3, 8, rng.choice([4, 5, 6, 7])]) for _ in range(10)])
  return (kind, so, e, si, tabs, ft, ct, x0, rng.randrange(8), mode)


def scen(rng):
  kind = rng.choice(KINDS)
  s = pc.Scen(kind, rng.choice([0, 1, 2, 3]))
  nth = rng.choice([1, 2, 2])
  for i in range(nth):
    s.th.setdefault(i, [])
  es, tot = pc.executors(s, rng, nth, weak=.15)
  e = rng.choice(es)
  vals = [rng.randrange(10) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5]))]
  end = rng.choice([0, 0, 0, 0, 0, 3, 100, None])
  weak = any(o[0] == 'clearq' for t in s.th.values() for o in t) or any(o[0] == 'pool' and o[3] >= 0 for o in s.setup)
  where = rng.randrange(nth)
  early = rng.random() < .5
  put = s.s if early else (lambda *o: s.t(where, *o))
  cancel = rng.random() < .15 and not weak
  if cancel:
    s.s('ctx', 0)
  if kind == 'slice':
    stack = rng.random() < .5
    rank = rng.choice([0, 1, 1, 2])
    vals = [code(rank, rng) for _ in vals]
    typ = 1 if rng.random() < .93 else 0
    if rng.random() < .15 and vals:
      vals[rng.randrange(len(vals))] = code(rng.choice([r for r in (0, 1, 2) if r != rank]), rng)
      pc.source(s, rng, 0, 0, vals, end, 1)
    elif rng.random() < .15 and typ:
      if vals:
        vals[rng.randrange(len(vals))] = code(rank, rng, True)
      s.s('mk', 0, 0, 0, 1)
      pc.feed(s, rng, 0, -1, vals, 0)
    else:
      if not typ:
        vals = [v % 10 for v in vals]
      pc.source(s, rng, 0, 0, vals, end, typ)
    op = ('reds' if stack else 'redc', 10, e, 0, rng.choice([0, 1, 1, rank, -1, rank + 1]), code(rank, rng))
    if not typ or op[4] > rank or op[4] < (0 if stack else 1):
      put(*op)
      return s
  elif kind in ('red', 'twice'):
    codes = [rng.randrange(10) for _ in range(10)]
    if rng.random() < .35:
      codes[rng.choice(vals) if vals else 0] = rng.choice([-1, -1, -2])
    s.tab(0, codes)
    pc.source(s, rng, 0, 0, vals, end)
    op = ('red', 10, e, 0, 0, rng.randrange(50))
  else:
    conds = []
    if rng.random() < .4:
      for j in range(20, 20 + rng.choice([1, 2])):
        c = rng.choice([[0], [0], [0], [9], [1], [2], [3], [], [0, 1], [8], [6]])
        pc.source(s, rng, j, rng.randrange(nth), c, rng.choice([0, 0, 0, 3, None, 100]), 1 if rng.random() < .9 else 0)
        conds.append(j)
    if kind == 'for':
      pc.source(s, rng, 0, 0, vals, end)
    op = loop(s, rng, kind, 10, e, 0, conds)
  if cancel:
    put('in', 0)
  put(*op)
  if cancel:
    put('in', -1)
  if kind == 'twice' and not weak and not cancel:
    if rng.random() < .5:
      op = ('red', 11, rng.choice(es), 10, 0, rng.randrange(50))
    else:
      op = loop(s, rng, 'for', 11, rng.choice(es), 10, [])
    put(*op)
    put('drain', 11, 1)
  put('drain', 10, 0)
  if cancel and rng.random() < .3:
    s.f('cancel', 0, 51)
  elif cancel:
    th = rng.randrange(nth)
    at = rng.randint(0, len(s.th[th]))
    if not early and th == where:
      at = max(at, next(i for i, o in enumerate(s.th[th]) if o[0] == op[0]))
    s.th[th].insert(at, ('cancel', 0, 51))
  if rng.random() < .3:
    s.f('drain', 10, 9)
  return s


def check(ctx):
  b = pc.build(ctx)
  rng = random.Random(ctx.seed * 1000 + 27)
  sc = [scen(rng) for _ in range(ctx.pick(450, 4500))]
  tr = pc.drive(ctx, b, sc, rng, ctx.pick(90, 350), cap=ctx.pick(9, 40))
  ctx.require('ParFlowTrace', tr)
  op = lambda th, k, a, r=(): {'e': 'op', 'th': th, 'o': {'k': k, 'a': a}, 'r': list(r)}
  call = lambda f, *a: {'e': 'call', 'f': f, 'id': 1, 'a': list(a), 'th': 0, 'ex': 0, 'it': 1, 'cx': -1}
  out = lambda v: {'e': 'out', 'o': 0, 'v': v}
  x = {'tab': [[1, 2, 3, 4, 5, 6, 7, 8, 9, 0]]}
  pre = [op(0, 'eager', [0]), op(0, 'smake', [0, 0, 1, 2], [1]), {'e': 'inv', 'th': 0, 'o': {'k': 'red', 'a': [1, 0, 0, 0, 5]}}, call('red', 5, 0)]
  ctx.control('ParFlowTrace', {'x': x, 'ev': pre + [call('red', 17, 1)]}, len(pre))
  ctx.control('ParFlowTrace', {'x': x, 'ev': pre + [op(0, 'drain', [1, 0]), out(17)]}, len(pre) + 1)
  x = {'tab': [[0] * 10]}
  pre = [op(0, 'eager', [0]), op(0, 'smake', [0, 4, 1], [1]), {'e': 'inv', 'th': 0, 'o': {'k': 'for', 'a': [1, 0, 0, 0, -1, -1, 7, 2, 0]}}, call('body', 4, 7, 2, 3, 2)]
  ctx.control('ParFlowTrace', {'x': x, 'ev': pre + [call('body', 1, 8, 2, 3, 2)]}, len(pre))
  ctx.control('ParFlowTrace', {'x': x, 'ev': pre + [op(0, 'drain', [1, 0]), out(10)]}, len(pre) + 1)
