"""C29: calls with awaited arguments and evaluation of operators on futures."""
import random
import par_common as pc
from c28_par_future import fut

LEVEL = 'model_checking'


def race(rng):
  """Inputs of one evaluation completed by several threads at the same time."""
  s = pc.Scen('race', 0)
  nth = rng.choice([2, 2, 3])
  pc.executors(s, rng, nth, weak=0)
  fs = rng.sample([0, 1, 2], k=nth)
  for f in fs:
    s.s('fmk', f, f)
  arg = []
  for f in fs:
    arg += [3, f] + ([0, rng.randrange(10)] if rng.random() < .2 else [])
  s.s('aev', 30, 0, rng.choice([0, 0, 0, 2]), rng.randrange(9), *arg)
  for i, f in enumerate(fs):
    s.t(i, *rng.choice([('fset', f, rng.randrange(10))] * 6 + [('ferr', f, 30 + f)]))
  s.s('fa', 30, 3)
  return s


def scen(rng):
  kind = rng.choice(['call', 'call', 'call', 'aev', 'aev', 'two', 'cancel', 'race', 'aevcx'])
  if kind == 'race':
    return race(rng)
  s = pc.Scen(kind, rng.choice([0, 1, 2, 3]))
  nth = rng.choice([1, 2, 2, 3])
  for i in range(nth):
    s.th.setdefault(i, [])
  es, tot = pc.executors(s, rng, nth, weak=0 if kind in ('cancel', 'two', 'aevcx') else .15)
  pick = lambda: rng.choice(es)
  th = lambda: rng.randrange(nth)
  # Things to wait for: streams 0.., futures 0..
  streams, futures = [], []
  for i in range(rng.choice([0, 1, 1, 2])):
    vals = [rng.randrange(10) for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 1, 2]))]
    pc.source(s, rng, i, th(), vals, rng.choice([0, 0, 0, 0, 0, 3, 100, None]))
    streams.append(i)
  # At most one failing input when the outcome is consumed by others.
  for i in range(rng.choice([0, 1, 1, 2, 3])):
    fut(s, rng, i, i, th())
    futures.append(i)

  def args(aev):
    r = []
    for _ in range(rng.choice([0, 1, 2, 2, 3])):
      c = [(0, rng.randrange(10)), (1, 0) if streams else (0, 1)]
      if aev:
        c += [(3, f) for f in futures] * 2
      else:
        c += [(2, st) for st in streams] * 2 + [(3, f) for f in futures] * 2 + [(4, f) for f in futures[:1]] + [(5, rng.randrange(10))]
      r += list(rng.choice(c))
    return r
  ops = []
  looks = []
  if kind in ('call', 'two', 'cancel'):
    mode = rng.choice([0, 0, 0, 1, 1, 2, 3])
    m = rng.randrange(9)
    if mode == 1:
      pc.source(s, rng, 5, th(), [rng.randrange(10) for _ in range(rng.choice([0, 1, 2, 3]))], rng.choice([0, 0, 0, 3, 100, None]))
      m = 5
    ops.append(('call', 10, pick(), mode, m, *args(False)))
    looks.append(('drain', 10, 0))
    if kind == 'two':
      if rng.random() < .5:
        ops.append(('call', 11, pick(), 0, 3, 2, 10, *args(False)))
      else:
        ops += [('fsv', 20, 10), ('aev', 21, pick(), 0, 2, 3, 20, 0, 4), ('opsff', 11, 21)]
        looks.append(('fa', 21, 1))
      looks.append(('drain', 11, 1))
  else:
    mode = rng.choice([0, 0, 0, 2])
    ops.append(('aev', 30, pick(), mode, rng.randrange(9), *args(True)))
    looks += [('fa', 30, 3), ('fp', 30)]
    if rng.random() < .3:
      ops.append(('aev', 31, pick(), 0, 1, 0, 2, *([3, futures[0]] if futures else [])))
      looks.append(('fa', 31, 4))
    if rng.random() < .3:
      looks.append(('fa', 30, 5))
  early = rng.random() < .5
  where = rng.randrange(nth)
  if kind in ('cancel', 'aevcx'):
    s.s('ctx', 0)
    ops = [('in', 0)] + ops + [('in', -1)]
  if early:
    for o in ops:
      s.s(*o)
    rng.shuffle(looks)
    for o in looks:
      t = rng.randrange(nth)
      s.th[t].insert(rng.randint(0, len(s.th[t])), o)
  else:
    s.th[where] = pc.merge(rng, s.th[where], ops + looks)
  if kind == 'cancel':
    if rng.random() < .3:
      s.f('cancel', 0, 51)
    else:
      t = rng.randrange(nth)
      at = rng.randint(0, len(s.th[t]))
      if not early and t == where:
        at = max(at, next(i for i, o in enumerate(s.th[t]) if o[0] == 'call'))
      s.th[t].insert(at, ('cancel', 0, 51))
  return s


def check(ctx):
  b = pc.build(ctx)
  rng = random.Random(ctx.seed * 1000 + 29)
  sc = [scen(rng) for _ in range(ctx.pick(450, 4500))]
  tr = pc.drive(ctx, b, sc, rng, ctx.pick(70, 350), cap=ctx.pick(9, 40))
  ctx.require('ParFlowTrace', tr)
  op = lambda th, k, a, r=(): {'e': 'op', 'th': th, 'o': {'k': k, 'a': a}, 'r': list(r)}
  call = lambda *a: {'e': 'call', 'f': 'call', 'id': 1, 'a': list(a), 'th': 0, 'ex': 0, 'it': 1, 'cx': -1}
  out = lambda v: {'e': 'out', 'o': 0, 'v': v}
  pre = [op(0, 'eager', [0]), op(0, 'smake', [0, 4], [1]), {'e': 'inv', 'th': 0, 'o': {'k': 'call', 'a': [1, 0, 0, 3, 2, 0, 0, 7]}}, call(4, 7)]
  ctx.control('ParFlowTrace', {'ev': pre + [call(4, 7)]}, 4)
  ctx.control('ParFlowTrace', {'ev': pre[:3] + [call(7, 4)]}, 3)
  ctx.control('ParFlowTrace', {'ev': pre + [{'e': 'res', 'th': 0, 'o': pre[2]['o'], 'r': [1]}, op(0, 'drain', [1, 0]), out(13)]}, 6)
