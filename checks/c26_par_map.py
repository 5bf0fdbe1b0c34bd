"""C26: mapping a functor over a stream."""
import random
import par_common as pc

LEVEL = 'model_checking'


def scen(rng):
  kind = rng.choice(['map', 'map', 'map', 'umap', 'umap', 'nest', 'cancel'])
  s = pc.Scen(kind, rng.choice([0, 1, 2, 3]))
  bad = rng.random() < .4
  codes = [(k * 3 + 1) % 10 for k in range(10)] if rng.random() < .5 else [rng.randrange(10) for _ in range(10)]
  if bad:
    for _ in range(rng.choice([1, 1, 2])):
      codes[rng.randrange(10)] = rng.choice([-1, -1, -2])
  s.tab(0, codes)
  s.tab(1, [(k + 1) % 10 for k in range(10)])
  nth = rng.choice([1, 2, 2])
  for i in range(nth):
    s.th.setdefault(i, [])
  es, tot = pc.executors(s, rng, nth, weak=0 if kind in ('nest', 'cancel') else .2)
  e = rng.choice(es)
  vals = [rng.randrange(10) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5]))]
  if rng.random() < .5:
    rng.shuffle(vals)
    vals = list(dict.fromkeys(vals))
  end = rng.choice([0, 0, 0, 0, 3, 100, None])
  pc.source(s, rng, 0, 0, vals, end)
  order = 1 if kind in ('map', 'nest') else 0 if kind == 'umap' else rng.randrange(2)
  op = ('map', 10, e, 0, 0, order)
  where = rng.randrange(nth)
  early = rng.random() < .5
  put = s.s if early else (lambda *o: s.t(where, *o))
  if kind == 'cancel':
    s.s('ctx', 0)
    s.s('ctx', 1) if rng.random() < .3 else None
    put('in', 0)
    if rng.random() < .1:
      put('cancel', 0, 50)
  put(*op)
  if kind == 'cancel' and rng.random() < .5:
    put('in', -1)
  if kind == 'nest':
    put('map', 11, rng.choice(es), 10, 1, rng.choice([1, 1, 0]))
    if rng.random() < .3:
      put('opchain', 12, 11 if rng.random() < .3 and s.th else 10, 10)
  top = {'nest': 11}.get(kind, 10)
  put('drain', top, 0)
  if rng.random() < .3:
    put('drain', 10, 1)
  if kind == 'cancel':
    th = rng.randrange(nth)
    at = rng.randint(0, len(s.th[th]))
    if not early and th == where:
      at = max(at, next(i for i, o in enumerate(s.th[th]) if o[0] == 'map'))
    s.th[th].insert(at, ('cancel', 0, 51))
    if early:
      s.s('in', -1)
  if rng.random() < .5:
    s.f('drain', 10, 9)
  return s


def check(ctx):
  ctx.model_check('ParMapMC', 'INIT Init\nNEXT Next\nINVARIANTS Inv Done\nCHECK_DEADLOCK FALSE\nCONSTANTS NItems = %d Workers = 2\n' % ctx.pick(3, 4), timeout=800)
  b = pc.build(ctx)
  rng = random.Random(ctx.seed * 1000 + 26)
  sc = [scen(rng) for _ in range(ctx.pick(350, 3500))]
  tr = pc.drive(ctx, b, sc, rng, ctx.pick(120, 400), cap=ctx.pick(12, 40))
  ctx.require('ParFlowTrace', tr)
  op = lambda th, k, a, r=(): {'e': 'op', 'th': th, 'o': {'k': k, 'a': a}, 'r': list(r)}
  call = lambda v, ex=0: {'e': 'call', 'f': 'map', 'id': 1, 'a': [v], 'th': 0, 'ex': ex, 'it': 1, 'cx': -1}
  x = {'tab': [[5, 6, -1, 8, 9, 0, 1, 2, 3, 4]]}
  pre = [op(0, 'eager', [0]), op(0, 'smake', [0, 0, 1, 2], [1]), {'e': 'inv', 'th': 0, 'o': {'k': 'map', 'a': [1, 0, 0, 0, 1]}}, call(0), call(1)]
  out = lambda o, v: {'e': 'out', 'o': o, 'v': v}
  ctx.control('ParFlowTrace', {'x': x, 'ev': pre + [op(0, 'drain', [1, 0]), out(0, 6)]}, 6)
  ctx.control('ParFlowTrace', {'x': x, 'ev': pre + [call(1)]}, 5)
  ctx.control('ParFlowTrace', {'x': x, 'ev': pre + [op(0, 'drain', [1, 0]), out(0, 5), {'e': 'oend', 'o': 0, 'c': 202}]}, 7)
  ctx.control('ParFlowTrace', {'x': x, 'ev': pre[:3] + [call(0, 3)]}, 3)
