"""C31: blocking waits return the one outcome there is, or that the waiting thread was cancelled."""
import random
import par_common as pc
from c28_par_future import fut

LEVEL = 'model_checking'


def ends(rng):
  return rng.choice([0, 0, 0, 0, 0, 3, 7, 100])


def items(rng):
  return [rng.randrange(10) for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 2, 3]))]


def scen(rng):
  kind = rng.choice(['src', 'src', 'fut', 'fut', 'derived', 'derived', 'cancel', 'cancel', 'never', 'never', 'cut'])
  s = pc.Scen(kind, rng.choice([0, 1, 2, 3]))
  nth = rng.choice([1, 2, 2])                   # threads that feed
  for i in range(nth):
    s.th.setdefault(i, [])
  nw = rng.choice([1, 1, 2, 3])                 # threads that wait
  waiters = list(range(nth, nth + nw))
  for i in waiters:
    s.th.setdefault(i, [])
  es, tot = pc.executors(s, rng, nth + nw, weak=0)
  s.tab(0, [rng.randrange(10) for _ in range(10)])
  s.tab(1, [rng.choice([rng.randrange(10)] * 4 + [-1]) for _ in range(10)])
  s.tab(2, [rng.choice([0, 0, 1, 2, 3, 4]) for _ in range(10)])
  th = lambda: rng.randrange(nth)
  ws, fs = [], []                               # what can be waited for
  base = kind if kind in ('src', 'fut', 'derived') else rng.choice(['src', 'fut', 'derived', 'derived'])
  for i in range(rng.choice([1, 1, 2]) if base != 'fut' or rng.random() < .3 else 0):
    pc.source(s, rng, i, th(), items(rng), ends(rng))
    ws.append(i)
  for f in range(rng.choice([1, 1, 2]) if base != 'src' or not ws else 0):
    s.s('fmk', f, f)
    o = rng.choice([('fset', f, rng.randrange(10))] * 5 + [('ferr', f, 30 + f), ('fdw', f)])
    (s.s(*o) if rng.random() < .25 else s.t(th(), *o))
    fs.append(f)
  if kind == 'never':                           # never complete: only a cancellation ends the wait
    s.s('mk', 7, 7, 0)
    if rng.random() < .5:
      (s.s if rng.random() < .5 else lambda *o: s.t(th(), *o))('wr', 7, 4)
    s.s('fmk', 7, 7)
  if kind in ('cancel', 'never', 'cut'):
    s.s('ctx', 0)
  if kind == 'cut':
    s.s('in', 0)
  if base == 'derived':
    first, ffirst = list(ws), list(fs)
    for j in range(rng.choice([1, 1, 2])):
      o = 10 + j
      e = rng.choice(es)
      c = []
      # What a cancellation cuts short is not built upon.
      ws_, fs_ = (first, ffirst) if kind == 'cut' else (ws, fs)
      if ws_:
        src = rng.choice(ws_)
        c += [('map', o, e, src, rng.choice([0, 1]), 1), ('red', o, e, src, rng.choice([0, 1]), rng.randrange(5)),
              ('opchain', o, src), ('opchain', o, src, first[0]), ('call', o, e, 0, rng.randrange(9), 2, src, 0, 3),
              ('for', o, e, src, 2, -1, -1, 1, 2, 0), ('fsv', o, src), ('fit', o, src)]
      if fs_:
        c += [('sff', o, fs_[0]), ('aev', o, e, rng.choice([0, 0, 2]), 2, 3, fs_[0], 0, 2), ('call', o, e, 0, 5, 3, fs_[0])]
      x = rng.choice(c)
      s.s(*x)
      (fs if x[0] in ('fsv', 'fit', 'aev') else ws).append(o)
  if kind == 'cut':
    s.s('in', -1)
    s.t(th(), 'cancel', 0, 40)
  if kind in ('cancel', 'never'):
    x = rng.random()
    if x < .2:
      s.s('cancel', 0, 41)
    else:
      by = th()
      s.th[by].insert(rng.randint(0, len(s.th[by])), ('cancel', 0, 41))
      if rng.random() < .3:
        by = th()
        s.th[by].insert(rng.randint(0, len(s.th[by])), ('cancel', 0, 42))
  picks = [('ubw', i) for i in ws] + [('sw', i) for i in ws] + [('ubwf', i) for i in fs] + [('swf', i) for i in fs]
  late = picks[-1:] if base == 'derived' else picks
  for i in waiters:
    inside = kind in ('cancel', 'never') and rng.random() < .85
    if inside:
      s.t(i, 'in', 0)
    for _ in range(rng.choice([1, 1, 2, 3])):
      s.t(i, *rng.choice(picks + late))
    if kind == 'never':
      if not inside:
        s.t(i, 'in', 0)
      s.t(i, *rng.choice([('ubw', 7), ('sw', 7), ('ubwf', 7), ('swf', 7)]))
  if fs and rng.random() < .2 and kind != 'cut':
    s.t(rng.choice(waiters), 'fp', rng.choice(fs))
  if ws and rng.random() < .2:
    s.s('drain', rng.choice(ws), 0)
  if rng.random() < .3 and kind != 'cut':
    s.f(*rng.choice(picks))
  return s


def check(ctx):
  b = pc.build(ctx)
  rng = random.Random(ctx.seed * 1000 + 31)
  sc = [scen(rng) for _ in range(ctx.pick(450, 4500))]
  tr = pc.drive(ctx, b, sc, rng, ctx.pick(70, 350), cap=ctx.pick(9, 40))
  ctx.require('ParFlowTrace', tr)
  op = lambda th, k, a, r=(): {'e': 'op', 'th': th, 'o': {'k': k, 'a': a}, 'r': list(r)}
  inv = lambda th, k, a: {'e': 'inv', 'th': th, 'o': {'k': k, 'a': a}}
  res = lambda th, k, a, *r: {'e': 'res', 'th': th, 'o': {'k': k, 'a': a}, 'r': list(r)}
  pre = [op(-1, 'mk', [0, 0, 0]), op(-1, 'wr', [0, 4]), inv(1, 'ubw', [0])]
  ctx.control('ParFlowTrace', {'ev': pre + [res(1, 'ubw', [0], 1, 4)]}, 3)
  ctx.control('ParFlowTrace', {'ev': pre + [op(0, 'cl', [0, 0]), res(1, 'ubw', [0], 1, 5)]}, 4)
  ctx.control('ParFlowTrace', {'ev': pre + [op(0, 'wr', [0, 5]), op(0, 'cl', [0, 0]), res(1, 'ubw', [0], 1, 4)]}, 5)
  cx = [op(-1, 'ctx', [0]), op(1, 'in', [0]), op(-1, 'cancel', [0, 41])]
  ctx.control('ParFlowTrace', {'ev': cx + pre[:2] + [op(0, 'cl', [0, 0]), op(1, 'ubw', [0], [2, 41])]}, 6)
  ctx.control('ParFlowTrace', {'ev': cx[:2] + pre + [res(1, 'ubw', [0], 2, 41)]}, 5)
