"""C28: futures and their conversions from and to streams."""
import random
import par_common as pc

LEVEL = 'model_checking'


def fut(s, rng, f, w, th, typ=0, val=None):
  """Future f with writer w, written (or dropped) in the setup, by thread th or not at all."""
  s.s('fmk', f, w, *([typ] if typ else []))
  op = rng.choice([('fset', w, rng.randrange(10) if val is None else val)] * 5 + [('ferr', w, 30 + f % 20), ('fdw', w)])
  x = rng.random()
  if x < .25:
    s.s(*op)
  elif x < .92:
    s.t(th, *op)


def scen(rng):
  kind = rng.choice(['fut', 'fut', 'conv', 'conv', 'single', 'iter', 'unwrapf', 'unwraps', 'mix'])
  s = pc.Scen(kind, rng.choice([0, 1, 2, 3]))
  nth = rng.choice([1, 2, 2, 3])
  for i in range(nth):
    s.th.setdefault(i, [])
  ops = []                                    # operations that define things, in order
  look_f, look_s = [], []
  if kind in ('fut', 'conv', 'mix'):
    n = rng.choice([1, 1, 2])
    for f in range(n):
      fut(s, rng, f, f, rng.randrange(nth))
      look_f.append(f)
  if rng.random() < .15:
    ops.append(('asf', 30, rng.randrange(10)))
    look_f.append(30)
  if kind in ('conv', 'mix'):
    ops.append((rng.choice(['sff', 'opsff']), 10, 0))
    look_s.append(10)
    if rng.random() < .6:
      ops.append((rng.choice(['fsv', 'fsv', 'fit']), 31, 10))
      look_f.append(31)
      if ops[-1][0] == 'fsv' and rng.random() < .5:
        ops.append(('opsff', 11, 31))
        look_s.append(11)
    if rng.random() < .3:
      ops.append(('opchain', 12, 10, 10))
      look_s.append(12)
  if kind in ('single', 'iter', 'mix'):
    vals = [rng.randrange(10) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]) if kind != 'iter' else rng.choice([0, 1, 2, 3, 4]))]
    pc.source(s, rng, 0, rng.randrange(nth), vals, rng.choice([0, 0, 0, 0, 3, 100, None]))
    for f in range(32, 32 + rng.choice([1, 1, 2])):
      ops.append((('fsv' if rng.random() < .75 else 'fit') if kind != 'iter' else ('fit' if rng.random() < .75 else 'fsv'), f, 0))
      look_f.append(f)
    if kind == 'single' and rng.random() < .3:
      ops.append(('opsff', 13, 32))
      if ops[-2][0] == 'fsv' or (ops[-2][1] == 33 and ops[-3][0] == 'fsv'):
        look_s.append(13)
      else:
        ops.pop()
  if kind == 'unwrapf':
    fut(s, rng, 0, 0, rng.randrange(nth))
    fut(s, rng, 1, 1, rng.randrange(nth))
    fut(s, rng, 5, 5, rng.randrange(nth), typ=5, val=rng.choice([0, 1]))
    ops.append(('uff', 34, 5))
    look_f += [34, rng.choice([0, 1])]
    if rng.random() < .3:
      ops.append(('uff', 35, 5))
      look_f.append(35)
    if rng.random() < .4:
      ops.append(('sff', 14, 34))
      look_s.append(14)
  if kind == 'unwraps':
    for i in (0, 1)[:rng.choice([1, 2])]:
      pc.source(s, rng, i, rng.randrange(nth), [rng.randrange(10) for _ in range(rng.choice([0, 1, 2, 3]))], rng.choice([0, 0, 0, 3, 100, None]))
      top = i
    fut(s, rng, 6, 6, rng.randrange(nth), typ=2, val=rng.randint(0, top))
    ops.append(('ufs', 15, 6))
    look_s.append(15)
    if rng.random() < .4:
      ops.append((rng.choice(['fsv', 'fit']), 36, 15))
      look_f.append(36)
  early = rng.random() < .6
  where = rng.randrange(nth)
  made = []
  for o in ops:
    (s.s if early else (lambda *o: made.append(o)))(*o)
  # Who looks: consumers, peeks and drains, by any thread that can see the object.
  prog = {i: [] for i in range(nth)}
  k = 0
  for f in look_f:
    base = f < 10 or early
    for _ in range(rng.choice([1, 1, 2])):
      th = rng.randrange(nth) if base else where
      prog[th].append(('fa', f, k))
      k += 1
    for _ in range(rng.choice([0, 1, 2])):
      th = rng.randrange(nth) if base else where
      prog[th].append(('fp', f))
    if rng.random() < .3:
      s.f('fp', f)
    if rng.random() < .2:
      s.f('fa', f, 20 + k)
      k += 1
  for j, st in enumerate(look_s):
    prog[rng.randrange(nth) if early else where].append(('drain', st, j))
  for i in range(nth):
    rng.shuffle(prog[i])
    own = list(s.th[i])
    # What refers to the objects a thread makes comes after them.
    s.th[i] = pc.merge(rng, own, (made if i == where else []) + prog[i])
  if rng.random() < .1 and look_f and look_f[0] < 10 and not ops:
    s.f('fd', look_f[0])
  return s


def check(ctx):
  b = pc.build(ctx)
  rng = random.Random(ctx.seed * 1000 + 28)
  sc = [scen(rng) for _ in range(ctx.pick(450, 4500))]
  tr = pc.drive(ctx, b, sc, rng, ctx.pick(70, 350), cap=ctx.pick(9, 40))
  ctx.require('ParFlowTrace', tr)
  op = lambda th, k, a, r=(): {'e': 'op', 'th': th, 'o': {'k': k, 'a': a}, 'r': list(r)}
  fc = lambda k, *r: {'e': 'fc', 'k': k, 'r': list(r)}
  pre = [op(0, 'fmk', [0, 0]), op(0, 'fa', [0, 7]), {'e': 'inv', 'th': 0, 'o': {'k': 'fset', 'a': [0, 4]}}, fc(7, 1, 4)]
  ctx.control('ParFlowTrace', {'ev': pre + [fc(7, 1, 4)]}, 4)
  ctx.control('ParFlowTrace', {'ev': pre + [op(0, 'fp', [0], [1, 5])]}, 4)
  ctx.control('ParFlowTrace', {'ev': pre[:3] + [{'e': 'res', 'th': 0, 'o': {'k': 'fset', 'a': [0, 4]}, 'r': []}, op(0, 'fp', [0], [0])]}, 4)
  ctx.control('ParFlowTrace', {'ev': pre[:3] + [{'e': 'res', 'th': 0, 'o': {'k': 'fset', 'a': [0, 4]}, 'r': []}, {'e': 'quiet'}]}, 4)
