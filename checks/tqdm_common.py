"""Shared scenario generation for the ext/tqdm checks."""
import random

PROTOS = ('py/koladata/ext/tqdm/proto/progress.proto',)


def rep(mi=2, ms=-1, sf=True, sd=True, raises=0):
  return {'mi': mi, 'ms': ms, 'sf': sf, 'sd': sd, 'raises': raises}


def bar(c=1, init=0, total=3, mi=2, ms=-1, leave=True, off=False, desc='d', unit='it', delay=False,
        file=False, disp='unset'):
  return {'op': 'bar', 'c': c, 'init': init, 'total': total, 'mi': mi, 'ms': ms, 'leave': leave,
          'off': off, 'desc': desc, 'unit': unit, 'delay': delay, 'file': file, 'disp': disp}


def fix_total(o):
  if o['op'] == 'iter':
    o = dict(o)
    o['total'] = o['n'] if o['kind'] != 'gen' else -1
    # items completed: those whose loop body finished before the iterator was left
    o['items'] = (o['stop'] - 1) if o['stop'] else o['n']
  return o


def rand_bar(rng, c, nb):
  return bar(c=c, init=rng.choice([0, 0, 5]), total=rng.choice([-1, 0, 3, 10]),
             mi=rng.choice([0, 0, 1, 2]), ms=rng.choice([-1, 1, 1, 2, 3]),
             leave=rng.random() < .6, off=rng.random() < .2, desc=rng.choice(['d', 'x y', '\u00fc']),
             unit=rng.choice(['it', 'B']), delay=rng.random() < .2, file=rng.random() < .3,
             disp=rng.choice(['unset', 'unset', 'T', 'F']) if nb else 'unset')


def rand(rng, nb, focus):
  cfg = {'nb': nb, 'reps': [rep(mi=rng.choice([0, 0, 1, 2]), ms=rng.choice([-1, 1, 1, 3]),
                                sf=rng.random() < .7, sd=rng.random() < .7,
                                raises=rng.choice([0, 0, 1, 2])) for _ in range(3)]}
  ops, depth, bars = [], [0], 0
  if focus == 'bars':
    ops.append({'op': 'enter', 'c': 1, 'v': rng.randint(1, 3), 'manual': False})
    depth[0] = 1
  scope = .45 if focus == 'scope' else .12
  for _ in range(rng.randint(5, 28)):
    c = rng.randint(1, len(depth))
    x = rng.random()
    if x < scope:
      y = rng.random()
      if y < .45:
        ops.append({'op': 'enter', 'c': c, 'v': rng.randint(0, 3), 'manual': rng.random() < .3})
        depth[c - 1] += 1
      elif y < .8:
        if depth[c - 1]:
          ops.append({'op': 'exit', 'c': c, 'exc': rng.random() < .5})
          depth[c - 1] -= 1
      elif len(depth) < 4:
        ops.append({'op': rng.choice(['copy', 'thread']), 'c': c})
        depth.append(0)
      ops += [{'op': 'query', 'c': i + 1} for i in range(len(depth))]
    elif x < scope + .12:
      ops.append(rand_bar(rng, c, nb))
      bars += 1
    elif x < scope + .18:
      o = rand_bar(rng, c, nb)
      n = rng.randint(0, 6)
      ops.append(fix_total(dict(o, op='iter', n=n, stop=rng.choice([0, 0, rng.randint(1, n)]) if n and not nb else 0,
                                kind=rng.choice(['list', 'gen', 'trange']), init=0)))
      bars += 1
    elif bars:
      b = rng.randint(1, bars)
      y = rng.random()
      if y < .6:
        ops.append({'op': 'update', 'b': b, 'k': rng.choice([1, 1, 1, 2, 4, -1])})
      elif y < .7:
        ops.append({'op': 'refresh', 'b': b})
      elif y < .8:
        ops.append({'op': 'desc', 'b': b, 'desc': rng.choice(['p', 'q r'])})
      else:
        ops.append({'op': 'close', 'b': b, 'via': rng.choice(['close', 'with'])})
  for b in range(1, bars + 1):
    ops.append({'op': 'close', 'b': b})
    ops.append({'op': 'update', 'b': b, 'k': 1})
    ops.append({'op': 'close', 'b': b})
  return {'cfg': cfg, 'ops': ops}


def run(ctx, focus):
  extra = ctx.gen_protos(*PROTOS)
  base = ('INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n'
          'INVARIANTS Captured FinalOnce OffNeverShown\n')
  const = 'CONSTANTS\nGen = %s\nMaxBars = %d\nMaxCtx = %d\nMaxN = 3\nDepth = %d\n'
  ctx.model_check('TqdmMC', base + const % ('FALSE', 2, 2, ctx.pick(6, 8)))
  g = ctx.generate('TqdmMC', base.replace('INVARIANTS Captured FinalOnce OffNeverShown\n', '')
                   + 'ACTION_CONSTRAINT Emit\n'
                   + const % ('TRUE', *ctx.pick((2, 1, 8), (2, 2, 7))))
  rng = random.Random(ctx.seed)
  if len(g) > ctx.pick(6000, 40000):
    g = rng.sample(g, ctx.pick(6000, 40000))
  reps = [rep(0, 1), rep(1, -1)]
  jobs = []
  for i, h in enumerate(g):
    r = [dict(x, raises=1 if i % 3 == 0 else 0) for x in reps]
    ops = list(h)
    n = 1 + sum(o['op'] in ('copy', 'thread') for o in h)
    ops += [{'op': 'query', 'c': c + 1} for c in range(n)]
    for b in range(1, 1 + sum(o['op'] == 'bar' for o in h)):
      ops += [{'op': 'update', 'b': b, 'k': 1}, {'op': 'close', 'b': b}, {'op': 'close', 'b': b}]
    jobs.append({'cfg': {'nb': False, 'reps': r}, 'ops': ops})
  n = ctx.pick(1200, 8000)
  jobs += [rand(rng, False, focus) for _ in range(n)]
  tr = ctx.drive('tqdm_drv.py', {'nb': False, 'jobs': jobs}, extra_path=extra)
  ctx.require('TqdmTrace', tr, label='console bars')
  jobs = [rand(rng, True, focus) for _ in range(n // 2)]
  ctx.require('TqdmTrace', ctx.drive('tqdm_drv.py', {'nb': True, 'jobs': jobs}, extra_path=extra),
              label='notebook bars')
  # negative control: drop the final report of some close
  for t in tr:
    k = [i for i, e in enumerate(t['ev']) if e['op'] == 'close' and e['reps']]
    if k:
      t['ev'][k[-1]]['reps'] = []
      ctx.control('TqdmTrace', t, k[-1])
      break
