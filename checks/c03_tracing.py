"""C03: tracing mode is scoped to its context and decides name dispatch."""
import random

LEVEL = 'model_checking'


def decorate(h, every):
  """Adds observations of every context (and name) to a behaviour."""
  out, n, names, prepped = [], 1, [], False
  regs = set()
  for i, o in enumerate(h):
    out.append(o)
    if o['op'] in ('thread', 'copy'):
      n += 1
    if o['op'] == 'conf':
      regs.add(o['e'])
    if o['op'] == 'prep' and all(x['obj'] in regs for x in o['names']):
      prepped, names = True, sorted({x['name'] for x in o['names']})
    if every or i == len(h) - 1:
      out += [{'op': 'query', 'c': c} for c in range(1, n + 1)]
      if prepped:
        for nm in names + ['zz', 'private_thing']:
          out += [{'op': 'attr', 'c': c, 'name': nm} for c in range(1, n + 1)]
        out.append({'op': 'setattr', 'name': names[0]})
        out.append({'op': 'attr', 'c': 1, 'name': names[0]})
        out.append({'op': 'dir'})
  return out


def rand(rng):
  h, depth = [], [0]
  regs = {}
  for _ in range(rng.randint(4, 30)):
    c = rng.randint(1, len(depth))
    x = rng.random()
    if x < .35:
      h.append({'op': 'enter', 'c': c, 'v': rng.random() < .6})
      depth[c - 1] += 1
    elif x < .6:
      if depth[c - 1]:
        h.append({'op': 'exit', 'c': c, 'exc': rng.random() < .5})
        depth[c - 1] -= 1
    elif x < .68 and len(depth) < 5:
      h.append({'op': rng.choice(['copy', 'thread']), 'c': c})
      depth.append(0)
    elif x < .85:
      h.append({'op': 'conf', 'e': rng.randint(1, 4), 't': rng.choice([0, 1, 2, 5, 6])})
    else:
      objs = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
      h.append({'op': 'prep', 'names': [{'name': 'abc'[i], 'obj': o} for i, o in enumerate(objs)]})
  return decorate(h, True)


def check(ctx):
  base = 'INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS IsolatedSteps Restores Dispatch\n'
  c1 = 'CONSTANTS\nMaxCtx = %d\nMaxDepth = %d\nNames = FALSE\nGen = %s\n'
  c2 = 'CONSTANTS\nMaxCtx = 1\nMaxDepth = %d\nNames = TRUE\nGen = %s\n'
  ctx.model_check('TracingModeMC', base + c1 % (3, ctx.pick(3, 4), 'FALSE'))
  em = 'ACTION_CONSTRAINT Emit\n'
  g1 = ctx.generate('TracingModeMC', base + em + c1 % (ctx.pick(2, 3), ctx.pick(3, 2), 'TRUE'))
  g2 = ctx.generate('TracingModeMC', base + em + c2 % (1, 'TRUE'))
  rng = random.Random(ctx.seed)
  jobs = [decorate(h, False) for h in g1 + g2]
  jobs += [decorate(h, True) for h in rng.sample(g1, min(len(g1), 400)) + rng.sample(g2, min(len(g2), 400))]
  jobs += [rand(rng) for _ in range(ctx.pick(600, 5000))]
  ctx.require('TracingModeTrace', ctx.drive('tracing.py', jobs))
  ctx.control('TracingModeTrace', {'ev': [
      {'op': 'enter', 'c': 1, 'v': True, 'r': 'ok'}, {'op': 'enter', 'c': 1, 'v': False, 'r': 'ok'},
      {'op': 'exit', 'c': 1, 'exc': True, 'r': 'propagates'}, {'op': 'query', 'c': 1, 'r': 'F'}]}, 3)
