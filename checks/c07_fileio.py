"""C07: the file-system interface never clobbers unasked and fails cleanly."""
import random

LEVEL = 'model_checking'


def check(ctx):
  base = 'INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n'
  ctx.model_check('FileSysMC', base + 'INVARIANTS Tree Clean\nCONSTANTS\nGen = FALSE\nDepth = %d\n' % ctx.pick(4, 7))
  g = ctx.generate('FileSysMC', base + 'ACTION_CONSTRAINT Emit\nCONSTANTS\nGen = TRUE\nDepth = %d\n' % ctx.pick(4, 5))
  rng = random.Random(ctx.seed)
  if len(g) > ctx.pick(5000, 40000):
    short = [h for h in g if len(h) <= 3]
    g = short + rng.sample(g, ctx.pick(5000, 40000) - min(len(short), 4000))
  jobs = [h + [{'op': 'tree'}] for h in g]
  paths = [['a'], ['b'], ['d'], ['d', 'a'], ['d', 'e'], ['d', 'e', 'a'], ['a', 'x'], ['f']]
  for _ in range(ctx.pick(700, 5000)):
    ops = []
    for _ in range(rng.randint(4, 25)):
      k = rng.choice(['exists', 'is_dir', 'remove', 'write', 'write', 'append', 'read', 'make_dirs', 'rename',
                      'rename', 'rename', 'glob', 'tree'])
      o = {'op': k, 'p': rng.choice(paths)}
      if k in ('write', 'append'):
        o['d'] = rng.choice(['', 'x', 'yy', 'line\n'])
      if k == 'rename':
        o['q'] = rng.choice(paths)
        o['ow'] = rng.random() < .5
      if k == 'glob':
        o['p'] = rng.choice([[], ['d'], ['d', 'e'], ['a']])
      if k == 'tree':
        del o['p']
      ops.append(o)
    jobs.append(ops + [{'op': 'tree'}])
  tr = ctx.drive('fileio.py', jobs)
  ctx.require('FileSysTrace', tr)
  ctx.control('FileSysTrace', {'ev': [
      {'op': 'write', 'p': ['a'], 'd': 'x', 'r': 'ok'}, {'op': 'write', 'p': ['b'], 'd': 'y', 'r': 'ok'},
      {'op': 'rename', 'p': ['a'], 'q': ['b'], 'ow': False, 'r': 'ok'}]}, 2)
