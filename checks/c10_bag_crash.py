"""C10: bag commits are all-or-nothing under file-system failures."""
import random
import bagstore_common as B

LEVEL = 'fault_injection'
MODES = ['before', 'after', 'torn', 'crash', 'crash_after']


def check(ctx):
  rng = random.Random(ctx.seed)
  B.model(ctx)
  env = B.env(ctx)
  jobs = []
  then = [{'op': 'add', 'h': 'p', 'new': [B.bag('z1', [], [('x', 91)])]},
          {'op': 'add', 'h': '_A', 'new': [B.bag('z2', [], [('x', 92)])]},
          {'op': 'add', 'h': '_A', 'new': [B.bag('z3', ['z2'], [('y', 93)])]},
          {'op': 'add', 'h': '_B', 'new': [B.bag('z4', [], [('w', 94)])]},
          {'op': 'open', 'h': 'r', 'dir': 'A'}, {'op': 'names', 'h': 'r'},
          {'op': 'open', 'h': 'r', 'dir': 'B'}, {'op': 'names', 'h': 'r'},
          {'op': 'create', 'h': 'r', 'dir': 'B'}, {'op': 'names', 'h': 'r'}]
  final = {'dirs': ['A', 'B'], 'caches': ['1000000', 'clear'], 'then': then}
  c = {'op': 'create', 'h': 'p', 'dir': 'A'}
  a1 = {'op': 'add', 'h': 'p', 'new': [B.bag('a', [], [('x', 1)], 'ma'), B.bag('b', ['a'], [('x', 2), ('y', 3)])]}
  a2 = {'op': 'add', 'h': 'p', 'new': [B.bag('c', ['b'], [('x', 4)]), B.bag('d', ['a'], [('z', 5)], 'md'), B.bag('e', [], [])]}
  a3 = {'op': 'add', 'h': 'p', 'new': [B.bag('f', ['c', 'd'], [('z', 6)])]}
  br = {'op': 'branch', 'h': 'p', 'dir': 'B', 'names': ['c'], 'wad': False}
  ex = {'op': 'extract', 'h': 'p', 'dir': 'B', 'names': ['c', 'd'], 'wad': True}
  ld = {'op': 'load', 'h': 'p', 'names': ['c', 'd'], 'wad': False}
  cl = {'op': 'cache', 'what': 'clear'}
  rd = {'op': 'minimal', 'h': 'p', 'names': ['b'], 'wad': True}
  fixed = [[c], [c, a1], [c, a1, a2], [c, a1, a2, br], [c, a1, a2, ex], [c, a1, a2, cl, ld],
           [c, a1, {'op': 'open', 'h': 'q', 'dir': 'A'}], [c, a1, a2, cl, ld, rd, a3],
           [c, a1, a2, br, {'op': 'open', 'h': 'q', 'dir': 'B'}, dict(a3, h='q'), rd]]
  for ops in fixed:
    # the failing call may be any call of the history, later calls go on
    for i in range(len(ops)):
      if i == len(ops) - 1 or ops[i]['op'] in ('add', 'create', 'branch', 'load'):
        jobs.append({'ops': ops, 'sweep': i, 'modes': MODES, 'final': final})
  # a retry of the failed call
  jobs += [{'ops': [c, a1, a1], 'sweep': 1, 'modes': MODES, 'final': final},
           {'ops': [c, a1, a2, a2, {'op': 'open', 'h': 'p', 'dir': 'A'}, a3], 'sweep': 2, 'modes': MODES, 'final': final}]
  n_fixed = len(jobs)
  for _ in range(ctx.pick(25, 300)):
    j = B.random_job(rng, n=rng.randint(3, 9))
    muts = [i for i, o in enumerate(j['ops']) if o['op'] in ('add', 'create', 'branch', 'extract', 'open', 'load', 'minimal')]
    j.update(sweep=rng.choice(muts), modes=rng.sample(MODES, 2), final=final)
    jobs.append(j)
  tr = ctx.drive('bagstore.py', {'jobs': jobs, 'disk_every': 9}, env=env, timeout=600)
  ctx.extra['histories_swept'] = len(jobs)
  ctx.extra['fault_points_executed'] = sum(any(e['r'] == 'fault' for e in t['ev']) for t in tr)
  ctx.log(ctx.extra['fault_points_executed'], 'runs with an injected failure')
  ctx.require('BagStoreTrace', tr)
  E = lambda op, r='ok', **k: dict({'op': op, 'h': 'p', 'dir': 'A', 'names': [], 'wad': False, 'new': [], 'r': r}, **k)
  ctx.control('BagStoreTrace', {'ev': [
      E('create'), E('add', 'fault', new=a1['new']), E('open', h='q'), E('names', h='q', v=['a'])]}, 3)
  assert n_fixed
