"""C16: writes of the data slice store are all-or-nothing under failures."""
import random
import slicestore_common as C

LEVEL = 'fault_injection'
MODES = ['before', 'after', 'torn', 'crash', 'crash_after']


def check(ctx):
  rng = random.Random(ctx.seed)
  env = C.env(ctx)
  C.model(ctx)
  A = C.A
  E = {'op': 'open', 'h': 'q', 'dir': 'A'}
  f0 = {'c': [], 'l': [], 'd': []}

  def up(h, path, attr, vt, const, f=None, decl=()):
    return {'op': 'update', 'h': h, 'path': path, 'attr': attr, 'vt': vt, 'const': const, 'vals': [],
            'f': f or f0, 'decl': [list(x) for x in decl], 'desc': 'u'}
  c = {'op': 'create', 'h': 'p', 'dir': 'A', 'desc': 'c'}
  u1 = up('p', [], 'x', 'LQ', 'LQ:1', {'c': [{'e': 'Q:1', 'a': 'a', 'v': 'i:1'}, {'e': 'Q:2', 'a': 'a', 'v': 'i:2'}],
                                       'l': [{'n': 'LQ:1', 'v': ['Q:1', 'Q:2']}], 'd': []}, [('Q', 'a', 'I')])
  u2 = up('p', [A('x'), C.STEP['list'][0]], 'd', 'D', 'D:1', {'c': [{'e': 'D:1', 'a': 'b', 'v': 'i:3'}], 'l': [], 'd': []},
          [('D', 'b', 'I')])
  u3 = up('p', [], 'y', 'I', 'i:7')
  br = {'op': 'branch', 'h': 'p', 'h2': 'b', 'dir': 'B', 'idx': -1, 'desc': 'br'}
  ba = dict(br, auto=True, dir='auto1')
  cl = {'op': 'cache', 'what': 'clear'}
  rd = {'op': 'get', 'h': 'p', 'dpop': [[]], 'depth': 3}
  then = [up('p', [], 'z', 'I', 'i:91'), up('_A', [], 'z', 'I', 'i:92'), {'op': 'open', 'h': 'r', 'dir': 'A'},
          up('r', [], 'z', 'I', 'i:93'), up('r', [], 'y', 'I', 'i:94'), {'op': 'get', 'h': 'r', 'dpop': [[]], 'depth': 3},
          {'op': 'open', 'h': 'r', 'dir': 'B'}, up('r', [], 'z', 'S', 's:95'), {'op': 'get', 'h': 'r', 'dpop': [[]], 'depth': 3},
          {'op': 'create', 'h': 'n', 'dir': 'B', 'desc': 'again'}, {'op': 'create', 'h': 'n', 'dir': 'A', 'desc': 'again'},
          {'op': 'branch', 'h': 'p', 'h2': 'n', 'dir': 'C', 'idx': -1, 'desc': ''}, {'op': 'get', 'h': 'n', 'dpop': [[]], 'depth': 3},
          {'op': 'open', 'h': 'r', 'dir': 'A'}, {'op': 'history', 'h': 'r'}, {'op': 'get', 'h': 'r', 'dpop': [[]], 'depth': 3}]
  final = {'dirs': ['A', 'B'], 'caches': ['1000000', 'clear'], 'then': then}
  jobs = []
  q = ctx.pick(1, 0)
  fixed = [([c], 0), ([c, u1], 1), ([c, u1, u2], 2), ([c, u1, u2, u3], 2), ([c, u1, u2, br], 3), ([c, u1, ba], 2),
           ([c, u1, u2, cl, rd], 4), ([c, u1, E], 2), ([c, u1, u1], 1), ([c, E, u1, dict(u3, h='q')], 2),
           ([c, u1, br, dict(u3, h='b')], 3), ([c, u1, {'op': 'rocopy', 'h': 'p', 'h2': 'q'}, u2], 2),
           ([c, u1, {'op': 'open', 'h': 'q', 'dir': 'A', 'idx': 0}, dict(u3, h='q')], 3)]
  for n, (ops, i) in enumerate(fixed):
    # quick: every interaction in two failure modes, the others in thorough
    modes = MODES if not q else (['crash', 'after'] if n % 2 else ['torn', 'crash_after'])
    if n in (1, 4):
      modes = MODES
    jobs.append({'ops': ops, 'sweep': i, 'modes': modes, 'final': final})
  for _ in range(ctx.pick(10, 150)):
    j = C.random_job(rng, rng.randint(3, 8), dirs='AB', hs='pq', few=2, p_read=.1, kinds=('open', 'branch', 'rocopy', 'create'))
    muts = [i for i, o in enumerate(j['ops']) if o['op'] in ('update', 'create', 'branch', 'open')]
    j.update(sweep=rng.choice(muts), modes=rng.sample(MODES, 1), final=final, stride=rng.choice([1, 2, 3]))
    jobs.append(j)
  tr = ctx.drive_jobs('slicestore.py', {'jobs': jobs, 'u': C.U, 'disk_every': 6}, env=env, timeout=800)
  ctx.extra['fault_points_executed'] = sum(any(e['r'] == 'fault' for e in t['ev']) for t in tr)
  ctx.log(ctx.extra['fault_points_executed'], 'runs with an injected failure')
  ctx.require('SliceStoreTrace', tr)
  C.negative(ctx)
