"""C17: revisions, branches and read-only managers are isolated."""
import random
import slicestore_common as C

LEVEL = 'model_checking'


def check(ctx):
  rng = random.Random(ctx.seed)
  env = C.env(ctx)
  C.model(ctx)
  g = C.gen(ctx)
  n = ctx.pick(1500, 8000)
  if len(g) > n:
    g = rng.sample(g, n)
  final = {'dirs': ['A', 'B'], 'caches': ['1000000']}
  jobs = [{'ops': h, 'final': final} for h in g]
  final = {'dirs': ['A', 'B', 'C'], 'caches': ['clear']}
  for i in range(ctx.pick(150, 3000)):
    j = C.random_job(rng, rng.randint(6, 18), dirs='ABC', hs='pqrs', few=2, p_read=.25,
                     kinds=('open', 'open', 'branch', 'branch', 'rocopy', 'setro', 'create', 'cache'))
    if i % 2:
      j['final'] = final
    jobs.append(j)
  tr = ctx.drive_jobs('slicestore.py', {'jobs': jobs, 'u': C.U, 'disk_every': 60}, env=env, timeout=800)
  ctx.require('SliceStoreTrace', tr)
  C.negative(ctx)
