"""C15: what is read back is exactly what the updates wrote."""
import random
import slicestore_common as C

LEVEL = 'model_checking'


def check(ctx):
  rng = random.Random(ctx.seed)
  env = C.env(ctx)
  C.model(ctx)
  jobs = []
  for i in range(ctx.pick(1200, 9000)):
    n = rng.randint(5, 14)
    jobs.append(C.random_job(rng, n, few=rng.choice([1, 2, 3]), p_read=rng.choice([.2, .4]),
                             kinds=rng.choice([(), ('cache', 'open')])))
    if i % 3 == 0:
      jobs[-1]['final'] = {'dirs': ['A'], 'caches': ['clear']}
  tr = ctx.drive_jobs('slicestore.py', {'jobs': jobs, 'u': C.U, 'disk_every': 40}, env=env, timeout=800)
  ctx.require('SliceStoreTrace', tr)
  C.negative(ctx)
