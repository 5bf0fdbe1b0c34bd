"""C18: views behave as jagged arrays."""
import random
import kview_common as K

LEVEL = 'model_checking'


def check(ctx):
  rng = random.Random(ctx.seed)
  so = K.build(ctx)
  g = K.model(ctx)
  n = ctx.pick(400, 6000)
  if len(g) > n:
    g = rng.sample(g, n)
  jobs = [K.pair(rng, *x) for x in g]
  jobs += [K.program(rng, rng.randint(4, 14)) for _ in range(ctx.pick(1500, 15000))]
  jobs += [K.rows(rng) for _ in range(ctx.pick(250, 4000))]
  tr = ctx.drive_jobs('kview.py', {'jobs': jobs}, env={'CLIB': so})
  ctx.require('KViewTrace', tr)
  K.negative(ctx)
