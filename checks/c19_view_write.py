"""C19: writes through views."""
import random
import kview_common as K

LEVEL = 'model_checking'


def check(ctx):
  rng = random.Random(ctx.seed)
  so = K.build(ctx)
  K.model(ctx, gen=False)
  jobs = [K.program(rng, rng.randint(4, 12), writes=True) for _ in range(ctx.pick(3000, 30000))]
  tr = ctx.drive_jobs('kview.py', {'jobs': jobs}, env={'CLIB': so})
  ctx.extra['writes'] = sum(e['op'] in ('setattr', 'setattrs', 'setitem', 'append') for t in tr for e in t['ev'])
  ctx.extra['writes_accepted'] = sum(e['op'] in ('setattr', 'setattrs', 'setitem', 'append') and e['r'] == 'ok' for t in tr for e in t['ev'])
  ctx.log(ctx.extra['writes'], 'writes', ctx.extra['writes_accepted'], 'accepted')
  ctx.require('KViewTrace', tr)
  K.negative(ctx)
