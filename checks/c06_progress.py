"""C06: progress snapshots survive serialization and derive sane estimates."""
import random

import tqdm_common

LEVEL = 'model_checking'


def check(ctx):
  extra = ctx.gen_protos(*tqdm_common.PROTOS)
  g = ctx.generate('ProgressMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Idempotent Lossless\n'
                   'CONSTANTS\nNums = %s\n' % ctx.pick('{0, 1, 4}', '{0, 1, 4, 16, 64, 1000, 1024}'))
  rng = random.Random(ctx.seed)
  for _ in range(ctx.pick(1500, 10000)):
    nn = lambda: rng.choice([[], [0], [rng.randint(0, 999)], [-3]])
    g.append({'n': nn(), 'total': rng.choice([[], [0], [1], [8], [rng.randint(1, 999)]]),
              'elapsed_secs': rng.randint(0, 99999), 'rate': rng.choice([[], [0], [rng.randint(1, 99)]]),
              'initial': rng.randint(0, 9), 'unit': rng.choice(['it', '', 'batch', '\u4e2d']),
              'desc': rng.choice(['none', '', 'desc', 'a\tb']), 'postfix': rng.choice(['none', '', 'x=1']),
              'bar_id': rng.choice(['', 'abc', '0']), 'is_closed': rng.random() < .5,
              'is_displayed': rng.random() < .5})
  tr = ctx.drive('progress.py', g, extra_path=extra)
  ctx.require('ProgressTrace', tr)
  bad = {'ev': [dict(tr[0]['ev'][0])]}
  bad['ev'][0]['back'] = dict(bad['ev'][0]['back'], is_closed=not bad['ev'][0]['back']['is_closed'])
  ctx.control('ProgressTrace', bad, 0)
