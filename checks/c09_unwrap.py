"""C09: unwrapping decorators always ends, at the innermost function."""
import random

LEVEL = 'model_checking'


def check(ctx):
  base = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Result Bounded Agrees\nPROPERTY Terminates\nCONSTANTS\nGen = TRUE\nN = %d\n'
  g = ctx.generate('Unwrap', base % 3)
  if ctx.thorough:
    ctx.model_check('Unwrap', (base % 4).replace('TRUE', 'FALSE'))
  rng = random.Random(ctx.seed)
  for _ in range(ctx.pick(2000, 20000)):
    n = rng.choice([1, 2, 4, 5, 8, 30])
    w = []
    for i in range(1, n + 1):
      w.append({'to': rng.choice([0, i % n + 1, i % n + 1, i % n + 1, rng.randint(1, n)]),
                'callable': rng.random() < .9})
    w[0]['callable'] = True
    g.append({'w': w, 'start': 1})
  ctx.require('UnwrapTrace', ctx.drive('unwrap.py', g))
  ctx.control('UnwrapTrace', {'ev': [{'w': [{'to': 2, 'callable': True}, {'to': 0, 'callable': True}],
                                      'start': 1, 'r': 1}]}, 0)
