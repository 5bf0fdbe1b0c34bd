"""C20: the JSON stream transformations compute the documented function of the text, however it is cut."""
import random
import json_common as J

LEVEL = 'model_checking'
CONST = 'CONSTANTS\nGen=%s\nWide=%s\n'
LINES = ('head', 'objects', 'arrays', 'nonnull', 'extract', 'implode')


def tf(kind, text, a=0, b=0, c=0, w=''):
  return {'op': 'tf', 'o': {'kind': kind, 'a': a, 'b': b, 'c': c, 'w': J.O(w)}, 'in': J.O(text)}


def every(text, rng, plain=True):
  """All transformations of one text; plain: no unpaired surrogates in it."""
  lines = J.compact(text)
  ops = [tf('compactify', text), tf('explode', text), tf('prettify', text, w=rng.choice(['', ' ', '  ', '\t', '--é'])),
         tf('implode', lines), tf('objects', lines), tf('arrays', lines), tf('nonnull', lines),
         {'op': 'chunk', 'in': J.O(text)}]
  ops += [tf('head', lines, a=n) for n in rng.sample([-1, 0, 1, 2, 3], 2)]
  ops += [tf('nth', text, a=n) for n in rng.sample([-1, 0, 1, 2, 3], 2)]
  if plain:
    for m in (0, 1, 2, 3):
      ops.append(tf('extract', lines, a=m, b=rng.randint(0, 1), c=rng.choice([0, 1, 1, 2, 3]) if m == 0 else rng.choice([0, 1, 2]),
                    w=rng.choice(['k', 'a', 'k', '\n', ''])))
  return ops


def check(ctx):
  rng = random.Random(ctx.seed)
  so = J.build(ctx)
  wide = 'TRUE' if ctx.thorough else 'FALSE'
  ctx.model_check('JsonMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Holds\n' + CONST % ('FALSE', wide))
  gen = ctx.generate('JsonMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nACTION_CONSTRAINT Emit\n' + CONST % ('TRUE', wide))
  jobs = []
  for g in gen:
    text = ''.join(map(chr, g['s']))
    jobs += every(text, rng)
  for _ in range(ctx.pick(700, 8000)):
    jobs += every(J.jtext(rng, depth=rng.choice([1, 2, 3, 5]), p=rng.choice([0, .3])), rng)
  for _ in range(ctx.pick(150, 1500)):
    jobs += every(J.jtext(rng, odd=True), rng, plain=False)
  for _ in range(ctx.pick(500, 5000)):
    text = J.jtext(rng, scalars=True, n=5)
    if '{' not in text:
      jobs.append(tf('unquote', text))
    w = [rng.choice([rng.randint(0, 31), ord(rng.choice(J.CHARS)), rng.randint(32, 127), 0x1f600]) for _ in range(rng.randint(0, 8))]
    jobs.append({'op': 'quote', 'in': w})
  for c in range(128):
    jobs.append({'op': 'quote', 'in': [c]})
  rng.shuffle(jobs)
  tr = ctx.drive_jobs('json_drv.py', {'so': so, 'seed': ctx.seed, 'cuts': ctx.pick(3, 6), 'jobs': jobs})
  ctx.require('JsonStreamTrace', tr)
  ctx.extra['texts'] = len(jobs)
  ctx.control('JsonStreamTrace', {'ev': [dict(tf('nth', '4\n[1]', a=0), outs=[J.O('null\nnull\n')])]}, 0)
