"""C21: salvage always produces JSON, keeps the values of JSON, and understands the documented variants."""
import itertools
import random
import json_common as J

LEVEL = 'model_checking'
ALPHA = ['{', '}', '[', ']', '(', ')', ':', ',', '"', '\\', "'", '`', '-', '+', '0', '1', '.', 'e', 't', 'n', 'u', 'x', 'b', '/', '*',
         '#', '\n', ' ', 'é', '\x01', '_', '\U0001f600']
PIECES = ['{', '}', '[', ']', ':', ',', '"', "'", '"""', "'''", '`', '\\', '\\u', '\\ud83d', '\\ude00', '\\x4', '\\U0001F600', '\\u{41}',
          '\\u{', '}', '\\n', '\\0', '\\12', '-', '+', '0x', '0b1', '1e', '.5', '1.', '-.', '0', '12', 'true', 'nul', 'None', 'nan',
          '-Infinity', 'Inf', '//', '/*', '*/', '#', '\n', ' ', 'a', 'é', '\u2028', '\x00', '\x1f', '\x7f', '\ufffd', '(', ')', ';', '=>', 'b"', "u'",
          '\r', '"a"', '"k":', '{}', '[]', '1', '```', '``', '/', '_', '&', '\ufeff']


def job(op, text=None, rng=None, nan=None, ascii=None, depth=100, **kw):
  return dict({'op': op, 'in': J.O(text) if text is not None else [], 'nan': bool(rng.random() < .5) if nan is None else nan,
               'ascii': bool(rng.random() < .6) if ascii is None else ascii, 'depth': depth}, **kw)


def check(ctx):
  rng = random.Random(ctx.seed)
  so = J.build(ctx)
  ctx.model_check('JsonMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Holds\nCONSTANTS\nGen=FALSE\nWide=FALSE\n')
  jobs = []
  # any input whatever
  for n in range(0, ctx.pick(3, 4)):
    for s in itertools.product(ALPHA, repeat=n):
      jobs.append(job('any', ''.join(s), nan=False, ascii=True))
  for _ in range(ctx.pick(6000, 80000)):
    s = ''.join(rng.choice(ALPHA) for _ in range(rng.randint(3, 8)))
    jobs.append(job('any', s, rng))
  for _ in range(ctx.pick(9000, 90000)):
    s = ''.join(rng.choice(PIECES) for _ in range(rng.randint(2, 10)))
    jobs.append(job('any', s, rng, depth=rng.choice([100, 100, 0, 1, 2, 3])))
  for _ in range(ctx.pick(2000, 20000)):
    b = bytearray(''.join(rng.choice(PIECES) for _ in range(rng.randint(1, 6))).encode())
    for _ in range(rng.randint(1, 4)):
      b.insert(rng.randint(0, len(b)), rng.choice([0x80, 0xbf, 0xc0, 0xc3, 0xe2, 0xed, 0xa0, 0xf0, 0x9f, 0xf4, 0xf5, 0xff, 0x90, rng.randint(128, 255)]))
    jobs.append(job('any', None, rng, raw=list(b)))
  # JSON
  for _ in range(ctx.pick(2500, 25000)):
    jobs.append(job('json', J.jtext(rng, depth=rng.choice([1, 2, 4]), odd=True), rng, depth=rng.choice([100, 100, 5, 2])))
  # the documented variants of JSON
  for _ in range(ctx.pick(5000, 50000)):
    d = J.document(rng, J.SALVAGE, rng.choice([1, 2, 3]))
    jobs.append(dict(job('doc', None, rng), doc=d, **{'in': J.dsurface(d)}))
  # two legal JSON5 texts that are known to be misread
  one = {'k': 'n', 'sg': [], 'base': 10, 'pfx': [], 'int': [49], 'dot': False, 'frac': [], 'e': [], 'esg': [], 'exp': [], 'suf': []}
  key = {'k': 'i', 'w': [97]}
  d = {'items': [{'g': [], 'v': {'k': 'o', 'e': [], 'tc': False, 'tg': [], 'items': [
      {'a': [], 'key': key, 'b': J.O('/*c*/'), 'c': [], 'v': one, 'd': []}]}}], 'end': []}
  jobs.append(dict(job('doc', None, nan=False, ascii=True), doc=d, sig='json5-comment-after-identifier', **{'in': J.dsurface(d)}))
  d = {'items': [{'g': [], 'v': {'k': 's', 'pre': [], 'q': [34], 'parts': [{'t': 'e', 'c': 100, 'd': []}]}}], 'end': []}
  jobs.append(dict(job('doc', None, nan=False, ascii=True), doc=d, sig='json5-non-escape-character', **{'in': J.dsurface(d)}))
  rng.shuffle(jobs)
  tr = ctx.drive_jobs('json_drv.py', {'so': so, 'seed': ctx.seed, 'cuts': ctx.pick(2, 5), 'jobs': jobs})
  ctx.require('JsonStreamTrace', tr)
  ctx.extra['inputs'] = len(jobs)
  ctx.control('JsonStreamTrace', {'ev': [dict(job('any', '{-5:1}', nan=False, ascii=True), outs=[J.O('{-5:1}')])]}, 0)
