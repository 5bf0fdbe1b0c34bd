"""Feeds texts, cut into chunks in several ways, to the JSON stream processors."""
import json
import random
import sys

sys.path.insert(0, __file__.rsplit('/', 1)[0])
from jsonlib import Lib  # pylint: disable=wrong-import-position

KINDS = ('salvage', 'compactify', 'head', 'prettify', 'objects', 'arrays', 'nonnull', 'extract', 'implode', 'explode', 'nth',
         'unquote', 'quote', 'chunk')


def cps(b):
  try:
    return [ord(c) for c in b.decode('utf-8')]
  except UnicodeDecodeError:
    return [-1]


def cuts(b, rng, n):
  """Ways to cut the bytes b: whole, bytewise, halves, random ones with empty chunks."""
  yield [b], False
  yield [b], True
  yield [b[i:i + 1] for i in range(len(b))], False
  yield [b[i:i + 1] for i in range(len(b))] or [b''], True
  for _ in range(n):
    k = rng.randint(1, 4)
    at = sorted(rng.randint(0, len(b)) for _ in range(k))
    yield [b[x:y] for x, y in zip([0] + at, at + [len(b)])], rng.random() < .5


def distinct(seq):
  out = []
  for x in seq:
    if x not in out:
      out.append(x)
  return out


def main():
  with open(sys.argv[1]) as f:
    arg = json.load(f)
  lib = Lib(arg['so'])
  rng = random.Random(arg.get('seed', 1))
  ncut = arg.get('cuts', 3)
  out = []
  for job in arg['jobs']:
    op = job['op']
    data = ''.join(map(chr, job['in'])).encode('utf-8') if 'raw' not in job else bytes(job['raw'])
    e = dict(job)
    if op == 'tf':
      o = job['o']
      kw = dict(a=o['a'], b=o['b'], c=o['c'], s=''.join(map(chr, o['w'])).encode('utf-8'))
      e['outs'] = distinct(cps(b''.join(b''.join(x) for x, _ in lib.run(o['kind'], c, l, **kw))) for c, l in cuts(data, rng, ncut))
      if o['kind'] == 'head':
        text = [chr(c).encode('utf-8') for c in job['in']]
        e['at'] = min(len(lib.run('head', text, False, **kw)), len(text) + 1)
    elif op == 'quote':
      e['outs'] = distinct(cps(b''.join(b''.join(x) for x, _ in lib.run('quote', c, l))) for c, l in cuts(data, rng, ncut))
    elif op == 'chunk':
      e['outs'] = distinct([cps(y) for x, _ in lib.run('chunk', c, l) for y in x] for c, l in cuts(data, rng, ncut))
    elif op in ('any', 'json', 'doc'):
      kw = dict(a=job['nan'], b=job['ascii'], c=job['depth'])
      e['outs'] = distinct(cps(b''.join(b''.join(x) for x, _ in lib.run('salvage', c, l, **kw))) for c, l in cuts(data, rng, ncut))
    elif op == 'parse':
      runs = []
      path = ''.join(map(chr, job['path'])).encode('utf-8')
      for c, _ in cuts(data, rng, ncut):
        ev, con, strs, ok = [], b'', [], True
        for log in lib.parse(c, remove=not job['keep'], **job['flags']):
          if log is None:
            ok = False
            break
          for k, f in log:
            if k == 'C':
              con += f[0]
            elif k == 'B':
              ev.append({'b': True, 'p': cps(f[0]), 'ty': int(f[1])})
            else:
              ev.append({'b': False, 'p': cps(f[0]), 'j': cps(f[1])})
        part, end = b'', False
        for log in lib.parse(c, remove=not job['keep'], consume=False, stream=path, **job['flags']):
          for k, f in log or []:
            if k == 'S':
              part += f[0]
            elif k == 'T':
              strs.append(cps(part))
              part = b''
        runs.append({'ev': ev, 'con': cps(con), 'str': strs, 'ok': ok})
      e['runs'] = distinct(runs)
    elif op == 'trunc':
      e['oks'] = distinct(None not in lib.parse(c, remove=not job['keep']) for c, _ in cuts(data, rng, ncut))
    e.pop('raw', None)
    sig = e.pop('sig', None)
    out.append({'ev': [e], 'sig': sig} if sig else {'ev': [e]})
  with open(sys.argv[2], 'w') as f:
    json.dump(out, f)


main()
