"""C22: JsonStreamParser reports every value once, in order, at its path, repaired, however the text is cut."""
import random
import json_common as J

LEVEL = 'model_checking'


def paths(v, p, out):
  out.append(p)
  if v['k'] == 'l':
    for x in v['items']:
      paths(x['v'], p + '[*]', out)
  elif v['k'] == 'o':
    for x in v['items']:
      key = x['key']
      w = key['w'] if key['k'] == 'i' else [q['c'] for q in key['parts']]
      paths(x['v'], p + '.' + ''.join(map(chr, w)), out)


def check(ctx):
  rng = random.Random(ctx.seed)
  so = J.build(ctx)
  jobs = []
  for i in range(ctx.pick(5000, 50000)):
    loose = i % 2 == 0
    d = J.document(rng, J.LOOSE if loose else J.STRICT, rng.choice([1, 2, 3, 4]))
    flags = {k: loose or rng.random() < .5 for k in ('single', 'unquoted', 'linebreak', 'quote')}
    ps = []
    for x in d['items']:
      paths(x['v'], '$', ps)
    jobs.append({'op': 'parse', 'doc': d, 'in': J.dsurface(d), 'keep': rng.random() < .5, 'flags': flags,
                 'path': J.O(rng.choice(ps or ['$']))})
    if not loose and jobs[-1]['in']:
      s = jobs[-1]['in']
      at, _ = J.closers(s)
      ends = [s[:rng.randint(1, len(s))]]
      if at:  # a closer of the other kind, a missing one, one too many
        i = rng.choice(at)
        c = s[i]
        ends += [s[:i] + [218 - c] + s[i + 1:], s[:i] + s[i + 1:], s[:i + 1] + [rng.choice([93, 125])] + s[i + 1:]]
      for x in ends:
        if J.closers(x)[1]:
          jobs.append({'op': 'trunc', 'in': x, 'keep': rng.random() < .5})
  tr = ctx.drive_jobs('json_drv.py', {'so': so, 'seed': ctx.seed, 'cuts': ctx.pick(3, 6), 'jobs': jobs})
  ctx.require('JsonStreamTrace', tr)
  ctx.extra['texts'] = len(jobs)
  bad = dict(jobs[0], doc={'items': [], 'end': []}, runs=[{'ev': [{'b': True, 'p': [36], 'ty': 3}], 'con': [], 'str': [], 'ok': True}],
             **{'in': []})
  ctx.control('JsonStreamTrace', {'ev': [bad]}, 0)
