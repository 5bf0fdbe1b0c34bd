"""Texts and documents for the JSON stream checks."""
import json
import os
import subprocess

import vlib

O = lambda s: [ord(c) for c in s]


def build(ctx):
  """Compiles the JSON stream code of the current tree."""
  so = ctx.path('kj.so')
  cmd = ['g++', '-std=c++20', '-O1', '-fPIC', '-shared', '-w', '-I', os.path.join(vlib.VERIF, 'shims/miniabsl'),
         '-I', os.path.join(vlib.VERIF, 'shims/cc'), '-I', vlib.REPO, os.path.join(vlib.VERIF, 'drivers/cc/json_api.cc'),
         os.path.join(vlib.REPO, 'koladata/internal/op_utils/json_stream.cc'),
         os.path.join(vlib.REPO, 'koladata/operators/json_stream_parser.cc'), '-o', so, '-licuuc']
  p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False)
  if p.returncode:
    raise vlib.MachineryError('the JSON stream code does not build:\n' + p.stdout.decode()[-4000:])
  return so


# ------------------------------------------------------------------ strict JSON
CHARS = 'abn tu0"\\/,:[]{}\'#é名\U0001f600\u2028\x7f'


def jstring(rng, n=5, surr=True, odd=False):
  r = []
  for _ in range(rng.choice([0, 1, 1, 2, 3, rng.randint(0, n)])):
    x = rng.random()
    if x < .5:
      c = rng.choice(CHARS)
      r.append('\\' + c if c in '"\\' else c)
    elif x < .72:
      r.append(rng.choice(['\\n', '\\"', '\\\\', '\\/', '\\b', '\\f', '\\r', '\\t']))
    elif x < .84:
      r.append('\\u%04x' % rng.choice([0, 10, 0x22, 0x5c, 0x61, 0xe9, 0x2028, 0xfffd, 0xffff, 0xd7ff, 0xe000]))
    elif x < .94 and surr:
      y = '\\u%04X\\u%04x' % (rng.randint(0xd800, 0xdbff), rng.randint(0xdc00, 0xdfff))
      r.append(y)
    elif odd:
      r.append('\\u%04x' % rng.choice([0xd800, 0xdbff, 0xdc00, 0xdfff]))
  return '"' + ''.join(r) + '"'


def jnumber(rng):
  s = rng.choice(['', '', '-']) + rng.choice(['0', '1', '9', '10', '123', '100', str(rng.randint(1, 10**rng.randint(1, 30)))])
  if rng.random() < .4:
    s += '.' + rng.choice(['0', '5', '00', '10', '001', str(rng.randint(0, 10**8))])
  if rng.random() < .35:
    s += rng.choice('eE') + rng.choice(['', '+', '-']) + rng.choice(['0', '1', '00', '07', '12', '400'])
  return s


def jatom(rng, **kw):
  return rng.choice([lambda: rng.choice(['null', 'true', 'false']), lambda: jnumber(rng), lambda: jstring(rng, **kw),
                     lambda: jstring(rng, **kw), lambda: rng.choice(['[]', '{}'])])()


def ws(rng, p=.3):
  return ''.join(rng.choice(' \t\n\r') for _ in range(rng.choice([1, 1, 2]))) if rng.random() < p else ''


def jvalue(rng, depth, p=.3, **kw):
  if depth <= 0 or rng.random() < .3:
    return jatom(rng, **kw)
  n = rng.choice([0, 1, 1, 2, 2, 3])
  g = lambda: ws(rng, p)
  if rng.random() < .5:
    return '[' + (','.join(g() + jvalue(rng, depth - 1, p, **kw) + g() for _ in range(n)) if n else g()) + ']'
  keys = [rng.choice([jstring(rng, **kw), '"k"', '"a"']) for _ in range(n)]
  return '{' + (','.join(g() + k + g() + ':' + g() + jvalue(rng, depth - 1, p, **kw) + g() for k in keys) if n else g()) + '}'


def jtext(rng, *, n=4, depth=3, p=.3, scalars=False, **kw):
  vs = []
  for _ in range(rng.choice([0, 1, 1, 2, 3, n])):
    vs.append(jatom(rng, **kw) if scalars or rng.random() < .25 else jvalue(rng, depth, p, **kw))
  sep = lambda: rng.choice([' ', '\n', '\n', ' \n', '\t', '\r\n'])
  return ws(rng) + ''.join(v + sep() for v in vs[:-1]) + (vs[-1] + rng.choice(['', '\n', ' ']) if vs else '')


def compact(text):
  """The values of a text one to a line; whitespace is only removed outside strings."""
  out, i, dep, instr, val = [], 0, 0, False, False
  while i < len(text):
    c = text[i]
    if instr:
      out.append(c)
      if c == '\\':
        i += 1
        out.append(text[i])
      elif c == '"':
        instr = False
    elif c in ' \t\n\r':
      if dep == 0 and val:
        out.append('\n')
        val = False
    else:
      out.append(c)
      val = True
      dep += (c in '[{') - (c in ']}')
      instr = c == '"'
    i += 1
  return ''.join(out) + ('\n' if val else '')


# ------------------------------------------------------------------ documents in variant syntax
JSON5WS = ' \t\n\r\x0b\x0c\u00a0\ufeff\u2028\u2029\u2003'


def gap(rng, must=False, comments=True, wschars=JSON5WS):
  r = []
  if must:
    r.append(rng.choice(wschars))
  while rng.random() < (.25 if comments else .35):
    x = rng.random()
    if x < .5 or not comments:
      r.append(rng.choice(wschars))
    elif x < .65:
      r.append('//' + rng.choice(['', ' x', '*/', '"', '{', '#', '\\']) + rng.choice(['\n', '\r', '\u2028', '\r\n']))
    elif x < .75:
      r.append('#' + rng.choice(['', ' x', '//', '"', ']']) + '\n')
    else:
      r.append('/*' + rng.choice(['', '*', '**', ' a ', '\n', '//', '"', '* /', '[', '***', '\u540d']) + '*/')
  return O(''.join(r))


def part(rng, q, simple=False, jsonesc=False, breaks=False):
  x = rng.random()
  if jsonesc and x >= .5:
    if x < .75 or simple:
      return {'t': 'e', 'c': ord(rng.choice(('"\\/' if simple else 'bfnrt"\\/') + ("'" if q == "'" else ''))), 'd': []}
    if x < .9 and breaks:
      return {'t': 'c', 'c': rng.choice([10, 13]), 'd': []}
    return {'t': 'u', 'c': 0, 'd': O(rng.choice(['0061', '00e9', '005C', '0022', '2028', '000a']))}
  if x < .5 or (simple and x < .8):
    while True:
      c = rng.choice('abnxu01 "\'\\/é名\U0001f600`:,]')
      if c == '\\':
        return {'t': 'e', 'c': 92, 'd': []}
      if c in q:
        return {'t': 'e', 'c': ord(c), 'd': []}
      return {'t': 'c', 'c': ord(c), 'd': []}
  if simple:
    return {'t': 'e', 'c': ord(rng.choice('"\\/')), 'd': []}
  if x < .7:
    return {'t': 'e', 'c': ord(rng.choice('bfnrtva"\'\\/`')), 'd': []}
  h = lambda n, w: O(rng.choice(['%0*x', '%0*X']) % (w, n))
  cp = rng.choice([0, 9, 0x22, 0x5c, 0x61, 0x7f, 0xe9, 0xff])
  big = rng.choice([cp, 0x540d, 0xfffd, 0xd83d, 0xde00, 0xd800, 0xdc00, 0x2028])
  huge = rng.choice([big, 0x1f600, 0x10ffff, 0x10000])
  k = rng.choice('xuuuUbon')
  if k == 'x':
    return {'t': 'x', 'c': 0, 'd': h(cp, 2)}
  if k == 'u':
    return {'t': 'u', 'c': 0, 'd': h(big, 4)}
  if k == 'U':
    return {'t': 'U', 'c': 0, 'd': h(rng.choice([huge, 0x110000]), 8)}
  if k == 'b':
    return {'t': 'b', 'c': 0, 'd': h(rng.choice([huge, 0x110000]), rng.choice([1, 2, 6]))}
  if k == 'o':
    return {'t': 'o', 'c': 0, 'd': O(rng.choice(['7', '101', '12', '000', '377']))}
  return {'t': 'n', 'c': 0, 'd': O(rng.choice(['\n', '\r', '\r\n', '\u2028', '\u2029']))}


def vstring(rng, styles=None, simple=False, prefix=True, jsonesc=False, breaks=False):
  q = rng.choice(styles or ['"', '"', "'", '"""', "'''"])
  parts = [part(rng, q if len(q) == 1 else '', simple, jsonesc, breaks) for _ in range(rng.choice([0, 1, 2, 3, 4, 5]))]
  if len(q) == 3:
    # quotes inside: at most two in a row and none at the end
    run = 0
    for i, p in enumerate(parts):
      if p['t'] == 'c' and p['c'] == ord(q[0]):
        run += 1
        if run > 2 or i == len(parts) - 1:
          parts[i] = {'t': 'c', 'c': 97, 'd': []}
          run = 0
      elif p['t'] == 'n' and run:
        pass
      else:
        run = 0
    if rng.random() < .2:
      parts.insert(0, {'t': 'c', 'c': 10, 'd': []})
  # an octal escape ends at a digit that is not octal or after three digits
  for i in range(len(parts) - 1):
    p, n = parts[i], parts[i + 1]
    if p['t'] == 'o' and len(p['d']) < 3 and n['t'] == 'c' and 48 <= n['c'] <= 55:
      p['d'] = O('101')
    if p['t'] == 'n' and p['d'] == [13] and n['t'] == 'c' and n['c'] == 10:
      p['d'] = [10]
  pre = rng.choice(['', '', '', 'u', 'b']) if prefix else ''
  return {'k': 's', 'pre': O(pre), 'q': O(q), 'parts': parts}


def und(rng, digits):
  r = digits[0]
  for d in digits[1:]:
    r += ('_' if rng.random() < .1 else '') + d
  return O(r)


def vnumber(rng, strict=False):
  z = {'k': 'n', 'sg': O(rng.choice(['', '', '-'] + ([] if strict else ['+']))), 'base': 10, 'pfx': [], 'int': [], 'dot': False,
       'frac': [], 'e': [], 'esg': [], 'exp': [], 'suf': []}
  if not strict and rng.random() < .35:
    b, c = rng.choice([(16, 'xX'), (8, 'oO'), (2, 'bB')])
    z['base'] = b
    z['pfx'] = O('0' + rng.choice(c))
    n = rng.choice([0, 1, 7, 255, 2**31, 2**63, 2**64 - 1, rng.randint(0, 2**64 - 1)])
    s = {16: rng.choice(['%x', '%X']), 8: '%o'}.get(b, '') % n if b != 2 else bin(n)[2:]
    z['int'] = und(rng, '0' * rng.choice([0, 0, 1, 3]) + s)[:90]
    if rng.random() < .3:
      z['suf'] = O(rng.choice('lLn'))
    return z
  ip = rng.choice(['0', '1', '10', '900', '123456', str(rng.randint(1, 10**25))])
  z['int'] = O(ip) if strict else und(rng, ip)
  if rng.random() < .4:
    z['dot'] = True
    z['frac'] = O(rng.choice(['0', '5', '25', '100']))
    if not strict:
      x = rng.random()
      if x < .25:
        z['frac'] = []                 # 1.
      elif x < .5:
        z['int'] = []                  # .5
  if rng.random() < .3:
    z['e'] = O(rng.choice('eE'))
    z['esg'] = O(rng.choice(['', '+', '-']))
    z['exp'] = O(rng.choice(['0', '2', '10', '007']))
  elif not strict and not z['dot'] and rng.random() < .2:
    z['suf'] = O(rng.choice('lLn'))
  return z


IDENT = ['a', 'abc', '_x', '$', 'k9', 'true', 'null', 'nan', 'Infinity', 'e', 'u', 'b', 'None', 'é', '名', 't', 'inf']


def vvalue(rng, depth, cfg):
  x = rng.random()
  if depth <= 0 or x < .45:
    k = rng.random()
    if k < .45:
      return vstring(rng, **cfg['str'])
    if k < .75:
      return vnumber(rng, **cfg['num'])
    return {'k': 'w', 'w': O(rng.choice(cfg['words']))}
  g = lambda: gap(rng, **cfg['gap'])
  n = rng.choice([0, 1, 1, 2, 2, 3])
  tc = n > 0 and cfg['tc'] and rng.random() < .2
  base = {'e': [] if n else g(), 'tc': tc, 'tg': g() if tc else []}
  if rng.random() < .5:
    o, c = rng.choice(cfg['br'])
    return dict(base, k='l', open=O(o), close=O(c), items=[aft({'a': g(), 'v': vvalue(rng, depth - 1, cfg), 'b': g()}, 'b') for _ in range(n)])
  items = []
  for _ in range(n):
    if cfg['ident'] and rng.random() < .4:
      key = {'k': 'i', 'w': O(rng.choice(cfg['ident']))}
      b = O(''.join(rng.choice(' \t\n') for _ in range(rng.choice([0, 0, 1, 2]))))
    else:
      key, b = vstring(rng, **cfg['key']), g()
    items.append(aft({'a': g(), 'key': key, 'b': b, 'c': g(), 'v': vvalue(rng, depth - 1, cfg), 'd': g()}, 'd'))
  return dict(base, k='o', items=items)


ATOMS = [O(x) for x in ('true', 'false', 'null', 'True', 'False', 'None')]


def after(v, g):
  """A comment right after a bare word that is no atom would be part of it."""
  return [32] + g if v['k'] == 'w' and v['w'] not in ATOMS and g and g[0] in (35, 47) else g


def aft(item, k):
  item[k] = after(item['v'], item[k])
  return item


def document(rng, cfg, depth=3):
  n = rng.choice([0, 1, 1, 1, 2, 3])
  items = []
  for i in range(n):
    items.append({'g': gap(rng, must=i > 0, **cfg['gap']), 'v': vvalue(rng, depth, cfg)})
  end = gap(rng, **cfg['gap'])
  return {'items': items, 'end': after(items[-1]['v'], end) if items else end}


def surface(v):
  """Mirrors Surface of the specification (which checks it)."""
  k = v['k']
  if k == 's':
    r = v['pre'] + v['q']
    for p in v['parts']:
      r = r + {'c': [p['c']], 'e': [92, p['c']], 'x': [92, 120] + p['d'], 'u': [92, 117] + p['d'], 'U': [92, 85] + p['d'],
               'b': [92, 117, 123] + p['d'] + [125], 'o': [92] + p['d'], 'n': [92] + p['d']}[p['t']]
    return r + v['q']
  if k == 'n':
    return v['sg'] + v['pfx'] + v['int'] + ([46] if v['dot'] else []) + v['frac'] + v['e'] + v['esg'] + v['exp'] + v['suf']
  if k in 'wi':
    return v['w']
  if k == 'l':
    xs = [x['a'] + surface(x['v']) + x['b'] for x in v['items']]
    o, c = v['open'], v['close']
  else:
    xs = [x['a'] + surface(x['key']) + x['b'] + [58] + x['c'] + surface(x['v']) + x['d'] for x in v['items']]
    o, c = [123], [125]
  r = o + v['e']
  for i, x in enumerate(xs):
    r = r + ([44] if i else []) + x
  return r + ([44] + v['tg'] if v['tc'] else []) + c


def dsurface(d):
  r = []
  for x in d['items']:
    r = r + x['g'] + surface(x['v'])
  return r + d['end']


WORDS = ['true', 'false', 'null', 'True', 'False', 'None']
INF = ['NaN', 'Infinity', '-Infinity', '+Infinity', '-NaN']
SALVAGE = dict(str={}, num={}, words=WORDS + INF, gap={}, tc=True, br=['[]', '[]', '()'], ident=IDENT, key={})
PLAIN = dict(comments=False, wschars=' \t\n\r')
STRICT = dict(str=dict(styles=['"'], prefix=False, jsonesc=True), num=dict(strict=True), words=WORDS[:3], gap=PLAIN, tc=False,
              br=['[]'], ident=None, key=dict(styles=['"'], simple=True, prefix=False, jsonesc=True))
LOOSE = dict(str=dict(styles=['"', "'"], prefix=False, jsonesc=True, breaks=True), num=dict(strict=True),
             words=WORDS[:3] + ['yes', 'None', 'foo', 'a"b', 'a\\b', '12:30', 'x/y', 'a{b', 'it\'s', 'a(b)', '1-2', 'é'], gap=PLAIN, tc=True,
             br=['[]'], ident=IDENT + ['a-b', 'x.y', "don't", '1'], key=dict(styles=['"', "'"], simple=True, prefix=False, jsonesc=True))


def closers(s):
  """Positions of closing brackets outside strings, and whether the brackets of the text match."""
  stk, at, instr, i, bad = [], [], False, 0, False
  while i < len(s):
    c = s[i]
    if instr:
      if c == 92:
        i += 1
      elif c == 34:
        instr = False
    elif c == 34:
      instr = True
    elif c in (91, 123):
      stk.append(c)
    elif c in (93, 125):
      at.append(i)
      bad = bad or not stk or stk.pop() != c - 2
    i += 1
  return at, bad or bool(stk)
