"""Runs file-system call sequences on the real implementation, in a scratch dir."""
import json
import os
import shutil
import sys
import tempfile

from koladata.file_io import file_io

ROOT = os.environ['VERIF_SCRATCH']


def run(ops, fs):
  root = tempfile.mkdtemp(dir=ROOT, prefix='fs')
  P = lambda p: os.path.join(root, *p)

  def tree():
    res = []
    for d, ds, fs_ in os.walk(root):
      rel = os.path.relpath(d, root)
      base = [] if rel == '.' else rel.split('/')
      for x in ds:
        res.append([base + [x], 'dir', ''])
      for x in fs_:
        with open(os.path.join(d, x)) as f:
          res.append([base + [x], 'file', f.read()])
    return sorted(res)

  ev = []
  for i, o in enumerate(ops):
    r, extra = 'ok', {}
    try:
      k = o['op']
      if k in ('exists', 'is_dir'):
        v = getattr(fs, k)(P(o['p']))
        r = 'T' if v is True else 'F' if v is False else repr(v)
      elif k == 'remove':
        fs.remove(P(o['p']))
      elif k in ('write', 'append'):
        b = i % 2
        with fs.open(P(o['p']), ('w' if k == 'write' else 'a') + ('b' if b else '')) as f:
          f.write(o['d'].encode() if b else o['d'])
      elif k == 'read':
        b = i % 2
        with fs.open(P(o['p']), 'rb' if b else 'r') as f:
          v = f.read()
        r = '=' + (v.decode() if b else v)
      elif k == 'make_dirs':
        fs.make_dirs(P(o['p']))
      elif k == 'rename':
        if o['ow']:
          fs.rename(P(o['p']), P(o['q']), overwrite=True)
        elif i % 2:
          fs.rename(P(o['p']), P(o['q']))
        else:
          fs.rename(P(o['p']), P(o['q']), overwrite=False)
      elif k == 'glob':
        extra['set'] = [os.path.basename(x) if os.path.dirname(x) == P(o['p']) else '?' + x
                        for x in fs.glob(os.path.join(P(o['p']), '*'))]
      elif k == 'tree':
        extra['set'] = tree()
    except Exception:  # pylint: disable=broad-except
      r = 'error'
      if o['op'] in ('glob', 'tree'):
        extra['set'] = []
    ev.append(dict(o, r=r, **extra))
  shutil.rmtree(root)
  return {'ev': ev}


def main():
  with open(sys.argv[1]) as f:
    arg = json.load(f)
  fs = file_io.get_default_file_system_interaction()
  out = [run(x, fs) for x in arg]
  with open(sys.argv[2], 'w') as f:
    json.dump(out, f)


main()
