"""Entry point: python lib/main.py <PROPERTY-ID>."""
import glob
import os
import runpy
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(0, os.path.join(VERIF, 'checks'))


def main():
  pid = sys.argv[1]
  found = glob.glob(os.path.join(VERIF, 'checks', pid.lower() + '_*.py'))
  if len(found) != 1:
    print(f'no unique check for {pid}: {found}', file=sys.stderr)
    sys.exit(2)
  import vlib  # pylint: disable=g-import-not-at-top
  name = os.path.basename(found[0])[:-3]
  mod = __import__(name)
  vlib.run_check(pid, mod)


if __name__ == '__main__':
  main()
