"""C38: the content a data bag reports."""
import databag_common as D

LEVEL = 'model_checking'


def check(ctx):
  D.run(ctx, 'ex', 38, [
    ([0], [D.ev('nb', [], [0]), D.ev('sai', [0, 0, 0, 101]), D.ev('ex', [0], {'a': [], 'l': [], 'd': []})]),
    ([0], [D.ev('nb', [], [0]), D.ev('ex', [0], {'a': [[0, 0, 101]], 'l': [], 'd': []})]),
    ([1], [D.ev('nb', [], [0]), D.ev('lapi', [0, 0, 101]), D.ev('ex', [0], {'a': [], 'l': [{'o': 0, 'u': 0, 'v': [102]}], 'd': []})]),
    ([0], [D.ev('nb', [], [0]), D.ev('sai', [0, 0, 0, 101]), D.ev('isp', [0], [1])]),
    ([0], [D.ev('nb', [], [0]), D.ev('sai', [0, 0, 0, 101]), D.ev('ise', [0], [1])])])
