"""C33: forks, fallbacks and freezing of data bags."""
import databag_common as D

LEVEL = 'model_checking'


def check(ctx):
  D.run(ctx, 'fork', 33, [
    ([0], [D.ev('nb', [], [0]), D.ev('sai', [0, 0, 0, 101]), D.ev('fork', [0], [1]), D.ev('sai', [1, 0, 0, 102]), D.ev('gai', [0, 0, 0, []], [102])]),
    ([0], [D.ev('nb', [], [0]), D.ev('fork', [0], [1]), D.ev('sai', [0, 0, 0, 101]), D.ev('gai', [1, 0, 0, []], [101])]),
    ([0], [D.ev('nb', [], [0]), D.ev('nb', [], [1]), D.ev('sai', [0, 0, 0, 0]), D.ev('sai', [1, 0, 0, 101]), D.ev('gai', [0, 0, 0, [1]], [101])]),
    ([0], [D.ev('nb', [], [0]), D.ev('fz', [0]), D.ev('sai', [0, 0, 0, 101])]),
    ([1], [D.ev('nb', [], [0]), D.ev('lapi', [0, 0, 101]), D.ev('fork', [0], [1]), D.ev('lapi', [1, 0, 102]), D.ev('lxi', [1, 0, 0, -99, []], [102])])])
