"""C37: merging data bags."""
import databag_common as D

LEVEL = 'model_checking'


def check(ctx):
  D.run(ctx, 'merge', 37, [
    ([0], [D.ev('nb', [], [0]), D.ev('nb', [], [1]), D.ev('sai', [0, 0, 0, 101]), D.ev('sai', [1, 0, 0, 102]), D.ev('mg', [0, 1, 0, 0])]),
    ([0], [D.ev('nb', [], [0]), D.ev('nb', [], [1]), D.ev('sai', [0, 0, 0, 101]), D.ev('sai', [1, 0, 0, 102]), D.ev('mg', [0, 1, 1, 2]),
           D.ev('gai', [0, 0, 0, []], [102])]),
    ([3], [D.ev('nb', [], [0]), D.ev('nb', [], [1]), D.ev('ssi', [0, 0, 0, 181]), D.ev('ssi', [1, 0, 0, 182]), D.ev('mg', [0, 1, 2, 1]),
           D.ev('sgi', [0, 0, 0, []], [182])]),
    ([0], [D.ev('nb', [], [0]), D.ev('nb', [], [1]), D.ev('sai', [0, 0, 0, 101]), D.ev('sai', [1, 0, 0, 101]), D.ev('mg', [0, 1, 0, 0], [], 0)]),
    ([0], [D.ev('nb', [], [0]), D.ev('nb', [], [1]), D.ev('sai', [0, 0, 0, 101]), D.ev('sai', [1, 0, 0, 0]), D.ev('mu', [0, 1], [2]),
           D.ev('gai', [2, 0, 0, [0]], [101])])])
