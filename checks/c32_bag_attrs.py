"""C32: attributes of objects in a data bag: batches, single objects, whole allocations."""
import databag_common as D

LEVEL = 'model_checking'


def check(ctx):
  D.run(ctx, 'attr', 32, [
    ([0, 0], [D.ev('nb', [], [0]), D.ev('sa', [0, 0, 1, [0, 1], [101, 120]]), D.ev('ga', [0, 0, 1, [1, 0, -1], []], [101, 120, 0])]),
    ([0, 0], [D.ev('nb', [], [0]), D.ev('sa', [0, 0, 1, [0, 0], [101, 120]]), D.ev('gai', [0, 0, 0, []], [101])]),
    ([0, 0], [D.ev('nb', [], [0]), D.ev('sai', [0, 0, 0, 0]), D.ev('gri', [0, 0, 0, []], [-1])]),
    ([0, 0], [D.ev('nb', [], [0]), D.ev('su', [0, 8, 1, [0, 1]], [1000, 1001]), D.ev('su', [0, 8, 1, [0, 1]], [1000])]),
    ([0], [D.ev('nb', [], [0]), D.ev('sai', [0, 0, 0, 101], [], -1)])])
