"""C34: lists in a data bag."""
import databag_common as D

LEVEL = 'model_checking'


def check(ctx):
  D.run(ctx, 'list', 34, [
    ([1], [D.ev('nb', [], [0]), D.ev('lexi', [0, 0, [101, 102, 103]]), D.ev('lxi', [0, 0, 1, -99, []], [101, 102])]),
    ([1], [D.ev('nb', [], [0]), D.ev('lexi', [0, 0, [101, 102, 103]]), D.ev('lpoi', [0, 0, -1], [101])]),
    ([1], [D.ev('nb', [], [0]), D.ev('lexi', [0, 0, [101, 102, 103]]), D.ev('lrpi', [0, 0, 0, 1, [104]]), D.ev('lxi', [0, 0, 0, -99, []], [104, 101, 102, 103])]),
    ([1, 0], [D.ev('nb', [], [0]), D.ev('lapi', [0, 1, 101])]),
    ([1], [D.ev('nb', [], [0]), D.ev('lapi', [0, 0, 101]), D.ev('lsz', [0, 0, [0, -1], 0, []], [1, 0])])])
