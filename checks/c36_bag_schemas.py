"""C36: attributes of schemas in a data bag."""
import databag_common as D

LEVEL = 'model_checking'


def check(ctx):
  D.run(ctx, 'schema', 36, [
    ([3], [D.ev('nb', [], [0]), D.ev('ssi', [0, 0, 0, 181]), D.ev('sgi', [0, 0, 0, []], [182])]),
    ([3], [D.ev('nb', [], [0]), D.ev('ssi', [0, 0, 0, 181]), D.ev('sk', [0, 0, []], [])]),
    ([3], [D.ev('nb', [], [0]), D.ev('sdi', [0, 0, 0])]),
    ([3], [D.ev('nb', [], [0]), D.ev('ssi', [0, 0, 0, 181]), D.ev('sdi', [0, 0, 0]), D.ev('sgi', [0, 0, 0, []], [0])]),
    ([3], [D.ev('nb', [], [0]), D.ev('ssi', [0, 0, 0, 101])])])
