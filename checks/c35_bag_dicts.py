"""C35: dicts in a data bag."""
import databag_common as D

LEVEL = 'model_checking'


def check(ctx):
  D.run(ctx, 'dict', 35, [
    ([2], [D.ev('nb', [], [0]), D.ev('dsti', [0, 0, 121, 101]), D.ev('dgti', [0, 0, 120, []], [101])]),
    ([2], [D.ev('nb', [], [0]), D.ev('dsti', [0, 0, 121, 101]), D.ev('dkvi', [0, 0, []], {'k': {'v': [], 's': [0, 0]}, 'v': {'v': [], 's': [0, 0]}})]),
    ([2], [D.ev('nb', [], [0]), D.ev('dsti', [0, 0, 121, 101]), D.ev('dcli', [0, 0]), D.ev('dgti', [0, 0, 121, []], [101])]),
    ([2], [D.ev('nb', [], [0]), D.ev('dsti', [0, 0, 101, 120]), D.ev('dsti', [0, 0, 111, 121]), D.ev('dszi', [0, 0, []], [2])]),
    ([2], [D.ev('nb', [], [0]), D.ev('dsti', [0, 0, 141, 101])])])
