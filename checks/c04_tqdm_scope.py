"""C04: progress goes to the reporter active where the bar was created."""
import tqdm_common

LEVEL = 'model_checking'


def check(ctx):
  tqdm_common.run(ctx, 'scope')
