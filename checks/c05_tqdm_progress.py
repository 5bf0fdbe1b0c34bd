"""C05: reported progress is faithful, configured as asked, and final exactly once."""
import tqdm_common

LEVEL = 'model_checking'


def check(ctx):
  tqdm_common.run(ctx, 'bars')
