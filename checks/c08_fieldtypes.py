"""C08: target types of nested fields follow the annotation rules."""
LEVEL = 'model_checking'


def check(ctx):
  g = ctx.generate('FieldTypesMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Sound\nCONSTANT Deep = %s\n'
                   % ctx.pick('FALSE', 'TRUE'), timeout=800)
  tr = ctx.drive('fieldtypes.py', g)
  ctx.require('FieldTypesTrace', tr)
  ctx.control('FieldTypesTrace', {'ev': [
      {'op': 'decay', 't': {'k': 'any'}, 'attr': 'x', 'prim': False,
       'r1': {'ok': True, 'absent': False, 'opt': False, 't': {'k': 'unknown'}},
       'r2': {'ok': True, 'absent': False, 'opt': True, 't': {'k': 'unknown'}}}]}, 0)
