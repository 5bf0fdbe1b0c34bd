"""minikd: a small, slow, explicit in-memory model of the part of the Koda API
(koladata.kd) that koladata.ext.storage is written against.

The compiled koladata core cannot be built in this sandbox (no arolla), so the
storage layer -- which is the code under test, imported unmodified from /repo --
runs on top of this model of its collaborator.  The model is deliberately plain:

* an ItemId is an opaque identity; schemas are primitive dtypes or ItemIds;
* a DataBag is a stack of layers; a layer maps (id, attr) -> value (None means
  "removed"), list id -> items, dict id -> {key: value};
* a DataSlice is a nested Python list of values + a schema + a bag.

tools/minikd_selftest.py runs the repository's own storage unit tests on it.
"""

import base64 as _b64
import hashlib
import io
import itertools
import pickle
import sys
import threading
import types as _pytypes
import uuid as _uuid

_lock = threading.Lock()
_counter = itertools.count()
_B62 = '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def _b62(n, width=22):
  out = []
  while n:
    n, r = divmod(n, 62)
    out.append(_B62[r])
  return ''.join(reversed(out)).rjust(width, '0')


class ItemId:
  __slots__ = ('kind', 'uid')

  def __init__(self, kind, uid):
    self.kind = kind
    self.uid = uid

  def __eq__(self, o):
    return isinstance(o, ItemId) and o.uid == self.uid

  def __hash__(self):
    return hash(self.uid)

  def __repr__(self):
    return f'${self.kind}:{self.uid[-6:]}'

  def __reduce__(self):
    return (ItemId, (self.kind, self.uid))


def _fresh(kind):
  return ItemId(kind, _b62(_uuid.uuid4().int))


def _uu(kind, *parts):
  h = hashlib.sha256(repr((kind,) + parts).encode()).digest()[:16]
  return ItemId(kind, _b62(int.from_bytes(h, 'big')))


class DType:
  __slots__ = ('name',)

  def __init__(self, name):
    self.name = name

  def __eq__(self, o):
    return isinstance(o, DType) and o.name == self.name

  def __hash__(self):
    return hash(self.name)

  def __repr__(self):
    return self.name

  def __reduce__(self):
    return (DType, (self.name,))


class _Present:
  def __repr__(self):
    return 'present'

  def __eq__(self, o):
    return isinstance(o, _Present)

  def __hash__(self):
    return 7

  def __reduce__(self):
    return (_Present, ())


_P = _Present()

_NUM = ['INT32', 'INT64', 'FLOAT32', 'FLOAT64']
_PRIMS = _NUM + ['STRING', 'BYTES', 'BOOLEAN', 'MASK', 'EXPR']
_dt = {n: DType(n) for n in _PRIMS + ['ITEMID', 'SCHEMA', 'OBJECT', 'NONE']}


class Expr:
  def __init__(self, s):
    self.s = s

  def __eq__(self, o):
    return isinstance(o, Expr) and o.s == self.s

  def __hash__(self):
    return hash(self.s)


# ------------------------------------------------------------------ bags


class DataBag:
  """Immutable stack of layers (highest priority first)."""

  def __init__(self, layers=None, mutable=False):
    self._layers = list(layers) if layers is not None else [_new_layer()]
    self._mutable = mutable

  # lookup
  def _attr(self, i, a):
    for l in self._layers:
      v = l['a'].get(i)
      if v is not None and a in v:
        return True, v[a]
    return False, None

  def _attr_names(self, i):
    out = {}
    for l in self._layers:
      for a, v in l['a'].get(i, {}).items():
        out.setdefault(a, v)
    return sorted(a for a, v in out.items() if v is not None)

  def _list(self, i):
    for l in self._layers:
      if i in l['l']:
        return l['l'][i]
    return None

  def _dict(self, i):
    out = {}
    for l in self._layers:
      for k, v in l['d'].get(i, {}).items():
        out.setdefault(k, v)
    return out

  # API
  def merge_fallbacks(self):
    return DataBag([_merge(self._layers)])

  def get_fallbacks(self):
    return [DataBag([l]) for l in self._layers[1:]]

  def is_mutable(self):
    return self._mutable

  def fork(self, mutable=True):
    return DataBag([_merge(self._layers)], mutable)

  def freeze(self):
    return DataBag([_merge(self._layers)])

  def get_size(self):
    l = _merge(self._layers)
    return DataItem._mk(
        sum(len(x) for x in l['a'].values())
        + sum(len(x) for x in l['l'].values())
        + sum(len(x) for x in l['d'].values()),
        0, _dt['INT64'], None)

  def get_approx_byte_size(self):
    l = _merge(self._layers)
    return 100 + 16 * (
        sum(len(x) for x in l['a'].values())
        + sum(len(x) for x in l['l'].values())
        + sum(2 * len(x) for x in l['d'].values()))

  def is_empty(self):
    l = _merge(self._layers)
    return not (l['a'] or l['l'] or l['d'])

  def __lshift__(self, o):
    return updated_bag(self, o)

  def __rshift__(self, o):
    return enriched_bag(self, o)

  def updated(self, *o):
    return updated_bag(self, *o)

  def enriched(self, *o):
    return enriched_bag(self, *o)

  def __getitem__(self, ds):
    return ds.with_bag(self)

  def _content(self):
    l = _merge(self._layers)
    return {
        'a': {i: dict(v) for i, v in l['a'].items() if v},
        'l': dict(l['l']),
        'd': {i: dict(v) for i, v in l['d'].items() if v},
    }

  # mutable helpers
  def dict(self, *args, **kw):
    d = dict_(*args, **kw)
    self._layers = updated_bag(self, d._bag)._layers
    r = d.with_bag(self)
    return r

  def __getstate__(self):
    return {'_layers': [_merge(self._layers)], '_mutable': self._mutable}

  def __setstate__(self, st):
    self._layers = st['_layers']
    self._mutable = st['_mutable']

  def __repr__(self):
    return f'DataBag({self._content()})'


def _new_layer():
  return {'a': {}, 'l': {}, 'd': {}}


def _merge(layers):
  if len(layers) == 1:
    return layers[0]
  out = _new_layer()
  for l in layers:
    for i, v in l['a'].items():
      t = out['a'].setdefault(i, {})
      for a, x in v.items():
        t.setdefault(a, x)
    for i, v in l['l'].items():
      out['l'].setdefault(i, v)
    for i, v in l['d'].items():
      t = out['d'].setdefault(i, {})
      for a, x in v.items():
        t.setdefault(a, x)
  return out


def _cat(bags):
  """bags in priority order."""
  layers = []
  seen = set()
  for b in bags:
    if b is None:
      continue
    for l in b._layers:
      if id(l) in seen:
        continue
      seen.add(id(l))
      layers.append(l)
  return DataBag(layers or None)


def updated_bag(*bags):
  for b in bags:
    if not isinstance(b, DataBag):
      raise ValueError('expected all arguments to be DATA_BAG')
  return _cat(reversed(bags))


def enriched_bag(*bags):
  for b in bags:
    if not isinstance(b, DataBag):
      raise ValueError('expected all arguments to be DATA_BAG')
  return _cat(bags)


def bag():
  return DataBag()


def mutable_bag():
  return DataBag(mutable=True)


# ------------------------------------------------------------------ nested helpers


def _map(f, nd, *vs):
  if nd == 0:
    return f(*vs)
  return [_map(f, nd - 1, *t) for t in zip(*vs, strict=True)]


def _flat(v, nd):
  if nd == 0:
    return [v]
  if nd == 1:
    return list(v)
  return [y for x in v for y in _flat(x, nd - 1)]


def _shape(v, nd):
  if nd == 0:
    return ()
  return [_shape(x, nd - 1) for x in v]


def _expand(v, nd, shape, tnd):
  """Broadcasts nested v (nd dims) to `shape` (nested lists with tnd dims)."""
  if nd > tnd:
    raise ValueError('cannot expand: more dimensions than the target')
  if nd == 0:
    if tnd == 0:
      return v
    return [_expand(v, 0, s, tnd - 1) for s in shape]
  if len(v) != len(shape):
    raise ValueError('cannot expand: incompatible shapes')
  return [_expand(x, nd - 1, s, tnd - 1) for x, s in zip(v, shape)]


class JaggedShape:
  def __init__(self, s, nd):
    self.s = s
    self.nd = nd

  def __eq__(self, o):
    return isinstance(o, JaggedShape) and (self.s, self.nd) == (o.s, o.nd)

  def __hash__(self):
    return hash(str(self.s))

  def rank(self):
    return self.nd

  def get_sizes(self):
    raise NotImplementedError


# ------------------------------------------------------------------ slices


def _infer(v):
  if v is None:
    return _dt['NONE']
  if isinstance(v, bool):
    return _dt['BOOLEAN']
  if isinstance(v, int):
    return _dt['INT32'] if -(2**31) <= v < 2**31 else _dt['INT64']
  if isinstance(v, float):
    return _dt['FLOAT32']
  if isinstance(v, str):
    return _dt['STRING']
  if isinstance(v, bytes):
    return _dt['BYTES']
  if isinstance(v, _Present):
    return _dt['MASK']
  if isinstance(v, DType):
    return _dt['SCHEMA']
  if isinstance(v, Expr):
    return _dt['EXPR']
  if isinstance(v, ItemId):
    return _dt['SCHEMA'] if v.kind.endswith('schema') else _dt['OBJECT']
  raise ValueError(f'unsupported value {v!r}')


def _common_schema(schemas):
  schemas = [s for s in schemas if s != _dt['NONE']]
  if not schemas:
    return _dt['NONE']
  if all(s == schemas[0] for s in schemas):
    return schemas[0]
  if all(isinstance(s, DType) and s.name in _NUM for s in schemas):
    return _dt[_NUM[max(_NUM.index(s.name) for s in schemas)]]
  if all(isinstance(s, DType) and s.name in _PRIMS for s in schemas):
    return _dt['OBJECT']
  raise ValueError('cannot find a common schema')


class DataSlice:
  __slots__ = ('_v', '_nd', '_s', '_bag')

  @staticmethod
  def _mk(v, nd, s, b):
    if nd == 0:
      if s == _dt['SCHEMA']:
        c = SchemaItem
      elif isinstance(s, ItemId) and b is not None and b._attr(s, '__items__')[0]:
        c = ListItem
      elif isinstance(s, ItemId) and b is not None and b._attr(s, '__keys__')[0]:
        c = DictItem
      else:
        c = DataItem
    else:
      c = DataSlice
    o = object.__new__(c)
    object.__setattr__(o, '_v', v)
    object.__setattr__(o, '_nd', nd)
    object.__setattr__(o, '_s', s)
    object.__setattr__(o, '_bag', b)
    return o

  def _with(self, v=None, nd=None, s=None, b=None):
    return DataSlice._mk(
        self._v if v is None else v,
        self._nd if nd is None else nd,
        self._s if s is None else s,
        self._bag if b is None else b)

  def _flatv(self):
    return _flat(self._v, self._nd)

  # ---- pickling
  def __reduce__(self):
    return (DataSlice._mk, (self._v, self._nd, self._s, self._bag))

  def __copy__(self):
    return self

  def __deepcopy__(self, memo):
    return self

  # ---- bag
  def get_bag(self):
    return self._bag

  def has_bag(self):
    return DataItem._mk(_P if self._bag is not None else None, 0, _dt['MASK'], None)

  def with_bag(self, b):
    return DataSlice._mk(self._v, self._nd, self._s, b)

  def no_bag(self):
    return DataSlice._mk(self._v, self._nd, self._s, None)

  def freeze_bag(self):
    return self

  def fork_bag(self):
    return self

  def enriched(self, *bags):
    return self.with_bag(_cat([self._bag, *bags]))

  def updated(self, *bags):
    return self.with_bag(_cat([*reversed(bags), self._bag]))

  # ---- shape
  def get_ndim(self):
    return DataItem._mk(self._nd, 0, _dt['INT64'], None)

  def get_shape(self):
    return JaggedShape(_shape(self._v, self._nd), self._nd)

  def get_size(self):
    return DataItem._mk(len(self._flatv()), 0, _dt['INT64'], None)

  def get_present_count(self):
    return DataItem._mk(
        sum(x is not None for x in self._flatv()), 0, _dt['INT64'], None)

  def flatten(self, from_dim=0, to_dim=None):
    assert from_dim == 0 and to_dim is None
    return DataSlice._mk(self._flatv(), 1, self._s, self._bag)

  def expand_to(self, target, ndim=0):
    target = _box(target)
    return DataSlice._mk(
        _expand(self._v, self._nd, _shape(target._v, target._nd), target._nd),
        target._nd, self._s, self._bag)

  @property
  def L(self):
    if self._nd == 0:
      raise ValueError('cannot iterate an item')
    return [DataSlice._mk(x, self._nd - 1, self._s, self._bag) for x in self._v]

  def __iter__(self):
    if self._nd == 0:
      if self.is_list():
        return iter(self[:].L)
      raise ValueError('cannot iterate an item')
    return iter(self.L)

  def __len__(self):
    if self._nd == 0:
      ls = self._lists_of(self._v)
      if ls is None:
        d = self._bag._dict(self._v) if self._bag is not None else {}
        return len([1 for v in d.values() if v is not None])
      return len(ls)
    return len(self._v)

  # ---- schema
  def get_schema(self):
    return SchemaItem._mk(self._s, 0, _dt['SCHEMA'], self._bag)

  def get_obj_schema(self):
    return self.get_schema()

  def with_schema(self, schema):
    b = self._bag
    if schema._bag is not None and schema._bag is not b:
      b = _cat([b, schema._bag])
    return DataSlice._mk(self._v, self._nd, schema._v, b)

  set_schema = with_schema

  def is_primitive(self):
    s = self._s
    if s == _dt['OBJECT']:
      ok = all(x is None or not isinstance(x, ItemId) for x in self._flatv())
    else:
      ok = isinstance(s, DType) and s.name in _PRIMS
    return _mask(ok)

  def _sattr(self, a):
    if self._bag is None or not isinstance(self._v, ItemId):
      return False, None
    return self._bag._attr(self._v, a)

  def is_list(self):
    return _mask(self.get_schema().is_list_schema())

  def is_dict(self):
    return _mask(self.get_schema().is_dict_schema())

  def is_entity(self):
    return _mask(self.get_schema().is_entity_schema())

  def is_list_schema(self):
    return _mask(self._nd == 0 and self._sattr('__items__')[0])

  def is_dict_schema(self):
    return _mask(self._nd == 0 and self._sattr('__keys__')[0] and self._sattr('__values__')[0])

  def is_struct_schema(self):
    return _mask(
        self._s == _dt['SCHEMA'] and self._nd == 0
        and isinstance(self._v, ItemId))

  def is_entity_schema(self):
    return _mask(
        bool(self.is_struct_schema())
        and not bool(self.is_list_schema())
        and not bool(self.is_dict_schema()))

  def is_primitive_schema(self):
    return _mask(
        self._s == _dt['SCHEMA'] and self._nd == 0
        and isinstance(self._v, DType) and self._v.name in _PRIMS)

  def get_item_schema(self):
    ok, v = self._sattr('__items__')
    if not ok:
      raise ValueError('expected List schema for get_item_schema')
    return SchemaItem._mk(v, 0, _dt['SCHEMA'], self._bag)

  def get_key_schema(self):
    ok, v = self._sattr('__keys__')
    if not ok:
      raise ValueError('expected Dict schema for get_key_schema')
    return SchemaItem._mk(v, 0, _dt['SCHEMA'], self._bag)

  def get_value_schema(self):
    ok, v = self._sattr('__values__')
    if not ok:
      raise ValueError('expected Dict schema for get_value_schema')
    return SchemaItem._mk(v, 0, _dt['SCHEMA'], self._bag)

  # ---- ids
  def get_itemid(self):
    if self._s == _dt['SCHEMA']:
      if any(isinstance(x, DType) for x in self._flatv()):
        raise ValueError('cannot get ItemIds from primitive schemas')
    elif isinstance(self._s, DType) and self._s.name not in (
        'OBJECT', 'ITEMID', 'NONE'):
      raise ValueError(f'cannot cast {self._s} to ITEMID')
    return DataSlice._mk(self._v, self._nd, _dt['ITEMID'], self._bag)

  # ---- presence
  def is_empty(self):
    return _mask(all(x is None for x in self._flatv()))

  def __invert__(self):
    if self._s != _dt['MASK']:
      raise ValueError('expected MASK')
    return DataSlice._mk(
        _map(lambda x: _P if x is None else None, self._nd, self._v),
        self._nd, _dt['MASK'], None)

  def __and__(self, m):
    m = _box(m)
    if m._s != _dt['MASK'] and m._s != _dt['NONE']:
      raise ValueError('expected MASK')
    if m._nd > self._nd:
      a, m = self.expand_to(m), m
    else:
      a, m = self, m.expand_to(self)
    return DataSlice._mk(
        _map(lambda x, y: x if y is not None else None, a._nd, a._v, m._v),
        a._nd, a._s, a._bag)

  def __or__(self, o):
    o = _box(o)
    a, b = (self.expand_to(o), o) if o._nd > self._nd else (self, o.expand_to(self))
    return DataSlice._mk(
        _map(lambda x, y: x if x is not None else y, a._nd, a._v, b._v),
        a._nd, _common_schema([a._s, b._s]), _cat2(a._bag, b._bag))

  def _cmp(self, o, f):
    o = _box(o)
    a, b = (self.expand_to(o), o) if o._nd > self._nd else (self, o.expand_to(self))
    return DataSlice._mk(
        _map(
            lambda x, y: _P if x is not None and y is not None and f(x, y) else None,
            a._nd, a._v, b._v),
        a._nd, _dt['MASK'], None)

  def __eq__(self, o):
    return self._cmp(o, lambda x, y: x == y and _tag(x) == _tag(y))

  def __ne__(self, o):
    return self._cmp(o, lambda x, y: not (x == y and _tag(x) == _tag(y)))

  def __lt__(self, o):
    return self._cmp(o, lambda x, y: x < y)

  def __gt__(self, o):
    return self._cmp(o, lambda x, y: x > y)

  def __le__(self, o):
    return self._cmp(o, lambda x, y: x <= y)

  def __ge__(self, o):
    return self._cmp(o, lambda x, y: x >= y)

  def __add__(self, o):
    o = _box(o)
    a, b = (self.expand_to(o), o) if o._nd > self._nd else (self, o.expand_to(self))
    return DataSlice._mk(
        _map(lambda x, y: None if x is None or y is None else x + y, a._nd, a._v, b._v),
        a._nd, _common_schema([a._s, b._s]), None)

  def _arith(self, o, f):
    o = _box(o)
    a, b = (self.expand_to(o), o) if o._nd > self._nd else (self, o.expand_to(self))
    return DataSlice._mk(
        _map(lambda x, y: None if x is None or y is None else f(x, y), a._nd, a._v, b._v),
        a._nd, _common_schema([a._s, b._s]), None)

  def __sub__(self, o):
    return self._arith(o, lambda x, y: x - y)

  def __mul__(self, o):
    return self._arith(o, lambda x, y: x * y)

  def __mod__(self, o):
    return self._arith(o, lambda x, y: x % y)

  def __floordiv__(self, o):
    return self._arith(o, lambda x, y: x // y)

  @property
  def S(self):
    return _SAccess(self)

  __hash__ = None

  def __bool__(self):
    if self._nd != 0:
      raise ValueError('bool() of a non-item slice')
    if self._s == _dt['MASK'] or (self._s == _dt['NONE']):
      return self._v is not None
    if self._s == _dt['BOOLEAN']:
      return bool(self._v)
    raise ValueError(f'bool() of a {self._s} item')

  def __int__(self):
    return int(self._v)

  def __index__(self):
    return int(self._v)

  def select(self, m, expand_filter=True):
    if isinstance(m, _pytypes.FunctionType):
      m = m(self)
    m = _box(m).expand_to(self)

    def go(v, mm, nd):
      if nd == 1:
        return [x for x, y in zip(v, mm) if y is not None]
      return [go(x, y, nd - 1) for x, y in zip(v, mm)]
    return self._with(v=go(self._v, m._v, self._nd))

  def select_present(self):
    return self.select(has(self))

  # ---- attributes
  def _attr_schema(self, name):
    """Schema value of attribute `name` of this (entity) slice or None."""
    if self._bag is None or not isinstance(self._s, ItemId):
      return None
    ok, v = self._bag._attr(self._s, name)
    return v if ok else None

  def has_attr(self, name):
    if self._s == _dt['SCHEMA']:
      def f(x):
        return _P if x is not None and isinstance(x, ItemId) and self._bag is not None and self._bag._attr(x, name)[1] is not None else None
    else:
      def f(x):
        return _P if x is not None and isinstance(x, ItemId) and self._bag is not None and self._bag._attr(x, name)[1] is not None else None
    return DataSlice._mk(_map(f, self._nd, self._v), self._nd, _dt['MASK'], None)

  def get_attr(self, name, default=None):
    name = name.to_py() if isinstance(name, DataSlice) else name
    if self._bag is None:
      raise ValueError(f"failed to get attribute '{name}': the DataSlice is a reference without a bag")
    if isinstance(self._s, DType) and self._s.name not in ('SCHEMA', 'OBJECT', 'NONE'):
      raise ValueError(f"failed to get attribute '{name}': primitives do not have attributes, got {self._s}")
    if self._s == _dt['SCHEMA']:
      def f(x):
        if x is None:
          return None
        if not isinstance(x, ItemId):
          raise ValueError(f"failed to get attribute '{name}': primitive schema")
        ok, v = self._bag._attr(x, name)
        if not ok or v is None:
          raise ValueError(f"the attribute '{name}' is missing on the schema")
        return v
      v = _map(f, self._nd, self._v)
      s = _dt['SCHEMA']
      if name == '__schema_name__':
        s = _dt['STRING']
      elif name == '__schema_metadata__':
        s = _dt['OBJECT']
      return DataSlice._mk(v, self._nd, s, self._bag)
    v = _map(
        lambda x: None if x is None else self._bag._attr(x, name)[1],
        self._nd, self._v)
    if self._s == _dt['NONE']:
      return DataSlice._mk(v, self._nd, _dt['NONE'], self._bag)
    if self._s == _dt['OBJECT']:
      vals = [x for x in _flat(v, self._nd) if x is not None]
      if not vals and default is None:
        raise ValueError(f"the attribute '{name}' is missing on the object")
      return DataSlice._mk(
          v, self._nd, _common_schema([_infer(x) for x in vals]), self._bag)
    s = self._attr_schema(name)
    if s is None:
      raise ValueError(f"the attribute '{name}' is missing on the schema")
    return DataSlice._mk(v, self._nd, s, self._bag)

  def maybe(self, name):
    return maybe(self, name)

  def __getattr__(self, name):
    if name.startswith('__') or name.startswith('_'):
      raise AttributeError(name)
    try:
      return self.get_attr(name)
    except ValueError as e:
      raise AttributeError(str(e)) from e

  def with_attrs(self, *, overwrite_schema=False, **kw):
    return self.updated(attrs(self, overwrite_schema=overwrite_schema, **kw))

  def with_attr(self, name, value, overwrite_schema=False):
    return self.updated(attrs(self, overwrite_schema=overwrite_schema, **{name: value}))

  def get_attr_names(self, *, intersection=True):
    return dir_(self)

  # ---- lists
  def _lists_of(self, x):
    if x is None or self._bag is None:
      return None
    return self._bag._list(x)

  def explode(self, ndim=1):
    sch = self.get_schema()
    if not sch.is_list_schema():
      raise ValueError(f'cannot explode: not a list, got schema {sch}')
    r = DataSlice._mk(
        _map(lambda x: list(self._lists_of(x) or []), self._nd, self._v),
        self._nd + 1, sch.get_item_schema()._v, self._bag)
    if ndim not in (1,):
      while ndim != 1 and r.is_list():
        r = r.explode()
        ndim -= 1
    return r

  def implode(self, ndim=1, itemid=None):
    if self._nd < 1:
      raise ValueError('cannot implode an item')
    nd = self._nd - 1
    ids = (
        _map(lambda x: x, nd, itemid._v) if itemid is not None
        else _map(lambda x: _fresh('list'), nd, self._v))
    flat_ids = [x for x in _flat(ids, nd) if x is not None]
    if len(set(flat_ids)) != len(flat_ids):
      raise ValueError('duplicate list ItemIds')
    l = _new_layer()
    ls = list_schema(SchemaItem._mk(self._s, 0, _dt['SCHEMA'], None))
    _map(
        lambda i, items: None if i is None else l['l'].__setitem__(i, list(items)),
        nd, ids, self._v)
    b = _cat([DataBag([l]), ls._bag, self._bag])
    return DataSlice._mk(ids, nd, ls._v, b)

  # ---- dicts
  def get_keys(self):
    sch = self.get_schema()
    if not sch._sattr('__keys__')[0]:
      raise ValueError('cannot get keys: not a dict')
    return DataSlice._mk(
        _map(lambda x: self._sorted_keys(x), self._nd, self._v),
        self._nd + 1, sch.get_key_schema()._v, self._bag)

  def _sorted_keys(self, x):
    if x is None:
      return []
    d = self._bag._dict(x)
    return sorted((k for k, v in d.items()), key=lambda k: (str(_tag(k)), repr(k)))

  def get_values(self, key_ds=None):
    sch = self.get_schema()
    if not sch._sattr('__values__')[0]:
      raise ValueError('cannot get values: not a dict')
    return DataSlice._mk(
        _map(
            lambda x: [self._bag._dict(x)[k] for k in self._sorted_keys(x)],
            self._nd, self._v),
        self._nd + 1, sch.get_value_schema()._v, self._bag)

  def __getitem__(self, k):
    sch = self.get_schema()
    if isinstance(k, slice):
      if k == slice(None):
        return self.explode()
      r = self.explode()
      def go(v, nd):
        return v[k] if nd == 1 else [go(x, nd - 1) for x in v]
      return r._with(v=go(r._v, r._nd))
    if sch.is_list_schema():
      k = _box(k).expand_to(self)
      def at(x, i):
        ls = self._lists_of(x)
        if ls is None or i is None or not -len(ls) <= i < len(ls):
          return None
        return ls[i]
      return DataSlice._mk(
          _map(at, self._nd, self._v, k._v), self._nd,
          sch.get_item_schema()._v, self._bag)
    if sch.is_dict_schema():
      k = _box(k)
      d = self
      if k._nd > d._nd:
        d = d.expand_to(k)
      else:
        k = k.expand_to(d)
      return DataSlice._mk(
          _map(
              lambda x, y: None if x is None or y is None else d._bag._dict(x).get(y),
              d._nd, d._v, k._v),
          d._nd, sch.get_value_schema()._v, self._bag)
    raise ValueError(f'unsupported __getitem__ for schema {sch}')

  def __setitem__(self, k, v):
    if self._bag is None or not self._bag._mutable:
      raise ValueError('the bag is immutable')
    k, v = _box(k), _box(v)
    d = self.expand_to(k) if k._nd > self._nd else self
    v = v.expand_to(k) if k._nd > v._nd else v
    l = _new_layer()
    def put(x, y, z):
      if x is not None and y is not None:
        l['d'].setdefault(x, {})[y] = z
    _map(put, d._nd, d._v, k._v, v._v)
    self._bag._layers = [_merge([l] + self._bag._layers)]

  # ---- extraction
  def extract(self, schema=None):
    if self._bag is None:
      raise ValueError('cannot extract without a DataBag')
    return self.with_bag(_extract(self))

  def extract_update(self, schema=None):
    return self.extract().get_bag()

  def extract_bag(self, schema=None):
    return self.extract().get_bag()

  def clone(self, **kw):
    raise NotImplementedError

  def stub(self, attrs=()):
    return stub(self)

  def new(self, **kw):
    return new(schema=self, **kw)

  # ---- python
  def to_py(self, max_depth=2, **kw):
    return _map(lambda x: self._py(x, self._s, set()), self._nd, self._v)

  internal_as_py = to_py

  def to_pytree(self, max_depth=-1, include_missing=True):
    return self.to_py()

  def _py(self, x, s, path):
    if x is None:
      return None
    if s == _dt['MASK']:
      return PRESENT
    if not isinstance(x, ItemId) or s == _dt['ITEMID'] or s == _dt['SCHEMA'] or self._bag is None:
      return x
    if x in path:
      return x
    path = path | {x}
    ok, it = self._bag._attr(s, '__items__') if isinstance(s, ItemId) else (False, None)
    if ok:
      return [self._py(y, it, path) for y in (self._bag._list(x) or [])]
    ok, ks = self._bag._attr(s, '__keys__') if isinstance(s, ItemId) else (False, None)
    if ok:
      vs = self._bag._attr(s, '__values__')[1]
      return {
          _hashable(self._py(k, ks, path)): self._py(v, vs, path)
          for k, v in self._bag._dict(x).items()
      }
    names = (
        self._bag._attr_names(s) if isinstance(s, ItemId)
        else self._bag._attr_names(x))
    return {
        a: self._py(
            self._bag._attr(x, a)[1],
            self._bag._attr(s, a)[1] if isinstance(s, ItemId) else _infer(self._bag._attr(x, a)[1]),
            path)
        for a in names if not a.startswith('__')
    }

  def __str__(self):
    if self._s == _dt['SCHEMA'] and self._nd == 0:
      if isinstance(self._v, DType):
        return self._v.name
      return _schema_str(self._v, self._bag, ())
    return f'{self._v}'

  def __repr__(self):
    return f'{type(self).__name__}({self._v}, schema: {self._s})'

  def __format__(self, spec):
    return str(self)


def _schema_str(v, b, seen):
  if isinstance(v, DType):
    return v.name
  if v is None:
    return 'None'
  if b is None:
    return f'SCHEMA({v.uid})'
  if v in seen:
    return '...'
  seen = (*seen, v)
  sub = lambda a: _schema_str(b._attr(v, a)[1], b, seen)
  names = [a for a in b._attr_names(v) if not a.startswith('__schema')]
  ok, n = b._attr(v, '__schema_name__')
  if '__items__' in names:
    return f'LIST[{sub("__items__")}]'
  if '__keys__' in names:
    return f'DICT{{{sub("__keys__")}, {sub("__values__")}}}'
  return (n if ok else 'ENTITY') + '(' + ', '.join(f'{a}={sub(a)}' for a in names) + ')'


class _SAccess:
  """ds.S[i, j, ...]: slices the dimensions of ds, outermost first."""

  def __init__(self, ds):
    self._ds = ds

  def __getitem__(self, idx):
    idx = idx if isinstance(idx, tuple) else (idx,)
    ds = self._ds
    if Ellipsis in idx:
      k = idx.index(Ellipsis)
      idx = idx[:k] + (slice(None),) * (ds._nd - len(idx) + 1) + idx[k + 1:]
    else:
      idx = (slice(None),) * (ds._nd - len(idx)) + idx

    def go(v, ix):
      if not ix:
        return v
      if isinstance(ix[0], slice):
        return [go(x, ix[1:]) for x in v[ix[0]]]
      i = int(ix[0])
      return go(v[i], ix[1:])
    nd = sum(1 for i in idx if isinstance(i, slice))
    return ds._with(v=go(ds._v, idx), nd=nd)


def _tag(x):
  if isinstance(x, bool):
    return 'b'
  if isinstance(x, (int, float)):
    return 'n'
  return type(x).__name__


def _hashable(x):
  try:
    hash(x)
    return x
  except TypeError:
    return repr(x)


def _cat2(a, b):
  if a is None:
    return b
  if b is None or b is a:
    return a
  return _cat([a, b])


class DataItem(DataSlice):
  __slots__ = ()

  def __hash__(self):
    return hash(self._v)


class SchemaItem(DataItem):
  __slots__ = ()

  def __hash__(self):
    return hash(self._v)


class ListItem(DataItem):
  __slots__ = ()


class DictItem(DataItem):
  __slots__ = ()


def _mask(b):
  if isinstance(b, DataSlice):
    b = bool(b)
  return DataItem._mk(_P if b else None, 0, _dt['MASK'], None)


def _schema_item(v, b=None):
  return DataSlice._mk(v, 0, _dt['SCHEMA'], b)


_NOARG = object()


def _box(x):
  if isinstance(x, DataSlice):
    return x
  if isinstance(x, (list, tuple)):
    return list_(list(x))
  if isinstance(x, dict):
    return dict_(x)
  return DataSlice._mk(x, 0, _infer(x), None)


def _cast(ds, schema):
  """ds cast to schema item `schema` (values untouched except numerics)."""
  s = schema._v
  if isinstance(s, DType):
    schema = _schema_item(s)
  if ds._s == s:
    return ds if ds._bag is not None or schema._bag is None else ds.with_bag(schema._bag)
  if ds._s == _dt['NONE'] or all(x is None for x in ds._flatv()):
    return DataSlice._mk(ds._v, ds._nd, s, _cat2(ds._bag, schema._bag))
  if isinstance(s, DType) and isinstance(ds._s, DType):
    if s.name in ('FLOAT32', 'FLOAT64') and ds._s.name in _NUM:
      return DataSlice._mk(
          _map(lambda x: None if x is None else float(x), ds._nd, ds._v), ds._nd, s, ds._bag)
    if s.name == 'INT64' and ds._s.name == 'INT32' or s.name == 'INT32' and ds._s.name == 'INT64':
      return DataSlice._mk(ds._v, ds._nd, s, ds._bag)
    if s.name == 'OBJECT':
      return DataSlice._mk(ds._v, ds._nd, s, ds._bag)
    if s.name == 'MASK' and ds._s.name == 'MASK':
      return ds
    if s.name == 'BOOLEAN' and ds._s.name == 'BOOLEAN':
      return ds
  raise ValueError(f'unsupported cast from {ds._s} to {s}')


def slice_(x=None, schema=None):
  if isinstance(x, DataSlice):
    return _cast(x, schema) if schema is not None else x

  def ndim(v):
    if isinstance(v, (list, tuple)):
      ns = [ndim(y) for y in v]
      return 1 + (max(ns) if ns else 0)
    if isinstance(v, DataSlice):
      return v._nd
    return 0
  nd = ndim(x)
  leaves = []

  def go(v):
    if isinstance(v, (list, tuple)):
      return [go(y) for y in v]
    if isinstance(v, DataSlice):
      leaves.append(v)
      return v._v
    b = _box(v)
    leaves.append(b)
    return b._v
  v = go(x)
  bags = []
  for l in leaves:
    if l._bag is not None and not any(l._bag is b for b in bags):
      bags.append(l._bag)
  b = None if not bags else bags[0] if len(bags) == 1 else _cat(bags)
  if schema is None:
    s = _common_schema([l._s for l in leaves]) if leaves else _dt['NONE']
    return DataSlice._mk(v, nd, s, b)
  try:
    s0 = _common_schema([l._s for l in leaves]) if leaves else _dt['NONE']
  except ValueError:
    s0 = _dt['OBJECT']
  return _cast(DataSlice._mk(v, nd, s0, b), schema)


def item(x, schema=None):
  r = slice_(x, schema)
  if r._nd != 0:
    raise ValueError('kd.item requires an item')
  return r


# ---- constructors of schemas


def _schema_bag(sid, **kw):
  l = _new_layer()
  l['a'][sid] = dict(kw)
  return DataBag([l])


def list_schema(item_schema):
  i = _uu('list_schema', repr_schema(item_schema._v))
  return _schema_item(
      i, _cat2(_schema_bag(i, __items__=item_schema._v), item_schema._bag))


def dict_schema(key_schema, value_schema):
  i = _uu('dict_schema', repr_schema(key_schema._v), repr_schema(value_schema._v))
  b = _schema_bag(i, __keys__=key_schema._v, __values__=value_schema._v)
  return _schema_item(i, _cat([b, key_schema._bag, value_schema._bag]))


def repr_schema(v):
  return v.name if isinstance(v, DType) else 'id:' + v.uid


def named_schema(name, /, **kw):
  name = name._v if isinstance(name, DataSlice) else name
  i = _uu('named_schema', name)
  kw = {a: (named_schema(s) if isinstance(s, str) else s) for a, s in kw.items()}
  b = _schema_bag(i, __schema_name__=name, **{a: s._v for a, s in kw.items()})
  return _schema_item(i, _cat([b] + [s._bag for s in kw.values()]))


def new_schema(**kw):
  i = _fresh('schema')
  kw = {a: (named_schema(s) if isinstance(s, str) else s) for a, s in kw.items()}
  b = _schema_bag(i, **{a: s._v for a, s in kw.items()})
  return _schema_item(i, _cat([b] + [s._bag for s in kw.values()]))


def uu_schema(**kw):
  i = _uu('schema', *[(a, repr_schema(s._v)) for a, s in sorted(kw.items())])
  b = _schema_bag(i, **{a: s._v for a, s in kw.items()})
  return _schema_item(i, _cat([b] + [s._bag for s in kw.values()]))


# ---- constructors of data


def new(arg=_NOARG, *, schema=None, overwrite_schema=False, itemid=None, **kw):
  if arg is not _NOARG:
    assert not kw
    return _cast(_box(arg), schema) if schema is not None else _box(arg)
  kw = {a: _box(v) for a, v in kw.items()}
  implicit = schema is None or isinstance(schema, str)
  if schema is None:
    schema = new_schema()
  elif isinstance(schema, str):
    schema = named_schema(schema)
  if schema.is_list_schema() or schema.is_dict_schema():
    raise ValueError('cannot create entities with a list or dict schema')
  nd = max([v._nd for v in kw.values()], default=0)
  big = next((v for v in kw.values() if v._nd == nd), None)
  ids = (
      itemid._v if itemid is not None
      else _map(lambda _: _fresh('entity'), nd, big._v) if big is not None
      else _fresh('entity'))
  e = DataSlice._mk(ids, nd, schema._v, schema._bag or DataBag())
  if not kw:
    return e
  return e.updated(attrs(e, overwrite_schema=implicit or overwrite_schema, **kw))


def uu(seed='', **kw):
  kw = {a: _box(v) for a, v in kw.items()}
  sch = uu_schema(**{a: v.get_schema() for a, v in kw.items()})
  i = _uu('entity', seed, *[(a, repr(v._v)) for a, v in sorted(kw.items())])
  e = DataSlice._mk(i, 0, sch._v, sch._bag)
  return e.updated(attrs(e, **kw)) if kw else e


def obj(arg=_NOARG, **kw):
  if arg is not _NOARG:
    return _box(arg).with_schema(_schema_item(_dt['OBJECT']))
  e = new(**kw)
  return DataSlice._mk(e._v, e._nd, _dt['OBJECT'], e._bag)


def uuid(seed='', **kw):
  return DataSlice._mk(
      _uu('entity', seed, *[(a, repr(_box(v)._v)) for a, v in sorted(kw.items())]),
      0, _dt['ITEMID'], None)


def new_itemid():
  return DataSlice._mk(_fresh('entity'), 0, _dt['ITEMID'], None)


def list_(items=None, *, item_schema=None, schema=None, itemid=None):
  if schema is not None:
    item_schema = schema.get_item_schema()
  if items is None:
    items = []
  if isinstance(items, DataSlice):
    ds = items
  else:
    vals = [
        x if isinstance(x, DataSlice)
        else list_(x, item_schema=item_schema.get_item_schema() if item_schema is not None and item_schema.is_list_schema() else None)
        if isinstance(x, (list, tuple))
        else dict_(x) if isinstance(x, dict) else _box(x)
        for x in items
    ]
    ds = slice_(vals) if vals else DataSlice._mk([], 1, _dt['NONE'], None)
    if not vals and item_schema is None:
      ds = DataSlice._mk([], 1, _dt['OBJECT'], None)
  if item_schema is not None:
    if ds._nd == 1 and not ds._v:
      ds = DataSlice._mk([], 1, item_schema._v, item_schema._bag)
    else:
      ds = _cast(ds, item_schema)
      if item_schema._bag is not None:
        ds = ds.with_bag(_cat2(ds._bag, item_schema._bag))
  r = ds.implode(itemid=itemid)
  if schema is not None:
    r = DataSlice._mk(r._v, r._nd, schema._v, _cat2(r._bag, schema._bag))
  return r


def dict_(items=None, values=None, *, key_schema=None, value_schema=None, schema=None, itemid=None):
  if schema is not None:
    key_schema, value_schema = schema.get_key_schema(), schema.get_value_schema()
  if isinstance(items, DataSlice) or isinstance(values, DataSlice):
    keys = _box(items)
    values = _box(values)
    if keys._nd == 0:
      keys = DataSlice._mk([keys._v], 1, keys._s, keys._bag)
    if values._nd < keys._nd:
      values = values.expand_to(keys)
  else:
    items = items or {}
    # nested dicts / lists are converted
    ks = [_box(k) for k in items]
    vs = [
        dict_(v) if isinstance(v, dict) else list_(v) if isinstance(v, (list, tuple)) else _box(v)
        for v in items.values()
    ]
    keys = slice_(ks) if ks else DataSlice._mk([], 1, _dt['OBJECT'], None)
    values = slice_(vs) if vs else DataSlice._mk([], 1, _dt['OBJECT'], None)
  if key_schema is not None:
    keys = _cast(keys, key_schema) if keys._flatv() else DataSlice._mk(keys._v, keys._nd, key_schema._v, key_schema._bag)
  if value_schema is not None:
    values = _cast(values, value_schema) if values._flatv() else DataSlice._mk(values._v, values._nd, value_schema._v, value_schema._bag)
  nd = keys._nd - 1
  ids = (
      itemid._v if itemid is not None
      else _map(lambda _: _fresh('dict'), nd, keys._v))
  ds = dict_schema(keys.get_schema(), values.get_schema())
  l = _new_layer()

  def put(i, k, v):
    if i is not None:
      d = l['d'].setdefault(i, {})
      for kk, vv in zip(k, v, strict=True):
        if kk is not None:
          d[kk] = vv
  _map(put, nd, ids, keys._v, values._v)
  sid = schema._v if schema is not None else ds._v
  b = _cat([DataBag([l]), ds._bag, keys._bag, values._bag] + ([schema._bag] if schema is not None else []))
  return DataSlice._mk(ids, nd, sid, b)


# ---- updates


def attrs(x, /, *, overwrite_schema=False, **kw):
  x = _box(x)
  l = _new_layer()
  bags = []
  if isinstance(x._s, DType) and x._s.name in _PRIMS:
    raise ValueError('primitives do not have attributes')
  is_schema = x._s == _dt['SCHEMA']
  if is_schema and any(isinstance(v, DType) for v in x._flatv()):
    raise ValueError('cannot set attributes on primitive schemas')
  for a, v in kw.items():
    v = _box(v)
    if is_schema and a not in ('__schema_name__', '__schema_metadata__'):
      if v._s != _dt['SCHEMA']:
        raise ValueError(f"expected a schema value for attribute '{a}'")
    if not is_schema and isinstance(x._s, ItemId):
      cur = x._attr_schema(a)
      if cur is not None and not overwrite_schema and cur != v._s:
        v = _narrow(v, cur, a)
    if v._nd > x._nd:
      raise ValueError(
          f"cannot set attribute '{a}': the value has more dimensions")
    v = v.expand_to(x)

    def put(i, val):
      if i is not None:
        l['a'].setdefault(i, {})[a] = val
    _map(put, x._nd, x._v, v._v)
    if not is_schema and isinstance(x._s, ItemId):
      l['a'].setdefault(x._s, {})[a] = v._s
    if v._bag is not None:
      bags.append(_extract(v))
  return _cat([DataBag([l])] + bags).merge_fallbacks()


def _narrow(v, cur, a):
  if v._s == _dt['NONE']:
    return DataSlice._mk(v._v, v._nd, cur, v._bag)
  if isinstance(cur, DType) and isinstance(v._s, DType) and cur.name in _NUM and v._s.name in _NUM and _NUM.index(v._s.name) <= _NUM.index(cur.name):
    return _cast(v, _schema_item(cur))
  raise ValueError(
      f"the schema for attribute '{a}' is incompatible.\n\nExpected schema for"
      f" '{a}': {cur}\nAssigned schema for '{a}': {v._s}")


def list_append_update(x, append):
  append = _box(append)
  item_s = x.get_schema().get_item_schema()
  append = _cast(append, item_s.no_bag())
  ab = _extract(append) if append._bag is not None else None
  if append._nd == x._nd:
    items = _map(lambda y: [y], x._nd, append._v)
  elif append._nd < x._nd:
    items = _map(lambda y: [y], x._nd, append.expand_to(x)._v)
  else:
    items = append._v
  l = _new_layer()
  _map(
      lambda i, y: None if i is None else l['l'].__setitem__(
          i, list(x._lists_of(i) or []) + list(y)),
      x._nd, x._v, items)
  sb = _extract_schema_bag(x._s, x._bag)
  return _cat([DataBag([l]), sb, ab]).merge_fallbacks()


def dict_update(x, keys, values=None):
  if values is not None:
    keys = dict_(_as_keys(keys), _as_keys(values))
  upd = keys
  if isinstance(upd, dict):
    upd = dict_(upd)
  l = _new_layer()

  def put(i, j):
    if i is not None and j is not None:
      l['d'].setdefault(i, {}).update(upd._bag._dict(j))
  u = upd.expand_to(x)
  _map(put, x._nd, x._v, u._v)
  vals = upd.get_values()
  bags = [_extract(vals)] if vals._bag is not None else []
  ks = upd.get_keys()
  bags += [_extract(ks)] if ks._bag is not None else []
  sb = _extract_schema_bag(x._s, x._bag)
  return _cat([DataBag([l]), sb] + bags).merge_fallbacks()


def _as_keys(k):
  k = _box(k)
  return k if k._nd else DataSlice._mk([k._v], 1, k._s, k._bag)


# ---- extraction


def _copy_schema(s, b, l, seen):
  if not isinstance(s, ItemId) or s in seen or b is None:
    return
  seen.add(s)
  names = set()
  for lay in b._layers:
    names |= set(lay['a'].get(s, {}))
  for a in sorted(names):
    v = b._attr(s, a)[1]
    l['a'].setdefault(s, {})[a] = v
    if a == '__schema_metadata__' and isinstance(v, ItemId):
      mnames = set()
      for lay in b._layers:
        mnames |= set(lay['a'].get(v, {}))
      for m in mnames:
        l['a'].setdefault(v, {})[m] = b._attr(v, m)[1]
    elif a != '__schema_name__':
      _copy_schema(v, b, l, seen)


def _extract_schema_bag(s, b):
  l = _new_layer()
  _copy_schema(s, b, l, set())
  return DataBag([l])


def _extract(ds):
  b = ds._bag
  l = _new_layer()
  seen_s, seen = set(), set()
  todo = [(x, ds._s) for x in ds._flatv()]
  _copy_schema(ds._s, b, l, seen_s)
  while todo:
    x, s = todo.pop()
    if x is None:
      continue
    if s == _dt['SCHEMA']:
      _copy_schema(x, b, l, seen_s)
      continue
    if not isinstance(x, ItemId) or s == _dt['ITEMID']:
      continue
    if (x, s) in seen:
      continue
    seen.add((x, s))
    if s == _dt['OBJECT']:
      for a in b._attr_names(x):
        v = b._attr(x, a)[1]
        l['a'].setdefault(x, {})[a] = v
        todo.append((v, _infer(v)))
      if b._list(x) is not None:
        l['l'][x] = b._list(x)
      continue
    if not isinstance(s, ItemId):
      continue
    ok, it = b._attr(s, '__items__')
    if ok:
      ls = b._list(x)
      if ls is not None:
        l['l'][x] = list(ls)
        todo += [(y, it) for y in ls]
      continue
    ok, ks = b._attr(s, '__keys__')
    if ok:
      vs = b._attr(s, '__values__')[1]
      d = b._dict(x)
      if d:
        l['d'][x] = dict(d)
      for k, v in d.items():
        todo += [(k, ks), (v, vs)]
      continue
    for a in b._attr_names(s):
      if a.startswith('__'):
        continue
      ok, v = b._attr(x, a)
      if ok:
        l['a'].setdefault(x, {})[a] = v
        todo.append((v, b._attr(s, a)[1]))
  return DataBag([l])


def stub(ds, attrs=()):
  if ds._bag is None:
    return ds
  b = ds._bag
  l = _new_layer()

  def go(vals, s):
    if not isinstance(s, ItemId):
      return
    ok, it = b._attr(s, '__items__')
    if ok:
      l['a'].setdefault(s, {})['__items__'] = it
      sub = []
      for x in vals:
        if x is not None and b._list(x) is not None:
          l['l'][x] = list(b._list(x))
          sub += b._list(x)
      go(sub, it)
      return
    ok, ks = b._attr(s, '__keys__')
    if ok:
      l['a'].setdefault(s, {})['__keys__'] = ks
      l['a'].setdefault(s, {})['__values__'] = b._attr(s, '__values__')[1]
  if ds._s == _dt['SCHEMA']:
    for x in ds._flatv():
      if isinstance(x, ItemId):
        for a in ('__items__', '__keys__', '__values__'):
          ok, v = b._attr(x, a)
          if ok:
            l['a'].setdefault(x, {})[a] = v
  else:
    go(ds._flatv(), ds._s)
  return ds.with_bag(DataBag([l]))


# ---- functions


def has(x):
  x = _box(x)
  return DataSlice._mk(
      _map(lambda v: _P if v is not None else None, x._nd, x._v),
      x._nd, _dt['MASK'], None)


def maybe(x, name):
  if x._bag is None:
    raise ValueError('no bag')
  s = x._attr_schema(name) if isinstance(x._s, ItemId) else None
  v = _map(lambda i: None if i is None else x._bag._attr(i, name)[1], x._nd, x._v)
  return DataSlice._mk(v, x._nd, s if s is not None else _dt['NONE'], x._bag)


def has_attr(x, name):
  return x.has_attr(name)


def any_(x):
  return _mask(any(v is not None for v in x._flatv()))


def all_(x):
  return _mask(all(v is not None for v in x._flatv()))


def agg_any(x, ndim=1):
  def go(v, nd):
    if nd == 1:
      return _P if any(y is not None for y in v) else None
    return [go(y, nd - 1) for y in v]
  return DataSlice._mk(go(x._v, x._nd), x._nd - 1, _dt['MASK'], None)


def agg_all(x, ndim=1):
  def go(v, nd):
    if nd == 1:
      return _P if all(y is not None for y in v) else None
    return [go(y, nd - 1) for y in v]
  return DataSlice._mk(go(x._v, x._nd), x._nd - 1, _dt['MASK'], None)


def unique(x, sort=False):
  def go(v, nd):
    if nd == 1:
      out, seen = [], set()
      for y in v:
        if y is not None and (_tag(y), y) not in seen:
          seen.add((_tag(y), y))
          out.append(y)
      return out
    return [go(y, nd - 1) for y in v]
  if x._nd == 0:
    return x
  return x._with(v=go(x._v, x._nd))


def dir_(x):
  x = _box(x)
  if x._bag is None and (x._s == _dt['SCHEMA'] and isinstance(x._v, ItemId)):
    return []
  if x._s == _dt['SCHEMA']:
    vals = [v for v in x._flatv() if v is not None]
    if any(isinstance(v, DType) for v in vals):
      raise ValueError('cannot get available attributes of a primitive schema')
    out = None
    for v in vals:
      n = {a for a in x._bag._attr_names(v) if not a.startswith('__')}
      out = n if out is None else out & n
    return sorted(out or [])
  if isinstance(x._s, ItemId):
    if x._bag is None:
      return []
    return [a for a in x._bag._attr_names(x._s) if not a.startswith('__')]
  if x._s == _dt['OBJECT']:
    out = set()
    for v in x._flatv():
      if isinstance(v, ItemId):
        out |= {a for a in x._bag._attr_names(v) if not a.startswith('__')}
    return sorted(out)
  raise ValueError('cannot get available attributes of a primitive')


def expand_to_shape(x, shape, ndim=0):
  x = _box(x)
  if x._nd == 1 and not x._v:
    return DataSlice._mk(
        _expand(None, 0, shape.s, shape.nd), shape.nd, x._s, x._bag)
  return DataSlice._mk(
      _expand(x._v, x._nd, shape.s, shape.nd), shape.nd, x._s, x._bag)


def expand_to(x, target):
  return _box(x).expand_to(target)


def is_item(x):
  return isinstance(x, DataItem)


def is_slice(x):
  return isinstance(x, DataSlice)


def encode_itemid(x):
  return DataSlice._mk(
      _map(lambda v: None if v is None else v.uid, x._nd, x._v),
      x._nd, _dt['STRING'], None)


def hash_itemid(x):
  return DataSlice._mk(
      _map(lambda v: None if v is None else hash(v.uid), x._nd, x._v),
      x._nd, _dt['INT64'], None)


def with_metadata(x, /, attrs_=None, **kw):
  kw = {a: _box(v) for a, v in kw.items()}
  i = x._v
  ok, m = x._bag._attr(i, '__schema_metadata__') if x._bag is not None else (False, None)
  if not ok:
    m = _uu('metadata', i.uid)
  l = _new_layer()
  l['a'][i] = {'__schema_metadata__': m}
  l['a'][m] = {a: v._v for a, v in kw.items()}
  return x.updated(
      _cat([DataBag([l])] + [v._bag for v in kw.values()]).merge_fallbacks())


def metadata(x, /, **kw):
  return _cat([with_metadata(x, **kw)._bag])


def get_metadata(x):
  return x.get_attr('__schema_metadata__')


def _num(name, f):
  def g(x):
    x = _box(x)
    return DataSlice._mk(
        _map(lambda v: None if v is None else f(v), x._nd, x._v), x._nd, _dt[name], None)
  return g


int32 = _num('INT32', int)
int64 = _num('INT64', int)
float32 = _num('FLOAT32', float)
float64 = _num('FLOAT64', float)
bytes_ = _num('BYTES', lambda v: v)
str_ = _num('STRING', str)


def _elem(f, s):
  def g(x, *a):
    x = _box(x)
    return DataSlice._mk(
        _map(lambda v: None if v is None else f(v, *a), x._nd, x._v), x._nd, _dt[s], None)
  return g


def _b64dec(v):
  try:
    return _b64.b64decode(v, validate=True)
  except Exception as e:
    raise ValueError('invalid base64 string') from e


def size(x):
  x = _box(x)
  return DataSlice._mk(
      _map(lambda v: None if v is None else len(x._lists_of(v) or []), x._nd, x._v),
      x._nd, _dt['INT64'], None)


class _Ns(_pytypes.ModuleType):
  def __init__(self, **kw):
    super().__init__('ns')
    self.__dict__.update(kw)


# ---- serialization


def _dumps(x):
  if isinstance(x, DataSlice) and x._bag is not None:
    x = x.extract()
  body = pickle.dumps(x)
  return b'MKD' + hashlib.sha256(body).digest()[:8] + body


def _loads(data):
  if data[:3] != b'MKD' or hashlib.sha256(data[11:]).digest()[:8] != data[3:11]:
    raise ValueError('cannot deserialize: corrupted data')
  return pickle.loads(data[11:])


def install():
  """Builds the `koladata.kd` stand-in and registers it in sys.modules."""
  from koladata.file_io import file_io as _file_io  # the real modules
  from koladata.file_io import fs_implementation, fs_interface

  def dump(x, path, /, *, overwrite=False, riegeli_options=None, fs=None):
    fs = fs or _file_io.get_default_file_system_interaction()
    if fs.exists(path):
      if overwrite:
        fs.remove(path)
      else:
        raise ValueError(f'File {path} already exists.')
    data = _dumps(x)
    with fs.open(path, 'wb') as f:
      f.write(data)

  def load(path, /, *, fs=None):
    fs = fs or _file_io.get_default_file_system_interaction()
    with fs.open(path, 'rb') as f:
      data = f.read()
    return _loads(data)

  m = _pytypes.ModuleType('koladata.kd')
  m.types = _Ns(
      DataBag=DataBag, DataSlice=DataSlice, DataItem=DataItem,
      SchemaItem=SchemaItem, ListItem=ListItem, DictItem=DictItem,
      JaggedShape=JaggedShape)
  for n in _dt:
    setattr(m, n, _schema_item(_dt[n]))
  m.present = DataItem._mk(_P, 0, _dt['MASK'], None)
  m.missing = DataItem._mk(None, 0, _dt['MASK'], None)
  global PRESENT
  PRESENT = m.present
  m.bags = _Ns(updated=updated_bag, enriched=enriched_bag, new=bag)
  m.bag = bag
  m.mutable_bag = mutable_bag
  m.file_io = _Ns(
      FileSystemInterface=fs_interface.FileSystemInterface,
      FileSystemInteraction=fs_implementation.FileSystemInteraction,
      get_default_file_system_interaction=_file_io.get_default_file_system_interaction)
  m.s11n = _Ns(dump=dump, load=load, dumps=_dumps, loads=_loads)
  m.schema = _Ns(
      new_schema=new_schema, named_schema=named_schema, list_schema=list_schema,
      dict_schema=dict_schema, uu_schema=uu_schema,
      is_entity_schema=lambda s: s.is_entity_schema(),
      is_list_schema=lambda s: s.is_list_schema(),
      is_dict_schema=lambda s: s.is_dict_schema(),
      is_struct_schema=lambda s: s.is_struct_schema(),
      is_primitive_schema=lambda s: s.is_primitive_schema(),
      get_item_schema=lambda s: s.get_item_schema(),
      get_key_schema=lambda s: s.get_key_schema(),
      get_value_schema=lambda s: s.get_value_schema(),
      get_schema=lambda s: s.get_schema(),
      cast_to=lambda x, s: _cast(x, s),
      to_schema=lambda x: x)
  m.slices = _Ns(
      internal_is_compliant_attr_name=lambda n: n not in _NON_COMPLIANT and not n.startswith('_'),
      unique=unique, size=lambda x: _box(x).get_size(), expand_to=expand_to)
  m.lists = _Ns(
      size=size, new=list_, list_append_update=list_append_update,
      explode=lambda x: x.explode(), implode=lambda x, **k: x.implode(**k))
  m.dicts = _Ns(dict_update=dict_update, new=dict_, get_keys=lambda x: x.get_keys())
  m.ids = _Ns(encode_itemid=encode_itemid, hash_itemid=hash_itemid)
  m.core = _Ns(
      get_metadata=get_metadata, metadata=metadata, with_metadata=with_metadata,
      attrs=attrs, stub=stub, has=has, maybe=maybe, has_attr=has_attr)
  m.masking = _Ns(has=has, any=any_, all=all_, agg_any=agg_any)
  m.strings = _Ns(
      encode=_elem(lambda v: v.encode('utf-8'), 'BYTES'),
      decode=_elem(lambda v: v.decode('utf-8'), 'STRING'),
      encode_base64=_elem(lambda v: _b64.b64encode(v).decode(), 'STRING'),
      decode_base64=_elem(_b64dec, 'BYTES'),
      contains=lambda x, y: DataSlice._mk(
          _map(lambda v: _P if v is not None and y in v else None, x._nd, x._v),
          x._nd, _dt['MASK'], None))
  m.expr = _Ns(pack_expr=lambda e: DataItem._mk(e, 0, _dt['EXPR'], None))

  class _I:
    def __getattr__(self, n):
      return Expr(n)
  m.I = _I()
  m.slice, m.item, m.list, m.dict = slice_, item, list_, dict_
  m.any, m.all, m.dir = any_, all_, dir_
  m.bytes, m.str = bytes_, str_
  for f in (
      new, uu, obj, uuid, new_itemid, attrs, list_append_update, dict_update,
      stub, has, maybe, has_attr, agg_any, agg_all, unique, expand_to_shape,
      expand_to, is_item, is_slice, encode_itemid, hash_itemid, with_metadata,
      metadata, get_metadata, int32, int64, float32, float64, list_schema,
      dict_schema, named_schema, uu_schema):
    pass
  m.__dict__.update(
      new=new, uu=uu, obj=obj, uuid=uuid, new_itemid=new_itemid, attrs=attrs,
      list_append_update=list_append_update, dict_update=dict_update, stub=stub,
      has=has, maybe=maybe, has_attr=has_attr, agg_any=agg_any, agg_all=agg_all,
      unique=unique, expand_to_shape=expand_to_shape, expand_to=expand_to,
      is_item=is_item, is_slice=is_slice, encode_itemid=encode_itemid,
      hash_itemid=hash_itemid, with_metadata=with_metadata, metadata=metadata,
      get_metadata=get_metadata, int32=int32, int64=int64, float32=float32,
      float64=float64, list_schema=list_schema, dict_schema=dict_schema,
      named_schema=named_schema, uu_schema=uu_schema, size=size,
      get_attr=lambda x, a: x.get_attr(a), get_schema=lambda x: x.get_schema(),
      get_bag=lambda x: x.get_bag(), get_itemid=lambda x: x.get_itemid(),
      is_empty=lambda x: x.is_empty(), updated=lambda x, *b: x.updated(*b),
      enriched=lambda x, *b: x.enriched(*b), extract=lambda x: x.extract(),
      flatten=lambda x: x.flatten(), implode=lambda x, **k: x.implode(**k),
      explode=lambda x: x.explode(), select=lambda x, f: x.select(f),
      to_py=lambda x: x.to_py(), to_pytree=lambda x, **k: x.to_pytree(**k),
      with_attrs=lambda x, **k: x.with_attrs(**k),
      with_attr=lambda x, n, v, **k: x.with_attr(n, v, **k),
      get_keys=lambda x: x.get_keys(), get_values=lambda x: x.get_values(),
      no_bag=lambda x: x.no_bag(), with_bag=lambda x, b: x.with_bag(b),
      get_ndim=lambda x: x.get_ndim(), get_shape=lambda x: x.get_shape(),
      get_item_schema=lambda s: s.get_item_schema(),
      is_list=lambda x: x.is_list(), is_dict=lambda x: x.is_dict(),
      is_entity=lambda x: x.is_entity(), coalesce=lambda x, y: x | y,
      apply_mask=lambda x, y: x & y)
  sys.modules['koladata.kd'] = m
  import koladata
  koladata.kd = m
  import re
  re2 = _pytypes.ModuleType('re2')
  re2.compile = re.compile
  re2.search = re.search
  sys.modules.setdefault('re2', re2)
  return m


_NON_COMPLIANT = set(n for n in dir(DataSlice) if not n.startswith('_'))
PRESENT = None
