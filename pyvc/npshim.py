"""numpy reductions applied to sequences of symbolic integers: the mathematical
product (numpy's own applies `*` to object arrays; a dtype request is dropped,
i.e. int64 is read as a mathematical integer)."""
import numpy as np
from .core import Sym

_prod = np.prod


def _symbolic(a):
  if isinstance(a, (list, tuple)):
    return any(isinstance(x, Sym) for x in a)
  return isinstance(a, np.ndarray) and a.dtype == object


def prod(a, *args, **kw):
  if not _symbolic(a):
    return _prod(a, *args, **kw)
  r = 1
  for x in (a.ravel() if isinstance(a, np.ndarray) else a):
    r = x * r if not isinstance(r, int) or r != 1 else x
  return r


np.prod = prod

import json
_dumps = json.dumps


def plain(x):
  """The native value of a runtime container without symbolic parts."""
  from .data import ADict
  if isinstance(x, ADict):
    return {plain(k): plain(v) for k, v in x.pairs}
  if isinstance(x, dict):
    return {plain(k): plain(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return type(x)(plain(v) for v in x) if type(x) in (list, tuple) else \
        [plain(v) for v in x]
  return x


json.dumps = lambda x, *a, **k: _dumps(plain(x), *a, **k)
