"""P13: charges, for all integer values.  The real charge.py and index.py run on
object arrays of symbolic integers; sizes, label tables and flows are
enumerated.  The byte-level helpers `unique` and `intersect` of
block_sparse/utils.py (views of fixed-width integers) are replaced by their
contracts: which entries coincide is decided by the solver, the order of the
distinct entries is arbitrary."""
import itertools
import numpy as np
import z3
from tensornetwork.block_sparse import charge as ch
from tensornetwork.block_sparse import index as ix
from tensornetwork.block_sparse import blocksparse_utils as bu
from tensornetwork.block_sparse.charge import (BaseCharge, U1Charge, Z2Charge,
                                               ZNCharge)
from pyvc.contract import contract
from pyvc import core

C_ = "tensornetwork.block_sparse.charge:"
I_ = "tensornetwork.block_sparse.index:"
BU = "tensornetwork.block_sparse.blocksparse_utils:"
Z3, Z5 = ZNCharge(3), ZNCharge(5)
CLS = {"u1": U1Charge, "z2": Z2Charge, "z3": Z3, "z5": Z5}
MOD = {"u1": None, "z2": 2, "z3": 3, "z5": 5}
KINDS = [("u1",), ("z2",), ("u1", "u1"), ("z3",), ("u1", "z2")]
TRUSTED = ("block_sparse.utils.unique and intersect (byte views) by contract, "
           "their bodies are in the bounded scenarios",
           "fixed-width charges treated as mathematical integers")


# ---------------------------------------------------------------- oracle
def t(x):
  return core.z(x.item() if isinstance(x, np.generic) else x)


def fuse1(k, a, b):
  n = MOD[k]
  return a + b if n is None else (a + b) % n


def dual1(k, a):
  n = MOD[k]
  return -a if n is None else (n - a) % n


def fuse(kind, a, b):
  return tuple(fuse1(k, x, y) for k, x, y in zip(kind, a, b))


def dual(kind, a):
  return tuple(dual1(k, x) for k, x in zip(kind, a))


def fused(kind, lists, flows):
  out = None
  for l, f in zip(lists, flows):
    l = [dual(kind, b) if f else b for b in l]
    out = l if out is None else [fuse(kind, a, b) for a in out for b in l]
  return out


# -------------------------------------------------------------- symbolic data
def number(c, k, name):
  if c.concrete:
    r = c.rng(name)
    return int(r.randint(-2, 3)) if MOD[k] is None else int(r.randint(MOD[k]))
  return c.int(name) if MOD[k] is None else c.int(name, 0, MOD[k])


def values(c, kind, n, name):
  return [tuple(number(c, k, f"{name}{i}{j}") for j, k in enumerate(kind))
          for i in range(n)]


def array(c, vals, width):
  if c.concrete:
    return np.array(vals, dtype=np.int16).reshape(len(vals), width)
  a = np.empty((len(vals), width), dtype=object)
  for i, v in enumerate(vals):
    for j, x in enumerate(v):
      a[i, j] = x
  return a


def conj(fs):
  fs = [core.zbool(f) if not isinstance(f, (bool, np.bool_))
        else z3.BoolVal(bool(f)) for f in fs]
  return z3.And(fs) if fs else z3.BoolVal(True)


def same_row(a, b):
  """formula: the rows are equal"""
  return conj([t(x) == t(y) for x, y in zip(np.ravel(a), np.ravel(b))])


def equal(c, a, b):
  """decides whether two rows are equal (branches)"""
  if c.concrete:
    return tuple(a) == tuple(b)
  return core.CTX.branch(same_row(a, b))


def is_sym(a):
  return isinstance(a, np.ndarray) and a.dtype == object


class Shim:
  """numpy as charge.py sees it: membership in a range without branching"""

  def __init__(self, c):
    self.c = c

  def __getattr__(self, name):
    return getattr(np, name)

  def isin(self, a, allowed):
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
      out[i] = core.CTX.branch(
          z3.Or([t(a[i]) == int(v) for v in allowed]))
    return out


def model(c, one=False):
  """installs the contracts of `unique` and `intersect` (quick tier with `one`:
  a single choice of the direction in which all of them order their results)"""
  if c.concrete:
    return
  one = one and not c.thorough
  backward = one and c.env_pick(2) == 1

  def order(n):
    if one:
      return tuple(range(n))[::-1 if backward else 1]
    perms = list(itertools.permutations(range(n)))
    if not c.thorough and n > 2:
      perms = [perms[0], perms[3]]
    return c.env_pick(perms) if n > 1 else tuple(range(n))

  def groups(a):
    first, inv = [], []
    for i in range(len(a)):
      for g, j in enumerate(first):
        if core.CTX.branch(same_row(a[i], a[j])):
          inv.append(g)
          break
      else:
        inv.append(len(first))
        first.append(i)
    return first, inv

  real_unique = ch.unique
  real_intersect = ch.intersect

  def unique(a, return_index=False, return_inverse=False, return_counts=False,
             label_dtype=np.int32):
    a = np.asarray(a)
    if not is_sym(a):
      return real_unique(a, return_index, return_inverse, return_counts,
                         label_dtype)
    if a.ndim == 1 and not (return_index or return_inverse or return_counts):
      return a  # the set of values, as the constructors use it
    first, inv = groups(a)
    p = order(len(first))
    pos = {g: k for k, g in enumerate(p)}
    out = [a[[first[g] for g in p]]]
    if return_index:
      out.append(np.array([first[g] for g in p], dtype=np.int64))
    if return_inverse:
      out.append(np.array([pos[g] for g in inv], dtype=label_dtype))
    if return_counts:
      out.append(np.array([inv.count(g) for g in p], dtype=np.int64))
    return out if len(out) > 1 else out[0]

  def intersect(A, B, axis=0, assume_unique=False, return_indices=False):
    if not is_sym(A) and not is_sym(B):
      return real_intersect(A, B, axis, assume_unique, return_indices)
    if axis != 0 or A.ndim != B.ndim or A.shape[1:] != B.shape[1:]:
      raise core.Unsupported("intersection of arrays of different shape")
    first, _ = groups(A)
    pairs = []
    for i in first:
      for j in range(len(B)):
        if core.CTX.branch(same_row(A[i], B[j])):
          pairs.append((i, j))
          break
    p = order(len(pairs))
    ai = np.array([pairs[k][0] for k in p], dtype=np.int64)
    bi = np.array([pairs[k][1] for k in p], dtype=np.int64)
    C = A[ai]
    return [C, ai, bi] if return_indices else C

  for m in (ch, bu):
    c.patch_obj(m, "unique", unique)
    c.patch_obj(m, "intersect", intersect)
  c.patch_obj(ch, "np", Shim(c))


def direct(c, kind, vals):
  a = array(c, vals, len(kind))
  dt = a.dtype
  if len(kind) == 1:
    cls = CLS[kind[0]]
    return cls(a[:, 0], charge_dtype=dt)
  return BaseCharge(a, charge_types=[CLS[k] for k in kind], charge_dtype=dt)


STORAGES = ["direct", "compacted", "labels", "unused"]


def charge(c, kind, n, name, storage):
  """(charge object, list of its values); `labels`: an explicit table of
  distinct values and labels, `unused`: one of them without a label"""
  if storage in ("direct", "compacted") or n == 0:
    v = values(c, kind, n, name)
    q = direct(c, kind, v)
    if storage == "compacted":
      q.unique_charges  # pylint: disable=pointless-statement
    return q, v
  nu = min(n, 2)
  labels = [c.pick(nu) for _ in range(n)]
  if storage == "unused":
    drop = c.pick(nu + 1)
    labels = [l + (l >= drop) for l in labels]
    nu += 1
  if c.concrete:
    u = []
    for s in range(200):
      v = values(c, kind, 1, f"{name}u{s}")[0]
      if v not in u and len(u) < nu:
        u.append(v)
    if len(u) < nu:
      from pyvc.concrete import Fail
      raise Fail("skip: not that many values")
  else:
    u = values(c, kind, nu, name)
    for x, y in itertools.combinations(u, 2):
      c.assume(z3.Not(same_row(x, y)))
    if core.CTX.solver.check() == z3.unsat:
      raise core.EndPath()
  a = array(c, u, len(kind))
  if len(kind) == 1:
    q = CLS[kind[0]](a, np.array(labels), charge_dtype=a.dtype)
  else:
    q = BaseCharge(a, np.array(labels), [CLS[k] for k in kind], a.dtype)
  return q, [u[l] for l in labels]


def holds(c, name, q, want, kind):
  """the charge object stands for the list of values `want`"""
  got = np.asarray(q.charges)
  c.fact(f"{name}: number of entries",
         len(q) == len(want) and q.dim == len(want) and
         got.shape == (len(want), len(kind)),
         f"{got.shape}, {len(q)}, {q.dim}, {len(want)}")
  c.fact(f"{name}: charge types", list(q.charge_types) == [CLS[k] for k in kind],
         f"{q.charge_types}")
  if got.shape != (len(want), len(kind)):
    return
  if c.concrete:
    g = [tuple(int(x) for x in r) for r in got]
    c.fact(f"{name}: the values", g == [tuple(w) for w in want],
           f"{g} instead of {want}")
  else:
    c.prove(f"{name}: the values",
            conj([same_row(g, w) for g, w in zip(got, want)]))
  if q._unique_charges is not None:
    u = q._unique_charges
    for i, j in itertools.combinations(range(len(u)), 2):
      if c.concrete:
        c.fact(f"{name}: the stored values are distinct",
               tuple(u[i]) != tuple(u[j]), str(u))
      else:
        c.prove(f"{name}: the stored values are distinct",
                z3.Not(same_row(u[i], u[j])))


def unchanged(c, q, v, kind):
  holds(c, "operand unchanged", q, v, kind)


def repeat(fn):
  """on concrete values: several draws"""

  def run(c):
    if not c.concrete:
      return fn(c)
    picks, nd, seed = c.picks, c.nd, c.seed
    for s in range(25):
      c.pos, c.nd, c.seed = 0, nd, seed * 1000 + s
      try:
        fn(c)
      except Exception as e:  # pylint: disable=broad-except
        if not str(e).startswith("skip"):
          raise
      c.picks = picks
      if c.failures:
        return None
    return None

  run.__name__ = fn.__name__
  return run


def K(name, targets, limit=240):
  def deco(fn):
    fn = repeat(fn)
    fn.__name__ = name
    return contract("P13", targets, modes=("bounded",), limit=limit,
                    replay=True, trusted=TRUSTED)(fn)
  return deco


def eqs(c, name, got, want):
  if c.concrete:
    g, w = [int(x) for x in np.ravel(got)], [int(x) for x in np.ravel(want)]
    c.fact(name, g == w, f"{g} instead of {w}")
  else:
    c.fact(f"{name}: length", np.size(got) == np.size(want),
           f"{np.size(got)} {np.size(want)}")
    if np.size(got) == np.size(want):
      c.prove(name, same_row(got, want))


# --------------------------------------------------------------- the group
@K("group_law", [C_ + f"{k}.{f}" for k in ("U1Charge", "Z2Charge",
                                           "ZNCharge.ModularCharge")
                 for f in ("fuse", "dual_charges", "identity_charge")])
def group_law(c):
  k = c.pick(["u1", "z2", "z3", "z5"])
  cls, n = CLS[k], MOD[k]
  col = lambda xs: array(c, [(x,) for x in xs], 1)[:, 0]
  a = [number(c, k, f"a{i}") for i in range(2)]
  b = [number(c, k, f"b{i}") for i in range(3)]
  d = [number(c, k, "d")]
  A, B, D = col(a), col(b), col(d)
  ab = cls.fuse(A, B)
  eqs(c, "fuse: row-major order of the pairs", ab,
      [fuse1(k, x, y) for x in a for y in b])
  eqs(c, "associativity", cls.fuse(ab, D), cls.fuse(A, cls.fuse(B, D)))
  e = np.asarray([cls.identity_charge()], dtype=A.dtype)
  eqs(c, "identity on the right", cls.fuse(A, e), A)
  eqs(c, "identity on the left", cls.fuse(e, A), A)
  dA = cls.dual_charges(A)
  for i in range(2):
    eqs(c, "inverse", cls.fuse(A[i:i + 1], dA[i:i + 1]), e)
    eqs(c, "commutativity", cls.fuse(A[i:i + 1], D), cls.fuse(D, A[i:i + 1]))
  eqs(c, "the dual of the dual", cls.dual_charges(dA), A)
  if n is not None:
    for x in list(np.ravel(ab)) + list(np.ravel(dA)):
      if c.concrete:
        c.fact("closed", 0 <= int(x) < n, str(x))
      else:
        c.prove("closed", z3.And(t(x) >= 0, t(x) < n))
  eqs(c, "arguments unchanged", A, a)
  c.cover("end")


def setup(c, hi=2, lo=1, name="a", storages=None, kinds=KINDS, more=False):
  model(c)
  kind = c.pick(kinds if c.thorough else kinds[:1] + kinds[-2 if more else -1:])
  if not c.thorough and kind != ("u1",):
    hi, lo = 2, 2
  n = lo + c.pick(hi - lo + 1)
  q, v = charge(c, kind, n, name, c.pick(storages or STORAGES))
  return kind, q, v


def second(c, kind, n, name="b"):
  """the other operand of a binary operation"""
  return charge(c, kind, n, name,
                c.pick(STORAGES if c.thorough else ["direct", "labels"]))


@K("construction", [C_ + "BaseCharge." + f for f in (
    "__init__", "charges", "unique_charges", "charge_labels", "dim", "__len__",
    "num_unique", "copy", "__iter__", "identity_charges", "dtype")] +
   [C_ + "Z2Charge.__init__", C_ + "ZNCharge.ModularCharge.__init__"])
def construction(c):
  kind, q, v = setup(c, hi=3, more=True)
  holds(c, "construction", q, v, kind)
  p = c.value(q.copy)
  holds(c, "copy", p, v, kind)
  for x, y in ((p._charges, q._charges), (p._unique_charges, q._unique_charges),
               (p._charge_labels, q._charge_labels)):
    if x is not None and y is not None:
      c.fact("copy: independent storage", not np.shares_memory(x, y))
  rows = list(c.value(lambda: [r for r in q]))
  c.fact("iteration: number of entries", len(rows) == len(v), str(len(rows)))
  for r, w in zip(rows, v):
    eqs(c, "iteration", r, w)
  m = c.pick(3) + 1
  holds(c, "identity_charges", c.value(q.identity_charges, m),
        [(0,) * len(kind)] * m, kind)
  u, l = c.value(lambda: (q.unique_charges, q.charge_labels))
  c.fact("labels", len(l) == len(v) and all(0 <= int(x) < len(u) for x in l))
  eqs(c, "labels reproduce the charges", u[l, :], v)
  c.fact("num_unique", q.num_unique == len(u))
  holds(c, "after compaction", q, v, kind)
  c.cover("end")


@K("invalid_values", [C_ + "Z2Charge.__init__",
                      C_ + "ZNCharge.ModularCharge.__init__"])
def invalid_values(c):
  """values outside the group are refused"""
  model(c)
  k = c.pick(["z2", "z3"])
  n = MOD[k]
  if c.concrete:
    r = c.rng("x")
    v = [int(x) for x in r.randint(-3, n + 3, 2)]
  else:
    v = [c.int("x0"), c.int("x1")]
  o = c.call(direct, c, (k,), [(x,) for x in v])
  if c.concrete:
    c.fact("refused exactly outside the group",
           o.ok == all(0 <= x < n for x in v), str(v))
    return
  ok = z3.And([z3.And(t(x) >= 0, t(x) < n) for x in v])
  c.prove("refused exactly outside the group", ok if o.ok else z3.Not(ok))
  c.cover("end")


@K("duals", [C_ + "BaseCharge.dual", C_ + "BaseCharge.__mul__"])
def duals(c):
  kind, q, v = setup(c, hi=3, more=True)
  f = c.flag()
  want = [dual(kind, x) for x in v] if f else v
  holds(c, "dual", c.value(q.dual, f), want, kind)
  holds(c, "multiplication by a flow", c.value(lambda: q * f), want, kind)
  holds(c, "multiplication by a numpy flow",
        c.value(lambda: q * np.bool_(f)), want, kind)
  unchanged(c, q, v, kind)
  c.cover("end")


@K("addition", [C_ + "BaseCharge.__add__", C_ + "fuse_ndarray_charges"])
def addition(c):
  kind, q, v = setup(c, more=True)
  r, w = second(c, kind, 1 + c.pick(2))
  s = c.value(lambda: q + r)
  holds(c, "sum", s, [fuse(kind, x, y) for x in v for y in w], kind)
  if len(v) * len(w) <= 2:
    s.unique_charges  # pylint: disable=pointless-statement
    holds(c, "sum after compaction", s,
          [fuse(kind, x, y) for x in v for y in w], kind)
  unchanged(c, q, v, kind)
  unchanged(c, r, w, kind)
  c.cover("end")


@K("fuse_many", [C_ + "fuse_charges", C_ + "fuse_ndarray_charges"])
def fuse_many(c):
  """fuse_charges: row-major product, flows dualise; associativity of the
  result over the grouping"""
  model(c)
  kind = c.pick(KINDS if c.thorough else KINDS[:1] + KINDS[-2:])
  m = 1 + c.pick(3)
  wide = c.pick(m) if c.thorough else m // 2
  qs, vs, fl = [], [], []
  for i in range(m):
    n = 2 if i == wide else 1
    q, v = charge(c, kind, n, "abc"[i], ["direct", "labels", "direct"][i])
    qs.append(q)
    vs.append(v)
    fl.append(c.flag())
  want = fused(kind, vs, fl)
  holds(c, "fuse_charges", c.value(ch.fuse_charges, qs, fl), want, kind)
  if m == 3:
    right = c.value(lambda: (qs[0] * fl[0]) + ((qs[1] * fl[1]) +
                                               (qs[2] * fl[2])))
    holds(c, "other grouping", right, want, kind)
  for q, v in zip(qs, vs):
    unchanged(c, q, v, kind)
  o = c.call(ch.fuse_charges, qs, fl + [False])
  c.fact("different numbers of charges and flows are refused",
         not o.ok and isinstance(o.exc, ValueError))
  c.cover("end")


@K("product_types", [C_ + "BaseCharge.__matmul__"])
def product_types(c):
  model(c)
  ka, kb = c.pick([(("u1",), ("z2",)), (("u1",), ("u1",)),
                   (("u1", "z2"), ("z3",)), (("z3",), ("u1", "u1"))])
  n = 1 + c.pick(2)
  q, v = charge(c, ka, n, "a", c.pick(STORAGES))
  r, w = second(c, kb, n)
  p = c.value(lambda: q @ r)
  kind, want = ka + kb, [x + y for x, y in zip(v, w)]
  holds(c, "product", p, want, kind)
  f = c.flag()
  holds(c, "dual of a product", c.value(p.dual, f),
        [dual(kind, x) for x in want] if f else want, kind)
  holds(c, "sum of products", c.value(lambda: p + p),
        [fuse(kind, x, y) for x in want for y in want], kind)
  unchanged(c, q, v, ka)
  unchanged(c, r, w, kb)
  s, _ = charge(c, kb, n + 1, "c", "direct")
  o = c.call(lambda: q @ s)
  c.fact("different lengths are refused",
         not o.ok and isinstance(o.exc, ValueError))
  c.cover("end")


@K("selection", [C_ + "BaseCharge.__getitem__"])
def selection(c):
  kind, q, v = setup(c, hi=3)
  n = len(v)
  how = c.pick(3)
  if how == 0:
    i = c.pick(n)
    arg, want = c.pick([i, np.int64(i), i - n]), [v[i]]
  elif how == 1:
    idx = [c.pick(n) for _ in range(1 + c.pick(2))]
    arg, want = c.pick([idx, np.array(idx)]), [v[i] for i in idx]
  else:
    m = [c.flag() for _ in range(n)]
    arg, want = np.array(m), [x for x, k in zip(v, m) if k]
  holds(c, "selection", c.value(lambda: q[arg]), want, kind)
  unchanged(c, q, v, kind)
  c.cover("end")


def distinct(c, v):
  out = []
  for x in v:
    if not any(equal(c, x, y) for y in out):
      out.append(x)
  return out


@K("uniques", [C_ + "BaseCharge.unique"], limit=300)
def uniques(c):
  kind, q, v = setup(c, hi=3, kinds=[("u1",), ("z3",), ("u1", "z2")])
  ri, rv, rc = c.flag(), c.flag(), c.flag()
  out = c.value(q.unique, ri, rv, rc)
  if not (ri or rv or rc):
    out = [out]
  out = list(out)
  c.fact("number of results", len(out) == 1 + ri + rv + rc, str(len(out)))
  u = out.pop(0)
  got = [tuple(r) for r in u.charges]
  holds(c, "unique", u, got, kind)
  c.fact("label table of the unique charges",
         list(u.charge_labels) == list(range(len(got))), str(u.charge_labels))
  d = distinct(c, v)
  c.fact("number of distinct values", len(got) == len(d),
         f"{len(got)}, {len(d)}")
  pos = []
  for i, x in enumerate(v):
    p = [j for j, g in enumerate(got) if equal(c, x, g)]
    c.fact("every value occurs exactly once", len(p) == 1, str(p))
    pos.append(p[0] if p else -1)
  if ri:
    idx = [int(x) for x in out.pop(0)]
    c.fact("first occurrences", idx == [pos.index(j) for j in range(len(got))
                                        if j in pos], f"{idx} {pos}")
  if rv:
    inv = [int(x) for x in out.pop(0)]
    c.fact("inverse", inv == pos, f"{inv} {pos}")
  if rc:
    cnt = [int(x) for x in out.pop(0)]
    c.fact("counts", cnt == [pos.count(j) for j in range(len(got))],
           f"{cnt} {pos}")
  unchanged(c, q, v, kind)
  c.cover("end")


@K("reduction", [C_ + "BaseCharge.reduce"], limit=300)
def reduction(c):
  kind, q, v = setup(c, hi=3, kinds=[("u1",), ("z3",), ("u1", "z2")])
  m = c.pick(3)
  tv = values(c, kind, m, "t")
  if c.concrete:
    if len(set(tv)) < m:
      return
  else:
    for x, y in itertools.combinations(tv, 2):
      c.assume(z3.Not(same_row(x, y)))
    if core.CTX.solver.check() == z3.unsat:
      raise core.EndPath()
  arr = array(c, tv, len(kind))
  stride = c.pick([1, 3]) if c.thorough else 1 + m
  if len(kind) == 1 and (c.flag() if c.thorough else m == 1):
    arr = arr[:, 0]
  out, loc = c.value(q.reduce, arr, True, stride)
  keep = [i for i, x in enumerate(v) if any(equal(c, x, y) for y in tv)]
  holds(c, "reduce", out, [v[i] for i in keep], kind)
  c.fact("locations", [int(x) for x in loc] == [stride * i for i in keep],
         f"{loc} {keep}")
  holds(c, "reduce without locations", c.value(q.reduce, arr),
        [v[i] for i in keep], kind)
  unchanged(c, q, v, kind)
  c.cover("end")


@K("intersection", [C_ + "BaseCharge.intersect"], limit=300)
def intersection(c):
  kind, q, v = setup(c, hi=2, kinds=[("u1",), ("z3",), ("u1", "z2")],
                     storages=None if c.thorough else ["direct", "unused"])
  m = 1 + c.pick(2)
  r, w = second(c, kind, m)
  arg = c.pick([r, None])
  if arg is None:
    arg = array(c, w, len(kind))
    if len(kind) == 1 and (c.flag() if c.thorough else m == 1):
      arg = arg[:, 0]
  out, ia, ib = c.value(q.intersect, arg, False, True)
  got = [tuple(x) for x in out.charges]
  holds(c, "intersect", out, got, kind)
  d = [x for x in distinct(c, v) if any(equal(c, x, y) for y in w)]
  c.fact("number of common values", len(got) == len(d), f"{len(got)} {len(d)}")
  for j, g in enumerate(got):
    a = [i for i, x in enumerate(v) if equal(c, x, g)]
    b = [i for i, x in enumerate(w) if equal(c, x, g)]
    c.fact("common to both", bool(a) and bool(b), f"{a} {b}")
    c.fact("first occurrences", a[:1] == [int(ia[j])] and b[:1] == [int(ib[j])],
           f"{a} {ia[j]} {b} {ib[j]}")
  e = c.value(q.intersect, arg)
  c.fact("without indices", len(e) == len(d), f"{len(e)} {len(d)}")
  unchanged(c, q, v, kind)
  unchanged(c, r, w, kind)
  c.cover("end")


@K("comparison", [C_ + "BaseCharge.__eq__"], limit=300)
def comparison(c):
  kind, q, v = setup(c, hi=2, kinds=[("u1",), ("z3",), ("u1", "z2")],
                     storages=None if c.thorough else ["direct", "unused"])
  m = 1 + (c.pick(2) if c.thorough or kind == ("u1",) else 0)
  r, w = second(c, kind, m)
  arg = c.pick([r, None])
  if arg is None:
    arg = array(c, w, len(kind))
    if len(kind) == 1 and (c.flag() if c.thorough else m == 1):
      arg = arg[:, 0]
  out = np.asarray(c.value(lambda: q == arg))
  c.fact("shape", out.shape == (len(v), len(w)), str(out.shape))
  if out.shape != (len(v), len(w)):
    return
  for i, j in np.ndindex(*out.shape):
    c.fact("the entries that are equal", bool(out[i, j]) ==
           equal(c, v[i], w[j]), f"{i} {j} {out[i, j]}")
  unchanged(c, q, v, kind)
  c.cover("end")


def all_equal(c, v, w):
  return len(v) == len(w) and all(equal(c, x, y) for x, y in zip(v, w))


@K("whole_charges", [C_ + "charge_equal"], limit=300)
def whole_charges(c):
  kind, q, v = setup(c, hi=2)
  m = 1 + c.pick(2)
  r, w = second(c, kind, m)
  got = c.value(ch.charge_equal, q, r)
  c.fact("charge_equal", bool(got) == all_equal(c, v, w), f"{got}")
  c.fact("charge_equal of a copy", bool(c.value(ch.charge_equal, q, q.copy())))
  c.cover("end")


# ----------------------------------------------------------------- indices
@K("indices", [I_ + "Index." + f for f in (
    "charges", "flip_flow", "__mul__", "copy", "dim", "__len__",
    "flat_charges", "flat_flows")] + [I_ + "fuse_indices", I_ + "fuse_index_pair"])
def indices(c):
  model(c)
  kind = c.pick([("u1",), ("z3",), ("u1", "z2")])
  m = 1 + c.pick(2)
  legs, vals, flows = [], [], []
  for i in range(m):
    q, v = charge(c, kind, 1 + (i == 0), "ab"[i], c.pick(STORAGES[:3]))
    f = c.flag()
    legs.append(ix.Index(q, f))
    vals.append(v)
    flows.append(f)
  one = c.value(ix.fuse_indices, legs)
  want = fused(kind, vals, flows)
  holds(c, "charges of a fused index", c.value(lambda: one.charges), want, kind)
  c.fact("dimension", one.dim == len(want) and len(one) == len(want),
         str(one.dim))
  c.fact("elementary legs", [bool(f) for f in one.flat_flows] == flows and
         len(one.flat_charges) == m, str(one.flat_flows))
  flip = c.value(one.flip_flow)
  holds(c, "opposite flow", c.value(lambda: flip.charges),
        fused(kind, vals, [not f for f in flows]), kind)
  holds(c, "twice the opposite flow",
        c.value(lambda: flip.flip_flow().charges), want, kind)
  if m == 2:
    holds(c, "product of indices", c.value(lambda: (legs[0] * legs[1]).charges),
          want, kind)
  cp = c.value(one.copy)
  holds(c, "copy of an index", c.value(lambda: cp.charges), want, kind)
  for x, y in zip(cp.flat_charges, one.flat_charges):
    c.fact("copy: own charges", x is not y)
  c.fact("copy: own flows", cp.flow is not one.flow)
  for l, v, f in zip(legs, vals, flows):
    holds(c, "operand unchanged", l.flat_charges[0], v, kind)
    c.fact("flow unchanged", [bool(x) for x in l.flow] == [f])
  c.cover("end")


@K("index_equality", [I_ + "Index.__eq__"])
def index_equality(c):
  kind, q, v = setup(c, hi=2, kinds=[("u1",), ("u1", "z2")],
                     storages=STORAGES[:3])
  r, w = charge(c, kind, 1 + c.pick(2), "b", c.pick(STORAGES[:2]))
  f, g = c.flag(), c.flag()
  got = c.value(lambda: ix.Index(q, f) == ix.Index(r, g))
  c.fact("equal charges and equal flows",
         bool(got) == (f == g and all_equal(c, v, w)), f"{got} {f} {g}")
  i = ix.Index(q, f)
  c.fact("a copy is equal", bool(c.value(lambda: i == i.copy())))
  c.fact("not equal to a fused index", not (i == i * i))
  c.cover("end")


# ---------------------------------------------------------- block bookkeeping
def labelled(c, kind, nu, labels, name):
  """a charge with `nu` distinct values and the given label table"""
  if c.concrete:
    u = []
    for s in range(200):
      v = values(c, kind, 1, f"{name}u{s}")[0]
      if v not in u and len(u) < nu:
        u.append(v)
    if len(u) < nu:
      from pyvc.concrete import Fail
      raise Fail("skip: not that many values")
  else:
    u = values(c, kind, nu, name)
    for x, y in itertools.combinations(u, 2):
      c.assume(z3.Not(same_row(x, y)))
    if core.CTX.solver.check() == z3.unsat:
      raise core.EndPath()
  a, lab = array(c, u, len(kind)), np.array(labels, dtype=np.int16)
  if len(kind) == 1:
    q = CLS[kind[0]](a, lab, charge_dtype=a.dtype)
  else:
    q = BaseCharge(a, lab, [CLS[k] for k in kind], a.dtype)
  return q, u


def weighted(kind, us, counts, flows):
  """(fused value, how many combinations of entries) for distinct entries"""
  out = None
  for u, n, f in zip(us, counts, flows):
    l = [(dual(kind, x) if f else x, k) for x, k in zip(u, n)]
    out = l if out is None else [(fuse(kind, a, b), m * k) for a, m in out
                                 for b, k in l]
  return out


SIZES = {1: [(3,), (20001,)], 2: [(2, 3), (150, 140)],
         3: [(2, 1, 2), (3, 25, 270)]}


@K("degeneracies", [BU + f for f in (
    "compute_fused_charge_degeneracies", "compute_unique_fused_charges",
    "compute_num_nonzero")])
def degeneracies(c):
  """every fused charge once, with the number of entries that have it; also on
  the path for more than 20000 entries"""
  model(c, one=True)
  kind = c.pick([("u1",), ("z2",), ("u1", "z2")] if c.thorough
                else [("u1",), ("z2",)])
  m = 1 + c.pick(3)
  dims = c.pick(SIZES[m])
  qs, us, counts, fl = [], [], [], []
  for i, d in enumerate(dims):
    nu = 2 if d > 1 and (i != 1 or m < 3) else 1
    labels = [(k * k) % 3 % nu for k in range(d)]
    q, u = labelled(c, kind, nu, labels, "abc"[i])
    qs.append(q)
    us.append(u)
    counts.append([labels.count(k) for k in range(nu)])
    fl.append(c.flag() if i < (2 if c.thorough else 1) else not fl[0])
  want = weighted(kind, us, counts, fl)
  u, deg = c.value(bu.compute_fused_charge_degeneracies, qs, fl)
  got = [tuple(r) for r in u.charges]
  c.fact("one number per charge", len(got) == len(deg), f"{len(got)} {deg}")
  for i, g in enumerate(got):
    c.fact("the charges are distinct",
           not any(equal(c, g, h) for h in got[:i]), str(got))
    n = sum(k for v, k in want if equal(c, v, g))
    c.fact("number of entries with that charge", int(deg[i]) == n and n > 0,
           f"{deg[i]} instead of {n}")
  c.fact("all entries are counted", int(sum(deg)) == int(np.prod(dims)),
         f"{list(deg)} {dims}")
  v = c.value(bu.compute_unique_fused_charges, qs, fl)
  h = [tuple(r) for r in v.charges]
  c.fact("the same charges", len(h) == len(got) and all(
      sum(equal(c, x, y) for y in got) == 1 for x in h), f"{h} {got}")
  e = tuple(0 for _ in kind)
  n = sum(k for x, k in want if equal(c, x, e))
  c.fact("number of symmetric elements",
         int(c.value(bu.compute_num_nonzero, qs, fl)) == n, f"not {n}")
  c.cover("end")


@K("kept_positions", [BU + "reduce_charges", BU + "compute_sparse_lookup"],
   limit=300)
def kept_positions(c):
  model(c, one=True)
  kind = c.pick([("u1",), ("z2",), ("u1", "z2")] if c.thorough
                else [("u1",), ("z2",)])
  dims = c.pick([(2,), (2, 2), (3, 1), (1, 2, 2), (2, 1, 2)] if c.thorough
                else [(2,), (2, 2), (1, 2, 2)])
  m = len(dims)
  qs, vs, fl = [], [], []
  for i, d in enumerate(dims):
    nu = min(d, 2) if i != 1 or m == 2 else 1
    labels = [(i + k) % nu for k in range(d)]
    q, u = labelled(c, kind, nu, labels, "abc"[i])
    qs.append(q)
    vs.append([u[k] for k in labels])
    fl.append(c.flag() if i < (2 if c.thorough else 1) else not fl[0])
  want = fused(kind, vs, fl)
  k = c.pick([1, 2, 0]) if c.thorough else 2 - (m == 3)
  tv = values(c, kind, k, "t")
  if c.concrete:
    if len(set(tv)) < k:
      return
  else:
    for x, y in itertools.combinations(tv, 2):
      c.assume(z3.Not(same_row(x, y)))
    if core.CTX.solver.check() == z3.unsat:
      raise core.EndPath()
  arr = array(c, tv, len(kind))
  p = c.pick(list(itertools.permutations(range(m))))
  plain = p == tuple(range(m))
  st = [0] * m
  for n, i in enumerate(p):
    st[i] = int(np.prod([dims[j] for j in p[n + 1:]], dtype=int))
  pos = [sum(s * x for s, x in zip(st, idx))
         for idx in itertools.product(*map(range, dims))]
  out, loc = c.value(bu.reduce_charges, qs, fl, arr, True,
                     None if plain and (not c.thorough or c.flag()) else np.array(st, np.uint32))
  keep = [any(equal(c, x, y) for y in tv) for x in want]
  kept = [x for x, y in zip(want, keep) if y]
  holds(c, "reduce_charges", out, kept, kind)
  c.fact("locations", [int(x) for x in loc] ==
         [x for x, y in zip(pos, keep) if y], f"{loc} {pos} {keep}")
  if plain:
    holds(c, "reduce_charges without locations",
          c.value(bu.reduce_charges, qs, fl, arr), kept, kind)
    if k:
      tq = direct(c, kind, tv)
      look, uq, lab = c.value(bu.compute_sparse_lookup, qs, fl, tq)
      u = [tuple(r) for r in uq.charges]
      c.fact("lookup: one entry per kept element", len(look) == len(kept),
             f"{look} {kept}")
      for i, x in zip(look, kept):
        c.fact("lookup: the charge of the element", equal(c, u[int(i)], x),
               f"{look} {u} {kept}")
      lab = [int(i) for i in lab]
      c.fact("lookup: the labels of the charges found",
             lab == sorted(set(lab)) and all(
                 (i in lab) == any(equal(c, x, y) for y in tv)
                 for i, x in enumerate(u)), f"{lab} {u} {tv}")
  c.cover("end")
