"""P15: block-sparse decompositions, for all elements.  The dense kernels
(numpy.linalg) are replaced by their contracts per block: indeterminate factors
whose product is the block and whose Gram matrices are the identity.  The real
sector bookkeeping must then reassemble factors with the same relations."""
import itertools
import warnings
import numpy as np
import tensornetwork.block_sparse as bs
from tensornetwork.block_sparse import linalg as bl
from tensornetwork.block_sparse.blocksparsetensor import ChargeArray
from tensornetwork.backends.symmetric import decompositions as sd
from tensornetwork.backends.symmetric.symmetric_backend import SymmetricBackend
from pyvc.contract import contract
from contracts.bslib import *
from contracts.p14_blocksparse import cases, U1, Z2, Z3, UZ

warnings.filterwarnings("ignore", message="svd_decomposition truncated")

L_ = "tensornetwork.block_sparse.linalg:"
S_ = "tensornetwork.backends.symmetric.decompositions:"
SB_ = "tensornetwork.backends.symmetric.symmetric_backend:SymmetricBackend."
U_ = "tensornetwork.block_sparse.blocksparse_utils:"


class Kernels:
  """numpy.linalg with contracts instead of algorithms.  Relations: a dictionary
  from polynomials to the value their contract gives them."""

  def __init__(self, c, spectra=None):
    self.c, self.n, self.rel, self.spectra = c, 0, {}, spectra
    self.hermitian = {}
    self.used = []

  def __getattr__(self, name):
    return getattr(np.linalg, name)

  def fresh(self, name, m, n):
    return elements(self.c, f"{name}{self.n}", (m, n))

  def relate(self, lhs, rhs):
    for x, y in zip(lhs.ravel(), rhs.ravel()):
      self.rel[Poly.of(x).key()] = Poly.of(y)

  def gram(self, q, columns):
    m = q.conj().T @ q if columns else q @ q.conj().T
    self.relate(m, np.eye(len(m), dtype=int).astype(object))

  def svd(self, a, full_matrices=True, compute_uv=True, hermitian=False):
    self.n += 1
    m, n = a.shape
    k = min(m, n)
    if self.c.concrete:
      r = np.linalg.svd(a, full_matrices, compute_uv)
      return r
    if self.spectra is not None:
      s = np.array(self.spectra(k), dtype=float)
    else:
      s = elements(self.c, f"s{self.n}", (k,))
    if not compute_uv:
      return s
    u = self.fresh("u", m, m if full_matrices else k)
    v = self.fresh("w", n if full_matrices else k, n)
    S = [Poly.of(x) for x in s]
    self.relate(_prod3(u, S, v), a)
    self.gram(u, True)
    self.gram(v, False)
    self.used.append((a, u, s, v))
    return u, s, v

  def qr(self, a, mode="reduced"):
    self.n += 1
    if self.c.concrete:
      return np.linalg.qr(a, mode)
    m, n = a.shape
    k = m if mode == "complete" else min(m, n)
    q, r = self.fresh("q", m, k), self.fresh("r", k, n)
    for i in range(k):
      for j in range(min(i, n)):
        r[i, j] = 0
    self.gram(q, True)
    self.relate(_dot(q, r), a)
    if mode == "r":
      return r
    return q, r

  def eigh(self, a, uplo="L"):
    self.n += 1
    if self.c.concrete:
      return np.linalg.eigh(a, uplo)
    n = len(a)
    e, v = elements(self.c, f"e{self.n}", (n,)), self.fresh("v", n, n)
    self.gram(v, True)
    # a v = v e
    self.relate(_dot(a, v), v * e)
    return e, v

  def eig(self, a):
    self.n += 1
    if self.c.concrete:
      return np.linalg.eig(a)
    n = len(a)
    e, v = elements(self.c, f"e{self.n}", (n,)), self.fresh("v", n, n)
    self.relate(_dot(a, v), v * e)
    return e, v

  def inv(self, a):
    self.n += 1
    if self.c.concrete:
      return np.linalg.inv(a)
    x = self.fresh("i", *a.shape[::-1])
    one = np.eye(len(a), dtype=int).astype(object)
    self.relate(_dot(a, x), one)
    self.relate(_dot(x, a), one)
    return x

  def pinv(self, a, rcond=1e-15, hermitian=False):
    self.n += 1
    if self.c.concrete:
      return np.linalg.pinv(a, rcond=rcond)
    x = self.fresh("i", *a.shape[::-1])
    self.relate(_dot(_dot(a, x), a), a)
    self.relate(_dot(_dot(x, a), x), x)
    ax, xa = _dot(a, x), _dot(x, a)
    self.relate(ax.conj().T, ax)
    self.relate(xa.conj().T, xa)
    return x

  def holds(self, lhs, rhs):
    """lhs = rhs follows from the relations"""
    lhs, rhs = np.asarray(lhs), np.asarray(rhs)
    if lhs.shape != rhs.shape:
      return False
    if self.c.concrete:
      return np.allclose(lhs.astype(complex), rhs.astype(complex), atol=1e-8)
    for x, y in zip(lhs.ravel(), rhs.ravel()):
      x, y = Poly.of(x), Poly.of(y)
      if x == y:
        continue
      r = self.rel.get(x.key())
      if r is None or not r == y:
        return False
    return True


def _dot(a, b):
  return dot(a, b, ([1], [0]))


def _prod3(u, s, v):
  """u diag(s) v where s may be shorter than the bonds"""
  k = len(s)
  us = np.empty((u.shape[0], k), dtype=object)
  for j in range(k):
    for i in range(u.shape[0]):
      us[i, j] = u[i, j] * s[j]
  return _dot(us, v[:k])


def install(c, K):
  """the module's `np.linalg` becomes K (its other uses of numpy stay)"""

  class NP:

    def __getattr__(self, name):
      return K if name == "linalg" else getattr(np, name)

  proxy = NP()
  for mod in (bl, sd):
    c.patch_obj(mod, "np", proxy)
    c.patch_obj(mod, "get_real_dtype", (lambda d: np.float64))


def dense(c, what, t, kind, axes):
  """legs of a factor are as expected -> its dense form"""
  legs = [l for a in axes for l in a]
  shape = tuple(int(np.prod([l.dim for l in a], dtype=int)) for a in axes)
  ok = tuple(map(int, t.shape)) == shape and \
      [bool(f) for f in t.flat_flows] == [l.flow for l in legs] and \
      [plain(q) for q in t.flat_charges] == [list(l.vals) for l in legs] and \
      [len(o) for o in t._order] == [len(a) for a in axes] and \
      t.data.size == int(mask(kind, legs).sum())
  c.fact(f"{what}: charge-conserving tensor with the expected legs", ok,
         f"shape {t.shape}, {t.data.size} elements, charges "
         f"{[plain(q) for q in t.flat_charges]}, flows {list(t.flat_flows)}; "
         f"expected {describe(axes)}")
  return np.asarray(t.todense()).reshape(shape) if ok else None


def bond(c, what, kind, t, axis):
  cs, fs = t.charges[axis], t.flows[axis]
  c.fact(f"{what}: the new bond is one leg", len(cs) == 1 and len(fs) == 1)
  return Leg(kind, plain(cs[0]), bool(fs[0]))


def matrix(c, quick, thorough):
  kind, dims = cases(c, quick, thorough)
  rows = [pick_leg(c, kind, d) for d in dims[0]]
  cols = [pick_leg(c, kind, d) for d in dims[1]]
  axes = [rows, cols]
  shape = tuple(int(np.prod([l.dim for l in a])) for a in axes)
  A = sym(kind, axes, elements(c, "a", shape))
  n = len(rows) + len(cols)
  st = some(c, itertools.permutations(range(n)), 2, describe(axes))
  return kind, axes, A, st


QUICK = [(Z2, ((2, 2), (3,))), (U1, ((3,), (2,))), (U1, ((2,), (1, 2)))]
MORE = [(U1, ((3,), (3,))), (U1, ((2, 2), (2,))), (Z3, ((2,), (2, 2))),
        (UZ, ((2,), (2,))), (UZ, ((1, 2), (1,)))]


def sector_count(kind, axes):
  r = fuse_lists(kind, [l.vals for l in axes[0]], [l.flow for l in axes[0]])
  q = fuse_lists(kind, [l.vals for l in axes[1]], [not l.flow for l in axes[1]])
  return {x: (r.count(x), q.count(x)) for x in set(r) & set(q)}


@contract("P15", [L_ + "svd", U_ + "_find_transposed_diagonal_sparse_blocks"],
          modes=("bounded",), replay=True, limit=120,
          trusted=("numpy.linalg.svd per block",),
          note="all elements; matrices with one or two legs per side, all "
          "charges, flows, dimensions up to three")
def svd(c):
  kind, axes, A, st = matrix(c, QUICK, MORE)
  full = c.flag("full_matrices")
  for p in st:
    K = Kernels(c)
    install(c, K)
    a = stored(kind, axes, A, p)
    u, s, v = c.value(bl.svd, a, full)
    bu, bv = bond(c, "u", kind, u, 1), bond(c, "v", kind, v, 0)
    U = dense(c, "u", u, kind, [axes[0], [bu]])
    V = dense(c, "v", v, kind, [[bv], axes[1]])
    sq = plain(s.charges[0][0])
    secs = sector_count(kind, axes)
    want = {q: min(x) for q, x in secs.items()}
    ok = all(sq.count(q) == want[q] for q in want) and \
        len(sq) == sum(want.values()) == len(s.data)
    c.fact("one singular value per sector dimension", ok, f"{sq} for {secs}")
    for q, (m, n) in secs.items():
      c.fact("bond dimension of every sector",
             bu.vals.count(q) == (m if full else min(m, n)) and
             bv.vals.count(q) == (n if full else min(m, n)),
             f"{bu.vals} {bv.vals} for {secs}, full_matrices={full}")
    if U is None or V is None or not ok:
      return
    S = np.zeros((len(bu.vals), len(bv.vals)), dtype=object)
    for q in secs:
      for i, j, x in zip([i for i, y in enumerate(bu.vals) if y == q],
                         [i for i, y in enumerate(bv.vals) if y == q],
                         [s.data[i] for i, y in enumerate(sq) if y == q]):
        S[i, j] = x
    c.fact("the bonds of u and v are opposite", bu.flow != bv.flow)
    c.fact("u s v = matrix", K.holds(_dot(_dot(U, S), V), A), describe(axes))
    c.fact("u is isometric", K.holds(_dot(np.conj(U).T, U), np.eye(U.shape[1])),
           describe(axes))
    c.fact("v is isometric", K.holds(_dot(V, np.conj(V).T), np.eye(V.shape[0])),
           describe(axes))
    agree(c, "operand", a, axes, A, kind)
    K2 = Kernels(c)
    install(c, K2)
    s2 = c.value(bl.svd, a, full, False)
    c.fact("singular values alone", eq(c, s2.data, s.data) and
           plain(s2.charges[0][0]) == sq)
  c.cover()


@contract("P15", [L_ + "qr", S_ + "qr", S_ + "rq", S_ + "_regroup",
                  SB_ + "qr", SB_ + "rq"],
          modes=("bounded",), replay=True, limit=120,
          trusted=("numpy.linalg.qr per block",),
          note="all elements; one or two legs per side, all charges and flows")
def qr_rq(c):
  kind, axes, A, st = matrix(c, QUICK, MORE)
  how = c.pick(["reduced", "complete", "r", "tensor qr", "tensor rq"])
  # the tensor with one axis per leg
  flat = [[l] for a in axes for l in a]
  npiv = len(axes[0])
  secs = sector_count(kind, axes)
  for p in st:
    K = Kernels(c)
    install(c, K)
    if how in ("tensor qr", "tensor rq"):
      T = A.reshape(tuple(l[0].dim for l in flat))
      a = stored(kind, flat, T, p)
      be = SymmetricBackend()
      q, r = c.value(be.qr if how == "tensor qr" else be.rq, a, npiv)
      bq = bond(c, "first factor", kind, q, q.ndim - 1)
      br = bond(c, "second factor", kind, r, 0)
      Q = dense(c, "first factor", q, kind, flat[:npiv] + [[bq]])
      R = dense(c, "second factor", r, kind, [[br]] + flat[npiv:])
      agree(c, "operand", a, flat, T, kind)
      if Q is None or R is None:
        return
      Q, R = Q.reshape(A.shape[0], bq.dim), R.reshape(br.dim, A.shape[1])
      c.fact(f"{how}: the bonds match", bq.vals == br.vals and
             bq.flow != br.flow)
      if how == "tensor qr":
        c.fact("q r = tensor", K.holds(_dot(Q, R), A), describe(axes))
        iso = _dot(np.conj(Q).T, Q)
      else:
        # conj(r q) is what the block contracts speak about
        c.fact("r q = tensor", K.holds(np.conj(_dot(Q, R)).T, np.conj(A).T),
               describe(axes))
        iso = np.conj(_dot(R, np.conj(R).T))
      c.fact(f"{how}: the orthogonal factor is isometric",
             K.holds(iso, np.eye(len(iso))), describe(axes))
      c.fact(f"{how}: bond dimension", bq.dim == sum(min(x) for x in
                                                     secs.values()))
      continue
    a = stored(kind, axes, A, p)
    out = c.value(bl.qr, a, how)
    q, r = out if how != "r" else (None, out)
    br = bond(c, "r", kind, r, 0)
    R = dense(c, "r", r, kind, [[br], axes[1]])
    agree(c, "operand", a, axes, A, kind)
    for s, (m, n) in secs.items():
      c.fact("bond dimension of every sector", br.vals.count(s) ==
             (m if how == "complete" else min(m, n)), f"{br.vals} for {secs}")
    if q is None or R is None:
      continue
    bq = bond(c, "q", kind, q, 1)
    Q = dense(c, "q", q, kind, [axes[0], [bq]])
    if Q is None:
      return
    c.fact("the bonds of q and r match", bq.vals == br.vals and
           bq.flow != br.flow)
    c.fact("q r = matrix", K.holds(_dot(Q, R), A), describe(axes))
    c.fact("q is isometric", K.holds(_dot(np.conj(Q).T, Q),
                                     np.eye(Q.shape[1])), describe(axes))
  c.cover()


@contract("P15", [L_ + "eigh", L_ + "eig", L_ + "inv", L_ + "pinv"],
          modes=("bounded",), replay=True, limit=120,
          trusted=("numpy.linalg.eigh, eig, inv, pinv per block",),
          note="all elements; square matrices with one or two legs per side")
def eigen_inverse(c):
  kind, dims = cases(c, [(Z2, (2, 2)), (U1, (3,)), (U1, (2, 1))],
                     [(U1, (2, 2)), (Z3, (2, 2)), (UZ, (3,)), (UZ, (2, 1))])
  rows = [pick_leg(c, kind, d) for d in dims]
  axes = [rows, [l.conj() for l in rows]]
  n = int(np.prod(dims))
  E = elements(c, "a", (n, n))
  if c.concrete:
    E = E + E.conj().T + 9 * np.eye(n)
  A = sym(kind, axes, E)
  how = c.pick(["eigh", "eig", "inv", "pinv"])
  for p in some(c, itertools.permutations(range(2 * len(dims))), 2,
                describe(axes)):
    K = Kernels(c)
    install(c, K)
    a = stored(kind, axes, A, p)
    if how in ("inv", "pinv"):
      x = c.value(getattr(bl, how), a)
      X = dense(c, how, x, kind, [[l.conj() for l in axes[1]],
                                  [l.conj() for l in axes[0]]])
      if X is None:
        return
      if how == "inv":
        c.fact("a inv(a) = 1", K.holds(_dot(A, X), np.eye(n)), describe(axes))
        c.fact("inv(a) a = 1", K.holds(_dot(X, A), np.eye(n)), describe(axes))
      else:
        ax, xa = _dot(A, X), _dot(X, A)
        c.fact("a x a = a", K.holds(_dot(ax, A), A), describe(axes))
        c.fact("x a x = x", K.holds(_dot(xa, X), X), describe(axes))
        c.fact("a x is hermitian", K.holds(ax.conj().T, ax), describe(axes))
        c.fact("x a is hermitian", K.holds(xa.conj().T, xa), describe(axes))
    else:
      e, v = c.value(getattr(bl, how), a)
      b = bond(c, "v", kind, v, 1)
      V = dense(c, "eigenvectors", v, kind, [axes[0], [b]])
      q = plain(e.charges[0][0])
      c.fact("charges of the eigenvalues", q == b.vals and
             sorted(q) == sorted(fuse_lists(kind, [l.vals for l in rows],
                                            [l.flow for l in rows])),
             f"{q} {b.vals}")
      if V is None or len(e.data) != V.shape[1]:
        c.fact("one eigenvalue per vector", False)
        return
      c.fact("a v = v e", K.holds(_dot(A, V), V * np.asarray(e.data)),
             describe(axes))
      if how == "eigh":
        c.fact("eigenvectors are orthonormal",
               K.holds(_dot(np.conj(V).T, V), np.eye(n)), describe(axes))
    agree(c, "operand", a, axes, A, kind)
  c.cover()


@contract("P15", [S_ + "svd", S_ + "_regroup", S_ + "_num_legs", SB_ + "svd"],
          modes=("bounded",), replay=False, limit=200,
          trusted=("numpy.linalg.svd per block",),
          note="all elements; spectra enumerated over all order patterns with "
          "ties and zeros; every max_singular_values, several error bounds")
def truncation(c):
  kind, vals = c.pick([
      (U1, ([0, 1, 0, 1], [0, 1, 1, 0])), (U1, ([0, 0, 0, 1], [1, 0, 0])),
      (Z2, ([0, 1, 1], [1, 0, 1])), (U1, ([0, 1, 2], [2, 1, 0, 0])),
      (U1, ([0, 1], [2, 3])), (U1, ([0, 0], [1, 0, 0]))])
  row, col = (Leg(kind, [(x,) for x in v], f)
              for v, f in zip(vals, (False, True)))
  split = c.flag("several legs")
  axes = [[row], [col]]
  if split:
    axes = [[row], [Leg(kind, [(0,)], c.flag())], [col]]
  npiv = c.pick([1, 2]) if split else 1
  A = sym(kind, axes, elements(c, "a", tuple(a[0].dim for a in axes)))
  levels = [2.0, 1.0, 0.0]

  def spectra(k):
    out, lo = [], 0
    for _ in range(k):
      lo += c.pick(len(levels) - lo) if lo < len(levels) - 1 else 0
      out.append(levels[lo])
    return out

  K = Kernels(c, spectra)
  install(c, K)
  a = stored(kind, axes, A, tuple(range(len(axes)))[::-1])
  D = c.pick([None, 0, 1, 2, 3])
  err, rel = c.pick([(None, False), (0.0, False), (1.5, False), (0.75, True),
                     (1.0, False), (9.0, False)])
  be = SymmetricBackend()
  u, s, v, d = c.value(be.svd, a, npiv, D, err, rel)
  allv = sorted((x for b in K.used for x in b[2]), reverse=True)
  n = len(allv)
  k = n
  if err is not None:
    bound = err * (allv[0] if rel and n else 1)
    te = np.sqrt(np.cumsum(np.square(np.array(allv[::-1], dtype=float))))
    k = int(np.count_nonzero(te > bound))
  if D is not None:
    k = min(k, D)
  c.fact("the number of singular values kept follows the dense rule",
         s.shape[0] == k == len(s.data), f"{s.shape[0]} instead of {k} of {allv}"
         f" (max {D}, error {err}, relative {rel})")
  c.fact("the largest singular values are kept",
         sorted(s.data, reverse=True) == allv[:k], f"{list(s.data)} of {allv}")
  c.fact("all others are reported as discarded",
         sorted(d.data, reverse=True) == allv[k:], f"{list(d.data)} of {allv}, "
         f"kept {list(s.data)}")
  bu, bv = bond(c, "u", kind, u, u.ndim - 1), bond(c, "v", kind, v, 0)
  q = plain(s.charges[0][0])
  c.fact("the charges of u, s and v match", q == bu.vals == bv.vals and
         bu.flow != bv.flow, f"{q} {bu.vals} {bv.vals}")
  U = dense(c, "u", u, kind, axes[:npiv] + [[bu]])
  V = dense(c, "v", v, kind, [[bv]] + axes[npiv:])
  if U is None or V is None or len(s.data) != bu.dim or bu.dim != bv.dim:
    return
  # column n of u, value n and row n of v come from one triple of one block
  rows = int(np.prod(A.shape[:npiv]))
  U = U.reshape(rows, bu.dim)
  V = V.reshape(bu.dim, int(np.prod(A.shape[npiv:])))
  seen = set()
  for n_ in range(bu.dim):
    uc = {Poly.of(x).key() for x in U[:, n_] if Poly.of(x)}
    vr = {Poly.of(x).key() for x in V[n_] if Poly.of(x)}
    hit = [(b, i) for b, (_, bu_, bs_, bv_) in enumerate(K.used)
           for i in range(len(bs_)) if bs_[i] == s.data[n_] and
           {x.key() for x in bu_[:, i]} == uc and
           {x.key() for x in bv_[i]} == vr]
    c.fact("singular vectors belong to their singular value",
           len(hit) == 1 and hit[0] not in seen, f"value {s.data[n_]}")
    seen |= set(hit)
  agree(c, "operand", a, axes, A, kind)
  c.cover()
