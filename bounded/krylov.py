"""Executable contracts: P17 (Krylov solvers) against dense linear algebra."""
import warnings
import numpy as np
import tensornetwork as tn
import tensornetwork.block_sparse as bs
from tensornetwork.backends import backend_factory
from tensornetwork.linalg import krylov
from bounded.core import scenario, require, raises, Skip
from bounded.symlib import (KINDS, leg_like, build, mask, Leg, Model)

warnings.filterwarnings("ignore", category=DeprecationWarning)


def _unitary(rng, n, dtype):
  return np.linalg.qr(rng.array((n, n), dtype))[0]


def _hermitian(rng, n, dtype, degenerate=False):
  """well separated spectrum in random order, sometimes of one sign"""
  lo = rng.choice([-3.0, 1.5, 0.0, -40.0])
  w = lo + 0.7 * np.arange(n) + 0.2 * rng.r.rand(n)
  if degenerate and n > 2:
    w[rng.int(1, n - 1)] = w[rng.int(1, n - 1)]
  q = _unitary(rng, n, dtype)
  return (q * w) @ q.conj().T, np.sort(w)


def _general(rng, n, dtype):
  """diagonalisable, known eigenvalues with distinct real part and modulus"""
  if np.dtype(dtype).kind == "c":
    w = np.array([(1.0 + 0.6 * k) * np.exp(1j * (0.3 + 0.9 * k))
                  for k in range(n)])
  else:
    w = np.array([(1.0 + 0.6 * k) * (-1)**(rng.int(0, 1)) for k in range(n)])
  s = np.eye(n) + 0.15 * rng.array((n, n), dtype) / np.sqrt(n)
  return s @ np.diag(w).astype(dtype) @ np.linalg.inv(s), w


class Frozen:
  """Caller-owned arrays: any write to them is an error or is seen later."""

  def __init__(self, *arrays):
    self.a = [(x, np.array(x)) for x in arrays]

  def check(self, what):
    for x, y in self.a:
      require(x.shape == y.shape and np.array_equal(np.asarray(x), y),
              f"{what} modified a caller's array")


def _map(rng, H, shape):
  """The linear map x -> Hx on tensors of this shape in one of several calling
  styles; returns (A, args)."""
  n = int(np.prod(shape))
  how = rng.int(0, 3)
  if how == 0:
    return (lambda x: (H @ x.reshape(n)).reshape(shape)), []
  if how == 1:
    return (lambda x, h: (h @ x.reshape(n)).reshape(shape)), [H]
  if how == 2:
    T = H.reshape(tuple(shape) + tuple(shape))
    k = len(shape)
    return (lambda x, t: np.tensordot(t, x, [range(k, 2 * k), range(k)])), [T]
  return (lambda x, h, s: s * (h @ x.ravel()).reshape(shape)), [
      H / 2.0, np.array(2.0, dtype=H.dtype)]


def _eigenpairs(H, vals, vecs, shape, what, tol=1e-5):
  scale = max(1.0, np.linalg.norm(H, 2))
  for k, (e, v) in enumerate(zip(vals, vecs)):
    v = np.asarray(v)
    require(v.shape == tuple(shape), f"{what}: shape {v.shape} of eigenvector")
    v = v.ravel()
    require(abs(np.linalg.norm(v) - 1) < 1e-6, f"{what}: norm of eigenvector {k}")
    r = np.linalg.norm(H @ v - e * v)
    require(r < tol * scale,
            f"{what}: |A v - lambda v| = {r} for eigenpair {k} ({e})")


def _start(rng, shape, dtype):
  x = rng.array(shape, dtype)
  if rng.bool(0.3):
    x = x * 10.0**rng.int(-3, 3)
  return x


@scenario("P17", quick=300, thorough=3000)
def numpy_lanczos(rng):
  be = backend_factory.get_backend("numpy")
  shape = rng.choice([(5,), (6,), (2, 3), (2, 2, 2), (1, 4), (3, 3), (7,)])
  n = int(np.prod(shape))
  dtype = rng.choice([np.float64, np.complex128])
  H, w = _hermitian(rng, n, dtype, rng.bool(0.3))
  reortho = rng.bool(0.7)
  numeig = rng.int(1, 3) if reortho else 1
  ncv = rng.int(n, n + 6) if reortho else n
  ndiag = rng.choice([20, 1, 2, 3])
  A, args = _map(rng, H, shape)
  x0 = _start(rng, shape, dtype)
  kind = rng.choice(["generic", "generic", "invariant", "none"])
  dim = n
  if kind == "invariant":
    # start in an invariant subspace: the iteration must stop there
    ww, U = np.linalg.eigh(H)
    dim = rng.int(1, n)
    pick = rng.perm(n)[:dim]
    x0 = (U[:, pick] @ (1.0 + rng.r.rand(dim))).reshape(shape).astype(dtype)
    w = np.sort(ww[pick])
  distinct = np.array([w[0]] + [b for a, b in zip(w, w[1:]) if b - a > 1e-6])
  rng.note(shape, dtype, "numeig", numeig, "ncv", ncv, "reortho", reortho, kind,
           "ndiag", ndiag)
  frozen = Frozen(x0, H, *args)
  kw = dict(num_krylov_vecs=ncv, numeig=numeig, reorthogonalize=reortho,
            ndiag=ndiag, tol=1e-13)
  if kind == "none":
    e, v = be.eigsh_lanczos(A, args, shape=shape, dtype=dtype, **kw)
  elif rng.bool(0.3):
    mem = {}
    T = lambda x: tn.Tensor(x)
    B = lambda x, *a: T(np.asarray(A(x.array, *[y.array for y in a])))
    t0 = T(x0)
    ta = [T(a) for a in args]
    e, v = krylov.eigsh_lanczos(B, args=ta, x0=t0, **kw)
    v = [x.array for x in v]
    Frozen(t0.array, *[y.array for y in ta])
  else:
    e, v = be.eigsh_lanczos(A, args, x0, **kw)
  frozen.check("eigsh_lanczos")
  m = min(numeig, len(distinct))
  require(len(e) == len(v), "as many eigenvalues as eigenvectors")
  require(len(v) >= m and len(v) <= numeig, f"{len(v)} eigenpairs instead of {m}")
  require(np.all(np.diff(np.real(e)) > -1e-9), "eigenvalues out of order")
  e, v = e[:m], v[:m]
  _eigenpairs(H, e, v, shape, "eigsh_lanczos")
  require(np.allclose(np.real(e), distinct[:m], atol=1e-6),
          f"eigenvalues {e} instead of the lowest {distinct[:m]}")


@scenario("P17", quick=150, thorough=1500)
def lanczos_ritz(rng):
  """Before convergence the value is the Rayleigh quotient of the vector and an
  upper bound of the lowest eigenvalue that more vectors only lower."""
  be = backend_factory.get_backend("numpy")
  n = rng.int(4, 9)
  dtype = rng.choice([np.float64, np.complex128])
  H, w = _hermitian(rng, n, dtype)
  x0 = rng.array((n,), dtype)
  last = np.inf
  for ncv in range(1, n + 1):
    e, v = be.eigsh_lanczos(lambda x: H @ x, [], x0.copy(), num_krylov_vecs=ncv,
                            reorthogonalize=True)
    require(abs(np.linalg.norm(v[0]) - 1) < 1e-9, "norm")
    q = np.real(np.vdot(v[0], H @ v[0]))
    require(abs(q - e[0]) < 1e-8 * max(1, abs(q)),
            f"value {e[0]} is not the Rayleigh quotient {q}")
    require(e[0] > w[0] - 1e-8 and e[0] < last + 1e-8, "not variational")
    if ncv == 1:
      require(abs(abs(np.vdot(v[0], x0)) - np.linalg.norm(x0)) < 1e-9,
              "one Krylov vector is the normalised start vector")
    last = np.real(e[0])


@scenario("P17", quick=60, thorough=400)
def aliasing_map(rng):
  """Maps that return (a view of) their argument or of a stored array."""
  be = backend_factory.get_backend("numpy")
  n = rng.int(2, 6)
  kind = rng.choice(["identity", "reverse", "transpose"])
  if kind == "transpose":
    m = rng.int(2, 3)
    shape, A = (m, m), (lambda x: x.T)
  elif kind == "reverse":
    shape, A = (n,), (lambda x: x[::-1])
  else:
    shape, A = (n,), (lambda x: x)
  x0 = rng.array(shape, np.float64)
  if rng.bool():
    x0 = np.zeros(shape)
    x0[(0,) * len(shape)] = 1.0
    if rng.bool():
      x0.flat[1] = 0.5
  rng.note(kind, x0.tolist())
  frozen = Frozen(x0)
  e, v = be.eigsh_lanczos(A, [], x0, num_krylov_vecs=4, reorthogonalize=True)
  frozen.check("eigsh_lanczos")
  r = np.linalg.norm(A(v[0]) - e[0] * v[0])
  require(np.isfinite(r) and r < 1e-6, f"{kind}: residual {r}")


def _arpack(f, *a, **k):
  """ARPACK may give up: that is an answer, not an eigenpair."""
  from scipy.sparse.linalg import ArpackNoConvergence
  try:
    return f(*a, **k)
  except ArpackNoConvergence:
    raise Skip("ARPACK reports no convergence")


def _wanted(w, which):
  key = {"LR": lambda x: -np.real(x), "SR": np.real, "LM": lambda x: -abs(x),
         "SM": abs}[which]
  return sorted(w, key=key)


@scenario("P17", quick=200, thorough=2000)
def numpy_eigs(rng):
  be = backend_factory.get_backend("numpy")
  shape = rng.choice([(6,), (7,), (2, 3), (2, 2, 2), (9,)])
  n = int(np.prod(shape))
  dtype = rng.choice([np.float64, np.complex128])
  H, w = _general(rng, n, dtype)
  which = rng.choice(["LR", "SR", "LM", "SM"])
  numeig = rng.int(1, n - 4)
  ncv = n if which == "SM" or rng.bool() else rng.int(numeig + 2, n)
  A, args = _map(rng, H, shape)
  x0 = rng.array(shape, dtype)
  rng.note(shape, dtype, which, "numeig", numeig, "ncv", ncv)
  if rng.bool(0.15):
    raises(ValueError, lambda: be.eigs(A, args, x0, num_krylov_vecs=numeig + 1,
                                       numeig=numeig), "too few vectors")
    raises(ValueError, lambda: be.eigs(A, args, num_krylov_vecs=ncv), "no start")
    raises(TypeError, lambda: be.eigs(A, args, list(x0), num_krylov_vecs=ncv,
                                      numeig=numeig), "start")
    return
  frozen = Frozen(x0, H, *args)
  kw = dict(num_krylov_vecs=ncv, numeig=numeig, which=which, tol=1e-12)
  if rng.bool(0.3):
    T = tn.Tensor
    B = lambda x, *a: T(np.asarray(A(x.array, *[y.array for y in a])))
    e, v = _arpack(krylov.eigs, B, args=[T(a) for a in args], x0=T(x0), maxiter=3000,
                       **kw)
    v = [x.array for x in v]
  elif rng.bool(0.2):
    e, v = _arpack(be.eigs, A, args, shape=shape, dtype=dtype, **kw)
  else:
    e, v = _arpack(be.eigs, A, args, x0, **kw)
  frozen.check("eigs")
  require(len(e) == len(v) == numeig, "number of eigenpairs")
  _eigenpairs(H, e, v, shape, "eigs")
  # ARPACK may miss a wanted value in a smaller space, never in the full one
  want = _wanted(w, which)[:numeig] if ncv == n else w
  for x in e:
    require(min(abs(x - y) for y in want) < 1e-4,
            f"{which}: {e} instead of {want}")


def _residual_ok(H, x, b, tol, atol, info, what):
  r = np.linalg.norm(H @ np.ravel(x) - np.ravel(b))
  if info == 0:
    lim = max(tol * np.linalg.norm(b), atol)
    require(r <= lim * (1 + 1e-6) + 1e-13,
            f"{what}: reports convergence with residual {r} > {lim}")
  else:
    require(info > 0, f"{what}: info {info}")
  return r


@scenario("P17", quick=250, thorough=2500)
def numpy_gmres(rng):
  be = backend_factory.get_backend("numpy")
  shape = rng.choice([(5,), (2, 3), (2, 2, 2), (1,), (9,)])
  n = int(np.prod(shape))
  dtype = rng.choice([np.float64, np.complex128])
  H = _general(rng, n, dtype)[0] if rng.bool() else _hermitian(
      rng, n, dtype)[0] + 50 * np.eye(n)
  if rng.bool(0.2):
    H = np.eye(n).astype(dtype) * 2
  b = _start(rng, shape, dtype)
  x0 = None if rng.bool() else rng.array(shape, dtype)
  tol = rng.choice([1e-5, 1e-9, 1e-2])
  atol = rng.choice([None, 0.0, 1e-8, 10.0])
  m = rng.choice([None, n, rng.int(1, n), n + 3])
  maxiter = rng.choice([1, 1, 3, 50])
  A, args = _map(rng, H, shape)
  rng.note(shape, dtype, "m", m, "maxiter", maxiter, "tol", tol, "atol", atol,
           "x0" if x0 is not None else "")
  if rng.bool(0.15):
    raises(ValueError, lambda: be.gmres(A, b, args, tol=-1.0), "tol")
    raises(ValueError, lambda: be.gmres(A, b, args, atol=-1.0), "atol")
    raises(ValueError, lambda: be.gmres(A, b, args, num_krylov_vectors=0), "m")
    raises(ValueError, lambda: be.gmres(A, b, args, x0=np.zeros(n + 1, dtype)),
           "shape")
    raises(TypeError, lambda: be.gmres(A, b, args,
                                       x0=np.zeros(shape, np.float32)), "dtype")
    return
  frozen = Frozen(b, H, *(args + ([] if x0 is None else [x0])))
  kw = dict(tol=tol, atol=atol, maxiter=maxiter)
  if m is not None:
    kw["num_krylov_vectors"] = m
  api = rng.int(0, 2)
  if api == 0:
    T = tn.Tensor
    B = lambda x, *a: T(np.asarray(A(x.array, *[y.array for y in a])))
    x, info = krylov.gmres(B, T(b), A_args=[T(a) for a in args],
                           x0=None if x0 is None else T(x0), **kw)
    x = x.array
  elif api == 1 and args:
    x, info = be.gmres(lambda v, *, extra: A(v, *extra), b,
                       A_kwargs=dict(extra=args), x0=x0, **kw)
  else:
    x, info = be.gmres(A, b, args, x0=x0, **kw)
  frozen.check("gmres")
  require(x.shape == b.shape and x.dtype == b.dtype, "shape and dtype of x")
  r = _residual_ok(H, x, b, tol, tol if atol is None else atol, info, "gmres")
  if (m is None and api == 0) or (m is not None and m >= n):
    # the full Krylov space: the exact solution in one sweep
    require(info == 0 or r < 1e-6 * max(1, np.linalg.norm(b)),
            f"gmres with a full Krylov space: info {info} residual {r}")


# ------------------------------------------------------------------ symmetric
def _symmetric_problem(rng, hermitian, dtype):
  kind = rng.choice(KINDS)
  for _ in range(30):
    naxes = rng.int(1, 3)
    axes = [[leg_like(rng, kind, rng.int(1, 3))
             for _ in range(rng.choice([1, 1, 2]))] for _ in range(naxes)]
    legs = [l for a in axes for l in a]
    if len(legs) > 4:
      continue
    m = mask(kind, legs)
    if 4 <= m.sum() <= 16 and m.size <= 60:
      break
  else:
    raise Skip("no suitable charge structure")
  return kind, axes, legs, m


def _operator(rng, kind, axes, legs, H, idx, dtype):
  """block-sparse tensor with the dense restriction H on the symmetric sector"""
  conj = [[l.conj() for l in a] for a in axes]
  D = int(np.prod([l.dim for l in legs], dtype=int))
  full = np.zeros((D, D), dtype=dtype)
  full[np.ix_(idx, idx)] = H
  dims = [l.dim for l in legs]
  op, _ = build(rng, kind, axes + conj, dtype, full.reshape(dims + dims))
  return op


def _vec(t, idx):
  return np.asarray(t.todense()).reshape(-1)[idx]


def _layout(t):
  return (t.shape, [list(map(tuple, np.asarray(c.charges)))
                    for c in t.flat_charges], list(t.flat_flows))


def _symcheck(t, x0, what):
  require(tuple(t.shape) == tuple(x0.shape), f"{what}: shape {t.shape}")
  require(bs.compare_shapes(t, x0),
          f"{what}: legs of the result differ from the start vector's")


def _sparse_apply(op, k):
  return lambda x, o: bs.tensordot(o, x, (list(range(k, 2 * k)), list(range(k))))


@scenario("P17", quick=120, thorough=1200)
def symmetric_lanczos(rng):
  be = backend_factory.get_backend("symmetric")
  dtype = rng.choice([np.float64, np.complex128])
  kind, axes, legs, m = _symmetric_problem(rng, True, dtype)
  idx = np.flatnonzero(m.ravel())
  n = len(idx)
  H, w = _hermitian(rng, n, dtype)
  op = _operator(rng, kind, axes, legs, H, idx, dtype)
  x0, mod = build(rng, kind, axes, dtype)
  numeig = rng.int(1, 3)
  rng.note(kind, [(l.vals, l.flow) for l in legs], [len(a) for a in axes], "n",
           n, "numeig", numeig)
  before, obefore = np.array(x0.todense()), np.array(op.todense())
  e, v = be.eigsh_lanczos(_sparse_apply(op, len(axes)), [op], x0,
                          num_krylov_vecs=n + rng.int(0, 3), numeig=numeig,
                          reorthogonalize=True, enable_caching=rng.bool())
  require(np.array_equal(before, np.asarray(x0.todense())),
          "the start vector changed")
  require(np.array_equal(obefore, np.asarray(op.todense())),
          "the operator changed")
  require(len(e) == len(v) == min(numeig, n), "number of eigenpairs")
  for k, t in enumerate(v):
    _symcheck(t, x0, "eigsh_lanczos")
  _eigenpairs(H, e, [_vec(t, idx) for t in v], (n,), "symmetric eigsh_lanczos")
  require(np.allclose(np.real(e), w[:len(e)], atol=1e-6), "lowest eigenvalues")


@scenario("P17", quick=120, thorough=1200)
def symmetric_eigs(rng):
  be = backend_factory.get_backend("symmetric")
  dtype = rng.choice([np.float64, np.complex128])
  kind, axes, legs, m = _symmetric_problem(rng, False, dtype)
  idx = np.flatnonzero(m.ravel())
  n = len(idx)
  if n < 5:
    raise Skip("too small for ARPACK")
  H, w = _general(rng, n, dtype)
  op = _operator(rng, kind, axes, legs, H, idx, dtype)
  x0, mod = build(rng, kind, axes, dtype)
  which = rng.choice(["LR", "SR", "LM", "SM"])
  numeig = rng.int(1, n - 4)
  rng.note(kind, [(l.vals, l.flow) for l in legs], [len(a) for a in axes], "n",
           n, "numeig", numeig, which)
  before = np.array(x0.todense())
  ncv = n if which == "SM" or rng.bool() else rng.int(numeig + 2, n)
  e, v = _arpack(be.eigs, _sparse_apply(op, len(axes)), [op], x0,
                 num_krylov_vecs=ncv, numeig=numeig, which=which, tol=1e-12,
                 enable_caching=rng.bool())
  require(np.array_equal(before, np.asarray(x0.todense())),
          "the start vector changed")
  require(len(e) == len(v) == numeig, "number of eigenpairs")
  for t in v:
    _symcheck(t, x0, "eigs")
  _eigenpairs(H, e, [_vec(t, idx) for t in v], (n,), "symmetric eigs")
  # ARPACK may miss a wanted value in a smaller space, never in the full one
  want = _wanted(w, which)[:numeig] if ncv == n else w
  for x in e:
    require(min(abs(x - y) for y in want) < 1e-4,
            f"{which}: {e} instead of {want}")


@scenario("P17", quick=120, thorough=1200)
def symmetric_gmres(rng):
  be = backend_factory.get_backend("symmetric")
  dtype = rng.choice([np.float64, np.complex128])
  kind, axes, legs, m = _symmetric_problem(rng, False, dtype)
  idx = np.flatnonzero(m.ravel())
  n = len(idx)
  H, w = _general(rng, n, dtype)
  op = _operator(rng, kind, axes, legs, H, idx, dtype)
  b, mod = build(rng, kind, axes, dtype)
  x0 = None
  if rng.bool():
    x0, _ = build(rng, kind, axes, dtype)
  tol = rng.choice([1e-5, 1e-9])
  atol = rng.choice([None, 1e-10])
  rng.note(kind, [(l.vals, l.flow) for l in legs], [len(a) for a in axes], "n",
           n, "x0" if x0 is not None else "")
  before = np.array(b.todense())
  before0 = None if x0 is None else np.array(x0.todense())
  # b.size counts the stored elements: the full sector is one sweep
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    x, info = be.gmres(_sparse_apply(op, len(axes)), b, [op], x0=x0, tol=tol,
                       atol=atol, enable_caching=rng.bool(),
                       maxiter=rng.choice([1, 5]))
  require(np.array_equal(before, np.asarray(b.todense())),
          "the right-hand side changed")
  require(x0 is None or np.array_equal(before0, np.asarray(x0.todense())),
          "the start vector changed")
  _symcheck(x, b, "gmres")
  r = _residual_ok(H, _vec(x, idx), _vec(b, idx), tol,
                   tol if atol is None else atol, info, "symmetric gmres")
  require(info == 0 or r < 1e-6 * max(1, np.linalg.norm(before)),
          f"full Krylov space without convergence: {info} {r}")


@scenario("P17", quick=24, thorough=240)
def early_stop(rng):
  """Stopping before all the allowed Krylov vectors are used needs *every*
  requested eigenvalue at the desired precision."""
  n = rng.int(60, 90)
  numeig = rng.int(2, 4)
  kind = rng.choice(["numpy", "symmetric", "front"])
  dtype = rng.choice([np.float64, np.complex128])
  w = np.sort(10 * rng.r.rand(n))
  far = rng.int(1, numeig - 1)          # these converge much earlier
  w[:far] = -300.0 * (1 + np.arange(far))[::-1]
  q = _unitary(rng, n, dtype)
  H = (q * w) @ q.conj().T
  ndiag = rng.int(2, 6)
  calls = [0]
  x0 = rng.array((n,), dtype)
  kw = dict(num_krylov_vecs=n, numeig=numeig, tol=1e-8, ndiag=ndiag,
            reorthogonalize=True)
  rng.note(kind, n, numeig, far, ndiag)
  if kind == "symmetric":
    be = backend_factory.get_backend("symmetric")
    ix = [bs.Index(bs.U1Charge(np.zeros(n, dtype=int)), False)]
    def A(x):
      calls[0] += 1
      return bs.BlockSparseTensor.fromdense(ix, H @ x.todense())
    e, v = be.eigsh_lanczos(A, [], bs.BlockSparseTensor.fromdense(ix, x0), **kw)
    v = [x.todense() for x in v]
  elif kind == "numpy":
    def A(x):
      calls[0] += 1
      return H @ x
    e, v = backend_factory.get_backend("numpy").eigsh_lanczos(A, [], x0, **kw)
  else:
    def A(x):
      calls[0] += 1
      return tn.Tensor(H @ x.array, backend="numpy")
    e, v = krylov.eigsh_lanczos(A, x0=tn.Tensor(x0, backend="numpy"), **kw)
    v = [x.array for x in v]
  require(len(e) == numeig and len(v) == numeig, "number of eigenpairs")
  for k in range(numeig):
    require(abs(e[k] - w[k]) < 1e-4,
            f"eigenvalue {k} is {e[k]} instead of {w[k]} after {calls[0]} of "
            f"{n} Krylov vectors")
