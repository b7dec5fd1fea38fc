"""Executable contracts: P19 (default-backend scopes and node collections)."""
import numpy as np
import tensornetwork as tn
from tensornetwork import backend_contextmanager as bc
from tensornetwork import ops
from tensornetwork.backends import backend_factory
from tensornetwork.linalg import initialization as ti, node_linalg as nl
from tensornetwork.matrixproductstates.base_mps import BaseMPS
from tensornetwork.matrixproductstates import mpo
from tensornetwork.matrixproductstates.finite_mps import FiniteMPS
from tensornetwork.matrixproductstates.infinite_mps import InfiniteMPS
from tensornetwork.quantum import quantum
from bounded.core import scenario, require, raises

M = np.arange(4.0).reshape(2, 2) + 1
A = np.arange(2.0).reshape(1, 2, 1) + 1
W = np.arange(4.0).reshape(1, 1, 2, 2) + 1
MAKERS = {
    "Node": lambda **k: tn.Node(M, **k).backend,
    "CopyNode": lambda **k: tn.CopyNode(2, 2, **k).backend,
    "Tensor": lambda **k: tn.Tensor(M, **k).backend,
    "eye": lambda **k: ti.eye(2, **k).backend,
    "zeros": lambda **k: ti.zeros((2, 2), **k).backend,
    "ones": lambda **k: ti.ones((2, 2), **k).backend,
    "randn": lambda **k: ti.randn((2, 2), seed=1, **k).backend,
    "random_uniform": lambda **k: ti.random_uniform((2, 2), seed=1, **k).backend,
    "zeros_like": lambda **k: ti.zeros_like(M, **k).backend,
    "ones_like": lambda **k: ti.ones_like(M, **k).backend,
    "node eye": lambda **k: nl.eye(2, **k).backend,
    "node zeros": lambda **k: nl.zeros((2, 2), **k).backend,
    "node ones": lambda **k: nl.ones((2, 2), **k).backend,
    "node randn": lambda **k: nl.randn((2, 2), seed=1, **k).backend,
    "node random_uniform":
        lambda **k: nl.random_uniform((2, 2), seed=1, **k).backend,
    "BaseMPS": lambda **k: BaseMPS([A], **k).backend,
    "FiniteMPS": lambda **k: FiniteMPS([A], canonicalize=False, **k).backend,
    "FiniteMPS.random":
        lambda **k: FiniteMPS.random([2, 2], [2], np.float64,
                                     canonicalize=False, **k).backend,
    "InfiniteMPS": lambda **k: InfiniteMPS([A], **k).backend,
    "InfiniteMPS.random":
        lambda **k: InfiniteMPS.random([2, 2], [2, 2, 2], np.float64,
                                       **k).backend,
    "MPO": lambda **k: mpo.FiniteMPO([W], **k).backend,
    "XXZ": lambda **k: mpo.FiniteXXZ(np.ones(2), np.ones(2), np.ones(3),
                                     np.float64, **k).backend,
    "TFI": lambda **k: mpo.FiniteTFI(np.ones(2), np.ones(3), np.float64,
                                     **k).backend,
    "fermion": lambda **k: mpo.FiniteFreeFermion2D(
        1.0, 1.0, 1.0, 2, 2, np.float64, **k).backend,
    "QuOperator": lambda **k: list(
        quantum.QuOperator.from_tensor(M, [0], [1], **k).nodes)[0].backend,
    "QuVector": lambda **k: list(
        quantum.QuVector.from_tensor(M, **k).nodes)[0].backend,
    "QuAdjointVector": lambda **k: list(
        quantum.QuAdjointVector.from_tensor(M, **k).nodes)[0].backend,
    "QuScalar": lambda **k: list(
        quantum.QuScalar.from_tensor(np.array(2.0), **k).nodes)[0].backend,
}
NAMES = ["numpy", "jax", "tensorflow"]


class Boom(Exception):
  pass


def _be(b):
  return backend_factory.get_backend(b)


@scenario("P19", quick=400, thorough=4000)
def default_backend_history(rng):
  """A random history of nested scopes, exceptions, creations and attempts to
  change the global default against a list model."""
  start = bc.get_default_backend()
  model = [rng.choice(NAMES)]
  bc.set_default_backend(model[0])
  keep = [tn.DefaultBackend(n) for n in NAMES]   # reusable scope objects

  def check(what):
    require(_be(bc.get_default_backend()) is _be(model[-1]),
            f"{what}: default is {bc.get_default_backend()}, "
            f"expected {model[-1]}")

  def create():
    what = rng.choice(list(MAKERS))
    rng.note("create", what, "stack", model)
    jax_tf = lambda b: _be(b)
    explicit = rng.choice([None, None, "numpy", "jax", "tensorflow"])
    byobj = explicit is not None and rng.bool()
    kw = {} if explicit is None else dict(
        backend=_be(explicit) if byobj and not what.startswith(
            "CopyNode") else explicit)
    got = MAKERS[what](**kw)
    want = _be(explicit if explicit else model[-1])
    require(got is want, f"{what}: created on {got.name}, expected {want.name}")

  def go(depth):
    for _ in range(rng.int(1, 3)):
      op = rng.choice(["create", "create", "scope", "set", "get"])
      if op == "create":
        create()
      elif op == "get":
        check("inside")
      elif op == "set":
        new = rng.choice(NAMES + ["nonsense", 4])
        rng.note("set", new, model)
        if len(model) > 1:
          raises(AssertionError, lambda: bc.set_default_backend(new), "set_default_backend")
        elif new in NAMES:
          bc.set_default_backend(new)
          model[0] = new
        else:
          raises(ValueError, lambda: bc.set_default_backend(new), "set_default_backend")
        check("after set")
      elif depth < 3:
        i = rng.int(0, 2)
        scope = rng.choice([keep[i], tn.DefaultBackend(NAMES[i]),
                            tn.DefaultBackend(_be(NAMES[i]))])
        fail = rng.bool(0.4)
        rng.note("enter", NAMES[i], "raise" if fail else "")
        before = list(model)
        left = False
        try:
          with scope:
            model.append(NAMES[i])
            check("entered")
            go(depth + 1)
            if fail:
              raise Boom()
        except Boom:
          left = True
        require(left == fail, "the scope swallowed or invented an exception")
        model[:] = before
        check("left")

  try:
    go(0)
    require(bc._default_backend_stack.stack == [], "scopes left behind")
    check("end")
  finally:
    del bc._default_backend_stack.stack[:]
    bc.set_default_backend(start)


@scenario("P19", quick=len(MAKERS) * 3, thorough=len(MAKERS) * 3)
def every_creator(rng):
  """Each creating function under each default, exhaustively."""
  what = list(MAKERS)[rng.index % len(MAKERS)]
  name = NAMES[rng.index // len(MAKERS) % 3]
  rng.note(what, name)
  with tn.DefaultBackend("numpy" if name != "numpy" else "jax"):
    with tn.DefaultBackend(name):
      require(MAKERS[what]() is _be(name), f"{what} ignores the default")
    other = "numpy" if name != "numpy" else "jax"
    require(MAKERS[what](backend=name) is _be(name),
            f"{what} ignores its backend argument")
    require(MAKERS[what]() is _be(other), f"{what} after the inner scope")


@scenario("P19", quick=300, thorough=3000)
def collection_history(rng):
  """Nested collections against a list model: each node lands in the innermost
  collection active when it is created."""
  expect = []        # (container, nodes) pairs
  stack = []
  made = []

  def create():
    op = rng.choice(["node", "copynode", "contract", "split", "copy", "outer",
                     "refused", "add"])
    before = len(made)
    if op == "node":
      made.append(tn.Node(M))
    elif op == "copynode":
      made.append(tn.CopyNode(2, 2))
    elif op == "refused":
      raises(ValueError, lambda: tn.Node(M, axis_names=["a"]), "bad axis names")
    else:
      a = tn.Node(M)
      b = tn.Node(M)
      made.extend([a, b])
      if op == "contract":
        made.append(tn.contract(tn.connect(a[0], b[0])))
      elif op == "outer":
        made.append(tn.outer_product(a, b))
      elif op == "add":
        made.append(a + b)
      elif op == "copy":
        m, _ = tn.copy({a, b})
        made.extend([m[a], m[b]])
      elif op == "split":
        l, r, _ = tn.split_node(a, [a[0]], [a[1]])
        # split_node makes its three factors; two are contracted away
        made.extend([l, r])
    new = made[before:]
    if stack:
      stack[-1][1].extend(new)
    return op

  def go(depth):
    for _ in range(rng.int(1, 3)):
      if depth < 3 and rng.bool(0.5):
        box = rng.choice([list, set])()
        reuse = [s for s in expect if s not in stack]
        entry = (box, [])
        if reuse and rng.bool(0.3):
          entry = rng.choice(reuse)
          box = entry[0]
        elif entry not in expect:
          expect.append(entry)
        fail = rng.bool(0.3)
        scope = tn.NodeCollection(box)
        left = False
        depth0 = len(ops._default_collection_stack.stack)
        try:
          with scope:
            stack.append(entry)
            require(ops.get_current_collection() is scope, "not innermost")
            go(depth + 1)
            if fail:
              raise Boom()
        except Boom:
          left = True
        stack.pop()
        require(left == fail, "exception swallowed or invented")
        require(len(ops._default_collection_stack.stack) == depth0,
                "collection stack not restored")
      else:
        rng.note(create(), "depth", depth)

  try:
    go(0)
    for box, nodes in expect:
      for x in nodes:
        n = sum(1 for y in box if y is x)
        require(n == 1, f"a created node is {n} times in its collection")
      for y in box:
        mine = any(y is x for x in nodes)
        if not mine:
          require(not any(y is x for x in made),
                  "a node is in a collection that was not innermost")
  finally:
    del ops._default_collection_stack.stack[:]
