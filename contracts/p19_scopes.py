"""P19: scoped default backends and node collections.  The stack of enclosing
scopes has arbitrary length and content; the nesting lemma is
exit(enter(stack)) == stack, so a `with` block whose body restores the stack
restores it (the with statement itself calls __exit__ on every way out)."""
from pyvc.contract import *
from pyvc import data, nf
import tensornetwork as tn
from tensornetwork import network_components as nc
from tensornetwork import backend_contextmanager as bc
from tensornetwork import ops, tensor as tn_tensor, ncon_interface
from tensornetwork.backends import backend_factory, decorators
from tensornetwork.linalg import initialization, node_linalg
from tensornetwork.matrixproductstates import base_mps, mpo
from tensornetwork.matrixproductstates.finite_mps import FiniteMPS
from tensornetwork.matrixproductstates.infinite_mps import InfiniteMPS
from tensornetwork.quantum import quantum
from pyvc.nf import NFBackend

B = "tensornetwork.backend_contextmanager:"
N = "tensornetwork.network_components:"


class Scope:
  """An arbitrary scope object of an enclosing level."""


def sym_stack(c, name):
  """A list of arbitrary length of arbitrary scopes."""
  heap = CTX.heap or data.Heap()
  CTX.heap = heap
  if "backend" not in heap.fields:
    heap.declare("backend", "val")
    heap.alloc_base = z3.IntVal(1)
  raw = CTX.func(name, z3.IntSort(), z3.IntSort())
  f = lambda k: z3.If(raw(k) > 0, raw(k), 1)     # never None
  n = c.int(name + "_len", 0)
  if c.bounded:
    c.assume(z(n) <= CTX.bound)
  get = lambda k: data.SymRef(simp(f(z(k))), bc.DefaultBackend)
  return data.SymList(n, get), n, f


def unchanged(c, what, stack, n, f):
  k = CTX.int("k")
  c.prove(f"{what}: number of active scopes", z(stack.n) == z(n))
  c.prove(f"{what}: every active scope",
          z3.Implies(z3.And(k >= 0, k < z(n)), simp(stack.get(k).t) == simp(f(k))))


@contract("P19", [B + "DefaultBackend.__enter__", B + "DefaultBackend.__exit__",
                  B + "get_default_backend",
                  B + "_DefaultBackendStack.get_current_backend"])
def default_backend_scope(c):
  stack, n, f = sym_stack(c, "scopes")
  c.patch_obj(bc._default_backend_stack, "stack", stack)
  default = c.str("default")
  c.patch_obj(bc._default_backend_stack, "default_backend", default)
  before = c.value(bc.get_default_backend)
  top = CTX.heap.fields["backend"].get(f(z(n) - 1))
  c.prove("the innermost scope decides, the global default without one",
          z(before) == z3.If(z(n) > 0, top, z(default)))
  me = data.SymRef(CTX.int("me"), bc.DefaultBackend)
  c.assume(me.t > 0)
  c.value(bc.DefaultBackend.__enter__, me)
  k = CTX.int("k")
  c.prove("entering adds one scope", z(stack.n) == z(n) + 1)
  c.prove("entering keeps the enclosing scopes", z3.Implies(
      z3.And(k >= 0, k < z(n)), simp(stack.get(k).t) == simp(f(k))))
  inside = c.value(bc.get_default_backend)
  c.prove("the entered scope is the innermost one",
          z(inside) == CTX.heap.fields["backend"].get(me.t))
  err = (ValueError, ValueError("x"), None) if c.flag() else (None, None, None)
  r = c.value(bc.DefaultBackend.__exit__, me, *err)
  c.fact("leaving a scope does not swallow the exception", not r, repr(r))
  unchanged(c, "after leaving", stack, n, f)
  after = c.value(bc.get_default_backend)
  c.prove("the previous default is restored", z(after) == z(before))
  c.prove("the global default is untouched",
          z(bc._default_backend_stack.default_backend) == z(default))
  c.cover()


@contract("P19", [B + "set_default_backend", B + "get_default_backend"],
          covers=("set", "inside", "bad"))
def set_default(c):
  stack, n, f = sym_stack(c, "scopes")
  c.patch_obj(bc._default_backend_stack, "stack", stack)
  default = c.str("default")
  c.patch_obj(bc._default_backend_stack, "default_backend", default)
  new = c.pick(["numpy", "jax", "tensorflow", "nonsense", 3, None, "object"])
  if new == "object":
    new = NFBackend()
  legal = new in ("numpy", "jax", "tensorflow") or isinstance(new, NFBackend)
  o = c.call(bc.set_default_backend, new)
  unchanged(c, "set_default_backend", stack, n, f)
  if o.ok:
    c.cover("set")
    c.prove("only outside of every scope", z(n) == 0)
    c.fact("only an existing backend", legal)
    c.fact("sets it", bc._default_backend_stack.default_backend is new)
    c.fact("it is the default now", bc.get_default_backend() is new)
    return
  c.prove("refused: the default stays",
          z(bc._default_backend_stack.default_backend) == z(default))
  if isinstance(o.exc, AssertionError):
    c.cover("inside")
    c.prove("refused as changing inside a scope only inside one", z(n) > 0)
  else:
    c.cover("bad")
    c.fact("ValueError", isinstance(o.exc, ValueError), repr(o.exc))
    c.prove("refused as unknown only if unknown",
            z3.And(z(n) == 0, z3.BoolVal(not legal)))


class Probe(NFBackend):
  """A backend that counts as the innermost scope's one."""

  def __init__(self, name="probe"):
    super().__init__()
    self.name = name
    self.made = []

  def _make(self, *a, **k):
    t = nf.T.atom(f"m{len(self.made)}", [2, 2])
    self.made.append((a, k))
    return t

  eye = zeros = ones = randn = random_uniform = _make

  def convert_to_tensor(self, t):
    return t if isinstance(t, nf.T) else nf.T.atom("conv", [2, 2])

  def jit(self, fun, static_argnums=None, device=None, backend=None, **k):
    self.made.append(("jit", fun, static_argnums, device, backend))
    return fun


class Wrong(NFBackend):

  def __init__(self):
    super().__init__()
    self.name = "wrong"

  def __getattribute__(self, name):
    if name in ("name", "__class__", "__dict__"):
      return object.__getattribute__(self, name)
    raise AttributeError("an outer scope's backend was used: " + name)


def only_top(c, top, wrong):
  """Arbitrarily many enclosing scopes of another backend around one scope."""
  n = c.int("depth", 0)
  if c.bounded:
    c.assume(z(n) <= 2)
  inner, outer = bc.DefaultBackend(top), bc.DefaultBackend(wrong)
  nested = c.flag("nested")

  def get(k):
    if not nested:
      return outer
    return inner if CTX.branch(z(k) == z(n)) else outer

  if nested:
    s = data.SymList(wrap(simp(z(n) + 1)), get)
    c.patch_obj(bc._default_backend_stack, "stack", s)
    c.patch_obj(bc._default_backend_stack, "default_backend", wrong)
  else:
    c.patch_obj(bc._default_backend_stack, "stack", [])
    c.patch_obj(bc._default_backend_stack, "default_backend", top)


def t22(name="a", dims=None):
  t = nf.T.atom(name, dims or [2, 2])
  return t


MAKERS = {
    "Node": lambda b: tn.Node(t22(), backend=b).backend,
    "CopyNode": lambda b: tn.CopyNode(2, 2, backend=b).backend,
    "Tensor": lambda b: tn_tensor.Tensor(t22(), backend=b).backend,
    "eye": lambda b: initialization.eye(2, backend=b).backend,
    "zeros": lambda b: initialization.zeros((2, 2), backend=b).backend,
    "ones": lambda b: initialization.ones((2, 2), backend=b).backend,
    "randn": lambda b: initialization.randn((2, 2), backend=b).backend,
    "random_uniform":
        lambda b: initialization.random_uniform((2, 2), backend=b).backend,
    "zeros_like": lambda b: initialization.zeros_like([[1, 1], [1, 1]],
                                                      backend=b).backend,
    "ones_like": lambda b: initialization.ones_like([[1, 1], [1, 1]],
                                                    backend=b).backend,
    "node eye": lambda b: node_linalg.eye(2, backend=b).backend,
    "node zeros": lambda b: node_linalg.zeros((2, 2), backend=b).backend,
    "node ones": lambda b: node_linalg.ones((2, 2), backend=b).backend,
    "node randn": lambda b: node_linalg.randn((2, 2), backend=b).backend,
    "node random_uniform":
        lambda b: node_linalg.random_uniform((2, 2), backend=b).backend,
    "mps": lambda b: FiniteMPS([t22("a", [1, 2, 1])], canonicalize=False,
                               backend=b).backend,
    "infinite mps": lambda b: InfiniteMPS([t22("a", [1, 2, 1])],
                                          backend=b).backend,
    "mpo": lambda b: mpo.BaseMPO([t22("a", [1, 1, 2, 2])], backend=b).backend,
    "finite mpo": lambda b: mpo.FiniteMPO([t22("a", [1, 1, 2, 2])],
                                          backend=b).backend,
    "QuOperator": lambda b: list(
        quantum.QuOperator.from_tensor(t22(), [0], [1], backend=b).nodes
    )[0].backend,
    "QuVector": lambda b: list(
        quantum.QuVector.from_tensor(t22(), backend=b).nodes)[0].backend,
    "identity": lambda b: [
        m for m in quantum.identity((2,), backend=b).nodes
        if isinstance(m, tn.CopyNode)
    ][0].backend,
    "ncon": lambda b: ncon_interface.ncon([t22(), t22("b")],
                                          [[-1, 1], [1, -2]], backend=b),
    "jit": lambda b: decorators.jit(lambda x: x, backend=b)(3),
}


def _mk_maker(what):

  def f(c):
    use = Probe("used")
    explicit = c.flag("explicit")
    wrong = Wrong()
    other = Probe("other")
    byname = c.flag("by name")
    if byname:
      c.patch_obj(backend_factory, "_BACKENDS",
                  dict(backend_factory._BACKENDS, used=Probe, other=Probe))
      c.patch_obj(backend_factory, "_INSTANTIATED_BACKENDS",
                  dict(used=use, other=other))
    arg = lambda b: b.name if byname else b
    only_top(c, arg(other) if explicit else arg(use), wrong)
    got = c.value(MAKERS[what], arg(use) if explicit else None)
    if what == "ncon":
      c.fact("ncon runs on the chosen backend",
             other.made == [] and isinstance(got, nf.T))
    elif what == "jit":
      c.fact("compiled by the chosen backend",
             got == 3 and len(use.made) == 1 and not other.made)
    else:
      c.fact("created with the " +
             ("explicit" if explicit else "innermost default") + " backend",
             got is use, f"{getattr(got, 'name', got)}")
    c.cover()

  f.__name__ = "created_" + what.replace(" ", "_")
  return f


_T = {
    "Node": [N + "Node.__init__"],
    "CopyNode": [N + "CopyNode.__init__"],
    "Tensor": ["tensornetwork.tensor:Tensor.__init__"],
    "ncon": ["tensornetwork.ncon_interface:ncon"],
    "jit": ["tensornetwork.backends.decorators:jit"],
    "mps": ["tensornetwork.matrixproductstates.base_mps:BaseMPS.__init__"],
    "infinite mps":
        ["tensornetwork.matrixproductstates.base_mps:BaseMPS.__init__"],
    "mpo": ["tensornetwork.matrixproductstates.mpo:BaseMPO.__init__"],
    "finite mpo": ["tensornetwork.matrixproductstates.mpo:FiniteMPO.__init__"],
    "QuOperator": ["tensornetwork.quantum.quantum:QuOperator.from_tensor"],
    "QuVector": ["tensornetwork.quantum.quantum:QuVector.from_tensor"],
    "identity": ["tensornetwork.quantum.quantum:identity"],
}
for _w in MAKERS:
  if _w in _T:
    _t = _T[_w]
  elif _w.startswith("node "):
    _t = ["tensornetwork.linalg.node_linalg:" + _w[5:],
          "tensornetwork.linalg.node_linalg:initialize_node"]
  else:
    _t = ["tensornetwork.linalg.initialization:" + _w]
    if "like" not in _w:
      _t.append("tensornetwork.linalg.initialization:initialize_tensor")
  contract("P19", _t + ["tensornetwork.backends.backend_factory:get_backend"],
           note="stack of enclosing scopes of arbitrary depth")(_mk_maker(_w))


# ---------------------------------------------------------------- collections
@contract("P19", [N + "NodeCollection.__enter__", N + "NodeCollection.__exit__",
                  "tensornetwork.ops:get_current_collection",
                  "tensornetwork.ops:_DefaultNodeCollectionStack.get_current_item"])
def collection_scope(c):
  stack, n, f = sym_stack(c, "collections")
  c.patch_obj(ops._default_collection_stack, "stack", stack)
  before = c.value(ops.get_current_collection)
  if before is None:
    c.prove("no collection without a scope", z(n) == 0)
  else:
    c.prove("innermost collection",
            z3.And(z(n) > 0, z(before) == f(z(n) - 1)))
  me = data.SymRef(CTX.int("me"), nc.NodeCollection)
  c.assume(me.t > 0)
  c.value(nc.NodeCollection.__enter__, me)
  k = CTX.int("k")
  c.prove("entering adds one collection", z(stack.n) == z(n) + 1)
  c.prove("entering keeps the enclosing ones", z3.Implies(
      z3.And(k >= 0, k < z(n)), simp(stack.get(k).t) == simp(f(k))))
  c.prove("the entered one is innermost",
          z(c.value(ops.get_current_collection)) == me.t)
  err = (ValueError, ValueError("x"), None) if c.flag() else (None, None, None)
  r = c.value(nc.NodeCollection.__exit__, me, *err)
  c.fact("leaving does not swallow the exception", not r, repr(r))
  unchanged(c, "after leaving", stack, n, f)
  c.cover()


@contract("P19", [N + "NodeCollection.__init__", N + "NodeCollection.add",
                  N + "AbstractNode.__init__"],
          covers=("list", "set", "refused", "none"))
def collected(c):
  """Every creating operation adds its nodes to the innermost collection only,
  once each; with no active collection nothing is recorded."""
  be = c.backend()
  kind = c.pick(["list", "set", "tuple", "dict", "none"])
  d = c.dims(2)
  a, b = (tn.Node(c.tensor(x, [d[0], d[1]]), backend=be) for x in "ab")
  if kind in ("tuple", "dict"):
    o = c.call(tn.NodeCollection, () if kind == "tuple" else {})
    c.fact("other containers are refused",
           not o.ok and isinstance(o.exc, ValueError))
    c.cover("refused")
    return
  outer = nc.NodeCollection([])
  old = tn.Node(c.tensor("o", [d[0]]), backend=be)
  box = [old] if kind == "list" else {old}
  n = c.int("depth", 0)
  if c.bounded:
    c.assume(z(n) <= 2)
  if kind == "none":
    box = []
    c.patch_obj(ops._default_collection_stack, "stack", [])
  else:
    inner = c.value(tn.NodeCollection, box)
    c.patch_obj(ops._default_collection_stack, "stack",
                data.SymList(wrap(simp(z(n) + 1)),
                             lambda k: inner if CTX.branch(z(k) == z(n))
                             else outer))
  op = c.pick(["node", "copynode", "contract", "copy", "arith", "refused"])
  if op == "node":
    made = [tn.Node(c.tensor("x", [d[0]]), backend=be)]
  elif op == "copynode":
    made = [tn.CopyNode(2, 3, backend=be)]
  elif op == "contract":
    made = [tn.contract(tn.connect(a[0], b[0]))]
  elif op == "copy":
    m, _ = tn.copy({a, b})
    made = [m[a], m[b]]
  elif op == "arith":
    made = [tn.outer_product(a, b)]
  else:
    o = c.call(tn.Node, c.tensor("x", [d[0]]), axis_names=["p", "q"],
               backend=be)
    c.fact("refused", not o.ok and isinstance(o.exc, ValueError))
    made = []
  got = [x for x in box if x is not old]
  if kind == "none":
    made = []
  c.fact("exactly the created nodes, once each, in the innermost collection",
         len(got) == len(made) and all(
             any(x is y for y in got) for x in made), f"{len(got)} {len(made)}")
  c.fact("earlier content stays", kind == "none" or any(
      x is old for x in box))
  c.fact("nothing in the enclosing collections", outer._container == [])
  c.cover(kind)
