"""The symbolic tensor-network heap: an arbitrary well formed network."""
import z3
from .core import *
from .data import *
from . import rt
import tensornetwork as tn
from tensornetwork import network_components as nc

I = z3.IntSort()


class GTensor(SymVal):
  """An opaque tensor: only its shape is known."""

  def __init__(self, t, world):
    SymVal.__init__(self, t, "tensor")
    self.w = world

  @property
  def shape(self):
    return self.w.shape_of(self.t)


class GBackend:
  """Stand-in for a tensor backend: tensors are opaque; only the documented
  shape behaviour of each operation is assumed."""
  name = "symbolic"

  def __init__(self, world):
    self.w = world

  def shape_tuple(self, t):
    return self.w.shape_of(z(t))

  def convert_to_tensor(self, t):
    return t

  def tensordot(self, t1, t2, axes):
    """The remaining axes of t1, then those of t2, each in order (one pair of
    contracted axes)."""
    if len(axes[0]) != 1 or len(axes[1]) != 1:
      raise Unsupported("tensordot over several axes")
    a, b, t1, t2 = z(axes[0][0]), z(axes[1][0]), z(t1), z(t2)
    r1, r2, td = self.w.rank(t1), self.w.rank(t2), self.w.tdim
    ok = z3.And(a >= 0, a < r1, b >= 0, b < r2, td(t1, a) == td(t2, b))
    if not wrap(simp(ok)):
      raise ValueError("shape-mismatch for sum")
    new, k = CTX.int("contracted"), CTX.int("k")
    CTX.assume(self.w.rank(new) == r1 + r2 - 2)
    j = k - (r1 - 1)
    CTX.assume(z3.ForAll([k], td(new, k) == z3.If(
        k < r1 - 1, td(t1, z3.If(k >= a, k + 1, k)),
        td(t2, z3.If(j >= b, j + 1, j))), patterns=[td(new, k)]))
    return SymVal(new)

  def outer_product(self, t1, t2):
    t1, t2 = z(t1), z(t2)
    r1, r2, td = self.w.rank(t1), self.w.rank(t2), self.w.tdim
    new, k = CTX.int("product"), CTX.int("k")
    CTX.assume(self.w.rank(new) == r1 + r2)
    CTX.assume(z3.ForAll([k], td(new, k) == z3.If(
        k < r1, td(t1, k), td(t2, k - r1)), patterns=[td(new, k)]))
    return SymVal(new)

  def multiply(self, t1, t2):
    if not wrap(simp(z3.Or(*[self.w.rank(z(t)) == 0 for t in (t1, t2)]))):
      raise Unsupported("product of two tensors")
    return self.outer_product(t1, t2)

  def trace(self, t):
    """The trace over the last two axes."""
    t, td = z(t), self.w.tdim
    r = self.w.rank(t)
    if not wrap(simp(z3.And(r >= 2, td(t, r - 1) == td(t, r - 2)))):
      raise Unsupported("trace over unequal dimensions")
    new, k = CTX.int("traced"), CTX.int("k")
    CTX.assume(self.w.rank(new) == r - 2)
    CTX.assume(z3.ForAll([k], td(new, k) == td(t, k), patterns=[td(new, k)]))
    return SymVal(new)

  def transpose(self, t, perm=None):
    """A tensor whose axis k is axis perm[k] of t; refuses anything that is
    not a permutation of the axes (negative axes are outside the contract)."""
    if perm is None:
      raise Unsupported("transpose without a permutation")
    s = as_seq(perm).snap()
    n, r, t = s.length(), self.w.rank(z(t)), z(t)
    at = lambda k: z(s.get(k))
    if not wrap(simp(forall(0, n, lambda k: at(k) >= 0))):
      raise Unsupported("negative axis")
    k, j = CTX.int("k"), CTX.int("j")
    ok = z3.And(z(n) == r, forall(0, n, lambda k: at(k) < r),
                forall(0, n, lambda j: forall(
                    0, j, lambda k: at(j) != at(k))))
    if not wrap(simp(ok)):
      raise ValueError("axes don't match array")
    new = CTX.int("transposed")
    CTX.assume(self.w.rank(new) == r)
    CTX.assume(forall(0, n, lambda k: self.w.tdim(new, k) == self.w.tdim(
        t, at(k)), pats=[lambda k: self.w.tdim(new, k)]))
    return SymVal(new)


def _new_for_heap(cls, *a, **k):
  if CTX.heap is not None and cls in HEAPED:
    r = CTX.heap.new(cls)
    cls.__init__(r, *a, **k)
    return r
  return object.__new__(cls)


HEAPED = [nc.Node, nc.Edge]
for _c in HEAPED:
  _c.__new__ = staticmethod(_new_for_heap)


class World:

  def __init__(self, c, tensors=None):
    self.c = c
    h = Heap()
    CTX.heap = h
    h.declare("_nodes", ("list", ("ref", nc.Node)), 2)
    h.declare("_axes", ("list", "int"), 2)
    h.declare("_is_dangling", "bool")
    h.declare("is_disabled", "bool")
    h.declare("_name", "val")
    h.declare("_edges", ("list", ("ref", nc.Edge)))
    h.declare("_axis_names", ("list", "val"))
    h.declare("_shape", ("list", "int"))
    h.declare("backend", "obj", GBackend(self))
    h.declare("_tensor", ("wrap", lambda t: GTensor(t, self)))
    self.rank = CTX.func("rank", I, I)
    self.tdim = CTX.func("tdim", I, I, I)
    self.B = CTX.bound
    if c.bounded:
      N, E = 2, 2 * self.B
      self.ids = (list(range(1, N + 1)), list(range(N + 1, N + E + 1)))
      h.alloc_base = z3.IntVal(N + E + 1)
      act = CTX.func("active", I, z3.BoolSort())
      self.nodes = lambda x: z3.And(x >= 1, x <= N)
      self.edges = lambda x: z3.And(x > N, x <= N + E, act(x))
      self.base0 = h.alloc_base
      return
    h.alloc_base = CTX.int("alloc")
    self.base0 = h.alloc_base
    self.nodes = CTX.func("isnode", I, z3.BoolSort())
    self.edges = CTX.func("isedge", I, z3.BoolSort())
    x = CTX.int("x")
    for p in (self.nodes, self.edges):
      c.assume(
          z3.ForAll([x], z3.Implies(p(x), z3.And(x < h.alloc_base, x > 0)),
                    patterns=[p(x)]))
    c.assume(z3.ForAll([x], z3.Not(z3.And(self.nodes(x), self.edges(x))),
                       patterns=[self.nodes(x)]))
    c.assume(h.alloc_base > 0)
    # dimension of an axis of a tensor: shapes live in the node (`_shape`)

  def shape_of(self, t):
    return SymTuple(wrap(simp(self.rank(t))),
                    lambda k: wrap(self.tdim(t, k)))

  # terms ---------------------------------------------------------------------
  @staticmethod
  def H(h=None):
    return h or CTX.heap

  def nd(self, e, s, h=None):
    return self.H(h).fields["_nodes"].elem(e, z3.IntVal(s))

  def ax(self, e, s, h=None):
    return self.H(h).fields["_axes"].elem(e, z3.IntVal(s))

  def dang(self, e, h=None):
    return self.H(h).fields["_is_dangling"].get(e)

  def dis(self, e, h=None):
    return self.H(h).fields["is_disabled"].get(e)

  def slot(self, n, k, h=None):
    return self.H(h).fields["_edges"].elem(n, k)

  def deg(self, n, h=None):
    return self.H(h).fields["_edges"].len(n)

  def dim(self, n, k, h=None):
    return self.tdim(self.H(h).fields["_tensor"].get(n), k)

  def nrank(self, n, h=None):
    return self.rank(self.H(h).fields["_tensor"].get(n))

  # the well-formedness invariant ----------------------------------------------
  def wf_edge(self, e, h=None, nodes=None):
    nodes = self.nodes if nodes is None else nodes

    def end(s):
      m, a = self.nd(e, s, h), self.ax(e, s, h)
      return z3.And(
          nodes(m), a >= 0, a < self.deg(m, h), self.slot(m, a, h) == e)

    return [
        z3.Not(self.dis(e, h)),
        end(0),
        self.dang(e, h) == (self.nd(e, 1, h) == NONE),
        self.dang(e, h) == (self.ax(e, 1, h) == NONE),
        z3.Implies(
            z3.Not(self.dang(e, h)),
            z3.And(
                end(1),
                self.dim(self.nd(e, 0, h), self.ax(e, 0, h), h) == self.dim(
                    self.nd(e, 1, h), self.ax(e, 1, h), h),
                z3.Or(
                    self.nd(e, 0, h) != self.nd(e, 1, h),
                    self.ax(e, 0, h) != self.ax(e, 1, h))))
    ]

  def local_wf(self, n):
    return z3.And(
        z3.Not(self.dis(n)),
        self.deg(n) >= 0,
        self.nrank(n) == self.deg(n),
        CTX.heap.fields["_axis_names"].len(n) == self.deg(n))

  def slot_wf(self, n, k):
    s = self.slot(n, k)
    side = lambda i: z3.And(self.nd(s, i) == n, self.ax(s, i) == k)
    return z3.And(
        self.edges(s), z3.Or(side(0), z3.And(z3.Not(self.dang(s)), side(1))))

  def assume_wf(self):
    if self.c.bounded:
      for i in self.ids[0]:
        n = z3.IntVal(i)
        CTX.assume(self.local_wf(n))
        CTX.assume(self.deg(n) <= self.B)
        for k in range(self.B):
          CTX.assume(
              z3.Implies(k < self.deg(n), self.slot_wf(n, z3.IntVal(k))))
      for i in self.ids[1]:
        e = z3.IntVal(i)
        CTX.assume(z3.Implies(self.edges(e), z3.And(self.wf_edge(e))))
      return
    n, e, k = CTX.int("n"), CTX.int("e"), CTX.int("k")
    node, edge = self.nodes(n), self.edges(e)
    CTX.assume(
        z3.ForAll([n], z3.Implies(node, self.local_wf(n)), patterns=[node]))
    CTX.assume(
        z3.ForAll([n, k], z3.Implies(
            z3.And(node, k >= 0, k < self.deg(n)), self.slot_wf(n, k)),
                  patterns=[self.slot(n, k)]))
    CTX.assume(
        z3.ForAll([e], z3.Implies(edge, z3.And(self.wf_edge(e))),
                  patterns=[edge]))

  def node(self, name):
    t = CTX.int(name)
    CTX.assume(self.nodes(t))
    return SymRef(t, nc.Node)

  def edge(self, name):
    t = CTX.int(name)
    CTX.assume(self.edges(t))
    return SymRef(t, nc.Edge)

  def prove_wf(self, c, what, nodes, edges):
    """WF of the current heap for the node/edge predicates given."""
    n, e, k = CTX.int("n"), CTX.int("e"), CTX.int("k")
    h = CTX.heap
    f = h.fields
    g = lambda pre, x: z3.Implies(pre, x)
    c.prove(
        f"{what}: every surviving node has one edge, axis name and dimension "
        "per axis",
        g(
            nodes(n),
            z3.And(
                z3.Not(self.dis(n)),
                self.deg(n) >= 0, self.nrank(n) == self.deg(n),
                f["_axis_names"].len(n) == self.deg(n))))
    s = self.slot(n, k)
    side = lambda i: z3.And(self.nd(s, i) == n, self.ax(s, i) == k)
    c.prove(
        f"{what}: the edge in slot k names the node and axis k",
        g(
            z3.And(nodes(n), k >= 0, k < self.deg(n)),
            z3.And(
                edges(s),
                z3.Or(side(0), z3.And(z3.Not(self.dang(s)), side(1))))))
    names = [
        "is enabled", "first end is the slot holding it",
        "dangling iff no second node", "dangling iff no second axis",
        "second end is a different slot of equal dimension holding it"
    ]
    for nm, fm in zip(names, self.wf_edge(e, nodes=nodes)):
      c.prove(f"{what}: edge {nm}", g(edges(e), fm))
