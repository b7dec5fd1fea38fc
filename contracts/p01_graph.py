import types
from pyvc.contract import *
from pyvc.graph import *
from tensornetwork import network_operations as no

M = "tensornetwork.network_components:"


def same_heap(c, what, old):
  """Nothing observable changed."""
  h = CTX.heap
  for name in ("_nodes", "_axes", "_edges", "_axis_names", "_shape"):
    r, k = CTX.int("r"), CTX.int("k")
    f, g = h.fields[name], old.fields[name]
    c.prove(f"{what}: {name} unchanged",
            z3.Implies(r < old.alloc_base, z3.And(f.len(r) == g.len(r),
                   f.elem(r, k) == g.elem(r, k))))
  for name in ("_is_dangling", "is_disabled", "_name", "_tensor"):
    r = CTX.int("r")
    c.prove(f"{what}: {name} unchanged",
            z3.Implies(r < old.alloc_base, h.fields[name].get(r) == old.fields[name].get(r)))


@contract("P01", [M + "connect", M + "Edge.__init__", M + "AbstractNode.add_edge"],
          covers=("returns", "refused"))
def connect(c):
  w = World(c)
  w.assume_wf()
  e1, e2 = w.edge("e1"), w.edge("e2")
  old = CTX.heap.snapshot()
  name = "newname" if c.flag() else None
  o = c.call(nc.connect, e1, e2, name=name)
  d1 = w.dang(e1.t, old)
  d2 = w.dang(e2.t, old)
  dim = lambda e: w.dim(w.nd(e, 0, old), w.ax(e, 0, old), old)
  legal = z3.And(d1, d2, e1.t != e2.t, dim(e1.t) == dim(e2.t))
  if not o.ok:
    c.cover("refused")
    c.prove("connect refuses only illegal requests", z3.Not(legal))
    c.fact("connect refuses with ValueError", isinstance(o.exc, ValueError),
           repr(o.exc))
    same_heap(c, "refused connect", old)
    return
  c.cover("returns")
  c.prove("connect accepts only two different dangling edges of equal "
          "dimension", legal)
  new = o.value.t
  c.prove("the new edge is new", new >= w.base0)
  edges = lambda e: z3.Or(z3.And(w.edges(e), e != e1.t, e != e2.t), e == new)
  w.prove_wf(c, "connect", w.nodes, edges)
  n1, a1 = w.nd(e1.t, 0, old), w.ax(e1.t, 0, old)
  n2, a2 = w.nd(e2.t, 0, old), w.ax(e2.t, 0, old)
  c.prove("the new edge joins exactly the two requested slots",
          z3.And(w.nd(new, 0) == n1, w.ax(new, 0) == a1, w.nd(new, 1) == n2,
                 w.ax(new, 1) == a2, z3.Not(w.dang(new))))
  n, k = CTX.int("n"), CTX.int("k")
  c.prove("no other slot of any node changes",
          z3.Implies(z3.And(w.nodes(n), z3.Not(z3.And(n == n1, k == a1)),
                            z3.Not(z3.And(n == n2, k == a2))),
                     w.slot(n, k) == w.slot(n, k, old)))


@contract("P01", [M + "disconnect", M + "Edge.disconnect"],
          covers=("returns", "refused"))
def disconnect(c):
  w = World(c)
  w.assume_wf()
  e = w.edge("e")
  old = CTX.heap.snapshot()
  names = (None, None) if c.flag() else ("n1", "n2")
  o = c.call(nc.disconnect, e, *names)
  if not o.ok:
    c.cover("refused")
    c.prove("disconnect refuses only dangling edges", w.dang(e.t, old))
    c.fact("disconnect refuses with ValueError", isinstance(o.exc, ValueError))
    same_heap(c, "refused disconnect", old)
    return
  c.cover("returns")
  c.prove("disconnect accepts only edges with two ends",
          z3.Not(w.dang(e.t, old)))
  a, b = o.value[0].t, o.value[1].t
  c.prove("two new edges", z3.And(a >= w.base0, b >= w.base0, a != b))
  edges = lambda x: z3.Or(z3.And(w.edges(x), x != e.t), x == a, x == b)
  w.prove_wf(c, "disconnect", w.nodes, edges)
  c.prove("each new edge dangles from one end of the old edge",
          z3.And(w.dang(a), w.dang(b),
                 *[x == y for x, y in (
                     (w.nd(a, 0), w.nd(e.t, 0, old)),
                     (w.ax(a, 0), w.ax(e.t, 0, old)),
                     (w.nd(b, 0), w.nd(e.t, 1, old)),
                     (w.ax(b, 0), w.ax(e.t, 1, old)))]))


@contract("P01", [M + "Edge.update_axis"], internal=True,
          covers=("returns", "refused"))
def update_axis(c):
  w = World(c)
  w.assume_wf()
  e = w.edge("e")
  n0, n1 = w.node("old"), w.node("new")
  a0, a1 = c.int("a0", 0), c.int("a1", 0)
  old = CTX.heap.snapshot()
  o = c.call(e.update_axis, a0, n0, a1, n1)
  m0 = z3.And(w.nd(e.t, 0, old) == n0.t, w.ax(e.t, 0, old) == z(a0))
  m1 = z3.And(w.nd(e.t, 1, old) == n0.t, w.ax(e.t, 1, old) == z(a0))
  if not o.ok:
    c.cover("refused")
    c.prove("update_axis refuses only foreign slots",
            z3.Not(z3.Or(m0, m1)))
    same_heap(c, "refused update_axis", old)
    return
  c.cover("returns")
  x, s = CTX.int("x"), None
  for s, mine, other in ((0, m0, z3.BoolVal(False)), (1, m1, m0)):
    hit = z3.And(x == e.t, mine, z3.Not(other))
    c.prove(f"update_axis moves exactly the matching end (side {s})",
            z3.And(w.nd(x, s) == z3.If(hit, n1.t, w.nd(x, s, old)),
                   w.ax(x, s) == z3.If(hit, z(a1), w.ax(x, s, old))))


A = M + "AbstractNode."


def permutation_of(c, w, n, old):
  """An arbitrary permutation of the axes of n, with its inverse."""
  d = w.deg(n, old)
  f, inv = CTX.func("perm", I, I), CTX.func("inv", I, I)
  k = CTX.int("k")
  c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < d), z3.And(
      f(k) >= 0, f(k) < d, inv(f(k)) == k)), patterns=[f(k)]))
  c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < d), z3.And(
      inv(k) >= 0, inv(k) < d, f(inv(k)) == k)),
                     patterns=[inv(k), touch(k)]))
  return d, f, inv, True


def permutation(c, w, n, old):
  """A list that is (case 0) or is not a permutation of the axes of n."""
  d = w.deg(n, old)
  f = CTX.func("perm", I, I)
  if c.bounded:
    m = c.size("len", 0, w.B + 1)
    for k in range(m):
      c.assume(z3.And(f(k) >= 0, f(k) <= w.B))
    case = c.pick(2)
    ok = z3.And(d == m, *[z3.And(f(k) < d, *[f(j) != f(k) for j in range(k)])
                          for k in range(m)])
    c.assume(ok if case == 0 else z3.Not(ok))
    return [wrap(f(k)) for k in range(m)], f, None, case == 0
  case = c.pick(4)
  inv = None
  if case == 0:
    _, f, inv, _ = permutation_of(c, w, n, old)
    m = d
  else:
    m = CTX.int("len")
    c.assume(m >= 0)
    a, b, k = CTX.int("a"), CTX.int("b"), CTX.int("k")
    c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), f(k) >= 0),
                       patterns=[f(k)]))
    c.assume([m != d, z3.And(a >= 0, a < m, f(a) >= d),
              z3.And(a >= 0, a < b, b < m, f(a) == f(b))][case - 1])
  return SymTuple(wrap(m), lambda k: wrap(f(k))), f, inv, case == 0


def moved(w, n, inv, k, old):
  """Axis now holding what axis a of n held after the first k moves."""
  return lambda a: z3.If(z3.And(inv(a) < k), inv(a), a)


def loop_of_moves(c, w, lid, n, f, inv, old, name, edges=True):
  """Invariant of `for i, p in enumerate(perm): edge.update_axis(p, n, i, n)`:
  exactly the ends on the first k target axes have moved."""

  def invariant(_, k, L):
    e, j, kk = CTX.int("e"), CTX.int("j"), z(k)
    mv = moved(w, n, inv, kk, old)
    x = lambda s: w.ax(e, s, old)
    on = lambda s: w.nd(e, s, old) == n
    trace = z3.And(on(0), on(1))
    both = lambda p, q: z3.And(w.ax(e, 0) == p, w.ax(e, 1) == q)
    end = lambda s: z3.If(on(s), mv(x(s)), x(s))
    got = as_seq(L[name])
    F = z3.ForAll
    return [
        ("ends keep their nodes", F([e], z3.And(*[
            w.nd(e, s) == w.nd(e, s, old) for s in (0, 1)]))),
        ("edges that are not on the node stay", F([e], z3.Implies(
            z3.Not(w.edges(e)), both(x(0), x(1))))),
        ("other edges move their end on the node", F([e], z3.Implies(
            z3.And(w.edges(e), z3.Not(trace)), both(end(0), end(1))))),
        ("trace edges move both ends", F([e], z3.Implies(
            z3.And(w.edges(e), trace),
            z3.Or(both(mv(x(0)), mv(x(1))), both(mv(x(1)), mv(x(0))))))),
        ("collected", z3.And(z(got.length()) == kk, forall(
            0, kk, lambda j: z(got.get(j)) == (
                w.slot(n, f(j), old) if edges else f(j))))),
    ]

  def havoc(_, k, L):
    g = CTX.func(name, I, I)
    return {name: SymList(wrap(z(k)), lambda j: SymRef(g(j), nc.Edge) if edges
                          else wrap(g(j)))}

  c.loop(lid, invariant, havoc, fields=("_axes", "_nodes"))


@contract("P01", [A + "reorder_axes", M + "Edge.update_axis"], limit=200,
          covers=("returns", "refused"))
def reorder_axes(c):
  w = World(c)
  w.assume_wf()
  node = w.node("node")
  n = node.t
  old = CTX.heap.snapshot()
  perm, f, inv, legal = permutation(c, w, n, old)
  if not c.bounded and legal:
    loop_of_moves(c, w, A + "reorder_axes#0", n, f, inv, old, "tmp_edges")
    names = CTX.func("names", I, I)
    c.loop(A + "reorder_axes#1", lambda _, k, L: [("names", z3.And(
        z(as_seq(L["tmp_axis_names"]).length()) == z(k),
        forall(0, z(k), lambda j: z(as_seq(L["tmp_axis_names"]).get(j)) ==
               old.fields["_axis_names"].elem(n, f(j)))))],
           lambda _, k, L: {"tmp_axis_names": SymList(
               wrap(z(k)), lambda j: SymVal(names(j), "str"))})
  o = c.call(node.reorder_axes, perm)
  if not o.ok:
    c.cover("refused")
    c.prove("reorder_axes accepts every permutation", z3.BoolVal(not legal))
    same_heap(c, "refused reorder_axes", old)
    return
  c.cover("returns")
  c.fact("reorder_axes refuses what is not a permutation", legal)
  w.prove_wf(c, "reorder_axes", w.nodes, w.edges)
  m, k = CTX.int("m"), CTX.int("k")
  at = z3.And(k >= 0, k < w.deg(n, old))
  c.prove("axis k now holds what axis perm[k] held",
          z3.Implies(at, z3.And(
              w.slot(n, k) == w.slot(n, f(k), old),
              w.dim(n, k) == w.dim(n, f(k), old),
              CTX.heap.fields["_axis_names"].elem(n, k) ==
              old.fields["_axis_names"].elem(n, f(k)))))
  c.prove("no other node changes",
          z3.Implies(z3.And(w.nodes(m), m != n), z3.And(
              w.slot(m, k) == w.slot(m, k, old), w.deg(m) == w.deg(m, old),
              w.dim(m, k) == w.dim(m, k, old))))


@contract("P01", [A + "reorder_edges", M + "Edge.update_axis"], limit=200,
          covers=("returns", "refused"))
def reorder_edges(c):
  w = World(c)
  w.assume_wf()
  node = w.node("node")
  n = node.t
  old = CTX.heap.snapshot()
  d, k = w.deg(n, old), CTX.int("k")
  f = inv = None
  trace = lambda e: z3.And(z3.Not(w.dang(e, old)),
                           w.nd(e, 0, old) == w.nd(e, 1, old))
  if c.bounded:
    m = c.size("len", 0, w.B + 1)
    es = [w.edge("e%d" % i) for i in range(m)]
    on = lambda e: z3.Or([z3.And(d > j, w.slot(n, z3.IntVal(j), old) == e.t)
                          for j in range(w.B)])
    ok = z3.And(d == m, *[z3.And(on(e), z3.Not(trace(e.t)), *[
        e.t != x.t for x in es[:i]]) for i, e in enumerate(es)])
    legal = c.pick(2) == 0
    c.assume(ok if legal else z3.Not(ok))
    order = es
    elem = lambda j: z(list_get(es, j)) if es else z3.IntVal(0)
  else:
    case = c.pick(5)
    legal = case == 0
    if legal:
      _, f, inv, _ = permutation_of(c, w, n, old)
      m = d
      elem = lambda j: w.slot(n, f(j), old)
      c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < d),
                                         z3.Not(trace(w.slot(n, k, old)))),
                         patterns=[w.slot(n, k, old)]))
    else:
      m, g = CTX.int("len"), CTX.func("order", I, I)
      elem = g
      c.assume(m >= 0)
      c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), w.edges(g(k))),
                         patterns=[g(k)]))
      a, b = CTX.int("a"), CTX.int("b")
      at = lambda x: z3.And(x >= 0, x < m)
      c.assume([
          z3.And(at(a), touch(g(a)), z3.ForAll([k], z3.Implies(
              z3.And(k >= 0, k < d), w.slot(n, k, old) != g(a)))),
          z3.And(a >= 0, a < d, touch(w.slot(n, a, old)), z3.ForAll(
              [k], z3.Implies(z3.And(k >= 0, k < m),
                              g(k) != w.slot(n, a, old)))),
          z3.And(at(a), trace(g(a))),
          z3.And(at(a), at(b), a < b, g(a) == g(b), m != d)][case - 1])
    order = SymList(wrap(m), lambda j: SymRef(elem(j), nc.Edge))
    c.loop(A + "reorder_edges#0", lambda _, k, L: [("no trace edge so far", forall(
        0, z(k), lambda j: z3.Not(trace(elem(j)))))])
    if legal:
      loop_of_moves(c, w, A + "reorder_edges#1", n, f, inv, old, "permutation",
                    edges=False)
      names = CTX.func("names", I, I)
      c.loop(A + "reorder_edges#2", lambda _, k, L: [("names", z3.And(
          z(as_seq(L["tmp_axis_names"]).length()) == z(k),
          forall(0, z(k), lambda j: z(as_seq(L["tmp_axis_names"]).get(j)) ==
                 old.fields["_axis_names"].elem(n, f(j)))))],
             lambda _, k, L: {"tmp_axis_names": SymList(
                 wrap(z(k)), lambda j: SymVal(names(j), "str"))})
  o = c.call(node.reorder_edges, order)
  if not o.ok:
    c.cover("refused")
    c.prove("reorder_edges accepts every order of the node's edges",
            z3.BoolVal(not legal))
    same_heap(c, "refused reorder_edges", old)
    return
  c.cover("returns")
  c.fact("reorder_edges refuses what is not an order of the node's edges", legal)
  w.prove_wf(c, "reorder_edges", w.nodes, w.edges)
  m, k, j = CTX.int("m"), CTX.int("k"), CTX.int("j")
  at = z3.And(k >= 0, k < d)
  was = z3.And(j >= 0, j < d, w.slot(n, j, old) == w.slot(n, k))
  c.prove("axis k holds the k-th edge of the given order",
          z3.Implies(at, w.slot(n, k) == elem(k)))
  c.prove("data and names move with their edge",
          z3.Implies(z3.And(at, was), z3.And(
              w.dim(n, k) == w.dim(n, j, old),
              CTX.heap.fields["_axis_names"].elem(n, k) ==
              old.fields["_axis_names"].elem(n, j))))
  c.prove("no other node changes",
          z3.Implies(z3.And(w.nodes(m), m != n), z3.And(
              w.slot(m, k) == w.slot(m, k, old), w.deg(m) == w.deg(m, old),
              w.dim(m, k) == w.dim(m, k, old))))


EDGE_FIELDS = ("_nodes", "_axes", "_name", "_is_dangling", "is_disabled")


def fresh_loop(c, w):
  """Invariant of fresh_edges: slot j < i of the node holds the new edge
  number j, which dangles from that slot; nothing else has changed."""

  def invariant(_, k, L):
    kk, h0 = z(k), L["@entry"]
    n = L["self"].t
    e0 = h0.alloc_base + h0.allocated
    r, j, m = CTX.int("r"), CTX.int("j"), CTX.int("m")
    F, f, g = z3.ForAll, CTX.heap.fields, h0.fields
    new = z3.And(r >= e0, r < e0 + kk)
    old = z3.And(r < e0)
    return [
        ("new edges dangle from their slot", F([r], z3.Implies(new, z3.And(
            w.nd(r, 0) == n, w.ax(r, 0) == r - e0, w.nd(r, 1) == NONE,
            w.ax(r, 1) == NONE, w.dang(r), z3.Not(w.dis(r)))))),
        ("old edges stay", F([r], z3.Implies(old, z3.And(
            w.nd(r, 0) == w.nd(r, 0, h0), w.ax(r, 0) == w.ax(r, 0, h0),
            w.nd(r, 1) == w.nd(r, 1, h0), w.ax(r, 1) == w.ax(r, 1, h0),
            w.dang(r) == w.dang(r, h0), w.dis(r) == w.dis(r, h0),
            f["_name"].get(r) == g["_name"].get(r))))),
        ("slots", F([m, j], w.slot(m, j) == z3.If(
            z3.And(m == n, j >= 0, j < kk), e0 + j, w.slot(m, j, h0)))),
        ("degrees", F([m], w.deg(m) == w.deg(m, h0))),
    ]

  c.loop(A + "fresh_edges#0", invariant, None,
         fields=EDGE_FIELDS + ("_edges",), alloc=lambda k: k)


def created(w, n, k, first, h=None):
  """slot k of n holds the dangling edge number k of a block"""
  e = w.slot(n, k, h)
  return z3.And(e == first + k, w.dang(e, h), w.nd(e, 0, h) == n,
                w.ax(e, 0, h) == k)


@contract("P01", [A + "fresh_edges", M + "Edge.__init__", A + "add_edge"],
          internal=True, limit=200)
def fresh_edges(c):
  w = World(c)
  w.assume_wf()
  node = w.node("node")
  n = node.t
  old = CTX.heap.snapshot()
  fresh_loop(c, w)
  if c.flag():
    o = c.call(node.fresh_edges)
  else:
    o = c.call(node.fresh_edges, node.axis_names)
  if not o.ok:
    c.prove("fresh_edges does not fail on a node of the network",
            z3.BoolVal(False))
    return
  m, k = CTX.int("m"), CTX.int("k")
  c.prove("every slot has a new dangling edge of its own", z3.Implies(
      z3.And(k >= 0, k < w.deg(n, old)),
      z3.And(created(w, n, k, w.base0), w.slot(n, k) >= w.base0)))
  c.prove("as many as before", w.deg(n) == w.deg(n, old))
  c.prove("no other node changes", z3.Implies(
      z3.And(w.nodes(m), m != n), z3.And(
          w.slot(m, k) == w.slot(m, k, old), w.deg(m) == w.deg(m, old))))
  c.cover()


@contract("P01", [M + "Node.__init__", A + "__init__", A + "add_axis_names",
                  M + "Edge.__init__"], covers=("returns", "refused"),
          limit=200)
def new_node(c):
  """Node(tensor, ...) from any tensor, with or without names."""
  w = World(c)
  w.assume_wf()
  old = CTX.heap.snapshot()
  t = CTX.int("tensor")
  c.assume(w.rank(t) >= 0)
  if c.bounded:
    c.assume(w.rank(t) <= w.B)
  backend = CTX.heap.fields["backend"].get(t)
  c.patch("tensornetwork.network_components", "AbstractBackend", GBackend)
  names = None
  if c.flag():
    m = c.size("names", 0)
    if c.bounded:
      names = ["n%d" % c.pick(2) for _ in range(m)]
    else:
      g, k = CTX.func("name", I, I), CTX.int("k")
      c.assume(z3.ForAll([k], g(k) != NONE, patterns=[g(k)]))
      names = SymList(m, lambda k: SymVal(g(k), "str"))
  o = c.call(nc.Node, SymVal(t), name="x" if c.flag() else None,
             axis_names=names, backend=backend)
  if names is not None:
    s = as_seq(names)
    at = lambda j: z(s.get(j))
    legal = z3.And(z(s.length()) == w.rank(t), forall(
        0, s.length(), lambda j: forall(0, j, lambda i: at(i) != at(j))))
  else:
    legal = z3.BoolVal(True)
  if not o.ok:
    c.cover("refused")
    c.prove("Node refuses only repeated or wrongly many names", z3.Not(legal))
    same_heap(c, "refused Node", old)
    return
  c.cover("returns")
  c.prove("Node refuses repeated or wrongly many names", legal)
  n = o.value.t
  mine = lambda x: z3.Or(w.nodes(x), x == n)
  new = lambda x: z3.And(x > n, x <= n + w.rank(t))
  edges = lambda x: z3.Or(w.edges(x), new(x))
  c.prove("the node is new", n >= w.base0)
  w.prove_wf(c, "Node", mine, edges)
  m, k = CTX.int("m"), CTX.int("k")
  c.prove("the node holds the tensor",
          CTX.heap.fields["_tensor"].get(n) == t)
  c.prove("every edge of the new node dangles", z3.Implies(
      z3.And(k >= 0, k < w.rank(t)), w.dang(w.slot(n, k))))
  c.prove("no other node changes", z3.Implies(w.nodes(m), z3.And(
      w.slot(m, k) == w.slot(m, k, old), w.deg(m) == w.deg(m, old),
      w.dim(m, k) == w.dim(m, k, old))))


def remove_loops(c, w, e, n1, p1, n2, p2, old, fn=M + "_remove_edges"):
  """Invariants of _remove_edges({e}, n1, n2, new) where e joins axis p1 of n1
  and axis p2 of n2: the ends of the other edges move one by one."""
  d1 = w.deg(n1, old)
  skip = lambda a, p: z3.If(a > p, a - 1, a)
  unskip = lambda k, p: z3.If(k >= p, k + 1, k)
  rem = lambda j: z3.If(j < d1 - 1, w.slot(n1, unskip(j, p1), old),
                        w.slot(n2, unskip(j - (d1 - 1), p2), old))

  def ends(new, k1, k2):
    x = CTX.int("x")
    out = []
    for s in (0, 1):
      m, a = w.nd(x, s, old), w.ax(x, s, old)
      g1 = z3.And(w.edges(x), x != e, m == n1, a < k1)
      g2 = z3.And(w.edges(x), x != e, m == n2, a < k2)
      out += [w.nd(x, s) == z3.If(z3.Or(g1, g2), new, m),
              w.ax(x, s) == z3.If(g1, skip(a, p1), z3.If(
                  g2, d1 - 1 + skip(a, p2), a))]
    return z3.ForAll([x], z3.Implies(x < w.base0, z3.And(out)))

  def lists(_, k, L, count):
    got = as_seq(L["remaining_edges"])
    if got.clen() == 0:
      return count == 0
    return z3.And(z(got.length()) == count, forall(
        0, count, lambda j: z(got.get(j)) == rem(j)))

  def havoc(count):

    def f(_, k, L):
      g = CTX.func("remaining", I, I)
      return {"remaining_edges": SymList(wrap(simp(count(z(k)))),
                                         lambda j: SymRef(g(j), nc.Edge))}

    return f

  done = lambda k, p: z3.If(k > p, k - 1, k)
  c1 = lambda k: done(k, p1)
  c2 = lambda k: d1 - 1 + done(k, p2)
  c.loop(fn + "#1", lambda _, k, L: [
      ("ends of the first node's edges move", ends(L["new_node"].t, z(k), 0)),
      ("remaining edges", lists(_, k, L, c1(z(k))))],
         havoc(c1), fields=("_nodes", "_axes"))
  c.loop(fn + "#2", lambda _, k, L: [
      ("ends of the second node's edges move", ends(L["new_node"].t, d1, z(k))),
      ("remaining edges", lists(_, k, L, c2(z(k))))],
         havoc(c2), fields=("_nodes", "_axes"))

  def filled(_, k, L):
    h0, new, m, j = L["@entry"], L["new_node"].t, CTX.int("m"), CTX.int("j")
    return [("slots of the new node", z3.ForAll([m, j], w.slot(m, j) == z3.If(
        z3.And(m == new, j >= 0, j < z(k)), rem(j), w.slot(m, j, h0)))),
            ("degrees", z3.ForAll([m], w.deg(m) == w.deg(m, h0)))]

  c.loop(fn + "#3", filled, fields=("_edges",))
  return rem


def backend_of(c, w):
  b = CTX.heap.fields["backend"].get(z3.IntVal(0))
  c.patch("tensornetwork.network_components", "AbstractBackend", GBackend)
  c.patch("tensornetwork.network_components", "backend_factory",
          types.SimpleNamespace(get_backend=lambda name: b))
  return b


@contract("P01", [M + "contract", M + "_remove_edges", M + "Node.__init__",
                  A + "fresh_edges", M + "Edge.update_axis",
                  M + "Edge.disable"], covers=("returns", "refused"), limit=300)
def contract_edge(c):
  """contract(edge) between two nodes, or of a dangling edge."""
  w = World(c)
  w.assume_wf()
  edge = w.edge("edge")
  e = edge.t
  old = CTX.heap.snapshot()
  backend_of(c, w)
  n1, n2, p1, p2 = (f(e, s, old) for f in (w.nd, w.ax) for s in (0, 1))
  c.assume(z3.Or(w.dang(e, old), n1 != n2))
  d1, d2 = w.deg(n1, old), w.deg(n2, old)
  rem = remove_loops(c, w, e, n1, p1, n2, p2, old)
  fresh_loop(c, w)
  o = c.call(nc.contract, edge)
  if not o.ok:
    c.cover("refused")
    c.prove("contract refuses only dangling edges", w.dang(e, old))
    c.fact("contract refuses with ValueError", isinstance(o.exc, ValueError))
    same_heap(c, "refused contract", old)
    return
  c.cover("returns")
  c.prove("contract refuses dangling edges", z3.Not(w.dang(e, old)))
  n = o.value.t
  r = d1 + d2 - 2
  c.prove("the result is a new node", n >= w.base0)
  mine = lambda x: z3.Or(w.nodes(x), x == n)
  edges = lambda x: z3.Or(z3.And(w.edges(x), x != e), z3.And(
      x > n + r, x <= n + r + d1 + d2))
  w.prove_wf(c, "contract", mine, edges)
  m, k = CTX.int("m"), CTX.int("k")
  c.prove("the contracted edge is disabled", w.dis(e))
  unskip = lambda q, p: z3.If(q >= p, q + 1, q)
  j = k - (d1 - 1)
  c.prove("the surviving edges of the first node, then of the second", z3.And(
      w.deg(n) == r, z3.Implies(z3.And(k >= 0, k < r), z3.And(
          w.slot(n, k) == rem(k),
          w.dim(n, k) == z3.If(k < d1 - 1, w.dim(n1, unskip(k, p1), old),
                               w.dim(n2, unskip(j, p2), old))))))
  c.prove("the contracted nodes are left with dangling edges only", z3.Implies(
      z3.And(z3.Or(m == n1, m == n2), k >= 0, k < w.deg(m)),
      z3.And(w.dang(w.slot(m, k)), w.deg(m) == w.deg(m, old))))
  c.prove("no other node changes", z3.Implies(
      z3.And(w.nodes(m), m != n1, m != n2), z3.And(
          w.slot(m, k) == w.slot(m, k, old), w.deg(m) == w.deg(m, old),
          w.dim(m, k) == w.dim(m, k, old))))


@contract("P01", [M + "outer_product", M + "Node.__init__", A + "fresh_edges",
                  M + "Edge.update_axis"], limit=300)
def outer(c):
  """outer_product(node1, node2) of two different nodes."""
  w = World(c)
  w.assume_wf()
  a, b = w.node("node1"), w.node("node2")
  n1, n2 = a.t, b.t
  c.assume(n1 != n2)
  old = CTX.heap.snapshot()
  backend_of(c, w)
  d1, d2 = w.deg(n1, old), w.deg(n2, old)
  rem = lambda j: z3.If(j < d1, w.slot(n1, j, old), w.slot(n2, j - d1, old))

  def ends(k1, k2):

    def f(_, k, L):
      x, new, out = CTX.int("x"), L["new_node"].t, []
      q1, q2 = k1(z(k)), k2(z(k))
      for s in (0, 1):
        m, i = w.nd(x, s, old), w.ax(x, s, old)
        g1 = z3.And(w.edges(x), m == n1, i < q1)
        g2 = z3.And(w.edges(x), m == n2, i < q2)
        out += [w.nd(x, s) == z3.If(z3.Or(g1, g2), new, m),
                w.ax(x, s) == z3.If(g2, d1 + i, i)]
      return [("ends move one by one", z3.ForAll(
          [x], z3.Implies(x < w.base0, z3.And(out))))]

    return f

  def filled(_, k, L):
    h0, new, m, j = L["@entry"], L["new_node"].t, CTX.int("m"), CTX.int("j")
    return [("slots of the new node", z3.ForAll([m, j], w.slot(m, j) == z3.If(
        z3.And(m == new, j >= 0, j < z(k)), rem(j), w.slot(m, j, h0)))),
            ("degrees", z3.ForAll([m], w.deg(m) == w.deg(m, h0)))]

  fn = M + "outer_product"
  zero = z3.IntVal(0)
  c.loop(fn + "#1", ends(lambda k: k, lambda k: zero), fields=("_nodes", "_axes"))
  c.loop(fn + "#2", ends(lambda k: d1, lambda k: k), fields=("_nodes", "_axes"))
  c.loop(fn + "#3", filled, fields=("_edges",))
  fresh_loop(c, w)
  o = c.call(nc.outer_product, a, b)
  if not o.ok:
    c.prove("outer_product does not fail on two nodes of the network",
            z3.BoolVal(False))
    return
  n, r = o.value.t, d1 + d2
  c.prove("the result is a new node", n >= w.base0)
  w.prove_wf(c, "outer_product", lambda x: z3.Or(w.nodes(x), x == n),
             lambda x: z3.Or(w.edges(x), z3.And(x > n + r, x <= n + 2 * r)))
  m, k = CTX.int("m"), CTX.int("k")
  c.prove("the edges of the first node, then of the second", z3.And(
      w.deg(n) == r, z3.Implies(z3.And(k >= 0, k < r), z3.And(
          w.slot(n, k) == rem(k),
          w.dim(n, k) == z3.If(k < d1, w.dim(n1, k, old),
                               w.dim(n2, k - d1, old))))))
  c.prove("the old nodes are left with dangling edges only", z3.Implies(
      z3.And(z3.Or(m == n1, m == n2), k >= 0, k < w.deg(m)),
      z3.And(w.dang(w.slot(m, k)), w.deg(m) == w.deg(m, old))))
  c.prove("no other node changes", z3.Implies(
      z3.And(w.nodes(m), m != n1, m != n2), z3.And(
          w.slot(m, k) == w.slot(m, k, old), w.deg(m) == w.deg(m, old),
          w.dim(m, k) == w.dim(m, k, old))))
  c.cover()


@contract("P01", [M + "outer_product"], covers=("refused",))
def outer_itself(c):
  """outer_product(node, node) of a node with axes would give every edge to the
  result twice: it is refused before anything changes."""
  w = World(c)
  w.assume_wf()
  a = w.node("node")
  old = CTX.heap.snapshot()
  backend_of(c, w)
  c.assume(w.deg(a.t, old) > 0)
  o = c.call(nc.outer_product, a, a)
  c.fact("outer_product of a node with itself is refused",
         not o.ok and isinstance(o.exc, ValueError), repr(o.exc))
  if not o.ok:
    c.cover("refused")
    same_heap(c, "refused outer_product", old)


@contract("P01", ["tensornetwork.network_operations:redirect_edge",
                  A + "add_edge"], covers=("returns", "refused"), limit=200)
def redirect(c):
  """redirect_edge(edge, new, old): onto a node whose slots of the same number
  dangle and have the same dimension."""
  w = World(c)
  w.assume_wf()
  edge, new, was = w.edge("edge"), w.node("new"), w.node("was")
  e, n, o_ = edge.t, new.t, was.t
  old = CTX.heap.snapshot()
  c.assume(n != o_)
  on = lambda s: z3.And(w.nd(e, s, old) == o_, z3.Or(
      s == 0, z3.Not(w.dang(e, old))))
  for s in (0, 1):
    ax = w.ax(e, s, old)
    c.assume(z3.Implies(on(s), z3.And(
        ax < w.deg(n, old), w.dang(w.slot(n, ax, old), old),
        w.dim(n, ax, old) == w.dim(o_, ax, old))))
  o = c.call(no.redirect_edge, edge, new, was)
  held = z3.Or(on(0), on(1))
  if not o.ok:
    c.cover("refused")
    c.prove("redirect_edge refuses only edges that are not on the old node",
            z3.Not(held))
    same_heap(c, "refused redirect_edge", old)
    return
  c.cover("returns")
  c.prove("redirect_edge refuses edges that are not on the old node", held)
  fresh = w.base0
  gone = lambda x: z3.Or(*[z3.And(on(s), x == w.slot(n, w.ax(e, s, old), old))
                           for s in (0, 1)])
  w.prove_wf(c, "redirect_edge", w.nodes, lambda x: z3.Or(
      z3.And(w.edges(x), z3.Not(z3.And(gone(x), x != e))), x == fresh))
  m, k = CTX.int("m"), CTX.int("k")
  c.prove("the edge is now on the new node, at the same axis", z3.And(*[
      z3.Implies(on(s), z3.And(w.slot(n, w.ax(e, s, old)) == e))
      for s in (0, 1)]))
  hit = z3.Or(*[z3.And(on(s), k == w.ax(e, s, old)) for s in (0, 1)])
  c.prove("no other slot changes", z3.Implies(
      z3.And(w.nodes(m), z3.Not(z3.And(z3.Or(m == n, m == o_), hit))),
      w.slot(m, k) == w.slot(m, k, old)))


@contract("P01", [M + "contract", M + "_contract_trace",
                  M + "_remove_trace_edge", M + "Node.__init__",
                  A + "fresh_edges"], limit=300)
def contract_trace_edge(c):
  """contract(edge) of an edge that joins two axes of one node."""
  w = World(c)
  w.assume_wf()
  edge = w.edge("edge")
  e = edge.t
  old = CTX.heap.snapshot()
  backend_of(c, w)
  n1, a0, a1 = w.nd(e, 0, old), w.ax(e, 0, old), w.ax(e, 1, old)
  c.assume(z3.And(z3.Not(w.dang(e, old)), n1 == w.nd(e, 1, old)))
  d = w.deg(n1, old)
  lo, hi = (a0, a1) if CTX.branch(a0 < a1) else (a1, a0)
  down = lambda a: z3.If(a > hi, a - 2, z3.If(a > lo, a - 1, a))
  up = lambda k: z3.If(k >= hi - 1, k + 2, z3.If(k >= lo, k + 1, k))
  rem = lambda k: w.slot(n1, up(k), old)
  on = lambda x, s: z3.And(w.edges(x), x != e, w.nd(x, s, old) == n1)
  seen = lambda x, k: z3.Or(*[z3.And(on(x, s), down(w.ax(x, s, old)) < k)
                              for s in (0, 1)])

  def ends(_, k, L):
    x, new, kk, out = CTX.int("x"), L["new_node"].t, z(k), []
    for s in (0, 1):
      m, i = w.nd(x, s, old), w.ax(x, s, old)
      hit = z3.And(on(x, s), seen(x, kk))
      out += [w.nd(x, s) == z3.If(hit, new, m),
              w.ax(x, s) == z3.If(hit, down(i), i)]
    y, got = CTX.int("y"), L["seen_edges"]
    return [("both ends of the edges seen so far have moved", z3.ForAll(
        [x], z3.Implies(x < w.base0, z3.And(out)))),
            ("the edges seen so far", z3.ForAll(
                [y], got.has(y) == seen(y, kk)))]

  def havoc(_, k, L):
    kk = z(k)
    return {"seen_edges": ASet(pred=lambda y: seen(y, kk),
                               rewrap=edge.rewrap)}

  def filled(_, k, L):
    h0, new, m, j = L["@entry"], L["new_node"].t, CTX.int("m"), CTX.int("j")
    return [("slots of the new node", z3.ForAll([m, j], w.slot(m, j) == z3.If(
        z3.And(m == new, j >= 0, j < z(k)), rem(j), w.slot(m, j, h0)))),
            ("degrees", z3.ForAll([m], w.deg(m) == w.deg(m, h0)))]

  fn = M + "_remove_trace_edge"
  c.loop(fn + "#0", ends, havoc, fields=("_nodes", "_axes"))
  c.loop(fn + "#1", filled, fields=("_edges",))
  fresh_loop(c, w)
  o = c.call(nc.contract, edge)
  if not o.ok:
    c.prove("contract does not fail on a trace edge", z3.BoolVal(False))
    return
  n, r = o.value.t, d - 2
  c.prove("the result is a new node", n >= w.base0)
  w.prove_wf(c, "contract", lambda x: z3.Or(w.nodes(x), x == n),
             lambda x: z3.Or(z3.And(w.edges(x), x != e), z3.And(
                 x > n + r, x <= n + r + d)))
  m, k = CTX.int("m"), CTX.int("k")
  c.prove("the contracted edge is disabled", w.dis(e))
  c.prove("the surviving edges keep their order and dimensions", z3.And(
      w.deg(n) == r, z3.Implies(z3.And(k >= 0, k < r), z3.And(
          w.slot(n, k) == rem(k), w.dim(n, k) == w.dim(n1, up(k), old)))))
  c.prove("the old node is left with dangling edges only", z3.Implies(
      z3.And(k >= 0, k < d),
      z3.And(w.dang(w.slot(n1, k)), w.deg(n1) == d)))
  c.prove("no other node changes", z3.Implies(
      z3.And(w.nodes(m), m != n1), z3.And(
          w.slot(m, k) == w.slot(m, k, old), w.deg(m) == w.deg(m, old),
          w.dim(m, k) == w.dim(m, k, old))))
  c.cover()
