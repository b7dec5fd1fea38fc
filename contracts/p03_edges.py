"""P03: re-indexing operations keep every edge on its data."""
import itertools
import tensornetwork as tn
from tensornetwork import network_components as nc
from pyvc.contract import contract
from contracts.netlib import *

M = "tensornetwork.network_components:"


@contract("P03", [M + "AbstractNode.reorder_edges", M + "AbstractNode.reorder_axes",
                  M + "AbstractNode.tensor_from_edge_order"], modes=("bounded",),
          replay=True, note="all entries and dimensions; rank up to 4 (3 for "
          "networks with a second node), all permutations")
def reorder(c):
  kind = c.pick(["free", "pair", "trace"])
  if kind == "free":
    n = c.pick([1, 2, 3, 4])
    net = Net(c, [[f"a{i}" for i in range(n)]])
  elif kind == "pair":
    n = c.pick([1, 2, 3])
    k = c.pick(list(range(1, n + 1)))
    l1, l2 = pair_legs(n, 2, c.pick(list(matchings(n, 2, min(k, 2)))))
    net = Net(c, [l1, l2], orient=True)
  else:
    n = c.pick([2, 3, 4])
    net = Net(c, [c.pick(list(traced_legs(n, 1)))])
  a = net.nodes[0]
  old_edges, old_names, old = list(a.edges), list(a.axis_names), a.tensor
  perm = list(c.pick(list(itertools.permutations(range(n)))))
  op = c.pick(["axes", "edges", "tensor"])
  if kind == "trace" and op != "axes":
    o = c.call(a.reorder_edges if op == "edges" else a.tensor_from_edge_order,
               [old_edges[p] for p in perm])
    if not o.ok:
      # a trace edge occupies two slots: only reorder_axes can move it
      c.fact("refused reordering leaves the node as it was",
             a.tensor is old and all(
                 x is y for x, y in zip(a.edges, old_edges)))
      return
  elif op == "axes":
    r = c.value(a.reorder_axes, perm)
    c.fact("reorder_axes returns the node", r is a)
  elif op == "edges":
    r = c.value(a.reorder_edges, [old_edges[p] for p in perm])
    c.fact("reorder_edges returns the node", r is a)
  else:
    t = c.value(a.tensor_from_edge_order, [old_edges[p] for p in perm])
    tt = t.tensor if hasattr(t, "tensor") and hasattr(t, "edges") else t
    c.same("tensor_from_edge_order permutes the data", tt,
           c.einsum([list(range(n))], perm, [old]))
    c.fact("tensor_from_edge_order leaves the node as it was",
           a.tensor is old and all(x is y for x, y in zip(a.edges, old_edges)))
    return
  c.fact("edges in the requested order",
         all(a.edges[i] is old_edges[p] for i, p in enumerate(perm)) and
         len(a.edges) == n)
  c.fact("axis names follow their axes",
         list(a.axis_names) == [old_names[p] for p in perm],
         f"{a.axis_names} {old_names} {perm}")
  c.same("the data follows the edges", a.tensor,
         c.einsum([list(range(n))], perm, [old]))
  wf(c, "reorder", net.nodes)
  c.cover()


def group(c, net, labels):
  return [net.edge[l] for l in labels]


@contract("P03", [M + "flatten_edges", M + "flatten_edges_between",
                  M + "flatten_all_edges", M + "get_shared_edges"],
          modes=("bounded",), replay=True,
          note="all entries and dimensions; nodes of rank up to 3 (4 thorough) "
          "with 2 or 3 parallel edges, every order of the flattened edges")
def flatten_parallel(c):
  top = 4 if c.thorough else 3
  r1 = c.pick(list(range(2, top + 1)))
  r2 = c.pick(list(range(2, top + 1)))
  k = c.pick(list(range(2, min(r1, r2) + 1)))
  l1, l2 = pair_legs(r1, r2, c.pick(list(matchings(r1, r2, k))))
  net = Net(c, [l1, l2], orient=k == 2)
  want = net.value(net.open)
  a, b = net.nodes
  shared = [l for l in net.labels if l not in net.open]
  op = c.pick(["edges", "between", "all"])
  if k == 2 or c.thorough:
    c.all_set_orders()
  if op == "edges":
    order = list(c.pick(list(itertools.permutations(shared, c.pick([2, k])
                                                    if k > 2 else 2))))
    old_a, old_b = a.tensor, b.tensor
    r = c.value(nc.flatten_edges, group(c, net, order), "flat")
    c.fact("the flattened edge has the given name", r.name == "flat")
    for node, legs, old in ((a, l1, old_a), (b, l2, old_b)):
      rest = [l for l in legs if l not in order]
      c.fact("flattened edge is the last one, the others keep their order",
             len(node.edges) == len(rest) + 1 and node.edges[-1] is r and all(
                 net.edge[l] is node.edges[i] for i, l in enumerate(rest)))
      comb = c.einsum([legs], rest + order, [old])
      c.same("combined index, first part slowest", node.tensor,
             comb.reshape([net.dim[l] for l in rest] +
                          [prod(net.dim[l] for l in order)]))
  elif op == "between":
    r = c.value(nc.flatten_edges_between, a, b)
    c.fact("one edge remains", len([e for e in a.edges if e in b.edges]) == 1)
  else:
    r = c.value(nc.flatten_all_edges, [a, b])
    c.fact("one edge per pair", len(r) == 1 and r[0] in a.edges)
  c.same("the value of the network is unchanged",
         network_value(c, [a, b], group(c, net, net.open)), want)
  wf(c, "flatten", net.nodes)
  c.cover()


@contract("P03", [M + "flatten_edges", M + "_flatten_trace_edges"],
          modes=("bounded",), replay=True,
          note="all entries and dimensions; rank up to 4, dangling groups of "
          "2..3 edges and pairs of trace edges in every order")
def flatten_own(c):
  kind = c.pick(["dangling", "trace"])
  if kind == "dangling":
    n = c.pick([2, 3, 4])
    net = Net(c, [[f"a{i}" for i in range(n)]], names=c.flag())
    order = list(c.pick(list(itertools.permutations(
        net.open, c.pick([2, 3]) if n > 2 else 2))))
    a = net.nodes[0]
    r = c.value(nc.flatten_edges, group(c, net, order))
    rest = [l for l in net.open if l not in order]
    c.fact("edge order", [net.label(e) for e in a.edges[:-1]] == rest and
           a.edges[-1] is r)
    c.same("combined index, first part slowest", a.tensor,
           net.value(rest + order).reshape(
               [net.dim[l] for l in rest] + [prod(net.dim[l] for l in order)]))
    wf(c, "flatten dangling", [a])
  else:
    n = c.pick([4, 5] if c.thorough else [4])
    net = Net(c, [c.pick(list(traced_legs(n, 2)))], orient=True)
    a = net.nodes[0]
    want = net.value(net.open)
    order = c.pick([["s0", "s1"], ["s1", "s0"]])
    r = c.value(nc.flatten_edges, group(c, net, order))
    c.same("the value of the network is unchanged",
           network_value(c, [a], group(c, net, net.open)), want)
    c.fact("one trace edge remains", a.edges[-1] is r and a.edges[-2] is r and
           [net.label(e) for e in a.edges[:-2]] == net.open)
    wf(c, "flatten trace", [a])
  c.cover()


@contract("P03", [M + "split_edge", M + "_split_trace_edge",
                  M + "_extend_axis_names"], modes=("bounded",), replay=True,
          note="all entries and dimensions; an edge of dimension p*q(*s) on "
          "nodes of rank up to 3")
def split(c):
  parts = c.dims(c.pick([2, 3]))
  kind = c.pick(["dangling", "pair", "trace"])
  be = c.backend()
  names = [f"p{i}" for i in range(len(parts))] if c.flag() else None
  big = prod(parts)
  n = c.pick([1, 2, 3])
  pos = c.pick(list(range(n)))
  ds = c.dims(n)
  ds[pos] = big
  if kind == "trace":
    if n == 3:
      return
    pos2 = c.pick(list(range(n + 1)))
    ds.insert(pos2, big)
    pos = pos + (1 if pos2 <= pos else 0)
    n += 1
  t = c.tensor("t", ds)
  ax = [f"x{i}" for i in range(n)]
  a = tn.Node(t, axis_names=ax, backend=be)
  rest = [i for i in range(n) if i != pos and not (kind == "trace" and
                                                   i == pos2)]
  free = [a.edges[i] for i in rest]
  nodes, others, u = [a], [], None
  e = a.edges[pos]
  if kind == "pair":
    m = c.pick([1, 2])
    p2 = c.pick(list(range(m)))
    ds2 = c.dims(m)
    ds2[p2] = big
    u = c.tensor("u", ds2)
    b = tn.Node(u, backend=be)
    others = [b.edges[i] for i in range(m) if i != p2]
    e = nc.connect(a.edges[pos], b.edges[p2]) if c.flag() else nc.connect(
        b.edges[p2], a.edges[pos])
    nodes.append(b)
  elif kind == "trace":
    e = nc.connect(a.edges[pos], a.edges[pos2])
  c.all_set_orders()
  r = c.value(nc.split_edge, e, tuple(parts), names)
  c.fact("one new edge per part", len(r) == len(parts))
  if names:
    c.fact("new edges carry the given names", [x.name for x in r] == names)
  L = [f"i{i}" for i in range(n)]
  if kind == "dangling":
    c.same("splitting enumerates the index, first part slowest", a.tensor,
           c.einsum([L], [L[i] for i in rest] + [L[pos]], [t]).reshape(
               [ds[i] for i in rest] + list(parts)))
    c.fact("edge order", all(x is y for x, y in zip(a.edges, free + r)))
  elif kind == "pair":
    K = [f"j{i}" for i in range(m)]
    K[p2] = L[pos]
    want = c.einsum([L, K], [L[i] for i in rest] +
                    [K[i] for i in range(m) if i != p2], [t, u])
    c.same("the value of the network is unchanged",
           network_value(c, nodes, free + others), want)
    c.fact("edge order", all(x is y for x, y in zip(a.edges, free + r)))
  else:
    L[pos2] = L[pos]
    c.same("the value of the network is unchanged",
           network_value(c, nodes, free), c.einsum([L], [L[i] for i in rest],
                                                   [t]))
  wf(c, "split", nodes)
  back = c.value(nc.flatten_edges, list(r))
  if kind == "dangling":
    c.same("flattening undoes splitting", a.tensor,
           c.einsum([L], [L[i] for i in rest] + [L[pos]], [t]))
  wf(c, "flatten after split", nodes)
  c.cover()
