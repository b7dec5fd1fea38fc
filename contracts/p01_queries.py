"""P01: what the graph queries return follows from the endpoints of the edges.
Structures of up to three nodes are enumerated, tensors and dimensions are
arbitrary."""
import tensornetwork as tn
from tensornetwork import network_components as nc
from tensornetwork import network_operations as no
from pyvc.contract import contract
from contracts.netlib import Net

M = "tensornetwork.network_components:"
O = "tensornetwork.network_operations:"

LEGS = [["a"], [""], ["ab", "b"], ["aab", "bc", "c"], ["ab", "bac", "c"],
        ["aa", "b"], ["ab", "cb", "ac"], ["x", "yz", "z"], ["abc", "abc"],
        ["abx", "bya", "zz"], ["a", "ab", "bcc"], ["", "aa", "x"],
        ["axb", "byc", "czaw"]]


@contract("P01", [O + n for n in (
    "get_subgraph_dangling", "check_connected", "check_correct", "get_neighbors",
    "get_all_nodes", "get_all_edges", "reachable")] +
          [M + n for n in ("get_all_nondangling", "get_all_dangling",
                           "get_shared_edges", "get_parallel_edges",
                           "AbstractNode.get_all_dangling",
                           "AbstractNode.get_all_nondangling",
                           "AbstractNode.get_all_edges",
                           "AbstractNode.get_edge",
                           "AbstractNode.get_axis_number",
                           "AbstractNode.get_dimension",
                           "AbstractNode.get_rank",
                           "AbstractNode.has_dangling_edge",
                           "AbstractNode.has_nondangling_edge",
                           "Edge.get_nodes", "Edge.is_trace",
                           "Edge.is_dangling", "Edge.is_being_used")],
          modes=("bounded",), replay=True, limit=60,
          note="all tensors and dimensions; networks of up to three nodes from "
          "a catalogue, every orientation of their edges, every subset of nodes")
def queries(c):
  legs = [list(x) for x in c.pick(LEGS)]
  net = Net(c, legs, orient=True)
  nodes, edges = net.nodes, net.edge
  at = {l: [i for i, _ in w] for l, w in net.where.items()}
  ids = lambda xs: sorted(id(x) for x in xs)
  of = lambda ls: sorted(id(edges[l]) for l in ls)
  got = lambda what, xs, ls: c.fact(what, ids(xs) == of(ls),
                                    f"{[net.label(e) for e in xs]} for {ls}")
  n = len(nodes)
  # closure of "shares an edge"
  near = [{i} | {j for l in at for j in at[l] if i in at[l]} for i in range(n)]
  reach = [set(x) for x in near]
  for _ in range(n):
    reach = [set().union(*(near[j] for j in r)) for r in reach]
  for i, m in enumerate(nodes):
    mine = list(dict.fromkeys(legs[i]))
    c.fact("reachable from a node", ids(c.value(no.reachable, m)) ==
           ids(nodes[j] for j in reach[i]))
    nb = []
    for l in legs[i]:
      nb += [j for j in at[l] if j != i and j not in nb]
    c.fact("neighbors, in the order of the edges",
           [id(x) for x in c.value(no.get_neighbors, m)] ==
           [id(nodes[j]) for j in nb])
    c.fact("dangling edges of a node, in order",
           [id(e) for e in c.value(m.get_all_dangling)] ==
           [id(edges[l]) for l in legs[i] if len(at[l]) == 1])
    got("non-dangling edges of a node", c.value(m.get_all_nondangling),
        [l for l in mine if len(at[l]) == 2])
    c.fact("edges of a node, in order", [id(e) for e in c.value(
        m.get_all_edges)] == [id(edges[l]) for l in legs[i]])
    c.fact("rank", c.value(m.get_rank) == len(legs[i]))
    c.fact("has dangling and non-dangling edges",
           bool(m.has_dangling_edge()) == any(len(at[l]) == 1 for l in mine) and
           bool(m.has_nondangling_edge()) == any(
               len(at[l]) == 2 for l in mine))
    for k, l in enumerate(legs[i]):
      name = f"t{i}_{k}"
      c.fact("edge of an axis number and of an axis name",
             c.value(m.get_edge, k) is edges[l] and
             c.value(m.get_edge, name) is edges[l] and
             c.value(m.get_axis_number, name) == k and m[k] is edges[l] and
             m[name] is edges[l])
      c.fact("dimension of an axis", bool(
          c.value(m.get_dimension, k) == net.dim[l]))
    c.fact("an axis which is not there is refused", all(
        c.call(f, bad).exc is not None for f in (m.get_edge, m.get_dimension)
        for bad in (len(legs[i]), "nothing")))
    for j, o in enumerate(nodes):
      got("shared edges", c.value(nc.get_shared_edges, m, o),
          [l for l in at if len(at[l]) == 2 and sorted(at[l]) == sorted([i, j])])
  for l, e in edges.items():
    if len(at[l]) == 2:
      got("parallel edges", c.value(nc.get_parallel_edges, e),
          [x for x in at if sorted(at[x]) == sorted(at[l])])
    c.fact("trace and dangling edges",
           bool(e.is_dangling()) == (len(at[l]) == 1) and
           bool(e.is_trace()) == (len(at[l]) == 2 and at[l][0] == at[l][1]))
    c.fact("nodes of an edge", [id(x) for x in e.get_nodes() if x is not None]
           in ([id(nodes[j]) for j in at[l]],
               [id(nodes[j]) for j in at[l][::-1]]))
    c.fact("reachable from an edge", ids(c.value(no.reachable, e)) ==
           ids(nodes[j] for j in reach[at[l][0]]))
  for mask in range(1, 2**n):
    sub = [i for i in range(n) if mask >> i & 1]
    for how in (list, set, iter):
      S = lambda: how([nodes[i] for i in sub])
      touch = [l for l in at if any(i in sub for i in at[l])]
      got("edges of nodes", c.value(no.get_all_edges, S()), touch)
      got("dangling edges of nodes", c.value(tn.get_all_dangling, S()),
          [l for l in touch if len(at[l]) == 1])
      got("non-dangling edges of nodes", c.value(tn.get_all_nondangling, S()),
          [l for l in touch if len(at[l]) == 2])
      got("edges leaving nodes", c.value(no.get_subgraph_dangling, S()),
          [l for l in touch if len(at[l]) == 1 or
           not all(i in sub for i in at[l])])
      c.fact("reachable from nodes", ids(c.value(no.reachable, S())) == ids(
          nodes[j] for j in set().union(*(reach[i] for i in sub))))
      whole = set(sub) <= reach[sub[0]]
      o = c.call(no.check_connected, S())
      c.fact("connected nodes are accepted, others refused",
             o.ok == whole and (o.ok or isinstance(o.exc, ValueError)),
             str(o.exc))
      o = c.call(no.check_correct, S(), False)
      c.fact("a well-formed network is correct", o.ok, str(o.exc))
    c.fact("nodes of edges", ids(c.value(
        no.get_all_nodes, [edges[l] for l in touch])) ==
           ids(nodes[j] for j in {j for l in touch for j in at[l]}))
  c.cover()
