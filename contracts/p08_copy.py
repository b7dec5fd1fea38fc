"""P08: copies reproduce the network and share no structure with it."""
import itertools
import tensornetwork as tn
from tensornetwork import network_components as nc
from tensornetwork import network_operations as no
from pyvc.contract import contract
from contracts.netlib import *

O = "tensornetwork.network_operations:"
M = "tensornetwork.network_components:"
NOTE = ("all entries and dimensions; networks of up to three nodes with traces, "
        "parallel edges and disconnected parts; every chosen subset; both "
        "orientations of each edge")
NETS = ["a", "aa", "aab", "abab", "ab bc", "ab ab", "abc bad", "aab bc", "a b",
        "ab bc cd", "ab bc ca", "aab bc c", "ab ab c", " a"]


def snapshot(nodes):
  """Everything a network operation could change."""
  edges = []
  for n in nodes:
    for e in n.edges:
      if not any(e is f for f in edges):
        edges.append(e)
  return ([(n, n.name, list(n.axis_names), list(n.edges), n.tensor)
           for n in nodes],
          [(e, e.name, None if e.is_disabled else
            (e.node1, e.axis1, e.node2, e.axis2)) for e in edges])


def unchanged(c, what, snap):
  bad = []
  for n, name, ax, edges, tensor in snap[0]:
    if (n.name != name or list(n.axis_names) != ax or
        len(n.edges) != len(edges) or
        any(x is not y for x, y in zip(n.edges, edges)) or
        n.tensor is not tensor):
      bad.append(name)
  for e, name, ends in snap[1]:
    now = None if e.is_disabled else (e.node1, e.axis1, e.node2, e.axis2)
    if (e.name != name or (now is None) != (ends is None) or
        (now is not None and not (now[0] is ends[0] and now[2] is ends[2] and
                                  now[1] == ends[1] and now[3] == ends[3]))):
      bad.append(name)
  c.fact(f"{what}: the original network is unchanged", not bad, str(bad))


def isomorphic(c, what, olds, new_of, edge_of, conj, names=True):
  """new_of/edge_of send each old node/edge to its counterpart."""
  bad = []
  inside = lambda n: any(n is m for m in olds)
  for n in olds:
    m = new_of(n)
    if m is n or not isinstance(m, nc.Node):
      bad.append(f"{n.name} has no counterpart")
      continue
    if names and m.name != n.name:
      bad.append(f"name {m.name} for {n.name}")
    if list(m.axis_names) != list(n.axis_names):
      bad.append(f"axis names {m.axis_names} for {n.axis_names}")
    if len(m.edges) != len(n.edges):
      bad.append(f"{n.name} has {len(m.edges)} edges")
      continue
    c.same(f"{what}: equal tensors", m.tensor,
           c.conj(n.tensor) if conj else n.tensor)
    for k, e in enumerate(n.edges):
      f = m.edges[k]
      if f is e or edge_of(e) is not f or f.name != e.name or f.is_disabled:
        bad.append(f"slot {k} of {n.name}: wrong edge")
        continue
      ends = {(x, a) for x, a in ((e.node1, e.axis1), (e.node2, e.axis2))
              if x is not None and inside(x)}
      want = {(id(new_of(x)), a) for x, a in ends}
      got = {(id(f.node1), f.axis1)}
      if f.node2 is not None:
        got.add((id(f.node2), f.axis2))
      if want != got:
        bad.append(f"slot {k} of {n.name}: wrong ends")
  c.fact(f"{what}: names, axis names and connectivity are kept", not bad,
         "; ".join(bad[:4]))


def build(c, rows, **kw):
  return Net(c, [list(r) for r in rows.split(" ")], **kw)


@contract("P08", [O + "copy", O + "get_all_edges", M + "Node.copy",
                  M + "AbstractNode.add_edge"], modes=("bounded",), replay=True,
          note=NOTE)
def copy_network(c):
  n = build(c, c.pick(NETS), orient=True)
  idx = [i for i in range(len(n.nodes)) if c.pick(2) == 0]
  olds = [n.nodes[i] for i in idx]
  if len(olds) == 2 and c.pick(2):
    olds.reverse()
  conj = c.flag("conjugate")
  snap = snapshot(n.nodes)
  given = [list, iter][len(olds) % 2]
  node_map, edge_map = c.value(no.copy, given(olds), conjugate=conj)
  c.fact("copy: the maps cover exactly the copied nodes and their edges",
         len(node_map) == len(olds) and all(x in node_map for x in olds) and
         len(edge_map) == len({e for x in olds for e in x.edges}))
  isomorphic(c, "copy", olds, lambda x: node_map[x], lambda e: edge_map[e], conj)
  wf(c, "copy", [node_map[x] for x in olds])
  unchanged(c, "copy", snap)
  c.cover()


@contract("P08", [O + "replicate_nodes", O + "copy"], modes=("bounded",),
          replay=True, note=NOTE + "; then every copied edge is contracted")
def replicate_then_operate(c):
  n = build(c, c.pick(NETS))
  conj = c.flag("conjugate")
  snap = snapshot(n.nodes)
  new = c.value(no.replicate_nodes, c.pick([list, iter])(n.nodes),
                conjugate=conj)
  if not c.fact("replicate: one copy for every node", len(new) == len(n.nodes)):
    return
  where = {id(e): (i, k) for i, x in enumerate(n.nodes)
           for k, e in reversed(list(enumerate(x.edges)))}
  eo = lambda e: new[where[id(e)][0]].edges[where[id(e)][1]]
  isomorphic(c, "replicate", n.nodes,
             lambda x: [new[i] for i, y in enumerate(n.nodes) if y is x][0], eo,
             conj)
  out = [eo(n.edge[l]) for l in n.open]
  c.same("replicate: the copy has the value of the network",
         network_value(c, new, out),
         c.conj(n.value(n.open)) if conj else n.value(n.open))
  act = c.pick(["contract", "disconnect", "reorder", "rename"])
  if act in ("contract", "disconnect"):
    es = [eo(n.edge[l]) for l in n.labels if l not in n.open]
    if not es:
      return
    if act == "contract":
      c.value(nc.contract, es[0])
    else:
      c.value(nc.disconnect, es[-1])
  elif act == "reorder":
    for x in new:
      if len(x.edges) > 1 and not any(e.is_trace() for e in x.edges):
        c.value(x.reorder_axes, list(range(len(x.edges)))[::-1])
  else:
    for x in new:
      x.set_name("other")
      x.add_axis_names([f"q{k}" for k in range(len(x.edges))])
      for e in x.edges:
        e.set_name("other edge")
  unchanged(c, f"{act} on the copy", snap)
  c.cover()


@contract("P08", [M + "Node.copy"], modes=("bounded",), replay=True, note=NOTE)
def node_copy(c):
  n = build(c, c.pick(["", "a", "ab", "aa", "aab", "aba", "abb", "abab", "abba",
                       "ab bc"]), orient=True)
  conj = c.flag("conjugate")
  snap = snapshot(n.nodes)
  x = n.nodes[0]
  y = c.value(x.copy, conj)
  first = {id(e): k for k, e in reversed(list(enumerate(x.edges)))}
  isomorphic(c, "node copy", [x], lambda _: y, lambda e: y.edges[first[id(e)]],
             conj)
  wf(c, "node copy", [y])
  unchanged(c, "node copy", snap)
  c.cover()


@contract("P08", [O + "reduced_density", O + "reachable", O + "_reachable",
                  O + "get_all_nodes", M + "connect"], modes=("bounded",),
          replay=True, note="all entries and dimensions; connected networks of "
          "up to three nodes, every subset of dangling edges")
def reduced_density(c):
  n = build(c, c.pick(["a", "ab", "aab", "ab bc", "abx aby", "abc cd",
                       "ab bc cd", "ab bcx ca"]), orient=True)
  traced = [l for l in n.open if c.pick(2) == 0]
  if not traced:
    return
  names = [(x.name, list(x.axis_names)) for x in n.nodes]
  given = [list, iter][len(traced) % 2]
  node_map, edge_map = c.value(no.reduced_density,
                               given([n.edge[l] for l in traced]))
  c.fact("reduced density: every node of the state has a conjugate copy",
         len(node_map) == len(n.nodes) and
         all(x in node_map and node_map[x] is not x for x in n.nodes))
  for x, t in zip(n.nodes, n.tensors):
    c.same("reduced density: the copy is conjugated", node_map[x].tensor,
           c.conj(t))
    c.fact("reduced density: the state keeps its tensors", x.tensor is t)
  c.fact("reduced density: names are kept",
         names == [(node_map[x].name, list(node_map[x].axis_names))
                   for x in n.nodes])
  keep = [l for l in n.open if l not in traced]
  for l in traced:
    e = edge_map[n.edge[l]]
    c.fact("reduced density: traced edges join the state and its conjugate",
           not e.is_dangling() and not e.is_disabled and e.node1 is not e.node2)
  both = n.nodes + [node_map[x] for x in n.nodes]
  bra = [[(l, 1) if l not in traced else l for l in row] for row in n.legs]
  c.same("reduced density: the network is state times conjugate state",
         network_value(c, both, [n.edge[l] for l in keep] +
                       [edge_map[n.edge[l]] for l in keep]),
         c.einsum(n.legs + bra, keep + [(l, 1) for l in keep],
                  n.tensors + [c.conj(t) for t in n.tensors]))
  wf(c, "reduced density", both)
  c.cover()


@contract("P08", [O + "reduced_density"], modes=("bounded",), replay=True,
          note="connected edges given")
def reduced_density_refuses(c):
  n = build(c, "ab bc")
  o = c.call(no.reduced_density, [n.edge["a"], n.edge["b"]][::c.pick([1, -1])])
  c.fact("a connected edge is refused",
         not o.ok and isinstance(o.exc, ValueError), repr(o.exc))
  c.cover()
