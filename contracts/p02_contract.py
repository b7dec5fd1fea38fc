"""P02: contraction is the Einstein sum in the documented edge order."""
import tensornetwork as tn
from tensornetwork import network_components as nc
from tensornetwork import network_operations as no
from pyvc.contract import contract
from contracts.netlib import *

M = "tensornetwork.network_components:"
NOTE = ("all entries and all dimensions; structures enumerated up to rank 3 "
        "per node (4 thorough), every iteration order of the edge sets")


def pairs(c, top):
  r1 = c.pick(list(range(1, top + 1)))
  r2 = c.pick(list(range(1, top + 1)))
  k = c.pick(list(range(1, min(r1, r2) + 1)))
  return pair_legs(r1, r2, c.pick(list(matchings(r1, r2, k))))


@contract("P02", [M + "contract_between", M + "_remove_edges",
                  M + "get_shared_edges", M + "Edge.update_axis",
                  M + "AbstractNode.fresh_edges"], modes=("bounded",),
          replay=True, note=NOTE)
def contract_between_pair(c):
  l1, l2 = pairs(c, 4 if c.thorough else 3)
  net = Net(c, [l1, l2], orient=True)
  a, b = net.nodes
  c.all_set_orders()
  r = c.value(nc.contract_between, a, b, name="res")
  order = [l for l in l1 + l2 if l in net.open]
  same_value(c, "contract_between", r, net, order)
  wf(c, "contract_between", [r, a, b])
  c.fact("contract_between: the operands keep their tensors",
         a.tensor is net.tensors[0] and b.tensor is net.tensors[1])
  c.fact("contract_between: contracted edges are retired",
         all(net.edge[l].is_disabled for l in net.labels if l not in net.open))
  c.cover()


@contract("P02", [M + "contract_between", M + "AbstractNode.reorder_edges"],
          modes=("bounded",), replay=True, note=NOTE)
def contract_between_output_order(c):
  r1 = c.pick([1, 2, 3])
  r2 = c.pick([1, 2, 3])
  k = c.pick(list(range(0, min(r1, r2) + 1)))
  if r1 + r2 - 2 * k > (4 if c.thorough else 3) or r1 + r2 == 2 * k:
    return
  l1, l2 = pair_legs(r1, r2, c.pick(list(matchings(r1, r2, k))))
  net = Net(c, [l1, l2])
  a, b = net.nodes
  order = c.pick([list(p) for p in itertools.permutations(net.open)])
  names = [f"ax{i}" for i in range(len(order))]
  r = c.value(nc.contract_between, a, b, allow_outer_product=True,
              output_edge_order=[net.edge[l] for l in order], axis_names=names)
  same_value(c, "contract_between with output order", r, net, order)
  c.fact("contract_between: axis names in output order",
         list(r.axis_names) == names, str(r.axis_names))
  wf(c, "contract_between with output order", [r])
  c.cover()


@contract("P02", [M + "contract", M + "contract_parallel", M + "_remove_edges"],
          modes=("bounded",), replay=True, note=NOTE)
def contract_edge(c):
  l1, l2 = pairs(c, 3)
  net = Net(c, [l1, l2], orient=True)
  shared = [l for l in net.labels if l not in net.open]
  op = c.pick(["contract", "parallel", "matmul"])
  e = net.edge[c.pick(shared)]
  if op == "contract":
    if len(shared) > 1:
      # one of several parallel edges: the others become trace edges
      legs = l2 + l1 if net.where_first(e) == 1 else l1 + l2
      r = c.value(nc.contract, e)
      same_value(c, "contract", r, net,
                 [l for l in legs if net.edge[l] is not e])
      wf(c, "contract", [r])
      return
    r = c.value(nc.contract, e)
  elif op == "parallel":
    r = c.value(nc.contract_parallel, e)
  else:
    r = c.value(lambda: net.nodes[0] @ net.nodes[1])

  order = [l for l in l1 + l2 if l in net.open]
  if op != "matmul" and net.where_first(e) == 1:
    order = [l for l in l2 + l1 if l in net.open]
  same_value(c, op, r, net, order)
  wf(c, op, [r])
  c.cover()


@contract("P02", [M + "_contract_trace", M + "_remove_trace_edge", M + "contract",
                  M + "contract_trace_edges"], modes=("bounded",), replay=True,
          note="all entries and dimensions; rank up to 5, up to two trace edges")
def contract_trace(c):
  n = c.pick([2, 3, 4, 5] if c.thorough else [2, 3, 4])
  k = c.pick([1, 2]) if n >= 4 else 1
  legs = c.pick(list(traced(n, k)))
  net = Net(c, [legs], orient=True)
  a = net.nodes[0]
  tr = [l for l in net.labels if l not in net.open]
  c.all_set_orders()
  op = c.pick(["one", "all", "between", "parallel"])
  if op == "one":
    l = c.pick(tr)
    r = c.value(nc.contract, net.edge[l])
    order = [x for x in legs if x != l]
    labs = [net.label(x) for x in r.edges]
    c.fact("contract(trace edge): remaining edges in order", labs == order,
           f"{labs} {order}")
    ins, out, seen = [], [], {}
    for x in legs:
      if x == l or x in net.open:
        ins.append(x)
      else:
        seen[x] = seen.get(x, 0) + 1
        ins.append((x, seen[x]))
    out = [x for x in ins if x != l]
    c.same("contract(trace edge): partial trace", r.tensor,
           c.einsum([ins], out, net.tensors))
  else:
    if op == "all":
      r = c.value(no.contract_trace_edges, a)
    elif op == "between":
      r = c.value(nc.contract_between, a, a)
    else:
      r = c.value(nc.contract_parallel, net.edge[c.pick(tr)])
    same_value(c, op, r, net, [x for x in legs if x in net.open])
  wf(c, "trace", [r])
  c.cover()


def traced(n, k):
  """Legs of a rank-n node with k trace edges."""
  def rec(free, k):
    if k == 0:
      yield []
      return
    for i, j in itertools.combinations(free, 2):
      rest = [x for x in free if x not in (i, j) and x > i]
      for m in rec(rest, k - 1):
        yield [(i, j)] + m
  for m in rec(list(range(n)), k):
    legs = [f"a{i}" for i in range(n)]
    for q, (i, j) in enumerate(m):
      legs[i] = legs[j] = f"s{q}"
    yield legs


@contract("P02", [M + "outer_product", M + "outer_product_final_nodes"],
          modes=("bounded",), replay=True,
          note="all entries and dimensions; ranks 0..3")
def outer(c):
  r1, r2 = c.pick([0, 1, 2, 3]), c.pick([0, 1, 2])
  l1 = [f"a{i}" for i in range(r1)]
  l2 = [f"b{i}" for i in range(r2)]
  if r1 >= 2 and c.flag():
    l1[1] = l1[0]
  net = Net(c, [l1, l2])
  op = c.pick(["outer", "between", "final"])
  if op == "outer":
    r = c.value(nc.outer_product, *net.nodes)
    order = l1 + l2
  elif op == "between":
    r = c.value(nc.contract_between, *net.nodes, allow_outer_product=True)
    order = l1 + l2
  else:
    if len(net.open) != r1 + r2:
      return
    order = (l1 + l2)[::-1]
    r = c.value(nc.outer_product_final_nodes, net.nodes,
                [net.edge[l] for l in order])
  labs = [net.label(e) for e in r.edges]
  c.fact("outer product: edges of the first, then of the second",
         labs == order, f"{labs} {order}")
  pos1 = [f"x{i}" for i in range(r1)]
  pos2 = [f"y{i}" for i in range(r2)]
  out = (pos1 + pos2)[::-1] if op == "final" else pos1 + pos2
  c.same("outer product: value", r.tensor,
         c.einsum([pos1, pos2], out, net.tensors))
  wf(c, "outer product", [r] + (net.nodes if op == "outer" else []))
  c.cover()
