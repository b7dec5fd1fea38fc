"""Executable contracts for the graph layer: P01 P02 P03 P04 P08."""
import numpy as np
import tensornetwork as tn
from bounded.core import (scenario, require, same, raises, Violation, Skip,
                          tonp)
from bounded.graphlib import (check_wf, value, snapshot, make_network, dangling,
                              nondangling, contract_labels)


def _connected(nodes):
  """all nodes reachable, by our own walk"""
  seen = []
  todo = list(nodes)
  while todo:
    n = todo.pop()
    if any(n is m for m in seen):
      continue
    seen.append(n)
    for e in n.edges:
      for m in (e.node1, e.node2):
        if m is not None:
          todo.append(m)
  return seen


def _shared(a, b):
  return list({id(e): e for e in a.edges if e.node2 is not None and
               {id(e.node1), id(e.node2)} == {id(a), id(b)}}.values())


# ----------------------------------------------------------------- P01
def _walk(rng, steps, values):
  """random history of operations; after each: WF (P01) and value (P02/P03)."""
  nodes = make_network(tn, rng, n_nodes=rng.int(1, 4), max_rank=4, dims=(1, 3))
  check_wf(nodes, "fresh network")
  ops = ["connect", "disconnect", "contract", "between", "parallel", "matmul",
         "outer", "flatten", "flatten_between", "flatten_all", "split_edge",
         "reorder_edges", "reorder_axes", "split_node", "remove", "copy",
         "trace", "slice", "bad_connect", "bad_disconnect", "disconnect2",
         "names", "tensor_op"]
  for _ in range(steps):
    op = rng.choice(ops)
    before_out = dangling(nodes)
    total = 1
    for n in nodes:
      total *= max(1, int(np.prod(n.shape)))
    if sum(len(n.edges) for n in nodes) > 20:
      return
    ref = value(nodes, before_out) if values else None
    keep = True  # does the op preserve the network value?
    dang = dangling(nodes)
    nond = nondangling(nodes)
    touched = None
    rng.note(op)
    if op == "connect":
      pairs = [(a, b) for i, a in enumerate(dang) for b in dang[i + 1:]
               if a.dimension == b.dimension]
      if not pairs:
        continue
      a, b = rng.choice(pairs)
      if rng.bool():
        a, b = b, a
      (n1, x1), (n2, x2) = (a.node1, a.axis1), (b.node1, b.axis1)
      new = (a ^ b) if rng.bool() else tn.connect(a, b)
      require(n1.edges[x1] is new and n2.edges[x2] is new,
              "connect: new edge not in both slots")
      require({(id(new.node1), new.axis1), (id(new.node2), new.axis2)} ==
              {(id(n1), x1), (id(n2), x2)}, "connect: wrong ends")
      keep = False
    elif op in ("disconnect", "disconnect2"):
      if not nond:
        continue
      e = rng.choice(nond)
      ends = [(e.node1, e.axis1), (e.node2, e.axis2)]
      if op == "disconnect":
        e1, e2 = tn.disconnect(e)
      else:
        e1, e2 = e.disconnect("x", "y")
        require(e1.name == "x" and e2.name == "y", "disconnect: edge names")
      require(e1.node1 is ends[0][0] and e1.axis1 == ends[0][1] and
              e2.node1 is ends[1][0] and e2.axis1 == ends[1][1] and
              e1.is_dangling() and e2.is_dangling(),
              "disconnect: returned edges are not the two old ends")
      keep = False
    elif op == "bad_connect":
      snap = snapshot(nodes)
      kind = rng.int(0, 2)
      if kind == 0 and dang:
        e = rng.choice(dang)
        raises(ValueError, lambda: tn.connect(e, e), "connect edge to itself")
      elif kind == 1 and nond and dang:
        a, b = rng.choice(nond), rng.choice(dang)
        if rng.bool():
          a, b = b, a
        raises(ValueError, lambda: tn.connect(a, b), "connect non-dangling edge")
      else:
        pr = [(a, b) for a in dang for b in dang if a.dimension != b.dimension]
        if not pr:
          continue
        a, b = rng.choice(pr)
        raises(ValueError, lambda: tn.connect(a, b), "connect unequal dims")
      require(snapshot(nodes) == snap, "a refused connect changed the graph")
    elif op == "bad_disconnect":
      if not dang:
        continue
      snap = snapshot(nodes)
      e = rng.choice(dang)
      raises(ValueError, lambda: tn.disconnect(e), "disconnect dangling edge")
      require(snapshot(nodes) == snap, "a refused disconnect changed the graph")
    elif op == "contract":
      if not nond:
        raises_if = [e for e in dang]
        if raises_if:
          e = rng.choice(raises_if)
          snap = snapshot(nodes)
          raises(ValueError, lambda: tn.contract(e), "contract dangling edge")
          require(snapshot(nodes) == snap, "refused contract changed the graph")
        continue
      e = rng.choice(nond)
      old = [m for m in (e.node1, e.node2)]
      new = tn.contract(e)
      nodes = [m for m in nodes if all(m is not o for o in old)] + [new]
    elif op in ("between", "matmul", "parallel"):
      pr = [(a, b) for i, a in enumerate(nodes) for j, b in enumerate(nodes)
            if i != j and _shared(a, b)]
      if op == "between":
        pr += [(a, a) for a in nodes if _shared(a, a)]
      if not pr:
        continue
      a, b = rng.choice(pr)
      if op == "between":
        new = tn.contract_between(a, b)
      elif op == "matmul":
        new = a @ b
      else:
        new = tn.contract_parallel(rng.choice(_shared(a, b)))
      nodes = [m for m in nodes if m is not a and m is not b] + [new]
    elif op == "outer":
      if len(nodes) < 2:
        continue
      a, b = rng.subset(nodes, 2)
      new = tn.outer_product(a, b)
      nodes = [m for m in nodes if m is not a and m is not b] + [new]
    elif op == "trace":
      tr = [n for n in nodes if _shared(n, n)]
      if not tr:
        continue
      a = rng.choice(tr)
      new = tn.network_operations.contract_trace_edges(a)
      nodes = [m for m in nodes if m is not a] + [new]
      require(not _shared(new, new), "contract_trace_edges left a trace edge")
    elif op == "flatten":
      groups = {}
      for e in dang:
        groups.setdefault((id(e.node1), None), []).append(e)
      for e in nond:
        groups.setdefault(tuple(sorted((id(e.node1), id(e.node2)))),
                          []).append(e)
      gs = [(k, g) for k, g in groups.items() if len(g) > 1]
      if not gs:
        continue
      k, g = rng.choice(gs)
      g = rng.subset(g, rng.int(2, len(g)))
      dim = int(np.prod([e.dimension for e in g]))
      if dim > 81:
        continue
      new = tn.flatten_edges(g)
      require(new.dimension == dim, "flattened edge has the wrong dimension")
      keep = k[1] is not None
      if any(n.axis_names is not None and len(n.axis_names) != len(n.edges)
             for n in nodes):
        pass
    elif op == "flatten_between":
      pr = [(a, b) for a in nodes for b in nodes if a is not b and _shared(a, b)]
      if not pr:
        continue
      tn.flatten_edges_between(*rng.choice(pr))
    elif op == "flatten_all":
      tn.flatten_all_edges(nodes)
      for a in nodes:
        for b in nodes:
          require(len(_shared(a, b)) <= 1,
                  "flatten_all_edges left parallel edges")
    elif op == "split_edge":
      allc = [e for e in dang + nond]
      if not allc:
        continue
      e = rng.choice(allc)
      d = e.dimension
      fs = [(x, d // x) for x in range(1, d + 1) if d % x == 0]
      shp = rng.choice(fs)
      if rng.bool(0.3):
        shp = shp + (1,)
      isd = e.is_dangling()
      new = tn.split_edge(e, shp)
      require([x.dimension for x in new] == list(shp),
              "split_edge: dimensions of the new edges")
      keep = not isd
    elif op == "reorder_edges":
      cand = [n for n in nodes if not _shared(n, n)]
      if not cand:
        continue
      n = rng.choice(cand)
      p = rng.shuffled(n.edges)
      n.reorder_edges(tuple(p) if rng.bool(0.3) else p)
      require(all(x is y for x, y in zip(p, n.edges)),
              "reorder_edges: edges not in the requested order")
    elif op == "reorder_axes":
      n = rng.choice(nodes)
      n.reorder_axes(rng.perm(len(n.edges)))
    elif op == "names":
      n = rng.choice(nodes)
      n.add_axis_names([f"z{i}" for i in range(len(n.edges))])
    elif op == "split_node":
      cand = [n for n in nodes if len(n.edges) >= 2 and not _shared(n, n) and
              min(n.shape) > 0]
      if not cand:
        continue
      n = rng.choice(cand)
      k = rng.int(1, len(n.edges) - 1)
      p = rng.shuffled(n.edges)
      f = rng.choice(["svd", "qr", "rq", "full"])
      if f == "svd":
        a, b, _ = tn.split_node(n, p[:k], p[k:])
        new = [a, b]
      elif f == "qr":
        new = list(tn.split_node_qr(n, p[:k], p[k:]))
      elif f == "rq":
        new = list(tn.split_node_rq(n, p[:k], p[k:]))
      else:
        u, s, v, _ = tn.split_node_full_svd(n, p[:k], p[k:])
        new = [u, s, v]
      nodes = [m for m in nodes if m is not n] + new
    elif op == "slice":
      if not (dang + nond):
        continue
      e = rng.choice(dang + nond)
      if e.dimension == 0:
        continue
      ln = rng.int(1, e.dimension)
      st = rng.int(0, e.dimension - ln)
      new = tn.slice_edge(e, st, ln)
      require(new.dimension == ln, "slice_edge: dimension")
      keep = False
    elif op == "remove":
      if len(nodes) < 2:
        continue
      n = rng.choice(nodes)
      if n.axis_names is not None and len(n.axis_names) != len(n.edges):
        continue
      try:
        tn.remove_node(n)
      finally:
        pass
      nodes = [m for m in nodes if m is not n]
      keep = False
    elif op == "copy":
      nd, ed = tn.copy(nodes)
      check_wf(list(nd.values()), "after copy (copies)")
    elif op == "tensor_op":
      n = rng.choice(nodes)
      n.fresh_edges if False else None
      continue
    # P01 --------------------------------------------------------------
    check_wf(nodes, f"after {op}")
    if values and keep:
      try:
        got = value(nodes, before_out)
      except Violation as e:
        raise Violation(f"after {op}: {e}") from e
      same(got, ref, f"after {op}: value of the network")


@scenario("P01", quick=500, thorough=8000)
def history(rng):
  _walk(rng, rng.int(3, 12), False)


@scenario("P02", quick=150, thorough=3000)
def history(rng):  # pylint: disable=function-redefined
  _walk(rng, rng.int(3, 10), True)


@scenario("P03", quick=150, thorough=3000)
def history3(rng):
  _walk(rng, rng.int(3, 10), True)


@scenario("P01", quick=150, thorough=1500)
def api_pieces(rng):
  """creation, from_topology, edge queries, redirect, fresh edges, backend switch"""
  nodes = make_network(tn, rng, n_nodes=rng.int(1, 4))
  check_wf(nodes)
  # queries against the endpoint facts
  reach = {id(m) for m in _connected([nodes[0]])}
  require({id(m) for m in tn.reachable(nodes[0])} == reach, "reachable(node)")
  require({id(m) for m in tn.reachable(nodes)} ==
          {id(m) for m in _connected(nodes)}, "reachable(list)")
  if nodes[0].edges:
    require({id(m) for m in tn.reachable(nodes[0].edges[0])} == reach,
            "reachable(edge)")
  sub = rng.subset(nodes, rng.int(1, len(nodes)))
  ids = {id(n) for n in sub}
  alle = {id(e) for n in sub for e in n.edges}
  require({id(e) for e in tn.get_all_edges(sub)} == alle, "get_all_edges")
  require({id(e) for e in tn.get_all_nondangling(sub)} ==
          {id(e) for e in nondangling(sub)}, "get_all_nondangling")
  require([id(e) for e in tn.get_all_dangling(sub)] ==
          [id(e) for e in dangling(sub)], "get_all_dangling")
  want = {id(e) for n in sub for e in n.edges
          if e.node2 is None or (id(e.node1) in ids) != (id(e.node2) in ids)}
  for how in (list, tuple, set, iter):
    require({id(e) for e in tn.get_subgraph_dangling(how(sub))} == want,
            f"get_subgraph_dangling of a {how.__name__}")
  require({id(m) for m in tn.get_all_nodes([e for n in sub for e in n.edges])} ==
          {id(m) for n in sub for e in n.edges for m in (e.node1, e.node2)
           if m is not None}, "get_all_nodes")
  n = rng.choice(nodes)
  nb = []
  for e in n.edges:
    if e.node2 is not None and e.node1 is not e.node2:
      o = e.node2 if e.node1 is n else e.node1
      if all(o is not m for m in nb):
        nb.append(o)
  require([id(m) for m in tn.get_neighbors(n)] == [id(m) for m in nb],
          "get_neighbors")
  for a in nodes:
    for b in nodes:
      require({id(e) for e in tn.get_shared_edges(a, b)} ==
              {id(e) for e in _shared(a, b)}, "get_shared_edges")
  for e in nondangling(nodes):
    require({id(x) for x in tn.get_parallel_edges(e)} ==
            {id(x) for x in _shared(e.node1, e.node2)}, "get_parallel_edges")
    require(e.is_trace() == (e.node1 is e.node2), "is_trace")
  tn.check_correct(tn.reachable(nodes), check_connections=False)
  if len(reach) == len(nodes):
    for how in (list, tuple, set, iter):
      tn.check_connected(how(nodes))
      tn.check_correct(how(nodes))
  else:
    raises(ValueError, lambda: tn.check_connected(nodes), "check_connected")
  k = rng.int(0, 2)
  if k == 0:
    # redirect an edge
    cands = [e for e in dangling(nodes) + nondangling(nodes)
             if not e.is_trace()]
    if cands:
      e = rng.choice(cands)
      old = e.node1 if e.node2 is None or rng.bool() else e.node2
      ax = e.axis1 if old is e.node1 else e.axis2
      shape = list(old.shape)
      new = tn.Node(rng.array(tuple(shape)))
      other = ({id(e.node1), id(e.node2)} - {id(old)})
      tn.redirect_edge(e, new, old)
      require(new.edges[ax] is e, "redirect_edge: edge in the new node's slot")
      check_wf([new], "after redirect_edge")
  elif k == 1:
    n = rng.choice(nodes)
    if n.edges:
      e = rng.choice(n.edges)
      i = [j for j, x in enumerate(n.edges) if x is e][0]
      require(n.get_edge(i) is e and n[i] is e, "get_edge by number")
      if n.axis_names is not None:
        require(n[n.axis_names[i]] is e, "get_edge by name")
        require(n.get_axis_number(n.axis_names[i]) == i, "get_axis_number")
        require(n.get_dimension(n.axis_names[i]) == n.shape[i], "get_dimension")
      require([id(x) for x in n[0:i + 1]] == [id(x) for x in n.edges[0:i + 1]],
              "slice of edges")
      raises(ValueError, lambda: n.get_dimension(len(n.edges) + rng.int(0, 2)),
             "get_dimension out of range")
  else:
    letters = "abcdefgh"
    d = {c: rng.int(1, 3) for c in letters}
    use = {c: 0 for c in letters}
    terms = []
    for _ in range(rng.int(1, 4)):
      t = ""
      for c in rng.shuffled(letters)[:rng.int(0, 4)]:
        if use[c] < 2:
          use[c] += 1
          t += c
      terms.append(t)
    arrs = [rng.array(tuple(d[c] for c in t)) for t in terms]
    res = tn.from_topology(",".join(terms), arrs)
    check_wf(res, "from_topology")
    outs, oe = [], []
    for t, node in zip(terms, res):
      same(node.tensor, arrs[len(outs) and 0 or 0] if False else
           arrs[[x is node for x in res].index(True)], "from_topology tensor")
      for j, c in enumerate(t):
        require((node.edges[j].node2 is not None) == (use[c] == 2),
                "from_topology connectivity")
        if use[c] == 1:
          outs.append(c)
          oe.append(node.edges[j])
    m = {c: i for i, c in enumerate(letters)}
    same(value(res, oe), contract_labels(
        [(a, [m[c] for c in t]) for a, t in zip(arrs, terms)],
        [m[c] for c in outs]), "from_topology value")


@scenario("P01", quick=60, thorough=600)
def copynode_graph(rng):
  """copy nodes take part in the same invariant"""
  rank = rng.int(1, 4)
  d = rng.int(1, 3)
  c = tn.CopyNode(rank, d)
  others = []
  for i in range(rank):
    if rng.bool(0.8):
      r = rng.int(1, 3)
      shp = [rng.int(1, 3) for _ in range(r)]
      ax = rng.int(0, r - 1)
      shp[ax] = d
      m = tn.Node(rng.array(tuple(shp)))
      (c[i] ^ m[ax]) if rng.bool() else (m[ax] ^ c[i])
      others.append(m)
  nodes = check_wf([c] + others, "with copy node")
  ref_out = dangling([c] + others)
  ref = value([c] + others, ref_out)
  if others:
    e = rng.choice([x for x in c.edges if x.node2 is not None])
    o = e.node1 if e.node1 is not c else e.node2
    new = tn.contract_between(c, o) if rng.bool() else tn.contract(e)
    rest = [m for m in others if m is not o] + [new]
    check_wf(rest, "after contracting with a copy node")
    same(value(rest, ref_out), ref, "value after contracting a copy node")


# ----------------------------------------------------------------- P02
def _contract_case(rng, backend):
  nodes = make_network(tn, rng, backend=backend, n_nodes=rng.int(2, 3),
                       max_rank=4, dims=(1, 3), p_bond=0.8)
  out = dangling(nodes)
  ref = value(nodes, out)
  kind = rng.choice(["between", "between", "contract", "outer", "order",
                     "parallel", "final", "copynode", "self"])
  rng.note(kind)
  name = rng.choice([None, "res"])
  gone = []
  pr = [(a, b) for a in nodes for b in nodes if a is not b and _shared(a, b)]
  if kind == "between" and pr:
    a, b = rng.choice(pr)
    shared = {id(e) for e in _shared(a, b)}
    exp = [e for e in list(a.edges) + list(b.edges) if id(e) not in shared]
    names = None
    if rng.bool():
      names = [f"q{i}" for i in range(len(exp))]
    new = tn.contract_between(a, b, name=name, axis_names=names)
    if name:
      require(new.name == name, "contract_between: name")
    if names is not None:
      require(list(new.axis_names) == names, "contract_between: axis names")
    require([id(e) for e in new.edges] == [id(e) for e in exp],
            "contract_between: edge order is not node1's then node2's")
    rest = [m for m in nodes if m is not a and m is not b] + [new]
  elif kind == "order" and pr:
    a, b = rng.choice(pr)
    shared = {id(e) for e in _shared(a, b)}
    # surviving trace edges would make the request ambiguous
    if _shared(a, a) or _shared(b, b):
      raise Skip()
    exp = rng.shuffled([e for e in list(a.edges) + list(b.edges)
                        if id(e) not in shared])
    if not exp:
      raise Skip()
    names = [f"q{i}" for i in range(len(exp))] if rng.bool() else None
    new = tn.contract_between(a, b, output_edge_order=exp, axis_names=names)
    if names is not None:
      require(list(new.axis_names) == names, "contract_between: axis names")
    require([id(e) for e in new.edges] == [id(e) for e in exp],
            "contract_between: output_edge_order not obeyed")
    rest = [m for m in nodes if m is not a and m is not b] + [new]
  elif kind == "contract" and nondangling(nodes):
    e = rng.choice(nondangling(nodes))
    a, b = e.node1, e.node2
    if a is b:
      exp = [x for x in a.edges if x is not e]
    else:
      exp = [x for x in list(a.edges) + list(b.edges) if x is not e]
    names = [f"q{i}" for i in range(len(exp))] if rng.bool() else None
    new = tn.contract(e, name=name, axis_names=names)
    if names is not None and exp:
      require(list(new.axis_names) == names, "contract: axis names")
    require([id(x) for x in new.edges] == [id(x) for x in exp],
            "contract: edge order is not node1's then node2's")
    gone.append(e)
    rest = [m for m in nodes if m is not a and m is not b] + [new]
  elif kind == "parallel" and pr:
    a, b = rng.choice(pr)
    new = tn.contract_parallel(rng.choice(_shared(a, b)))
    rest = [m for m in nodes if m is not a and m is not b] + [new]
  elif kind == "self":
    tr = [n for n in nodes if _shared(n, n)]
    if not tr:
      raise Skip()
    a = rng.choice(tr)
    exp = [x for x in a.edges if all(x is not y for y in _shared(a, a))]
    new = tn.contract_between(a, a) if rng.bool() else \
        tn.network_operations.contract_trace_edges(a)
    require([id(x) for x in new.edges] == [id(x) for x in exp],
            "trace: surviving edges not in their original order")
    rest = [m for m in nodes if m is not a] + [new]
  elif kind == "final":
    nodes = make_network(tn, rng, backend=backend, n_nodes=rng.int(1, 3),
                         max_rank=2, dims=(1, 3), p_bond=0.0)
    out = rng.shuffled(dangling(nodes))
    ref = value(nodes, out)
    new = tn.outer_product_final_nodes(nodes, out)
    require([id(x) for x in new.edges] == [id(x) for x in out],
            "outer_product_final_nodes: edge order")
    same(new.tensor, ref, "outer_product_final_nodes: tensor")
    rest = [new]
  elif kind == "copynode":
    d = rng.int(1, 3)
    k = rng.int(1, 4)
    tr = rng.int(1, 2) if rng.bool(0.25) else 0
    c = tn.CopyNode(k + 2 * tr, d, backend=backend)
    ps = []
    left = list(range(k + 2 * tr))
    for _ in range(tr):
      i, j = left.pop(rng.int(0, len(left) - 1)), left.pop(
          rng.int(0, len(left) - 1))
      c[i] ^ c[j]
    if tr and rng.bool(0.3):        # nothing but traces
      k = 0
      c = tn.CopyNode(2 * tr, d, backend=backend)
      p = rng.perm(2 * tr)
      for i in range(0, 2 * tr, 2):
        c[p[i]] ^ c[p[i + 1]]
      left = []
    while left:
      m = rng.int(1, len(left))
      mine, left = left[:m], left[m:]
      r = m + rng.int(0, 2)
      axes = rng.perm(r)[:m]
      shp = [rng.int(1, 3) for _ in range(r)]
      for x in axes:
        shp[x] = d
      node = tn.Node(rng.array(tuple(shp)), backend=backend)
      for i, x in zip(mine, axes):
        (c[i] ^ node[x]) if rng.bool() else (node[x] ^ c[i])
      ps.append(node)
    out = dangling(ps)
    ref = value([c] + ps, out)
    nodes = ps + [c]
    gone = [e for e in c.edges]
    new = tn.contract_copy_node(c, name=name)
    if name:
      require(new.name == name, "contract_copy_node: name")
    rest = [new]
  else:
    if len(nodes) < 2:
      raise Skip()
    a, b = rng.subset(nodes, 2)
    exp = list(a.edges) + list(b.edges)
    if not _shared(a, b) and rng.bool(0.3):
      new = tn.contract_between(a, b, allow_outer_product=True, name=name)
    else:
      new = tn.outer_product(a, b, name=name)
    require([id(x) for x in new.edges] == [id(x) for x in exp],
            "outer_product: edge order is not node1's then node2's")
    rest = [m for m in nodes if m is not a and m is not b] + [new]
  same(value(rest, out), ref, f"{kind}: value")
  # the result's own axes carry the data of its edges
  same(tonp(new.tensor).shape, [e.dimension for e in new.edges],
       f"{kind}: axis dimensions")
  check_wf(rest, kind)
  # nodes that were consumed got dangling edges of their own, and contracted
  # edges cannot be used again
  used = [m for m in nodes if all(m is not x for x in rest)]
  check_wf(used, f"{kind}: consumed nodes")
  for m in used:
    require(all(e.is_dangling() and e.node1 is m for e in m.edges),
            f"{kind}: a consumed node kept edges of the result")
  for e in gone:
    raises(ValueError, lambda: tn.contract(e), f"{kind}: contracted edge again")


@scenario("P02", quick=400, thorough=6000)
def contraction_np(rng):
  _contract_case(rng, "numpy")


@scenario("P02", quick=60, thorough=600, group="jax")
def contraction_jax(rng):
  _contract_case(rng, "jax")


@scenario("P02", quick=120, thorough=1200, group="tf")
def contraction_tf(rng):
  _contract_case(rng, "tensorflow")


@scenario("P02", quick=60, thorough=600)
def refusals(rng):
  """contracting what is not there is refused"""
  nodes = make_network(tn, rng, n_nodes=3, max_rank=3, trace=False)
  for a in nodes:
    for b in nodes:
      if a is not b and not _shared(a, b):
        raises(ValueError, lambda: tn.contract_between(a, b),
               "contract_between without shared edges")
  for e in dangling(nodes):
    raises(ValueError, lambda: tn.contract(e), "contract dangling edge")
    raises(ValueError, lambda: tn.contract_parallel(e),
           "contract_parallel dangling edge")
  for n in [m for m in nodes if m.edges]:
    raises(ValueError, lambda: tn.outer_product(n, n),
           "outer product of a node with itself")
  check_wf(nodes, "after refused contractions")
  pr = [(a, b) for a in nodes for b in nodes if a is not b and _shared(a, b)]
  if pr:
    a, b = rng.choice(pr)
    foreign = [e for n in nodes if n is not a and n is not b for e in n.edges
               if id(a) not in (id(e.node1), id(e.node2)) and
               id(b) not in (id(e.node1), id(e.node2))]
    free = [e for e in list(a.edges) + list(b.edges)
            if all(e is not s for s in _shared(a, b))]
    bad = [_shared(a, b)[0]] + (foreign[:1])
    x = rng.choice(bad)
    raises(ValueError,
           lambda: tn.contract_between(a, b, output_edge_order=free + [x]),
           "contract_between with a shared or foreign edge in the output order")


# ----------------------------------------------------------------- P03
@scenario("P03", quick=250, thorough=3000)
def reorder(rng):
  r = rng.int(0, 5)
  backend = "numpy"
  shape = rng.shape(r)
  arr = rng.array(shape, rng.dtype())
  names = [f"x{i}" for i in range(r)] if rng.bool(0.7) else None
  n = tn.Node(arr.copy(), axis_names=names)
  es = list(n.edges)
  p = rng.perm(r)
  kind = rng.choice(["edges", "axes", "tfeo", "transpose", "twice", "bad",
                     "matmul"])
  rng.note(kind, shape, p)
  if kind == "edges":
    seq = [es[i] for i in p]
    res = n.reorder_edges(tuple(seq) if rng.bool(0.4) else seq)
    require(res is n, "reorder_edges returns the node")
  elif kind == "axes":
    n.reorder_axes(list(p))
  elif kind == "twice":
    q = rng.perm(r)
    n.reorder_axes(list(q))
    n.reorder_edges([es[i] for i in p])
  elif kind == "tfeo":
    t = n.tensor_from_edge_order([es[i] for i in p])
    same(t, arr.transpose(p), "tensor_from_edge_order")
    same(n.tensor, arr, "tensor_from_edge_order changed the node")
    require([id(e) for e in n.edges] == [id(e) for e in es],
            "tensor_from_edge_order changed the edges")
    return
  elif kind == "transpose":
    from tensornetwork.linalg import node_linalg
    if names and rng.bool():
      perm = [names[i] for i in p]
    else:
      perm = p
    m = node_linalg.transpose(n, perm)
    same(m.tensor, arr.transpose(p), "transpose")
    same(n.tensor, arr, "transpose changed its operand")
    if names and m.axis_names is not None:
      pass
    check_wf([m, n])
    return
  elif kind == "bad":
    if r < 2:
      raise Skip()
    snap = snapshot([n])
    bad = rng.choice([p[:-1], p + [0], [p[0]] * r])
    raises(ValueError, lambda: n.reorder_axes(list(bad)),
           "reorder_axes with a non-permutation")
    raises(ValueError, lambda: n.reorder_edges([es[i] for i in p[:-1]]),
           "reorder_edges with missing edges")
    other = tn.Node(np.ones(2))
    raises(ValueError,
           lambda: n.reorder_edges([es[i] for i in p[:-1]] + [other[0]]),
           "reorder_edges with a foreign edge")
    require(snapshot([n]) == snap, "a refused reordering changed the node")
    return
  else:
    n.reorder_edges([es[i] for i in p])
  same(n.tensor, arr.transpose(p), kind + ": tensor")
  require([id(e) for e in n.edges] == [id(es[i]) for i in p], kind + ": edges")
  if names:
    require(list(n.axis_names) == [names[i] for i in p], kind + ": axis names")
    for i in range(r):
      require(n[names[i]] is es[i], kind + ": edge by name")
  check_wf([n], kind)


def _flatten_case(rng, backend):
  """flatten then split gives back the same network; value never changes"""
  nodes = make_network(tn, rng, backend=backend, n_nodes=rng.int(1, 3),
                       max_rank=5, dims=(1, 3), p_bond=0.8)
  out = dangling(nodes)
  groups = {}
  for e in out:
    groups.setdefault((id(e.node1),), []).append(e)
  for e in nondangling(nodes):
    groups.setdefault(tuple(sorted((id(e.node1), id(e.node2)))), []).append(e)
  gs = [g for g in groups.values() if len(g) > 1]
  if not gs:
    raise Skip()
  g = rng.choice(gs)
  g = rng.subset(g, rng.int(2, len(g)))
  dims = [e.dimension for e in g]
  isd = g[0].is_dangling()
  istr = g[0].is_trace()
  rng.note("flatten", dims, "dangling" if isd else "trace" if istr else "std")
  others = [e for e in out if all(e is not x for x in g)]
  first = (g if isd else []) + others
  ref = value(nodes, first)
  new = tn.flatten_edges(list(g), new_edge_name="flat")
  check_wf(nodes, "flatten")
  require(new.name == "flat", "flatten_edges: new edge name")
  total = int(np.prod(dims))
  require(new.dimension == total, "flatten_edges: dimension")
  for m in {id(x): x for x in (new.node1, new.node2) if x is not None}.values():
    # documented: flattened axes go to the back, others keep their order
    require(m.edges[-1] is new, "flattened edge is not the node's last axis")
  f2 = ([new] if isd else []) + others
  got = value(nodes, f2)
  same(got, ref.reshape(([total] if isd else []) +
                        [e.dimension for e in others]), "flatten_edges: value")
  back = tn.split_edge(new, tuple(dims))
  check_wf(nodes, "split_edge")
  require([e.dimension for e in back] == dims, "split_edge: dimensions")
  got = value(nodes, (list(back) if isd else []) + others)
  same(got, ref, "split_edge after flatten_edges: value")


@scenario("P03", quick=300, thorough=4000)
def flatten_np(rng):
  _flatten_case(rng, "numpy")


@scenario("P03", quick=40, thorough=300, group="jax")
def flatten_jax(rng):
  _flatten_case(rng, "jax")


@scenario("P03", quick=60, thorough=300, group="tf")
def flatten_tf(rng):
  _flatten_case(rng, "tensorflow")


@scenario("P03", quick=200, thorough=2000)
def split_any(rng):
  """split_edge on any edge: the old index is the mixed-radix number of the new"""
  nodes = make_network(tn, rng, n_nodes=rng.int(1, 3), max_rank=3,
                       dims=(1, 6), p_bond=0.6)
  alle = dangling(nodes) + nondangling(nodes)
  if not alle:
    raise Skip()
  e = rng.choice(alle)
  d = e.dimension
  a = rng.choice([x for x in range(1, d + 1) if d % x == 0])
  b = rng.choice([x for x in range(1, d // a + 1) if (d // a) % x == 0])
  shp = rng.choice([(a, d // a), (a, b, d // a // b), (d,)])
  isd = e.is_dangling()
  others = [x for x in dangling(nodes) if x is not e]
  ref = value(nodes, ([e] if isd else []) + others)
  names = [f"s{i}" for i in range(len(shp))] if rng.bool() else None
  snap = snapshot(nodes)
  raises(ValueError, lambda: tn.split_edge(e, (d + 1, 1)),
         "split_edge with a wrong product")
  require(snapshot(nodes) == snap, "a refused split_edge changed the graph")
  new = tn.split_edge(e, shp, new_edge_names=names)
  check_wf(nodes, "split_edge")
  if len(shp) > 1 and names:
    require([x.name for x in new] == names, "split_edge: names")
  got = value(nodes, (list(new) if isd else []) + others)
  same(got, ref.reshape((list(shp) if isd else []) +
                        [x.dimension for x in others]), "split_edge: value")


@scenario("P03", quick=200, thorough=2000)
def slice_any(rng):
  """slicing an edge restricts the sum to the index range"""
  nodes = make_network(tn, rng, n_nodes=rng.int(1, 3), max_rank=3, dims=(1, 5),
                       p_bond=0.6)
  alle = dangling(nodes) + nondangling(nodes)
  if not alle:
    raise Skip()
  e = rng.choice(alle)
  d = e.dimension
  ln = rng.int(1, d)
  st = rng.int(0, d - ln)
  ends = [(m, a) for m, a in ((e.node1, e.axis1), (e.node2, e.axis2))
          if m is not None]
  arrs = {id(n): np.array(n.tensor) for n in nodes}
  for m, a in ends:
    arrs[id(m)] = np.take(arrs[id(m)], range(st, st + ln), axis=a)
  kind = rng.int(0, 2)
  snap = snapshot(nodes)
  if kind == 1:
    bad = rng.choice([(st, d - st + 1), (d, 1), (0, 0), (0, -1),
                      (-d - rng.int(1, 3), 1 if d < 2 else rng.int(1, d))])
    raises(ValueError, lambda: tn.slice_edge(e, *bad), f"slice_edge{bad} of {d}")
    require(snapshot(nodes) == snap, "a refused slice changed the graph")
    return
  res = tn.slice_edge(e, st if kind == 0 or nodes[0].backend.name == "tensorflow"
                      else st - d, ln)
  require(res is e or res.dimension == ln, "slice_edge: edge")
  for n in nodes:
    same(n.tensor, arrs[id(n)], "slice_edge: tensor")
  check_wf(nodes, "slice_edge")


# ----------------------------------------------------------------- P04
def _split_case(rng, backend):
  r = rng.int(2, 4)
  dtype = rng.dtype()
  shape = rng.shape(r, 1, 4)
  arr = rng.array(shape, dtype)
  if rng.bool(0.25):  # rank deficient
    arr = np.multiply.outer(rng.array(shape[:1], dtype),
                            rng.array(shape[1:], dtype)).reshape(shape)
  names = [f"a{i}" for i in range(r)] if rng.bool() else None
  n = tn.Node(arr, name="orig", axis_names=names, backend=backend)
  conn = []
  for i in range(r):
    if rng.bool(0.4):
      k = rng.int(1, 2)
      shp = [rng.int(1, 3) for _ in range(k)]
      ax = rng.int(0, k - 1)
      shp[ax] = shape[i]
      m = tn.Node(rng.array(tuple(shp), dtype), backend=backend)
      (n[i] ^ m[ax]) if rng.bool() else (m[ax] ^ n[i])
      conn.append(m)
  es = rng.shuffled(n.edges)
  k = rng.int(1, r - 1)
  L, R = es[:k], es[k:]
  ax = [[j for j, x in enumerate(n.edges) if x is e][0] for e in es]
  mat = arr.transpose(ax).reshape(
      int(np.prod([shape[j] for j in ax[:k]])), -1)
  spec = np.linalg.svd(mat, compute_uv=False)
  out = dangling([n] + conn)
  ref = value([n] + conn, out)
  kind = rng.choice(["svd", "svd", "qr", "rq", "full"])
  kw = {}
  trunc = False
  if kind in ("svd", "full") and rng.bool(0.6):
    if rng.bool():
      kw["max_singular_values"] = rng.int(1, len(spec) + 1)
    if rng.bool(0.5):
      kw["max_truncation_err"] = float(rng.r.rand() * np.linalg.norm(spec))
      if rng.bool(0.4):
        kw["relative"] = True
        kw["max_truncation_err"] = float(rng.r.rand())
  if kind in ("svd", "qr", "rq", "full"):
    if rng.bool(0.5):
      kw["left_name"] = "L"
      kw["right_name"] = "R"
    if kind != "full" and rng.bool(0.5):
      kw["edge_name"] = "bond"
    if kind == "full" and rng.bool(0.5):
      kw.update(middle_name="M", left_edge_name="le", right_edge_name="re")
  rng.note(kind, shape, "axes", ax, "left", k, kw)
  disc = None
  if kind == "svd":
    a, b, disc = tn.split_node(n, list(L), list(R), **kw)
    parts = [a, b]
  elif kind == "qr":
    a, b = tn.split_node_qr(n, list(L), list(R), **kw)
    parts = [a, b]
  elif kind == "rq":
    a, b = tn.split_node_rq(n, list(L), list(R), **kw)
    parts = [a, b]
  else:
    a, s, b, disc = tn.split_node_full_svd(n, list(L), list(R), **kw)
    parts = [a, s, b]
  check_wf(parts + conn, kind)
  if kw.get("left_name"):
    require(a.name == "L" and b.name == "R", f"{kind}: factor names")
  require([id(e) for e in a.edges[:k]] == [id(e) for e in L],
          f"{kind}: left factor does not carry the left edges in order")
  require([id(e) for e in b.edges[1:]] == [id(e) for e in R],
          f"{kind}: right factor does not carry the right edges in order")
  require(len(a.edges) == k + 1 and len(b.edges) == r - k + 1,
          f"{kind}: number of edges of the factors")
  if kind == "full":
    require(len(s.edges) == 2 and s.edges[0] is a.edges[-1] and
            s.edges[1] is b.edges[0], "full svd: middle node's edges")
    sv = tonp(s.tensor)
    same(sv, np.diag(np.diag(sv)), "full svd: middle tensor is diagonal")
    same(np.diag(sv), spec[:sv.shape[0]], "full svd: singular values")
    if kw.get("middle_name"):
      require(s.name == "M" and a.edges[-1].name == "le" and
              b.edges[0].name == "re", "full svd: names")
  else:
    require(a.edges[-1] is b.edges[0], f"{kind}: factors share one new edge")
    if kw.get("edge_name"):
      require(a.edges[-1].name == "bond", f"{kind}: edge name")
  A = tonp(a.tensor)
  B = tonp(b.tensor)
  Am = A.reshape(mat.shape[0], -1)
  Bm = B.reshape(-1, mat.shape[1])
  mid = tonp(s.tensor) if kind == "full" else np.eye(Am.shape[1])
  rec = Am @ mid @ Bm
  if disc is not None:
    disc = tonp(disc).ravel()
    kept = len(spec) - len(disc)
    require(Am.shape[1] == kept, f"{kind}: bond dimension + discarded values")
    same(np.sort(disc), np.sort(spec[kept:]), f"{kind}: discarded values")
    bound = kw.get("max_truncation_err")
    if bound is not None:
      bound *= spec[0] if kw.get("relative") else 1.0
      errs = [float(np.linalg.norm(spec[i:])) for i in range(len(spec) + 1)]
      if all(abs(x - bound) > 1e-5 * max(1.0, spec[0]) for x in errs):
        need = min([i for i, x in enumerate(errs) if x <= bound])
        require(kept == min(need, kw.get("max_singular_values", len(spec))),
                f"{kind}: {kept} singular values kept for {kw}, {need} reach "
                "the truncation error")
    elif "max_singular_values" in kw:
      require(kept == min(kw["max_singular_values"], len(spec)),
              f"{kind}: {kept} singular values kept for {kw}")
    err2 = float(np.sum(np.abs(rec - mat)**2))
    same(err2, float(np.sum(spec[kept:]**2)),
         f"{kind}: squared reconstruction error", eps=1e-7)
    if not kw or not ({"max_singular_values", "max_truncation_err"} & set(kw)):
      require(kept == len(spec), f"{kind}: truncated without being asked")
    if "max_singular_values" in kw:
      require(kept <= kw["max_singular_values"],
              f"{kind}: max_singular_values exceeded")
  else:
    kept = len(spec)
  if kept == len(spec):
    same(rec, mat, f"{kind}: factors do not reproduce the node")
    same(value(parts + conn, out), ref, f"{kind}: value of the network")
  if kind == "qr":
    same(Am.conj().T @ Am, np.eye(Am.shape[1]), "qr: left factor isometric")
  if kind == "rq":
    same(Bm @ Bm.conj().T, np.eye(Bm.shape[0]), "rq: right factor isometric")
  if kind == "full":
    same(Am.conj().T @ Am, np.eye(Am.shape[1]), "svd: left factor isometric")
    same(Bm @ Bm.conj().T, np.eye(Bm.shape[0]), "svd: right factor isometric")
  if kind == "svd":
    same(Am.conj().T @ Am, np.diag(spec[:kept]), "svd: left factor is U sqrt(S)")
    same(Bm @ Bm.conj().T, np.diag(spec[:kept]), "svd: right factor sqrt(S) V")


@scenario("P04", quick=400, thorough=6000)
def split_np(rng):
  _split_case(rng, "numpy")


@scenario("P04", quick=60, thorough=500, group="jax")
def split_jax(rng):
  _split_case(rng, "jax")


@scenario("P04", quick=100, thorough=800, group="tf")
def split_tf(rng):
  _split_case(rng, "tensorflow")
