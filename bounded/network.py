"""Executable contracts: P06 (ncon), P07 (contractors), P08 (copies), P09 (I/O)."""
import io, os, json, tempfile, functools
import numpy as np
import tensornetwork as tn
from tensornetwork import contractors
from bounded.core import (scenario, require, same, raises, Violation, Skip, tonp)
from bounded.graphlib import (check_wf, value, snapshot, make_network, dangling,
                              nondangling, contract_labels)


# ----------------------------------------------------------------- P06
def _ncon_structure(rng, batches):
  nt = rng.int(1, 4)
  lists = [[] for _ in range(nt)]
  nlab = rng.int(0, 6)
  mult = {}
  labs = []
  for k in range(nlab):
    opened = rng.bool(0.45)
    r = rng.r.rand()
    if opened:
      m = 1 if not batches or r < 0.6 else rng.int(2, 3)
    else:
      m = 2 if not batches or r < 0.6 else rng.choice([1, 3, 2])
    labs.append((k, opened, m))
    for _ in range(m):
      lists[rng.int(0, nt - 1)].append(k)
  lists = [rng.shuffled(l) for l in lists]
  if any(len(l) > 6 for l in lists):
    raise Skip()
  return lists, labs


def _ncon_names(rng, labs):
  """map abstract labels to ints / strings; returns dict and expected orders"""
  style = rng.choice(["int", "str", "mixed"])
  ints = rng.shuffled(range(1, 40))
  strs = rng.shuffled(["a", "B", "rick", "9", "10", "zz", "Z1", "morty", "m",
                       "c3", "aa", "07", "x", "Y"])
  name = {}
  for k, opened, _ in labs:
    if style == "int" or (style == "mixed" and rng.bool()):
      v = ints.pop()
      name[k] = -v if opened else v
    else:
      v = strs.pop()
      name[k] = "-" + v if opened else v
  outs = [name[k] for k, o, _ in labs if o]
  default = sorted([x for x in outs if not isinstance(x, str)], reverse=True) + \
      sorted([x for x in outs if isinstance(x, str)])
  return name, default


def _ncon_case(rng, backend, batches):
  lists, labs = _ncon_structure(rng, batches)
  name, default = _ncon_names(rng, labs)
  inv = {v: k for k, v in name.items()}
  dim = {k: rng.int(1, 3) for k, _, _ in labs}
  dtype = rng.dtype()
  arrs = [rng.array(tuple(dim[k] for k in l), dtype) for l in lists]
  struct = [[name[k] for k in l] for l in lists]
  if rng.bool(0.3):
    struct = [tuple(s) for s in struct]
  closed = [name[k] for k, o, _ in labs if not o]
  con = rng.shuffled(closed) if rng.bool(0.6) else None
  out = rng.shuffled(default) if rng.bool(0.5) else None
  rng.note(backend, struct, "con", con, "out", out, "dims",
           {name[k]: d for k, d in dim.items()}, np.dtype(dtype).name)
  want = contract_labels(list(zip(arrs, lists)),
                         [inv[x] for x in (out if out is not None else default)])
  be = tn.backends.backend_factory.get_backend(backend)
  give = [be.convert_to_tensor(a) for a in arrs]
  wrapped = rng.bool(0.25)
  if wrapped:
    give = [tn.Tensor(g, backend=backend) for g in give]
  kept = [np.array(tonp(g.array if wrapped else g)) for g in give]
  ci = list(con) if con is not None else None
  oi = list(out) if out is not None else None
  si = [list(s) for s in struct]
  hasbatch = any(m > 2 for _, o, m in labs if not o)
  try:
    res = tn.ncon(give, struct, con_order=con, out_order=out, backend=backend)
  except ValueError as e:
    if hasbatch and "infinite loop" in str(e):
      raise Skip()  # documented refusal: order needs an all-batch step
    raise
  if wrapped:
    require(isinstance(res, tn.Tensor), "ncon of Tensor objects is a Tensor")
    res = res.array
  same(res, want, "ncon")
  # nothing the caller passed in has changed
  for g, k in zip(give, kept):
    same(g.array if wrapped else g, k, "ncon changed an input tensor")
  require([list(s) for s in struct] == si and
          (con is None or list(con) == ci) and (out is None or list(out) == oi),
          "ncon changed the labels it was given")
  if not hasbatch and rng.bool(0.3):
    res2 = tn.ncon(give, struct, con_order=rng.shuffled(closed), out_order=out,
                   check_network=False, backend=be)
    same(res2.array if wrapped else res2, want,
         "ncon with another contraction order")


@scenario("P06", quick=1500, thorough=20000)
def plain_np(rng):
  _ncon_case(rng, "numpy", False)


@scenario("P06", quick=1500, thorough=20000)
def batch_np(rng):
  _ncon_case(rng, "numpy", True)


@scenario("P06", quick=80, thorough=800, group="jax")
def any_jax(rng):
  _ncon_case(rng, "jax", rng.bool())


@scenario("P06", quick=250, thorough=2500, group="tf")
def any_tf(rng):
  _ncon_case(rng, "tensorflow", rng.bool())


@scenario("P06", quick=400, thorough=3000)
def rejects(rng):
  """every malformed request is refused"""
  batch = rng.bool(0.3)
  lists, labs = _ncon_structure(rng, batch)
  if not labs:
    raise Skip()
  name, default = _ncon_names(rng, labs)
  dim = {k: rng.int(1, 3) for k, _, _ in labs}
  arrs = [rng.array(tuple(dim[k] for k in l)) for l in lists]
  struct = [[name[k] for k in l] for l in lists]
  closed = [name[k] for k, o, _ in labs if not o]
  con, out = None, None
  kinds = ["count", "rank", "zero"]
  if closed:
    kinds += ["con_dup", "con_neg", "con_short", "con_foreign", "dim", "alnum"]
  if default:
    kinds += ["out_dup", "out_pos", "out_short", "out_foreign", "con_is_open"]
  many = [k for k, _, _ in labs if sum(l.count(k) for l in lists) > 1]
  if batch:
    if not many:
      raise Skip()
    kinds = ["dim"]
  kind = rng.choice(kinds)
  rng.note(kind, struct)
  if kind == "count":
    if rng.bool():
      arrs = arrs + [np.ones(())]
    else:
      struct = struct + [[]]
  elif kind == "rank":
    i = rng.int(0, len(arrs) - 1)
    struct[i] = struct[i] + [99]
  elif kind == "zero":
    arrs = arrs + [np.ones((2, 2))]
    struct = struct + [[0, 0]]
  elif kind == "con_dup":
    con = closed + [closed[0]] if rng.bool() else [closed[0]] * max(
        2, len(closed))
  elif kind == "con_neg":
    con = closed[:-1] + [-77]
  elif kind == "con_short":
    if len(closed) < 2:
      con = closed + [88]
    else:
      con = closed[:-1]
  elif kind == "con_foreign":
    con = closed[:-1] + [88]
  elif kind == "con_is_open":
    con = closed + [default[0]]
  elif kind == "dim":
    k = rng.choice(many)
    i, a = rng.choice([(j, p) for j, l in enumerate(lists)
                       for p, x in enumerate(l) if x == k])
    shp = list(arrs[i].shape)
    shp[a] += 1 if shp[a] < 2 else rng.choice([-1, 1])
    arrs[i] = rng.array(tuple(shp))
  elif kind == "alnum":
    arrs = arrs + [np.ones((2, 2))]
    bad = rng.choice(["a-b", "x!", "a b"])
    struct = struct + [[bad, bad]]
  elif kind == "out_dup":
    out = default + [default[0]] if rng.bool() else [default[0]] * max(
        2, len(default))
  elif kind == "out_pos":
    out = default[:-1] + [55]
  elif kind == "out_short":
    out = default[:-1] if len(default) > 1 else default + [-88]
  elif kind == "out_foreign":
    out = default[:-1] + [-88]
  raises(ValueError,
         lambda: tn.ncon(arrs, struct, con_order=con, out_order=out,
                         backend="numpy"), f"ncon ({kind})")


@scenario("P06", quick=150, thorough=1500)
def builder(rng):
  """labelled Tensor calls combined with @ and finalize are ncon"""
  lists, labs = _ncon_structure(rng, False)
  name, default = _ncon_names(rng, labs)
  inv = {v: k for k, v in name.items()}
  if len(lists) < 2:
    raise Skip()
  dim = {k: rng.int(1, 3) for k, _, _ in labs}
  arrs = [rng.array(tuple(dim[k] for k in l)) for l in lists]
  want = contract_labels(list(zip(arrs, lists)), [inv[x] for x in default])
  if any(len(l) == 0 for l in lists):
    raise Skip()
  parts = [tn.Tensor(a)(*[name[k] for k in l]) for a, l in zip(arrs, lists)]
  acc = parts[0]
  for p in parts[1:]:
    acc = acc @ p
  same(tn.finalize(acc).array, want, "finalize(A(..) @ B(..))")


# ----------------------------------------------------------------- P07
def _open(nodes):
  """edges leaving the set: dangling ones and those to outside nodes"""
  ids = {id(n) for n in nodes}
  return [e for n in nodes for e in n.edges
          if e.node2 is None or not {id(e.node1), id(e.node2)} <= ids]


def _contractor_case(rng, backend):
  nodes = make_network(tn, rng, backend=backend,
                       n_nodes=rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8]),
                       max_rank=3, dims=(1, 3), p_bond=0.85)
  if rng.bool(0.15) and backend == "numpy":
    nodes = make_network(tn, rng, n_nodes=rng.int(9, 17), max_rank=3,
                         dims=(1, 2), p_bond=0.95)
  if rng.bool(0.2):  # a part of a network; its outside edges stay open
    nodes = rng.subset(nodes, rng.int(1, len(nodes)))
  out = rng.shuffled(_open(nodes))
  if len(out) > 12:
    raise Skip()
  ref = value(nodes, out)
  alg = rng.choice(["greedy", "branch", "optimal", "auto", "custom", "path"])
  if alg in ("optimal", "branch") and len(nodes) > 6:
    alg = rng.choice(["auto", "greedy"])
  if alg == "auto" and len(nodes) > 12:
    alg = "greedy"
  mode = rng.choice(["order", "order", "ignore", "none"])
  if mode == "none" and len(out) > 1:
    mode = "order"
  kw = {}
  if mode == "order":
    kw["output_edge_order"] = tuple(out) if rng.bool(0.3) else list(out)
  elif mode == "ignore":
    kw["ignore_edge_order"] = True
  if alg in ("greedy", "optimal", "auto", "branch") and rng.bool(0.3):
    kw["memory_limit"] = rng.choice([1000000, 100000])
  if alg == "branch" and rng.bool():
    kw["nbranch"] = rng.int(1, 3)
  cont = rng.choice([list, tuple, set, iter])
  given = rng.shuffled(nodes)
  rng.note(alg, {k: v for k, v in kw.items() if k != "output_edge_order"}, mode)
  if alg == "custom":
    import opt_einsum
    opt = opt_einsum.paths.greedy
    if len(nodes) <= 5 and rng.bool():
      opt = opt_einsum.paths.branch
    res = contractors.custom(cont(given), opt, **kw)
  elif alg == "path":
    from tensornetwork.contractors.opt_einsum_paths import path_contractors as pc
    algorithm = rng.choice(["greedy", "branch", "optimal", "auto"])
    if len(nodes) > 5:
      algorithm = "greedy"
    seq = rng.choice([list, tuple, iter])
    path = contractors.path_solver(algorithm, seq(given))
    if len(given) == 1:
      path = []
    res = contractors.contract_path(path, seq(given), list(out))
    mode = "order"
  else:
    res = getattr(contractors, alg)(cont(given), **kw)
  if mode == "order":
    require([id(e) for e in res.edges] == [id(e) for e in out],
            f"{alg}: result axes are not in the requested edge order")
  same(value([res], out), ref, f"{alg}: value of the network")
  if mode == "order":
    same(res.tensor, ref, f"{alg}: tensor")
  check_wf([res], alg)


@scenario("P07", quick=900, thorough=12000)
def contractors_np(rng):
  _contractor_case(rng, "numpy")


@scenario("P07", quick=30, thorough=250, group="jax")
def contractors_jax(rng):
  _contractor_case(rng, "jax")


@scenario("P07", quick=80, thorough=500, group="tf")
def contractors_tf(rng):
  _contractor_case(rng, "tensorflow")


@scenario("P07", quick=150, thorough=1500)
def refuse_order(rng):
  nodes = make_network(tn, rng, n_nodes=rng.int(2, 4), max_rank=3, min_rank=1)
  out = dangling(nodes)
  alg = rng.choice([contractors.greedy, contractors.optimal, contractors.branch])
  if len(out) > 1 and rng.bool():
    raises(ValueError, lambda: alg(nodes), "contractor without an edge order")
  elif out:
    bad = out[:-1] if rng.bool() else out + nondangling(nodes)[:1]
    if len(bad) == len(out):
      raise Skip()
    raises(ValueError, lambda: alg(nodes, output_edge_order=bad),
           "contractor with a wrong edge order")


@scenario("P07", quick=250, thorough=2500)
def bucket(rng):
  """copy-tensor networks: bucket elimination then any contractor"""
  d = rng.int(1, 3)
  nc = rng.int(1, 3)
  copies = []
  slots = []
  for i in range(nc):
    r = rng.int(1, 4)
    c = tn.CopyNode(r, d, name=f"c{i}")
    copies.append(c)
    slots += [(c, a) for a in range(r)]
  dense = []
  slots = rng.shuffled(slots)
  while slots:
    k = min(len(slots), rng.int(1, 3))
    mine, slots = slots[:k], slots[k:]
    r = k + rng.int(0, 1)
    axes = rng.perm(r)[:k]
    shp = [rng.int(1, 3) for _ in range(r)]
    for x in axes:
      shp[x] = d
    n = tn.Node(rng.array(tuple(shp)))
    for (c, a), x in zip(mine, axes):
      (c[a] ^ n[x]) if rng.bool() else (n[x] ^ c[a])
    dense.append(n)
  allnodes = copies + dense
  out = rng.shuffled(dangling(allnodes))
  ref = value(allnodes, out)
  order = rng.shuffled(copies)
  res = list(contractors.bucket(rng.shuffled(allnodes), order))
  for c in copies:
    require(all(c is not m for m in res), "bucket: copy node left over")
  same(value(res, out), ref, "bucket: value of the remaining network")
  final = contractors.greedy(res, output_edge_order=list(out))
  same(final.tensor, ref, "bucket then greedy: tensor")


# ----------------------------------------------------------------- P08
def _same_graph(orig, copies, node_map, edge_map, conj, msg):
  ids = {id(n) for n in orig}
  cids = {id(n) for n in copies}
  require(len(ids & cids) == 0, f"{msg}: a copy is the original")
  for n in orig:
    m = node_map[n]
    require(type(m) is type(n), f"{msg}: node type")
    t = tonp(n.tensor)
    same(m.tensor, t.conj() if conj else t, f"{msg}: tensor of the copy")
    require(m.name == n.name, f"{msg}: node name {m.name!r} != {n.name!r}")
    require(list(m.axis_names) == list(n.axis_names), f"{msg}: axis names")
    require(len(m.edges) == len(n.edges), f"{msg}: number of edges")
    require(m.backend.name == n.backend.name, f"{msg}: backend")
  for n in orig:
    for k, e in enumerate(n.edges):
      m = node_map[n]
      f = m.edges[k]
      require(f is not e, f"{msg}: edge shared with the original")
      inside = e.node2 is not None and id(e.node1) in ids and id(e.node2) in ids
      require((f.node2 is not None) == inside,
              f"{msg}: edge inside/outside the copied set is "
              f"{'dangling' if f.node2 is None else 'connected'}")
      if inside:
        ends = {(id(node_map[e.node1]), e.axis1), (id(node_map[e.node2]),
                                                   e.axis2)}
        require({(id(f.node1), f.axis1), (id(f.node2), f.axis2)} == ends,
                f"{msg}: copied edge joins other axes")
      if edge_map is not None:
        require(edge_map[e] is f,
                f"{msg}: the edge map does not lead to the edge of the copy")
      require(f.name == e.name, f"{msg}: edge name {f.name!r} != {e.name!r}")


@scenario("P08", quick=600, thorough=6000)
def copies(rng):
  nodes = make_network(tn, rng, n_nodes=rng.int(1, 4), max_rank=4)
  sub = rng.subset(nodes, rng.int(1, len(nodes)))
  conj = rng.bool(0.4)
  snap = snapshot(nodes)
  kind = rng.choice(["copy", "replicate", "node", "copyset"])
  rng.note(kind, [n.name for n in sub], conj)
  if kind in ("copy", "copyset"):
    arg = rng.choice([list, tuple, iter])(sub) if kind == "copy" else set(sub)
    nd, ed = tn.copy(arg, conjugate=conj)
    require(snapshot(nodes) == snap, "copy changed the original")
    new = [nd[n] for n in sub]
    check_wf(new, "copy")
    _same_graph(sub, new, nd, ed, conj, "copy")
    extra = [e for e in ed
             if all(e is not x for n in sub for x in n.edges)]
    require(not extra and len(nd) == len(sub), "copy: maps have other keys")
  elif kind == "replicate":
    new = tn.replicate_nodes(rng.choice([list, tuple, iter])(sub),
                             conjugate=conj)
    require(snapshot(nodes) == snap, "replicate_nodes changed the original")
    require(len(new) == len(sub), "replicate_nodes: number of nodes")
    check_wf(new, "replicate")
    nd = dict(zip(sub, new))
    _same_graph(sub, new, nd, None, conj, "replicate_nodes")
  else:
    n = sub[0]
    m = n.copy(conjugate=conj)
    require(snapshot(nodes) == snap, "Node.copy changed the original")
    check_wf([m], "Node.copy")
    _same_graph([n], [m], {n: m}, None, conj, "Node.copy")
    new = [m]
  # later operations on the copy do not reach the original
  for _ in range(3):
    op = rng.int(0, 3)
    if op == 0 and nondangling(new):
      e = rng.choice(nondangling(new))
      old = (e.node1, e.node2)
      r = tn.contract(e)
      new = [x for x in new if all(x is not o for o in old)] + [r]
    elif op == 1 and new:
      n = rng.choice(new)
      n.tensor = tonp(n.tensor) * 2
      n.set_name("changed")
    elif op == 2 and new:
      n = rng.choice(new)
      n.reorder_axes(rng.perm(len(n.edges)))
    elif op == 3 and nondangling(new):
      rng.choice(nondangling(new)).disconnect()
  require(snapshot(nodes) == snap, "changing the copy changed the original")


@scenario("P08", quick=80, thorough=600)
def copynode_copy(rng):
  r = rng.int(1, 4)
  d = rng.int(1, 3)
  c = tn.CopyNode(r, d, name="cn", axis_names=[f"q{i}" for i in range(r)])
  others = []
  for i in range(r):
    if rng.bool():
      n = tn.Node(rng.array((d, rng.int(1, 3))), name=f"o{i}")
      c[i] ^ n[0]
      others.append(n)
  nodes = [c] + others
  nd, ed = tn.copy(nodes, conjugate=rng.bool())
  check_wf([nd[n] for n in nodes])
  _same_graph(nodes, [nd[n] for n in nodes], nd, ed, False, "copy")


@scenario("P08", quick=300, thorough=3000)
def reduced_density(rng):
  nodes = make_network(tn, rng, n_nodes=rng.int(1, 3), max_rank=3, dims=(1, 3),
                       p_bond=0.5, min_rank=1)
  # connected component only
  comp = [n for n in nodes if any(n is m for m in tn.reachable(nodes[0]))]
  out = dangling(comp)
  if not out:
    raise Skip()
  traced = rng.subset(out, rng.int(1, len(out)))
  keep = [e for e in out if all(e is not t for t in traced)]
  psi = value(comp, keep + traced)
  k = int(np.prod([e.dimension for e in keep])) if keep else 1
  mat = psi.reshape(k, -1)
  want = (mat @ mat.conj().T).reshape([e.dimension for e in keep] * 2)
  nd, ed = tn.network_operations.reduced_density(
      rng.choice([list, tuple, set, iter])(traced))
  both = comp + [nd[n] for n in comp]
  check_wf(both, "reduced_density")
  got = value(both, keep + [ed[e] for e in keep])
  same(got, want, "reduced_density")


@scenario("P08", quick=80, thorough=600)
def switch(rng):
  """switching the backend keeps values and connectivity"""
  nodes = make_network(tn, rng, n_nodes=rng.int(1, 3))
  out = dangling(nodes)
  ref = value(nodes, out)
  es = [[id(e) for e in n.edges] for n in nodes]
  tn.network_operations.switch_backend(nodes, "numpy")
  same(value(nodes, out), ref, "switch_backend value")
  require(es == [[id(e) for e in n.edges] for n in nodes], "switch_backend edges")


# ----------------------------------------------------------------- P09
def _iso(orig, loaded, msg, edge_names=True, by_name=False):
  require(len(orig) == len(loaded), f"{msg}: number of nodes")
  idx = {id(n): i for i, n in enumerate(orig)}
  lidx = {id(n): i for i, n in enumerate(loaded)}
  for n, m in zip(orig, loaded):
    require(type(n) is type(m), f"{msg}: node type {type(m)}")
    same(m.tensor, tonp(n.tensor), f"{msg}: tensor")
    require(tonp(m.tensor).dtype == tonp(n.tensor).dtype, f"{msg}: dtype")
    require(m.name == n.name, f"{msg}: node name {m.name!r} != {n.name!r}")
    require(list(m.axis_names) == list(n.axis_names), f"{msg}: axis names")
    require(len(m.edges) == len(n.edges), f"{msg}: rank")
  for n, m in zip(orig, loaded):
    for e, f in zip(n.edges, m.edges):
      ends = {(idx[id(x)], a) for x, a in ((e.node1, e.axis1), (e.node2, e.axis2))
              if x is not None and id(x) in idx}
      fends = {(lidx.get(id(x)), a)
               for x, a in ((f.node1, f.axis1), (f.node2, f.axis2))
               if x is not None}
      require(ends == fends, f"{msg}: edge joins {fends} instead of {ends}")
      if edge_names:
        require(f.name == e.name, f"{msg}: edge name {f.name!r} != {e.name!r}")


def _rename(rng, nodes):
  for i, n in enumerate(nodes):
    n.set_name(rng.choice(["x", "node0", "node1", "edge0", "ä"]) +
               (f"_{i}" if rng.bool() else ""))
  for e in dangling(nodes) + nondangling(nodes):
    if rng.bool(0.6):
      e.set_name(rng.choice(["edge1", "edge0", "foo", "__unnamed__", "e x"]))


@scenario("P09", quick=200, thorough=2000)
def hdf5(rng):
  nodes = make_network(tn, rng, n_nodes=rng.choice([1, 2, 3, 4, 12, 14]),
                       max_rank=3, dims=(1, 3), p_bond=0.7)
  if rng.bool(0.3):
    c = tn.CopyNode(rng.int(1, 3), 2, name="copy")
    nodes.append(c)
    for e in list(c.edges):
      cand = [x for x in dangling(nodes[:-1]) if x.dimension == 2]
      if cand and rng.bool():
        (e ^ cand[0]) if rng.bool() else (cand[0] ^ e)
  # distinct tensors identify nodes irrespective of the order of the result
  _rename(rng, nodes)
  for i, n in enumerate(nodes):
    n.set_name(f"{n.name}#{i}")
  snap = snapshot(nodes)
  with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "net.h5")
    tn.save_nodes(nodes, p)
    require(snapshot(nodes) == snap, "save_nodes changed the network it saved")
    loaded = tn.load_nodes(p)
  check_wf(loaded, "loaded")
  by = {n.name: n for n in loaded}
  require(set(by) == {n.name for n in nodes}, "load_nodes: node names")
  _iso(nodes, [by[n.name] for n in nodes], "hdf5")


@scenario("P09", quick=60, thorough=400)
def hdf5_refuse(rng):
  nodes = make_network(tn, rng, n_nodes=3, max_rank=3, p_bond=0.9, min_rank=1)
  sub = nodes[:2]
  ext = any(e.node2 is not None and
            not {id(e.node1), id(e.node2)} <= {id(n) for n in sub}
            for n in sub for e in n.edges)
  with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "net.h5")
    if ext:
      snap = snapshot(nodes)
      raises(ValueError, lambda: tn.save_nodes(sub, p),
             "saving part of a connected network")
      require(snapshot(nodes) == snap, "a refused save changed the network")
    raises(ValueError, lambda: tn.save_nodes(nodes + [nodes[0]], p),
           "saving a node twice")


@scenario("P09", quick=300, thorough=3000)
def json_roundtrip(rng):
  nodes = make_network(tn, rng, n_nodes=rng.choice([1, 2, 3, 4, 12]),
                       max_rank=3, dims=(1, 3), p_bond=0.7)
  _rename(rng, nodes)
  sub = rng.subset(nodes, rng.int(1, len(nodes)))
  ids = {id(n) for n in sub}
  alle = []
  for n in sub:
    for e in n.edges:
      if all(e is not x for x in alle):
        alle.append(e)
  binding = None
  if rng.bool(0.6) and alle:
    binding = {}
    for k in rng.subset(["in", "out", "7", "x y"]):
      if rng.bool():
        binding[k] = rng.choice(alle)
      else:
        binding[k] = rng.subset(alle, rng.int(1, len(alle)))
  snap = snapshot(nodes)
  s = tn.network_operations.nodes_to_json(
      sub, edge_binding=binding) if binding is not None else \
      tn.network_operations.nodes_to_json(sub)
  require(snapshot(nodes) == snap, "nodes_to_json changed the network")
  loaded, back = tn.network_operations.nodes_from_json(s)
  check_wf(loaded, "from json")
  _iso(sub, loaded, "json")
  pos = {}
  for n, m in zip(sub, loaded):
    for e, f in zip(n.edges, m.edges):
      pos[id(e)] = f
  want = {}
  for k, v in (binding or {}).items():
    want[k] = [v] if isinstance(v, tn.Edge) else list(v)
  require(set(back) == set(want), f"json: binding keys {set(back)}")
  for k in want:
    require([id(x) for x in back[k]] == [id(pos[id(e)]) for e in want[k]],
            f"json: binding {k!r} does not lead to the same edges")
