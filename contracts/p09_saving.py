"""P09: saving and loading round-trips.  h5py and the json text format are
replaced by their contract (what is written under a path is read back); tensor
payloads are opaque."""
import h5py
import numpy as np
import tensornetwork as tn
from tensornetwork import network_components as nc
from tensornetwork import network_operations as no
from tensornetwork import utils
from pyvc.contract import contract
from contracts.netlib import *
from contracts.p08_copy import snapshot, unchanged, isomorphic, build

O = "tensornetwork.network_operations:"
M = "tensornetwork.network_components:"
U = "tensornetwork.utils:"
H5 = ("an HDF5 file returns under each path what was written there, and lists "
      "keys in name order",)
SER = ("deserialize_tensor(serialize_tensor(t)) equals t (P18 checks the "
       "backends)",)
NETS = ["a", "aa", "aab", "abab", "ab bc", "ab ab", "abc bad", "aab bc", "a b",
        "ab bc cd", "ab bc ca", "aab bc c"]


class Data:

  def __init__(self, v):
    self.v = v

  def asstr(self, *a):
    return self

  def __getitem__(self, k):
    return self.v


class Group:

  def __init__(self):
    self.d = {}

  def create_group(self, name):
    if name in self.d:
      raise ValueError("Unable to create group (name already exists)")
    g = self.d[name] = Group()
    return g

  def create_dataset(self, name, dtype=None, data=None, **kw):
    if name in self.d:
      raise ValueError("Unable to create dataset (name already exists)")
    self.d[name] = Data(data)
    return self.d[name]

  def __contains__(self, k):
    return k in self.d

  def keys(self):
    return sorted(self.d)

  def __getitem__(self, k):
    g = self
    for part in k.split("/"):
      g = g.d[part]
    return g


def fake_h5(c):
  files = {}

  class File:

    def __init__(self, path, mode="r"):
      if mode == "w":
        files[path] = Group()
      self.root = files[path]

    def __enter__(self):
      return self.root

    def __exit__(self, *a):
      return False

  c.patch_obj(h5py, "File", File)


def rename(c, n):
  how = c.pick(["distinct", "same", "cross", "default"])
  if how == "default":
    return
  for i, x in enumerate(n.nodes):
    x.set_name({"distinct": f"x{i}", "same": "same",
                "cross": f"node{len(n.nodes) - 1 - i}"}[how])
  for i, l in enumerate(n.labels):
    n.edge[l].set_name({"distinct": f"w{i}", "same": "edge",
                        "cross": f"edge{len(n.labels) - 1 - i}"}[how])


@contract("P09", [U + "save_nodes", U + "load_nodes", M + "Node._save_node",
                  M + "Node._load_node", M + "AbstractNode._save_node",
                  M + "AbstractNode._load_node_data", M + "Edge._save_edge",
                  M + "Edge._load_edge", O + "reachable"],
          modes=("bounded",), replay=True, trusted=H5,
          note="all entries and dimensions; networks of up to three nodes "
          "(traces, parallel edges, disconnected parts), repeated names, both "
          "edge orientations")
def hdf5(c):
  fake_h5(c)
  n = build(c, c.pick(NETS), orient=True)
  rename(c, n)
  snap = snapshot(n.nodes)
  c.value(utils.save_nodes, n.nodes, "file")
  unchanged(c, "saving", snap)
  new = c.value(utils.load_nodes, "file")
  unchanged(c, "loading", snap)
  c.fact("loading gives as many nodes", len(new) == len(n.nodes))
  where = {id(e): (i, k) for i, x in enumerate(n.nodes)
           for k, e in reversed(list(enumerate(x.edges)))}
  isomorphic(c, "hdf5", n.nodes,
             lambda x: [new[i] for i, y in enumerate(n.nodes) if y is x][0],
             lambda e: new[where[id(e)][0]].edges[where[id(e)][1]], False)
  wf(c, "hdf5", new)
  c.cover()


@contract("P09", [U + "save_nodes"], modes=("bounded",), replay=True, trusted=H5,
          note="incomplete or repeated node lists")
def hdf5_refuses(c):
  fake_h5(c)
  n = build(c, "ab bc")
  snap = snapshot(n.nodes)
  o = c.call(utils.save_nodes, c.pick([n.nodes[:1], n.nodes[1:],
                                       n.nodes + n.nodes[:1]]), "file")
  c.fact("an incomplete or repeating node list is refused",
         not o.ok and isinstance(o.exc, ValueError), repr(o.exc))
  unchanged(c, "a refused save", snap)
  c.cover()


@contract("P09", [O + "nodes_to_json", O + "nodes_from_json",
                  O + "_build_serial_binding", M + "Node.to_serial_dict",
                  M + "Node.from_serial_dict", M + "Edge.to_serial_dict"],
          modes=("bounded",), replay=True, trusted=SER,
          note="all entries and dimensions; networks of up to three nodes, every "
          "chosen subset, edge bindings to one edge and to several")
def json_roundtrip(c):
  n = build(c, c.pick(NETS), orient=True)
  if c.pick(2):
    rename(c, n)
  idx = [i for i in range(len(n.nodes)) if c.pick(2) == 0]
  if not idx:
    return
  olds = [n.nodes[i] for i in idx]
  edges = [n.edge[l] for l in n.labels]
  kind = c.pick(["none", "single", "tuple", "both"])
  binding = {}
  if kind in ("single", "both"):
    binding["one"] = edges[-1]
  if kind in ("tuple", "both"):
    binding["all"] = tuple(edges)
  snap = snapshot(n.nodes)
  text = c.value(no.nodes_to_json, olds, binding or None)
  c.fact("json: a string is returned", isinstance(text, str))
  unchanged(c, "nodes_to_json", snap)
  new, got = c.value(no.nodes_from_json, text)
  unchanged(c, "nodes_from_json", snap)
  c.fact("json: as many nodes", len(new) == len(olds))
  where = {id(e): (i, k) for i, x in enumerate(olds)
           for k, e in reversed(list(enumerate(x.edges)))}
  eo = lambda e: new[where[id(e)][0]].edges[where[id(e)][1]]
  isomorphic(c, "json", olds,
             lambda x: [new[i] for i, y in enumerate(olds) if y is x][0], eo,
             False)
  wf(c, "json", new)
  want = {}
  for k, v in binding.items():
    es = [e for e in (v if isinstance(v, tuple) else [v]) if id(e) in where]
    if es:
      want[k] = [eo(e) for e in es]
  c.fact("json: bindings name the copies of the bound edges, in order",
         sorted(got) == sorted(want) and
         all(len(got[k]) == len(want[k]) and
             all(x is y for x, y in zip(got[k], want[k])) for k in want),
         str(sorted(got)))
  c.cover()
