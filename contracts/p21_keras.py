"""P21: the tensor-network layers compute the map their weights define.

The layers' own __init__, build, call and compute_output_shape are executed;
TensorFlow and Keras are replaced by their contracts: Layer.add_weight returns
an arbitrary tensor of the requested shape, vectorized_map applies a function
to every row (one arbitrary row stands for all), reshape keeps the entries in
row-major order, an activation is an arbitrary elementwise function and
nn.conv2d an arbitrary function of its arguments."""
import math
import sys
import types
import numpy as np
from pyvc.contract import contract
import tensornetwork as tn
from contracts.netlib import *
from contracts.p07_contractors import use_oracle, TRUST

# ---------------------------------------------------------------- the stubs
CUR = types.SimpleNamespace(c=None, weights=None)


class Layer:

  def __init__(self, **kwargs):
    self.layer_kwargs = kwargs

  def build(self, input_shape):
    self.built = True

  def add_weight(self, name=None, shape=None, initializer=None, regularizer=None,
                 trainable=True, **kw):
    w = CUR.c.tensor("w_" + str(name), list(shape))
    CUR.weights.append((name, tuple(shape), w, initializer, regularizer))
    return w

  def get_config(self):
    return dict(self.layer_kwargs)


def flat(t):
  return t.reshape((-1,))


class Rows:
  """A batch whose rows are all `row` (an arbitrary vector)."""

  def __init__(self, lead, row):
    self.lead, self.row = tuple(lead), row

  @property
  def d(self):
    return self.row.shape[-1]

  @property
  def shape(self):
    return self.lead + (self.d,)

  def reshape(self, shape):
    c, shape = CUR.c, list(shape)
    last, lead = shape[-1], shape[:-1]
    if not c.same_dim(last, self.d):
      raise ValueError("rows of another length")
    orig = CUR.lead
    if len(lead) == 1 and isinstance(lead[0], int) and lead[0] == -1:
      return Rows(("flat",) if len(orig) > 1 else orig, self.row)
    ok = len(lead) == len(orig) and all(
        (k == 0 and isinstance(a, int) and a == -1) or c.same_dim(a, b)
        for k, (a, b) in enumerate(zip(lead, orig)))
    if not ok:
      raise ValueError(f"batch shape {orig} reshaped to {lead}")
    return Rows(orig, self.row)


class Image:
  """An image batch: only passed to the convolution."""

  def __init__(self, shape):
    self.shape = tuple(shape)


class Convolved:

  def __init__(self, args, extra=()):
    self.args, self.extra = args, tuple(extra)

  def __add__(self, o):
    return Convolved(self.args, self.extra + (("add", o),))

  __iadd__ = __add__
  __radd__ = __add__


class Act:

  def __init__(self, name):
    self.name = name

  def __call__(self, x):
    if self.name in (None, "linear"):
      return x
    if isinstance(x, Rows):
      return Rows(x.lead, self.on(flat(x.row)))
    if isinstance(x, Convolved):
      return Convolved(x.args, x.extra + (("act", self.name),))
    return self.on(x)

  def on(self, x):
    if CUR.c.concrete:
      return np.tanh(x)
    from pyvc import nf
    return nf.T.atom(nf.opaque_name(str(self.name), flat(x)), list(x.shape))


def tf_reshape(x, shape):
  if isinstance(x, Rows):
    return x.reshape(shape)
  return x.reshape(tuple(shape))


def vectorized_map(f, rows):
  if not isinstance(rows, Rows) or len(rows.lead) != 1:
    raise ValueError("vectorized_map over something that is not a list of rows")
  return Rows(rows.lead, flat(f(rows.row)))


def conv2d(inputs, filters, strides, padding, data_format="NHWC", dilations=None,
           name=None):
  return Convolved(dict(inputs=inputs, filters=filters,
                        strides=tuple(strides) if not isinstance(strides, int)
                        else (strides, strides), padding=padding,
                        data_format=data_format, dilations=dilations))


def normalize_tuple(v, n, name):
  return (v,) * n if isinstance(v, int) else tuple(v)


def get(x):
  return x


def conv_output_length(n, k, padding, stride, dilation=1):
  return ("length", n, k, padding, stride, dilation)


def _module(name, **kw):
  m = types.ModuleType(name)
  m.__dict__.update(kw)
  m.__path__ = []
  return m


def _stubs():
  same_fn = lambda x: x
  acts = _module("activations", get=Act, serialize=lambda a: a.name)
  inits = _module("initializers", get=get, serialize=get)
  regs = _module("regularizers", get=get, serialize=get)
  layers = _module("tensorflow.keras.layers", Layer=Layer)
  utils = _module("tensorflow.keras.utils",
                  register_keras_serializable=lambda package=None: same_fn)
  keras = _module("tensorflow.keras", layers=layers, activations=acts,
                  initializers=inits, regularizers=regs, utils=utils)
  conv = _module("conv_utils", normalize_tuple=normalize_tuple,
                 conv_output_length=conv_output_length)
  putils = _module("tensorflow.python.keras.utils", conv_utils=conv)
  pkeras = _module("tensorflow.python.keras", utils=putils)
  python = _module("tensorflow.python", keras=pkeras)
  nn = _module("nn", conv2d=conv2d)
  tf = _module("tensorflow", keras=keras, python=python, nn=nn, Tensor=object,
               reshape=tf_reshape, vectorized_map=vectorized_map,
               map_fn=vectorized_map)
  return {m.__name__: m for m in
          (tf, keras, layers, utils, python, pkeras, putils)}


def _import():
  stubs = _stubs()
  old = {k: v for k, v in sys.modules.items()
         if k == "tensorflow" or k.startswith("tensorflow.")}
  for k in old:
    del sys.modules[k]
  sys.modules.update(stubs)
  try:
    from tensornetwork.tn_keras import (dense, mpo, entangler, condenser,
                                        expander, conv2d_mpo)
  finally:
    for k in stubs:
      sys.modules.pop(k, None)
    sys.modules.update(old)
  return dense, mpo, entangler, condenser, expander, conv2d_mpo


dense, mpo, entangler, condenser, expander, conv2d_mpo = _import()
K = "tensornetwork.tn_keras."
TRUST21 = ("tensorflow: reshape keeps row-major order, vectorized_map applies "
           "the function to every row, nn.conv2d is the documented convolution",
           "keras: Layer.add_weight creates a weight of the requested shape, "
           "activations.get/initializers.get return what was asked for",
           "float powers: the k-th root of an exact k-th power, rounded, is "
           "the base")


def prepare(c, module):
  CUR.c, CUR.weights = c, []
  be = c.backend()
  f = lambda x, name=None, axis_names=None, backend=None: tn.Node(
      x, name=name, axis_names=axis_names, backend=be)

  class Shim:
    Node = staticmethod(f)

    def __getattr__(self, a):
      return getattr(tn, a)

  c.patch_obj(module, "tn", Shim())


def power(c, d, k):
  """d**k, remembered as a perfect power of d."""
  if c.concrete:
    return d ** k
  from pyvc import nf
  p = d ** k if k > 1 else d
  st = nf.S()
  if not hasattr(st, "powers"):
    st.powers = []
  st.powers.append((p, k, d))
  return p


def batch(c, row):
  lead = c.pick([1, 2, 3])
  CUR.lead = tuple(c.dims(lead))
  return Rows(CUR.lead, row)


def weights(c, shapes, bias_shape):
  """The weights were created with the documented shapes, bias last."""
  got = [w[1] for w in CUR.weights]
  want = list(shapes) + ([bias_shape] if bias_shape else [])
  ok = len(got) == len(want) and all(
      len(a) == len(b) and all(c.same_dim(x, y) for x, y in zip(a, b))
      for a, b in zip(got, want))
  c.fact("the parameters have the documented shapes", ok, f"{got} want {want}")
  return ok


def check(c, layer, x, shapes, odim, value, opts):
  """value(weight tensors) is the flat linear image of the row."""
  keep = x.row
  c.value(layer.build, x.shape)
  if not weights(c, shapes, (odim,) if opts["use_bias"] else None):
    return
  ws = [w[2] for w in CUR.weights]
  out = c.value(layer.call, x)
  c.fact("the result is a batch of the input's batch shape", isinstance(
      out, Rows) and len(out.lead) == len(CUR.lead) and
         all(a is b or a == b for a, b in zip(out.lead, CUR.lead)), f"{out}")
  want = flat(value(ws[:len(shapes)]))
  if opts["use_bias"]:
    want = c.plus(want, ws[-1])
  want = Act(opts["activation"])(Rows(CUR.lead, want)).row
  c.same("the result is the activation of the linear map plus the bias",
         flat(out.row), flat(want))
  c.fact("the input is unchanged", x.row is keep, "")
  ann = c.value(layer.compute_output_shape, x.shape)
  act = CUR.lead + (out.row.shape[-1],)
  c.fact("the announced output shape is the actual one", len(ann) == len(act) and
         all(c.same_dim(a, b) for a, b in zip(ann, act)), f"{ann} {act}")
  c.cover()


def options(c):
  k = c.pick(3 if not c.thorough else 4)
  return [dict(use_bias=True, activation="act"),
          dict(use_bias=False, activation=None),
          dict(use_bias=True, activation=None),
          dict(use_bias=False, activation="act")][k]


def targets(module, cls, extra=()):
  return [f"{K}{module}:{cls}.{m}" for m in
          ("__init__", "build", "call", "compute_output_shape")] + list(extra)


@contract("P21", targets("dense", "DenseDecomp"), modes=("bounded",),
          replay=True, trusted=TRUST21,
          note="all weights, inputs and dimensions; batch shapes of 1-3 axes")
def decomp(c):
  prepare(c, dense)
  i, o, k = c.dims(3)
  opts = options(c)
  layer = c.value(dense.DenseDecomp, o, decomp_size=k, **opts)
  x = batch(c, c.tensor("x", [i]))
  check(c, layer, x, [(i, k), (k, o)], o,
        lambda ws: c.einsum([[0], [0, 1], [1, 2]], [2], [x.row] + ws), opts)


def mpo_labels(n):
  labs = []
  for q in range(n):
    if q == 0:
      labs.append([0, 2 * n, n])
    elif q == n - 1:
      labs.append([q, 2 * n + q - 1, n + q])
    else:
      labs.append([q, 2 * n + q - 1, 2 * n + q, n + q])
  return labs


@contract("P21", targets("mpo", "DenseMPO"), modes=("bounded",), replay=True,
          trusted=TRUST21, note="all weights, inputs, leg and bond dimensions; "
          "3 to 5 nodes; batch shapes of 1-3 axes")
def dense_mpo(c):
  prepare(c, mpo)
  n = c.pick([3, 4, 5] if c.thorough else [3, 4])
  a, b, d = c.dims(3)
  opts = options(c)
  odim = power(c, b, n)
  power(c, a, n)
  layer = c.value(mpo.DenseMPO, odim, num_nodes=n, bond_dim=d, **opts)
  xs = c.tensor("x", [a] * n)
  x = batch(c, flat(xs))
  shapes = [(a, d, b)] + [(a, d, d, b)] * (n - 2) + [(a, d, b)]
  check(c, layer, x, shapes, odim,
        lambda ws: c.einsum([list(range(n))] + mpo_labels(n),
                            [n + q for q in range(n)], [xs] + ws), opts)


@contract("P21", targets("entangler", "DenseEntangler"), modes=("bounded",),
          replay=True, trusted=TRUST21, note="all weights, inputs and leg "
          "dimensions (smaller, equal or larger output); 2-4 legs, 1-3 levels")
def dense_entangler(c):
  prepare(c, entangler)
  legs, levels = c.pick([(2, 1), (3, 1), (2, 2), (3, 2), (4, 1)] + (
      [(2, 3), (3, 3), (4, 2)] if c.thorough else []))
  a = c.dims(1)[0]
  b = a if c.pick(2) else c.dims(1)[0]
  opts = options(c)
  idim, odim = power(c, a, legs), power(c, b, legs)
  layer = c.value(entangler.DenseEntangler, odim, num_legs=legs,
                  num_levels=levels, **opts)
  xs = c.tensor("x", [a] * legs)
  x = batch(c, flat(xs))
  m = a if c.same_dim(a, b) or a < b else b
  cur, shapes = [a] * legs, []
  total = levels * (legs - 1)
  for q in range(total):
    s, t = q % legs, (q + 1) % legs
    e = b if q >= (levels - 1) * (legs - 1) else m
    f = b if q == total - 1 else m
    shapes.append((cur[s], cur[t], e, f))
    cur[s], cur[t] = e, f

  def value(ws):
    # gate q acts on legs q, q+1 (cyclically); its two outputs come last
    at, k = list(range(legs)), legs
    labs = [list(at)]
    order = list(range(legs))
    for q in range(total):
      s, t = q % legs, (q + 1) % legs
      labs.append([at[s], at[t], k, k + 1])
      at[s], at[t] = k, k + 1
      k += 2
      order = [z for z in order if z not in (s, t)] + [s, t]
    return c.einsum(labs, [at[z] for z in order], [xs] + ws)

  check(c, layer, x, shapes, odim, value, opts)


@contract("P21", targets("condenser", "DenseCondenser"), modes=("bounded",),
          replay=True, trusted=TRUST21, note="all weights, inputs and "
          "dimensions; 1-3 nodes")
def dense_condenser(c):
  prepare(c, condenser)
  n = c.pick([1, 2, 3])
  e, o = c.dims(2)
  opts = options(c)
  layer = c.value(condenser.DenseCondenser, exp_base=e, num_nodes=n, **opts)
  xs = c.tensor("x", [e] * n + [o])
  x = batch(c, flat(xs))

  def value(ws):
    labs = [list(range(n)) + [n]] + [[n + q, n - 1 - q, n + q + 1]
                                     for q in range(n)]
    return c.einsum(labs, [2 * n], [xs] + ws)

  check(c, layer, x, [(o, e, o)] * n, o, value, opts)


@contract("P21", targets("expander", "DenseExpander"), modes=("bounded",),
          replay=True, trusted=TRUST21, note="all weights, inputs and "
          "dimensions; 1-3 nodes")
def dense_expander(c):
  prepare(c, expander)
  n = c.pick([1, 2, 3])
  e, i = c.dims(2)
  opts = options(c)
  layer = c.value(expander.DenseExpander, exp_base=e, num_nodes=n, **opts)
  xs = c.tensor("x", [i])
  x = batch(c, xs)

  def value(ws):
    labs = [[100]] + [[100 + q, q, 101 + q] for q in range(n)]
    return c.einsum(labs, list(range(n)) + [100 + n], [xs] + ws)

  odim = i
  for _ in range(n):
    odim = odim * e
  check(c, layer, x, [(i, e, i)] * n, odim, value, opts)


@contract("P21", targets("conv2d_mpo", "Conv2DMPO"), modes=("bounded",),
          replay=True, trusted=TRUST21 + TRUST, note="all weights, inputs, "
          "kernel sizes, strides, leg and bond dimensions; 2-4 nodes, both "
          "data formats and paddings; the convolution itself is trusted")
def conv(c):
  prepare(c, conv2d_mpo)
  use_oracle(c)
  n = c.pick([2, 3, 4] if c.thorough else [2, 3])
  a, b, d, kh, kw, s0, s1, l0, l1, bs, h, w = c.dims(12)
  opts = options(c)
  first = c.pick(2)
  padding = c.pick(["same", "valid"])
  idim, odim = power(c, a, n), power(c, b, n)
  layer = c.value(conv2d_mpo.Conv2DMPO, odim, (kh, kw), num_nodes=n, bond_dim=d,
                  strides=(s0, s1), dilation_rate=(l0, l1), padding=padding,
                  data_format="channels_first" if first else "channels_last",
                  kernel_regularizer="kr", bias_regularizer="br", **opts)
  shape = (bs, idim, h, w) if first else (bs, h, w, idim)
  x = Image(shape)
  c.value(layer.build, shape)
  shapes = [(a, kh, d, b)] + [(a, d, d, b)] * (n - 2) + [(a, d, kw, b)]
  if not weights(c, shapes, (odim,) if opts["use_bias"] else None):
    return
  ws = [z[2] for z in CUR.weights]
  out = c.value(layer.call, x)
  labs = []
  for q in range(n):
    labs.append([q, 50 if q == 0 else 2 * n + q - 1,
                 51 if q == n - 1 else 2 * n + q, n + q])
  k = c.einsum(labs, [50, 51] + list(range(n)) + [n + q for q in range(n)],
               ws[:n]).reshape((kh, kw, idim, odim))
  c.fact("the result is a convolution of the input", isinstance(out, Convolved)
         and out.args["inputs"] is x, f"{out}")
  c.same("the kernel is the contracted operator", out.args["filters"], k)
  g = out.args
  c.fact("strides, dilation, padding and layout are passed on",
         all(c.same_dim(p, q) for p, q in zip(g["strides"], (s0, s1))) and
         all(c.same_dim(p, q) for p, q in zip(g["dilations"], (l0, l1))) and
         g["padding"] == padding.upper() and
         g["data_format"] == ("NCHW" if first else "NHWC"), f"{g}")
  kinds = [z[0] for z in out.extra]
  want = (["add"] if opts["use_bias"] else []) + (
      ["act"] if opts["activation"] else [])
  c.fact("bias, then activation", kinds == want, f"{kinds}")
  if opts["use_bias"] and kinds == want:
    t = out.extra[0][1]
    # broadcast against the result's axes: only the channel axis is long
    axes = [None] * (4 - len(t.shape)) + list(t.shape)
    ch = 1 if first else 3
    ok = all((q == ch and c.same_dim(v, odim)) or
             (q != ch and (v is None or c.same_dim(v, 1)))
             for q, v in enumerate(axes))
    c.fact("the bias is added along the channel axis", ok, f"{t.shape}")
    c.same("the bias is the layer's bias", flat(t), ws[-1])
  ann = c.value(layer.compute_output_shape, shape)
  sp = [conv_output_length(h, kh, padding, s0, l0),
        conv_output_length(w, kw, padding, s1, l1)]
  exp = [bs, odim] + sp if first else [bs] + sp + [odim]
  same = len(ann) == 4
  for p, q in zip(ann, exp):
    if isinstance(q, tuple):
      same = same and isinstance(p, tuple) and all(
          u == v if isinstance(u, str) else c.same_dim(u, v)
          for u, v in zip(p, q))
    else:
      same = same and not isinstance(p, tuple) and c.same_dim(p, q)
  c.fact("the announced output shape is the convolution's", bool(same),
         f"{ann} {exp}")
  c.cover()
