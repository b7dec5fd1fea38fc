"""Executable contracts: P21 (tensor-network Keras layers) against independent
numpy contractions of the layers' own weights."""
import os
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
import numpy as np
import tensorflow as tf
from tensornetwork.tn_keras.layers import (
    DenseDecomp, DenseMPO, DenseCondenser, DenseExpander, DenseEntangler)
from tensornetwork.tn_keras.conv2d_mpo import Conv2DMPO
from bounded.core import scenario, require, same, raises, Skip

ACTS = {
    None: lambda z: z,
    "linear": lambda z: z,
    "relu": lambda z: np.maximum(z, 0),
    "tanh": np.tanh,
    "sigmoid": lambda z: 1 / (1 + np.exp(-z)),
    "softplus": lambda z: np.log1p(np.exp(z)),
}


def near(got, want, what):
  got = np.asarray(got)
  want = np.asarray(want)
  require(tuple(got.shape) == tuple(want.shape),
          f"{what}: shape {tuple(got.shape)} instead of {tuple(want.shape)}")
  scale = max(1.0, float(np.abs(want).max()) if want.size else 1.0)
  err = float(np.abs(got - want).max()) if want.size else 0.0
  require(err <= 2e-4 * scale, f"{what}: value differs by {err} (scale {scale})")


def values(rng, layer):
  """Give every weight (the bias included) known generic values."""
  ws = [rng.array(tuple(w.shape), "float32") for w in layer.get_weights()]
  layer.set_weights(ws)
  return ws


def batch(rng, d):
  lead = rng.choice([(1,), (3,), (2, 2), (2, 1, 3), (1, 1)])
  return rng.array(tuple(lead) + (d,), "float32")


def options(rng):
  return dict(use_bias=rng.bool(), activation=rng.choice(list(ACTS)))


def drive(rng, make, x, shapes, value, opts, odim):
  """build, weights, value, announced shape, a second call, config"""
  layer = make()
  if rng.bool():
    layer.build((None,) + x.shape[1:])
  else:
    layer(np.zeros_like(x))
  got = [tuple(w.shape) for w in layer.get_weights()]
  want = list(map(tuple, shapes)) + ([(odim,)] if opts["use_bias"] else [])
  require(got == want, f"parameter shapes {got} instead of {want}")
  ws = values(rng, layer)
  k = len(shapes)
  lin = value(ws[:k], x.astype(np.float64))
  if opts["use_bias"]:
    lin = lin + ws[k]
  want = ACTS[opts["activation"]](lin)
  keep = x.copy()
  out = layer(x)
  near(out, want, "layer output")
  require(np.array_equal(x, keep), "the input was changed")
  announced = tuple(layer.compute_output_shape(x.shape))
  require(announced == tuple(want.shape),
          f"announced output shape {announced}, actual {tuple(want.shape)}")
  near(layer(x[:1]), want[:1], "output of the first row alone")
  for w, v in zip(layer.get_weights(), ws):
    require(np.array_equal(w, v), "calling the layer changed a weight")
  again = type(layer).from_config(layer.get_config())
  again(x)
  again.set_weights(ws)
  near(again(x), want, "layer rebuilt from its configuration")
  return layer, ws, want


def rows(f, x):
  flat = x.reshape(-1, x.shape[-1])
  out = np.array([np.asarray(f(v)).reshape(-1) for v in flat])
  return out.reshape(x.shape[:-1] + (out.shape[-1],))


def network(x, ins, ws, labels, out):
  return np.einsum(x, ins, *[z for p in zip(ws, labels) for z in p], out)


@scenario("P21", quick=60, thorough=600, group="tf")
def decomp(rng):
  i, o, k = rng.int(1, 5), rng.int(1, 5), rng.int(1, 4)
  opts = options(rng)
  rng.note("decomp", i, o, k, opts)
  x = batch(rng, i)
  drive(rng, lambda: DenseDecomp(o, decomp_size=k, **opts), x,
        [(i, k), (k, o)], lambda ws, z: z @ ws[0] @ ws[1], opts, o)


def mpo_value(ws, v, n, a):
  """x_{i0..} W0[i0,b,o0] W1[i1,b,b',o1] ... -> (o0,o1,..)"""
  x = v.reshape((a,) * n)
  labs = []
  for q in range(n):
    if q == 0:
      labs.append([0, 2 * n, n])
    elif q == n - 1:
      labs.append([q, 2 * n + q - 1, n + q])
    else:
      labs.append([q, 2 * n + q - 1, 2 * n + q, n + q])
  return network(x, list(range(n)), ws, labs, [n + q for q in range(n)])


@scenario("P21", quick=60, thorough=600, group="tf")
def mpo(rng):
  n = rng.int(3, 4)
  a, b, d = rng.int(1, 3), rng.int(1, 3), rng.int(1, 3)
  opts = options(rng)
  rng.note("mpo", n, a, b, d, opts)
  x = batch(rng, a ** n)
  shapes = [(a, d, b)] + [(a, d, d, b)] * (n - 2) + [(a, d, b)]
  drive(rng, lambda: DenseMPO(b ** n, num_nodes=n, bond_dim=d, **opts), x,
        shapes, lambda ws, z: rows(lambda v: mpo_value(ws, v, n, a), z), opts,
        b ** n)


@scenario("P21", quick=80, thorough=400, group="tf")
def roots(rng):
  """the leg dimensions are the exact integer roots, for every base"""
  n = rng.int(3, 6)
  a = rng.int(1, {3: 40, 4: 16, 5: 8, 6: 5}[n])
  b = rng.int(1, {3: 40, 4: 16, 5: 8, 6: 5}[n])
  d = rng.int(1, 2)
  conv = rng.bool()
  rng.note("roots", n, a, b, d, conv)
  if conv:
    layer = Conv2DMPO(b ** n, 1, num_nodes=n, bond_dim=d, use_bias=False)
    layer.build((None, 2, 2, a ** n))
    want = [(a, 1, d, b)] + [(a, d, d, b)] * (n - 2) + [(a, d, 1, b)]
  else:
    layer = DenseMPO(b ** n, num_nodes=n, bond_dim=d, use_bias=False)
    layer.build((None, a ** n))
    want = [(a, d, b)] + [(a, d, d, b)] * (n - 2) + [(a, d, b)]
  got = [tuple(w.shape) for w in layer.get_weights()]
  require(got == want, f"parameter shapes {got} instead of {want}")
  if not conv and a ** n <= 4000 and b ** n <= 4000:
    out = layer(np.ones((1, a ** n), "float32"))
    require(tuple(out.shape) == (1, b ** n), f"output shape {out.shape}")


@scenario("P21", quick=60, thorough=600, group="tf")
def condenser(rng):
  e, n, o = rng.int(1, 3), rng.int(1, 3), rng.int(1, 3)
  opts = options(rng)
  rng.note("condenser", e, n, o, opts)
  x = batch(rng, o * e ** n)

  def value(ws, v):
    y = v.reshape((e,) * n + (o,))
    for w in ws:
      y = np.einsum("...ea,aeb->...b", y, w)
    return y

  drive(rng, lambda: DenseCondenser(exp_base=e, num_nodes=n, **opts), x,
        [(o, e, o)] * n, lambda ws, z: rows(lambda v: value(ws, v), z), opts, o)


@scenario("P21", quick=60, thorough=600, group="tf")
def expander(rng):
  e, n, i = rng.int(1, 3), rng.int(1, 3), rng.int(1, 3)
  opts = options(rng)
  rng.note("expander", e, n, i, opts)
  x = batch(rng, i)

  def value(ws, v):
    y = v
    for w in ws:
      y = np.einsum("...a,aeb->...eb", y, w)
    return y

  drive(rng, lambda: DenseExpander(exp_base=e, num_nodes=n, **opts), x,
        [(i, e, i)] * n, lambda ws, z: rows(lambda v: value(ws, v), z), opts,
        i * e ** n)


def staircase(ws, v, legs, a):
  """Gate q acts on legs q and q+1 (cyclically); the two new legs go last."""
  y = v.reshape((a,) * legs)
  order = list(range(legs))
  for q, w in enumerate(ws):
    s, t = q % legs, (q + 1) % legs
    ps, pt = order.index(s), order.index(t)
    y = np.tensordot(y, w, ([ps, pt], [0, 1]))
    order = [z for z in order if z not in (s, t)] + [s, t]
  return y


@scenario("P21", quick=80, thorough=900, group="tf")
def entangler(rng):
  legs, levels = rng.int(2, 4), rng.int(1, 3)
  a, b = rng.int(1, 3), rng.int(1, 3)
  if legs == 4:
    a, b = min(a, 2), min(b, 2)
  opts = options(rng)
  rng.note("entangler", legs, levels, a, b, opts)
  x = batch(rng, a ** legs)
  m = min(a, b)
  cur = [a] * legs
  shapes = []
  for q in range(levels * (legs - 1)):
    last = q >= (levels - 1) * (legs - 1)
    s, t = q % legs, (q + 1) % legs
    c = b if last else m
    d = b if q == levels * (legs - 1) - 1 else m
    shapes.append((cur[s], cur[t], c, d))
    cur[s], cur[t] = c, d
  drive(rng, lambda: DenseEntangler(b ** legs, num_legs=legs, num_levels=levels,
                                    **opts), x, shapes,
        lambda ws, z: rows(lambda v: staircase(ws, v, legs, a), z), opts,
        b ** legs)


def conv2d(x, k, stride, dil, padding):
  """direct definition of a strided, dilated convolution (NHWC)"""
  kh, kw = k.shape[:2]
  size = [(kh - 1) * dil[0] + 1, (kw - 1) * dil[1] + 1]
  dims = x.shape[1:3]
  pads = [(0, 0), (0, 0)]
  if padding == "same":
    out = [-(-dims[q] // stride[q]) for q in range(2)]
    for q in range(2):
      p = max((out[q] - 1) * stride[q] + size[q] - dims[q], 0)
      pads[q] = (p // 2, p - p // 2)
  else:
    out = [(dims[q] - size[q]) // stride[q] + 1 for q in range(2)]
  x = np.pad(x, [(0, 0), pads[0], pads[1], (0, 0)])
  y = np.zeros((x.shape[0], out[0], out[1], k.shape[3]))
  for i in range(out[0]):
    for j in range(out[1]):
      for p in range(kh):
        for q in range(kw):
          y[:, i, j] += x[:, i * stride[0] + p * dil[0],
                          j * stride[1] + q * dil[1]] @ k[p, q]
  return y


@scenario("P21", quick=80, thorough=700, group="tf")
def conv(rng):
  n = rng.int(2, 3)
  a, b, d = rng.int(1, 2), rng.int(1, 2), rng.int(1, 3)
  kh, kw = rng.int(1, 3), rng.int(1, 3)
  stride, dil = (1, 1), (1, 1)
  w = rng.int(0, 2)
  if w == 1:
    s = rng.int(1, 2)
    stride = (s, s)
  elif w == 2:
    dil = (rng.int(1, 2), rng.int(1, 2))
  padding = rng.choice(["same", "valid"])
  first = rng.bool() and stride == (1, 1) and dil == (1, 1)
  opts = options(rng)
  rng.note("conv", n, a, b, d, kh, kw, stride, dil, padding, first, opts)
  x = rng.array((rng.int(1, 2), rng.int(5, 7), rng.int(5, 7), a ** n), "float32")
  shapes = [(a, kh, d, b)] + [(a, d, d, b)] * (n - 2) + [(a, d, kw, b)]

  def kernel(ws):
    labs = []
    for q in range(n):
      l = 100 if q == 0 else 2 * n + q - 1
      r = 101 if q == n - 1 else 2 * n + q
      labs.append([q, l, r, n + q])
    ren = {100: 50, 101: 51}
    labs = [[ren.get(z, z) for z in l] for l in labs]
    k = np.einsum(*[z for p in zip(ws, labs) for z in p],
                  [50, 51] + list(range(n)) + [n + q for q in range(n)])
    return k.reshape(kh, kw, a ** n, b ** n)

  def value(ws, z):
    if first:
      z = z.transpose(0, 2, 3, 1)
    y = conv2d(z, kernel(ws), stride, dil, padding)
    return y

  layer = Conv2DMPO(b ** n, rng.choice([(kh, kw), [kh, kw]]), num_nodes=n,
                    bond_dim=d, strides=stride if rng.bool() else stride,
                    padding=padding, dilation_rate=dil,
                    data_format="channels_first" if first else "channels_last",
                    **opts)
  xin = np.ascontiguousarray(x.transpose(0, 3, 1, 2)) if first else x
  layer(np.zeros_like(xin))
  got = [tuple(w.shape) for w in layer.get_weights()]
  want = shapes + ([(b ** n,)] if opts["use_bias"] else [])
  require(got == want, f"parameter shapes {got} instead of {want}")
  ws = values(rng, layer)
  y = value(ws[:n], xin.astype(np.float64))
  if opts["use_bias"]:
    y = y + ws[n]
  y = ACTS[opts["activation"]](y)
  if first:
    y = y.transpose(0, 3, 1, 2)
  near(layer(xin), y, "layer output")
  announced = tuple(layer.compute_output_shape(xin.shape))
  require(announced == y.shape, f"announced shape {announced}, actual {y.shape}")
  for p, q in zip(layer.get_weights(), ws):
    require(np.array_equal(p, q), "calling the layer changed a weight")
  again = Conv2DMPO.from_config(layer.get_config())
  again(xin)
  again.set_weights(ws)
  near(again(xin), y, "layer rebuilt from its configuration")


@scenario("P21", quick=15, thorough=100, group="tf")
def model(rng):
  """layers composed in a model, and a graph-mode (traced) call"""
  a = rng.int(1, 2)
  o1 = DenseExpander(exp_base=2, num_nodes=2, activation=None)
  o2 = DenseEntangler(a ** 0 * (4 * a if a == 1 else 8), num_legs=2 if a == 1
                      else 3, num_levels=rng.int(1, 2))
  o3 = DenseCondenser(exp_base=2, num_nodes=rng.int(1, 2), activation="relu")
  rng.note("model", a, o2.num_legs, o2.num_levels, o3.num_nodes)
  x = rng.array((3, a), "float32")
  y1 = o1(x)
  y2 = o2(y1)
  y3 = o3(y2)
  seq = tf.keras.Sequential([tf.keras.Input((a,)), o1, o2, o3])
  near(seq(x), np.asarray(y3), "sequential model")
  f = tf.function(lambda z: o3(o2(o1(z))))
  near(f(tf.constant(x)), np.asarray(y3), "traced call")
  with tf.GradientTape() as tape:
    s = tf.reduce_sum(o2(o1(x)))
  gs = tape.gradient(s, o1.trainable_weights + o2.trainable_weights)
  require(all(g is not None for g in gs), "a weight receives no gradient")


@scenario("P21", quick=25, thorough=100, group="tf")
def refusal(rng):
  k = rng.int(0, 8)
  rng.note("refusal", k)
  bad = (AssertionError, ValueError)
  one = np.ones((1, 8), "float32")
  if k == 0:
    raises(bad, lambda: DenseMPO(8, num_nodes=rng.int(0, 2), bond_dim=2),
           "fewer than three nodes")
  elif k == 1:
    raises(bad, lambda: DenseMPO(8, num_nodes=3, bond_dim=2)(
        np.ones((1, rng.choice([2, 7, 9, 16])), "float32")), "imperfect input root")
  elif k == 2:
    raises(bad, lambda: DenseMPO(rng.choice([2, 7, 9, 16]), num_nodes=3,
                                 bond_dim=2)(one), "imperfect output root")
  elif k == 3:
    raises(bad, lambda: DenseEntangler(8, num_legs=1, num_levels=1), "one leg")
  elif k == 4:
    raises(bad, lambda: DenseEntangler(8, num_legs=3, num_levels=0), "no level")
  elif k == 5:
    raises(bad, lambda: DenseEntangler(rng.choice([4, 9]), num_legs=3,
                                       num_levels=1)(one), "imperfect root")
  elif k == 6:
    raises(bad, lambda: Conv2DMPO(4, 3, num_nodes=1, bond_dim=2), "one node")
  elif k == 7:
    raises(bad, lambda: Conv2DMPO(4, 3, num_nodes=2, bond_dim=2, padding="full"),
           "unknown padding")
  else:
    raises(bad, lambda: Conv2DMPO(4, 3, num_nodes=2, bond_dim=2,
                                  data_format="NHWC"), "unknown data format")
