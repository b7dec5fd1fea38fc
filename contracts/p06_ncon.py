"""P06: ncon is the labelled Einstein sum."""
import itertools
import tensornetwork as tn
from tensornetwork import ncon_interface as ni
from pyvc.contract import contract

M = "tensornetwork.ncon_interface:"
FUNS = [M + f for f in ("ncon", "_jittable_ncon", "_check_network",
                        "_canonicalize_network_structure", "_partial_trace",
                        "_batch_cont", "_batch_diagonal", "label_intersection",
                        "_get_cont_out_labels")]


def partitions(n, k=0):
  """Restricted growth strings: which leg carries which label."""

  def rec(i, used):
    if i == n:
      yield []
      return
    for b in range(used + 1):
      for r in rec(i + 1, max(used, b + 1)):
        yield [b] + r

  return rec(0, 0)


def structures(ranks, maxlab=4, batch=True):
  n = sum(ranks)
  for p in partitions(n):
    m = max(p) + 1 if p else 0
    if m > maxlab:
      continue
    for signs in itertools.product([0, 1], repeat=m):
      cnt = [p.count(b) for b in range(m)]
      if not batch and any(c > 2 or (c == 2 and s) for c, s in zip(cnt, signs)):
        continue
      lists, i = [], 0
      for r in ranks:
        lists.append(p[i:i + r])
        i += r
      yield lists, signs


INTS = [7, 3, 12, 5, 21, 2]
STRS = ["b", "9", "a", "Z", "10", "c"]


def names(style, signs):
  out = []
  for k, s in enumerate(signs):
    if style == "int" or (style == "mixed" and k % 2 == 0):
      out.append(-INTS[k] if s else INTS[k])
    else:
      out.append("-" + STRS[k] if s else STRS[k])
  return out


def body(c, ranks, batch, styles, maxlab):
  lists, signs = c.pick(list(structures(ranks, maxlab, batch)))
  m = len(signs)
  nm = names(c.pick(styles), signs)
  dims = c.dims(m)
  ts = [c.tensor(f"t{i}", [dims[b] for b in ls]) for i, ls in enumerate(lists)]
  struct = [[nm[b] for b in ls] for ls in lists]
  closed = [nm[b] for b in range(m) if not signs[b]]
  outs = [nm[b] for b in range(m) if signs[b]]
  default = sorted([x for x in outs if not isinstance(x, str)],
                   reverse=True) + sorted([x for x in outs
                                           if isinstance(x, str)])
  con = None
  if closed:
    k = c.pick([0, 1, 2])
    con = [None, sorted(closed, key=str), sorted(closed, key=str)[::-1]][k]
  out = None
  if len(outs) > 1 and c.pick(2):
    out = default[1:] + default[:1]
  wrapped = c.pick(2) if styles[0] == "int" and con is None else 0
  be = c.backend()
  give = [tn.Tensor(t, backend=be) for t in ts] if wrapped else list(ts)
  given = [list(x) for x in struct]
  o = c.call(ni.ncon, give, struct, con_order=con, out_order=out, backend=be)
  hasbatch = any(sum(ls.count(b) for ls in lists) > 2 for b in range(m)
                 if not signs[b])
  if not o.ok:
    c.fact("a valid structure is accepted", hasbatch and isinstance(
        o.exc, ValueError) and "infinite loop" in str(o.exc),
           f"{struct} {con} {out}: {o.exc!r}")
    return
  r = o.value
  if wrapped:
    c.fact("Tensor objects give a Tensor", isinstance(r, tn.Tensor))
    r = r.array
  inv = {x: b for b, x in enumerate(nm)}
  want = c.einsum(lists, [inv[x] for x in (out or default)], ts)
  c.same("ncon is the labelled sum in the documented order", r, want)
  c.fact("the caller's labels are unchanged", struct == given)
  c.cover()


@contract("P06", FUNS, modes=("bounded",), replay=True,
          note="all entries and dimensions; one or two tensors of rank up to 3, "
          "every labelling with up to 4 labels (batch labels included)")
def ncon_two(c):
  ranks = c.pick([[1], [2], [3], [1, 1], [2, 1], [2, 2], [3, 2], [4], [0, 2]])
  body(c, ranks, True, ["int", "mixed"] if c.thorough else ["mixed"], 4)


@contract("P06", FUNS, modes=("bounded",), replay=True,
          note="all entries and dimensions; three tensors, every labelling "
          "without batch labels (thorough: with batch labels)")
def ncon_three(c):
  ranks = c.pick([[1, 1, 1], [2, 1, 1], [2, 2, 2]] if not c.thorough else
                 [[1, 1, 1], [2, 1, 1], [2, 2, 2], [3, 2, 1], [3, 3, 2]])
  body(c, ranks, c.thorough and sum(ranks) <= 6, ["int", "str"], 4)


@contract("P06", FUNS, modes=("bounded",), replay=True,
          note="all entries and dimensions; batch labels over three tensors")
def ncon_batch(c):
  lists = c.pick([
      [[0, 1], [0, 2], [0, 3]], [[1, 0], [2, 0], [0, 1]],
      [[0, 1, 2], [0, 2, 3], [0]], [[0, 1], [1, 0, 2], [2, 0]],
      [[0, 1], [0, 1], [0, 2]], [[0, 0, 1], [1, 2], [0, 2]],
      [[0, 1, 2], [2, 1, 0], [1, 3]]])
  m = max(max(x) for x in lists) + 1
  signs = c.pick(list(itertools.product([0, 1], repeat=m)))
  c.pick(1)
  body_fixed(c, lists, signs)


@contract("P06", FUNS, modes=("bounded",), replay=True,
          note="a label whose occurrences have different dimensions is refused: "
          "one or two tensors of rank up to 3, every labelling, every slot")
def ncon_mismatch(c):
  ranks = c.pick([[2], [3], [1, 1], [2, 1], [2, 2], [1, 1, 1]])
  lists, signs = c.pick([(ls, sg) for ls, sg in structures(ranks, 4, True)
                         if any(sum(l.count(b) for l in ls) > 1
                                for b in range(len(sg)))])
  flat = [b for l in lists for b in l]
  at = c.pick([i for i, b in enumerate(flat) if flat.count(b) > 1])
  odd = c.pick([1, 3])
  nm = names("mixed", signs)
  size = [odd if i == at else 2 for i in range(len(flat))]
  ts, i = [], 0
  for n, l in enumerate(lists):
    ts.append(c.tensor(f"t{n}", size[i:i + len(l)]))
    i += len(l)
  struct = [[nm[b] for b in l] for l in lists]
  o = c.call(ni.ncon, ts, struct, backend=c.backend())
  c.fact("differing dimensions of one label are refused",
         not o.ok and isinstance(o.exc, ValueError),
         f"{struct} {size}: {o.exc!r}")
  c.cover()


def body_fixed(c, lists, signs):
  m = len(signs)
  nm = names("int", signs)
  dims = c.dims(m)
  ts = [c.tensor(f"t{i}", [dims[b] for b in ls]) for i, ls in enumerate(lists)]
  struct = [[nm[b] for b in ls] for ls in lists]
  closed = [nm[b] for b in range(m) if not signs[b]]
  con = c.pick([list(p) for p in itertools.permutations(closed)]) \
      if closed else None
  outs = sorted([nm[b] for b in range(m) if signs[b]], reverse=True)
  out = c.pick([list(p) for p in itertools.permutations(outs)]) \
      if outs else None
  o = c.call(ni.ncon, list(ts), struct, con_order=con, out_order=out,
             backend=c.backend())
  hasbatch = any(sum(ls.count(b) for ls in lists) > 2 for b in range(m)
                 if not signs[b])
  if not o.ok:
    c.fact("a valid structure is accepted", hasbatch and isinstance(
        o.exc, ValueError) and "infinite loop" in str(o.exc),
           f"{struct} {con} {out}: {o.exc!r}")
    return
  inv = {x: b for b, x in enumerate(nm)}
  c.same("ncon is the labelled sum in the requested order", o.value,
         c.einsum(lists, [inv[x] for x in out or []], ts))
  c.cover()
