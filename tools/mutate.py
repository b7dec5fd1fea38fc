"""dev helper: mutate.py FILE PROPS N SEED [FUNC-REGEX] -- random mutants of
tensornetwork/FILE; runs the quick checks of PROPS (comma list) on each until
one reports a violation; prints survivors.  Works on copies only."""
import ast, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

FILE, PROPS, N, SEED = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), int(sys.argv[4])
RX = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
J = int(os.environ.get("J", "2"))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(f"/repo/tensornetwork/{FILE}").read()
lines = src.splitlines(keepends=True)
off = [0]
for l in lines:
  off.append(off[-1] + len(l.encode()))
data = src.encode()
pos = lambda ln, col: off[ln - 1] + col
seg = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
cands = []
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=",
       ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
       ast.NotIn: "in"}
SWAP = [("left", "right"), ("1", "2"), ("row", "col"), ("rows", "cols"), ("u", "v"),
        ("bra", "ket"), ("in", "out"), ("top", "bottom"), ("min", "max"), ("q", "r"),
        ("x", "y"), ("i", "j")]


def u(n):
  return data[slice(*seg(n))].decode()


def swapname(s):
  r = []
  for a, b in SWAP:
    for x, y in ((a, b), (b, a)):
      if x.isdigit():
        if s.endswith(x):
          r.append(s[:-1] + y)
      else:
        p = s.split("_")
        if x in p:
          r.append("_".join(y if t == x else t for t in p))
  return r


def visit(fn):
  names = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {
      a.arg for a in fn.args.args}
  attrs = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute)}
  skip = set()
  for n in ast.walk(fn):
    if isinstance(n, ast.If) and all(isinstance(b, ast.Raise) for b in n.body):
      skip |= {id(x) for x in ast.walk(n.test)} | {id(x) for b in n.body for x in ast.walk(b)}
    if isinstance(n, (ast.Raise, ast.Assert, ast.JoinedStr)):
      skip |= {id(x) for x in ast.walk(n)}
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
      skip |= {id(x) for x in ast.walk(n)}
    if isinstance(n, ast.arg) and n.annotation:
      skip |= {id(x) for x in ast.walk(n.annotation)}
    if isinstance(n, ast.AnnAssign):
      skip |= {id(x) for x in ast.walk(n.annotation)}
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("warn", "format"):
      skip |= {id(x) for x in ast.walk(n)}
  if fn.returns:
    skip |= {id(x) for x in ast.walk(fn.returns)}
  for d in fn.decorator_list:
    skip |= {id(x) for x in ast.walk(d)}
  def add(n, new, kind):
    cands.append((fn.name, n.lineno, kind) + seg(n) + (new,))
  for n in ast.walk(fn):
    if id(n) in skip:
      continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
      add(n, f"{u(n.left)} {CMP[type(n.ops[0])]} {u(n.comparators[0])}", "cmp")
    elif isinstance(n, ast.Constant) and type(n.value) is bool:
      add(n, str(not n.value), "bool")
    elif isinstance(n, ast.Constant) and type(n.value) is int:
      add(n, str(n.value + 1), "const")
      if n.value > 0:
        add(n, str(n.value - 1), "const")
    elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
      o = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+"}[type(n.op)]
      add(n, f"{u(n.left)} {o} {u(n.right)}", "arith")
    elif isinstance(n, ast.BoolOp):
      o = " or " if isinstance(n.op, ast.And) else " and "
      add(n, o.join(f"({u(v)})" for v in n.values), "bool")
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      add(n, u(n.operand), "not")
    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
      for s in swapname(n.id):
        if s in names:
          add(n, s, "name")
    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
      for s in swapname(n.attr):
        if s in attrs:
          add(n, f"{u(n.value)}.{s}", "attr")
      if n.attr in ("conj", "copy"):
        pass
    elif isinstance(n, ast.Slice):
      if n.lower is None and n.upper is not None and n.step is None:
        add(n, f"{u(n.upper)}:", "slice")
      elif n.upper is None and n.lower is not None and n.step is None:
        add(n, f":{u(n.lower)}", "slice")
    elif isinstance(n, ast.Call):
      nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
      if nm in ("conj", "sorted", "list", "reversed", "copy", "flip", "conjugate") and len(n.args) == 1:
        add(n, u(n.args[0]), "unwrap")
      if nm in ("transpose",) and n.args:
        add(n, u(n.args[0]) if isinstance(n.func, ast.Attribute) and getattr(n.func.value, "id", "") in ("np", "jnp", "tf") else u(n.func.value), "unwrap")
      if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
        k = random.randrange(len(n.args) - 1)
        a, b = n.args[k], n.args[k + 1]
        t = u(n)
        sa, sb, s0 = seg(a), seg(b), seg(n)[0]
        add(n, (data[s0:sa[0]] + data[slice(*sb)] + data[sa[1]:sb[0]] + data[slice(*sa)] + data[sb[1]:seg(n)[1]]).decode(), "args")
      for k in n.keywords:
        if k.arg in ("conjugate", "relative", "override", "axis", "axis1", "axis2", "dtype", "return_inverse", "allow_outer_product", "name", "axis_names"):
          e = pos(k.value.end_lineno, k.value.end_col_offset)
          b = pos(k.lineno, k.col_offset)
          # drop the keyword (with a preceding comma)
          c = data[:b].rstrip()
          if c.endswith(b","):
            cands.append((fn.name, n.lineno, "kw", len(c) - 1, e, ""))
    elif isinstance(n, (ast.Expr, ast.AugAssign)) and not isinstance(getattr(n, "value", None), ast.Constant):
      add(n, "pass", "del")
    elif isinstance(n, ast.If):
      add(n.test, f"not ({u(n.test)})", "if")
    elif isinstance(n, (ast.Break, ast.Continue)):
      add(n, "pass", "del")


random.seed(SEED)
tree = ast.parse(src)
def walk(body, prefix=""):
  for n in body:
    if isinstance(n, (ast.FunctionDef,)):
      if RX.search(prefix + n.name):
        visit(n)
    elif isinstance(n, ast.ClassDef):
      walk(n.body, n.name + ".")
walk(tree.body)
cands = list(dict.fromkeys(cands))
random.shuffle(cands)
pick, seen = [], set()
for c in cands:
  new = data[:c[3]] + c[5].encode() + data[c[4]:]
  try:
    ast.parse(new)
  except SyntaxError:
    continue
  if new == data or new in seen:
    continue
  seen.add(new)
  pick.append((c, new))
  if len(pick) == N:
    break
print(len(cands), "candidates;", len(pick), "mutants", flush=True)


def one(a):
  k, (c, new) = a
  d = tempfile.mkdtemp(prefix="mut.")
  try:
    shutil.copytree("/repo/tensornetwork", d + "/r/tensornetwork", ignore=shutil.ignore_patterns("__pycache__", "*_test.py", "*.ipynb", "*.png"))
    open(f"{d}/r/tensornetwork/{FILE}", "wb").write(new)
    shutil.copytree(HERE, d + "/v", ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__", "evidence", "replays"))
    os.makedirs(d + "/v/evidence", exist_ok=True); os.makedirs(d + "/v/replays", exist_ok=True)
    r = subprocess.run(["/opt/venv/bin/python", "-c", "import tensornetwork"], cwd=d, env=dict(os.environ, PYTHONPATH=d + "/r", TF_CPP_MIN_LOG_LEVEL="3"), capture_output=True)
    if r.returncode:
      return "import", k, c, ""
    out = []
    for p in PROPS:
      r = subprocess.run(["python3", "run_check.py", p], cwd=d + "/v", env=dict(os.environ, VERIF_REPO=d + "/r", VERIF_SEED="1"), capture_output=True, timeout=900)
      o = r.stdout.decode()
      if "VIOLATION" in o:
        return "killed " + p + (" NFI" if "no-failing-input" in o else ""), k, c, ""
      out.append(f"{p}:{r.returncode} " + o.splitlines()[0][:200] if o else r.stderr.decode()[-200:])
    return "SURVIVED", k, c, " | ".join(out)
  except subprocess.TimeoutExpired:
    return "timeout", k, c, ""
  finally:
    shutil.rmtree(d)


stats = {}
with ThreadPoolExecutor(J) as ex:
  for st, k, c, out in ex.map(one, enumerate(pick)):
    stats[st.split()[0]] = stats.get(st.split()[0], 0) + 1
    if not st.startswith("killed") or "NFI" in st:
      old = data[c[3]:c[4]].decode().replace("\n", " ")
      print(f"{st} {c[0]}:{c[1]} [{c[2]}] {old[:90]!r} -> {c[5][:90]!r}", flush=True)
      if st == "SURVIVED":
        print("    ", out[:260], flush=True)
print(FILE, stats, flush=True)
