"""Mechanical extraction: every module of /repo/tensornetwork is parsed from
its current source and executed with its control flow routed through the
runtime `rt` (loops, comprehensions, boolean operators, identity and membership
tests, subscripts, set/dict displays, assertions on symbolic data).  Nothing
else is rewritten; type annotations of parameters are dropped."""
import ast, builtins, importlib.abc, importlib.machinery, importlib.util
import os, sys, types

REPO = os.environ.get("VERIF_REPO", "/repo")
MUTATE = None      # optional callable(modname, tree) -> tree (self checks)
SOURCES = {}


def _name(n, ctx=None):
  return ast.Name(id=n, ctx=ctx or ast.Load())


def _rt(fn, *args):
  return ast.Call(
      func=ast.Attribute(value=_name("_rt_"), attr=fn, ctx=ast.Load()),
      args=list(args), keywords=[])


def _lam(body, params=()):
  return ast.Lambda(
      args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params],
                         kwonlyargs=[], kw_defaults=[], defaults=[]),
      body=body)


def _has(node, kinds):
  return any(isinstance(n, kinds) for n in ast.walk(node))


BAD = (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)


def target_names(t):
  """Flattened names and nested arity pattern of an assignment target."""
  if isinstance(t, ast.Name):
    return [t.id], None
  if isinstance(t, (ast.Tuple, ast.List)):
    names, pats = [], []
    for e in t.elts:
      if isinstance(e, ast.Starred):
        return None, None
      n, p = target_names(e)
      if n is None:
        return None, None
      names += n
      pats.append(p)
    return names, tuple(pats)
  return None, None


class Names(ast.NodeVisitor):
  """Names bound by assignments in a statement list (not nested scopes)."""

  def __init__(self):
    self.out = []

  def visit_FunctionDef(self, n):
    self.out.append(n.name)

  def visit_Lambda(self, n):
    pass

  def visit_ListComp(self, n):
    pass

  visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

  def visit_Name(self, n):
    if isinstance(n.ctx, ast.Store) and n.id not in self.out:
      self.out.append(n.id)


def bound_names(stmts):
  v = Names()
  for s in stmts:
    v.visit(s)
  return v.out


def grown_names(stmts, fresh):
  """Local lists created empty in this function (`x = []`) that the statements
  grow in place: a loop contract rebinds them."""
  out = []
  for s in stmts:
    for n in ast.walk(s):
      if isinstance(n, ast.Call) and isinstance(
          n.func, ast.Attribute) and n.func.attr in (
              "append", "extend", "add") and isinstance(
                  n.func.value, ast.Name) and n.func.value.id in fresh:
        if n.func.value.id not in out:
          out.append(n.func.value.id)
  return out


def fresh_lists(stmts):
  out = set()
  for s in stmts:
    for n in ast.walk(s):
      if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
          n.targets[0], ast.Name):
        v = n.value
        if (isinstance(v, ast.List) and not v.elts) or (
            isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and
            v.func.id in ("list", "set") and not v.args):
          out.add(n.targets[0].id)
  return out


class Tr(ast.NodeTransformer):

  def __init__(self, modname):
    self.fresh = [set()]
    self.modname = modname
    self.scope = []
    self.loopno = [0]
    self.tmp = 0
    self.infunc = 0

  # -- scopes -----------------------------------------------------------------
  def visit_FunctionDef(self, n):
    self.scope.append(n.name)
    self.loopno.append(0)
    self.infunc += 1
    self.fresh.append(fresh_lists(n.body))
    n.returns = None
    for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
      a.annotation = None
    if n.args.vararg:
      n.args.vararg.annotation = None
    if n.args.kwarg:
      n.args.kwarg.annotation = None
    qual = ".".join(self.scope)
    n.body = self._stmts(n.body)
    mark = ast.Expr(_rt("enter", ast.Constant(self.modname + ":" + qual)))
    k = 1 if (n.body and isinstance(n.body[0], ast.Expr) and isinstance(
        n.body[0].value, ast.Constant)) else 0
    n.body.insert(k, mark)
    n.args = self.visit(n.args)
    n.decorator_list = [self.visit(d) for d in n.decorator_list]
    self.infunc -= 1
    self.fresh.pop()
    self.loopno.pop()
    self.scope.pop()
    return n

  def _stmts(self, body):
    out = []
    for s in body:
      r = self.visit(s)
      if r is None:
        continue
      if isinstance(r, list):
        out += r
      else:
        out.append(r)
    return out

  def visit_ClassDef(self, n):
    self.scope.append(n.name)
    self.generic_visit(n)
    self.scope.pop()
    return n

  def visit_Lambda(self, n):
    self.generic_visit(n)
    return n

  def visit_AnnAssign(self, n):
    if n.value is None:
      return n
    if isinstance(n.target, ast.Name) and self.infunc:
      return self.visit(
          ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))
    n.value = self.visit(n.value)
    return n

  # -- expressions --------------------------------------------------------------
  def visit_Compare(self, n):
    self.generic_visit(n)
    special = (ast.Is, ast.IsNot, ast.In, ast.NotIn)

    def one(l, op, r):
      if isinstance(op, ast.Is):
        return _rt("is_", l, r)
      if isinstance(op, ast.IsNot):
        return _rt("isnot", l, r)
      if isinstance(op, ast.In):
        return _rt("in_", l, r)
      if isinstance(op, ast.NotIn):
        return _rt("notin", l, r)
      if isinstance(op, ast.Eq):
        return _rt("eq_", l, r)
      if isinstance(op, ast.NotEq):
        return _rt("ne_", l, r)
      return ast.Compare(left=l, ops=[op], comparators=[r])

    if len(n.ops) == 1:
      return ast.copy_location(one(n.left, n.ops[0], n.comparators[0]), n)
    vals = [n.left] + n.comparators
    if all(isinstance(v, (ast.Name, ast.Constant)) for v in vals[1:-1]):
      parts = [
          _lam(one(vals[i], n.ops[i], vals[i + 1])) for i in range(len(n.ops))
      ]
      return ast.copy_location(_rt("and_", *parts), n)
    if any(isinstance(o, special) for o in n.ops):
      return n
    return n

  def visit_BoolOp(self, n):
    self.generic_visit(n)
    if _has(n, BAD):
      return n
    return ast.copy_location(
        _rt("and_" if isinstance(n.op, ast.And) else "or_",
            *[_lam(v) for v in n.values]), n)

  def visit_UnaryOp(self, n):
    self.generic_visit(n)
    if isinstance(n.op, ast.Not):
      return ast.copy_location(_rt("not_", n.operand), n)
    return n

  def visit_IfExp(self, n):
    self.generic_visit(n)
    if _has(n, BAD):
      return n
    return ast.copy_location(
        _rt("ifexp", n.test, _lam(n.body), _lam(n.orelse)), n)

  def visit_Subscript(self, n):
    self.generic_visit(n)
    if isinstance(n.ctx, ast.Load) and self.infunc:
      return ast.copy_location(
          _rt("getitem", n.value, self._index(n.slice)), n)
    return n

  def _index(self, s):
    if isinstance(s, ast.Slice):
      none = ast.Constant(None)
      return ast.Call(func=_name("slice"), args=[
          s.lower or none, s.upper or none, s.step or none], keywords=[])
    if isinstance(s, ast.Tuple) and any(
        isinstance(e, ast.Slice) for e in s.elts):
      return ast.Tuple(elts=[self._index(e) for e in s.elts], ctx=ast.Load())
    return s

  def visit_Set(self, n):
    self.generic_visit(n)
    return ast.copy_location(
        _rt("mkset", ast.List(elts=n.elts, ctx=ast.Load())), n)

  def visit_Dict(self, n):
    self.generic_visit(n)
    if not self.infunc or any(k is None for k in n.keys):
      return n
    return ast.copy_location(
        _rt("mkdict", ast.List(elts=[
            ast.Tuple(elts=[k, v], ctx=ast.Load())
            for k, v in zip(n.keys, n.values)], ctx=ast.Load())), n)

  def _comp(self, n, kind, elt):
    if _has(n, BAD) or any(g.is_async for g in n.generators):
      return None
    gens = []
    for g in n.generators:
      names, pat = target_names(g.target)
      if names is None or len(set(names)) != len(names):
        return None
      gens.append((names, pat, g))

    def build(i):
      names, pat, g = gens[i]
      it = self.visit(g.iter)
      last = i == len(gens) - 1
      body = elt() if last else build(i + 1)
      if g.ifs:
        conds = [self.visit(c) for c in g.ifs]
        cond = conds[0] if len(conds) == 1 else _rt(
            "and_", *[_lam(c) for c in conds])
        condl = _lam(cond, names)
      else:
        condl = ast.Constant(None)
      k = kind if last else "nest"
      return _rt("comp", ast.Constant(k), it, ast.Constant(pat),
                 _lam(body, names), condl)

    r = build(0)
    if len(gens) > 1:
      r = _rt("flat", ast.Constant(kind), ast.Constant(len(gens) - 1), r)
    return ast.copy_location(r, n)

  def visit_ListComp(self, n):
    r = self._comp(n, "list", lambda: self.visit(n.elt)) \
        if self.infunc else None
    if r is None:
      self.generic_visit(n)
      return n
    return r

  def visit_SetComp(self, n):
    r = self._comp(n, "set", lambda: self.visit(n.elt)) \
        if self.infunc else None
    if r is None:
      self.generic_visit(n)
      return n
    return r

  def visit_GeneratorExp(self, n):
    r = self._comp(n, "gen", lambda: self.visit(n.elt)) \
        if self.infunc else None
    if r is None:
      self.generic_visit(n)
      return n
    return r

  def visit_DictComp(self, n):
    r = self._comp(
        n, "dict", lambda: ast.Tuple(
            elts=[self.visit(n.key), self.visit(n.value)], ctx=ast.Load())) \
        if self.infunc else None
    if r is None:
      self.generic_visit(n)
      return n
    return r

  # -- statements ---------------------------------------------------------------
  def _tmp(self):
    self.tmp += 1
    return f"_t__{self.tmp}"

  def visit_Assign(self, n):
    n.value = self.visit(n.value)
    if not self.infunc:
      return n
    if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
      t = n.targets[0]
      return ast.copy_location(
          ast.Expr(
              _rt("setitem", self.visit(t.value),
                  self.visit(self._index(t.slice)), n.value)), n)
    if any(_has(t, ast.Subscript) for t in n.targets):
      # tuple targets containing subscripts: bind temporaries first
      out, v = [], self._tmp()
      out.append(ast.Assign(targets=[_name(v, ast.Store())], value=n.value))
      for t in n.targets:
        if isinstance(t, ast.Subscript):
          out.append(
              ast.Expr(
                  _rt("setitem", self.visit(t.value),
                      self.visit(self._index(t.slice)), _name(v))))
        elif isinstance(t, (ast.Tuple, ast.List)):
          tmps = [self._tmp() for _ in t.elts]
          out.append(
              ast.Assign(targets=[
                  ast.Tuple(elts=[_name(x, ast.Store()) for x in tmps],
                            ctx=ast.Store())
              ], value=_name(v)))
          for e, x in zip(t.elts, tmps):
            r = self.visit_Assign(ast.Assign(targets=[e], value=_name(x)))
            out += r if isinstance(r, list) else [r]
        else:
          out.append(ast.Assign(targets=[t], value=_name(v)))
      return [ast.fix_missing_locations(ast.copy_location(s, n)) for s in out]
    n.targets = [self.visit(t) for t in n.targets]
    return n

  def visit_AugAssign(self, n):
    n.value = self.visit(n.value)
    if not self.infunc:
      return n
    op = ast.Constant(type(n.op).__name__)
    t = n.target
    if isinstance(t, ast.Name):
      return ast.copy_location(
          ast.Assign(targets=[t], value=_rt("iop", op, _name(t.id), n.value)),
          n)
    if isinstance(t, ast.Attribute):
      a = self._tmp()
      return [
          ast.copy_location(s, n) for s in [
              ast.Assign(targets=[_name(a, ast.Store())],
                         value=self.visit(t.value)),
              ast.Assign(targets=[
                  ast.Attribute(value=_name(a), attr=t.attr, ctx=ast.Store())
              ], value=_rt("iop", op,
                           ast.Attribute(value=_name(a), attr=t.attr,
                                         ctx=ast.Load()), n.value))
          ]
      ]
    a, i = self._tmp(), self._tmp()
    return [
        ast.copy_location(s, n) for s in [
            ast.Assign(targets=[_name(a, ast.Store())],
                       value=self.visit(t.value)),
            ast.Assign(targets=[_name(i, ast.Store())],
                       value=self.visit(self._index(t.slice))),
            ast.Expr(
                _rt("setitem", _name(a), _name(i),
                    _rt("iop", op, _rt("getitem", _name(a), _name(i)),
                        n.value)))
        ]
    ]

  def visit_Delete(self, n):
    out = []
    for t in n.targets:
      if isinstance(t, ast.Subscript) and self.infunc:
        out.append(
            ast.Expr(
                _rt("delitem", self.visit(t.value),
                    self.visit(self._index(t.slice)))))
      else:
        out.append(ast.Delete(targets=[t]))
    return [ast.copy_location(s, n) for s in out]

  def _loopid(self):
    k = self.loopno[-1]
    self.loopno[-1] += 1
    return self.modname + ":" + ".".join(self.scope) + f"#{k}"

  def _havoc(self, fn, lid, names, locs=True):
    call = _rt(fn, ast.Constant(lid), ast.Constant(tuple(names)),
               ast.Call(func=_name("_locals_"), args=[], keywords=[]))
    if not names:
      return ast.Expr(call)
    return ast.Assign(
        targets=[
            ast.Tuple(elts=[_name(x, ast.Store()) for x in names],
                      ctx=ast.Store())
        ], value=call)

  def visit_For(self, n):
    if not self.infunc:
      self.generic_visit(n)
      return n
    lid = self._loopid()
    it = self.visit(n.iter)
    tnames = bound_names([ast.Assign(targets=[n.target], value=ast.Constant(0))])
    names = [x for x in bound_names(n.body) if x not in tnames]
    names += [x for x in grown_names(n.body, self.fresh[-1]) if x not in names]
    body = self._stmts(n.body)
    orelse = self._stmts(n.orelse)
    names = [x for x in names if not x.startswith("_t__")]
    if _has(n.target, ast.Subscript):
      n.iter, n.body, n.orelse = it, body, orelse
      return n
    n.iter = _rt("loop", ast.Constant(lid), it)
    n.body = [self._havoc("loop_body", lid, names)] + body
    n.orelse = orelse
    out = [n, self._havoc("loop_exit", lid, names)]
    return [ast.copy_location(s, n) for s in out]

  def visit_While(self, n):
    if not self.infunc:
      self.generic_visit(n)
      return n
    lid = self._loopid()
    names = bound_names(n.body)
    names += [x for x in grown_names(n.body, self.fresh[-1]) if x not in names]
    test = self.visit(n.test)
    body = self._stmts(n.body)
    orelse = self._stmts(n.orelse)
    names = [x for x in names if not x.startswith("_t__")]
    if orelse:
      n.test, n.body, n.orelse = test, body, orelse
      return n
    loop = ast.For(
        target=_name("_w__", ast.Store()),
        iter=_rt("while_", ast.Constant(lid)),
        body=[
            self._havoc("loop_body", lid, names),
            ast.If(test=_rt("not_", test), body=[ast.Break()], orelse=[])
        ] + body, orelse=[])
    out = [loop, self._havoc("loop_exit", lid, names)]
    return [ast.copy_location(s, n) for s in out]


def transform(modname, source, path):
  tree = ast.parse(source, path)
  if MUTATE is not None:
    tree = MUTATE(modname, tree)
  tree = Tr(modname).visit(tree)
  ast.fix_missing_locations(tree)
  return compile(tree, path, "exec")


def make_builtins(rt):
  b = dict(vars(builtins))
  b["_rt_"] = rt
  b["_locals_"] = lambda: sys._getframe(1).f_locals
  b.update(rt.BUILTINS)
  return b


PLAIN = ("tensornetwork.block_sparse", "tensornetwork.backends.symmetric")


class Loader(importlib.abc.Loader):

  def __init__(self, name, path, rt, ispkg):
    self.name, self.path, self.rt, self.ispkg = name, path, rt, ispkg

  def create_module(self, spec):
    return None

  def exec_module(self, module):
    with open(self.path) as f:
      src = f.read()
    SOURCES[self.name] = src
    if self.name.startswith(PLAIN):
      # executed as it is: only its data are symbolic
      tree = ast.parse(src, self.path)
      code = compile(MUTATE(self.name, tree) if MUTATE else tree, self.path,
                     "exec")
    else:
      module.__dict__["__builtins__"] = make_builtins(self.rt)
      code = transform(self.name, src, self.path)
    exec(code, module.__dict__)  # pylint: disable=exec-used
    self.rt.after_import(module)


class Finder(importlib.abc.MetaPathFinder):

  def __init__(self, rt):
    self.rt = rt

  def find_spec(self, fullname, path=None, target=None):
    if fullname != "tensornetwork" and not fullname.startswith(
        "tensornetwork."):
      return None
    base = os.path.join(REPO, *fullname.split("."))
    if os.path.isdir(base) and os.path.exists(base + "/__init__.py"):
      p, pkg = base + "/__init__.py", True
    elif os.path.exists(base + ".py"):
      p, pkg = base + ".py", False
    else:
      return None
    ld = Loader(fullname, p, self.rt, pkg)
    spec = importlib.machinery.ModuleSpec(fullname, ld, origin=p,
                                          is_package=pkg)
    if pkg:
      spec.submodule_search_locations = [base]
    spec.has_location = True
    return spec


def install(rt):
  sys.meta_path.insert(0, Finder(rt))
