"""Source rewriting: every module under test is parsed from the current
working tree, operations that must see symbolic values are redirected to the
run-time support, and the module is executed natively."""
import ast
import importlib.abc
import importlib.util
import os
import sys
import types
import warnings

from . import models

SX = "_sx_"
NO_CALL = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__", "print",
           "compile", "breakpoint", "input", "open"}


class Scan(ast.NodeVisitor):
    """Does an expression contain something that cannot go into a lambda?"""

    def __init__(self):
        self.bad = False

    def visit_NamedExpr(self, n):
        self.bad = True

    visit_Yield = visit_YieldFrom = visit_Await = visit_NamedExpr

    def visit_Name(self, n):
        if n.id in ("super", "__class__", "locals"):
            self.bad = True


def thunkable(*nodes):
    s = Scan()
    for n in nodes:
        s.visit(n)
    return not s.bad


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def attr(n):
    return ast.Attribute(name(SX), n, ast.Load())


def sx(fn, *args):
    return ast.Call(attr(fn), list(args), [])


def lam(e):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)


OPNAME = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
          ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}


class Names(ast.NodeVisitor):
    def __init__(self):
        self.stored = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.stored:
            self.stored.append(n.id)

    def visit_FunctionDef(self, n):
        pass

    visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_FunctionDef


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []        # enclosing scopes: ("f", info) / ("c", name)
        self.tmp = 0

    # ---- scopes
    def in_func(self):
        return bool(self.stack) and self.stack[-1][0] == "f"

    def thunk_ok(self, *nodes):
        return self.in_func() and thunkable(*nodes)

    def qual(self):
        return ".".join([self.mod] + [s[1]["name"] for s in self.stack])

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        decl = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                decl.update(n.names)
        a = node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg:
            params.add(a.vararg.arg)
        if a.kwarg:
            params.add(a.kwarg.arg)
        info = {"name": node.name, "decl": decl, "init": [], "params": params}
        self.stack.append(("f", info))
        q = self.qual()
        body = node.body
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and \
                isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        body = self.stmts(body)
        self.stack.pop()
        pre = [ast.Expr(sx("enter", ast.Constant(q)))]
        for v in info["init"]:
            if v not in params:
                pre.append(ast.Assign([name(v, ast.Store())], attr("UNBOUND")))
        node.body = doc + pre + body
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        self.stack.append(("f", {"name": "<lambda>", "decl": set(), "init": [], "params": set(), "lam": True}))
        node.body = self.visit(node.body)
        self.stack.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        self.stack.append(("c", {"name": node.name}))
        node.body = self.stmts(node.body)
        self.stack.pop()
        return node

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out += r
            else:
                out.append(r)
        return out or [ast.Pass()]

    # annotations are left alone
    def visit_AnnAssign(self, node):
        node.value = node.value and self.visit(node.value)
        if isinstance(node.target, (ast.Attribute, ast.Subscript)):
            if node.value is None:
                return node
            return self.visit_store([node.target], node.value, visited=True)
        return node

    def visit_arg(self, node):
        return node

    # ---- expressions
    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant("")
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion]
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(conv), spec], ast.Load()))
        if not parts:
            return ast.Constant("")
        return sx("fstr", *parts)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NO_CALL:
            node.args = [self.visit(a) for a in node.args]
            for k in node.keywords:
                k.value = self.visit(k.value)
            return node
        f = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        return ast.Call(attr("call"), [f] + args, kws)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            op = node.ops[0]
            a, b = self.visit(node.left), self.visit(node.comparators[0])
            if isinstance(op, ast.In):
                return sx("contains", b, a)
            if isinstance(op, ast.NotIn):
                return sx("not_", sx("contains", b, a))
            if isinstance(op, (ast.Is, ast.IsNot)):
                if isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
                    node.left, node.comparators = a, [b]
                    return node
                r = sx("is_", a, b)
                return r if isinstance(op, ast.Is) else sx("not_", r)
            if isinstance(op, ast.Eq):
                return sx("eq", a, b)
            if isinstance(op, ast.NotEq):
                return sx("not_", sx("eq", a, b))
            node.left, node.comparators = a, [b]
            return node
        if self.thunk_ok(node):
            vals = [lam(self.visit(x)) for x in [node.left] + node.comparators]
            ops = ast.Tuple([ast.Constant(OPNAME[type(o)]) for o in node.ops], ast.Load())
            return sx("chain", ops, *vals)
        return self.generic_visit(node)

    def visit_BoolOp(self, node):
        if not self.thunk_ok(node):
            return self.generic_visit(node)
        vals = [lam(self.visit(v)) for v in node.values]
        return sx("and_" if isinstance(node.op, ast.And) else "or_", *vals)

    def visit_Set(self, node):
        node = self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(sx("m_set", ast.List(node.elts, ast.Load())), node)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        return ast.copy_location(sx("m_set", ast.ListComp(node.elt, node.generators)), node)

    def visit_UnaryOp(self, node):
        v = self.visit(node.operand)
        if isinstance(node.op, ast.Not):
            return sx("not_", v)
        node.operand = v
        return node

    def visit_IfExp(self, node):
        if not self.thunk_ok(node.body, node.orelse):
            return self.generic_visit(node)
        return sx("ifexp", self.visit(node.test), lam(self.visit(node.body)), lam(self.visit(node.orelse)))

    def visit_BinOp(self, node):
        a, b = self.visit(node.left), self.visit(node.right)
        if isinstance(node.op, ast.Mod):
            return sx("mod", a, b)
        node.left, node.right = a, b
        return node

    def visit_Subscript(self, node):
        v = self.visit(node.value)
        s = self.visit(node.slice)
        if isinstance(node.ctx, ast.Load):
            if isinstance(s, ast.Slice):
                s = ast.Call(name("slice"), [x or ast.Constant(None) for x in (s.lower, s.upper, s.step)], [])
            return sx("getitem", v, s)
        node.value, node.slice = v, s
        return node

    # ---- statements
    def visit_Assign(self, node):
        v = self.visit(node.value)
        return self.visit_store(node.targets, v, visited=True, orig=node)

    def visit_store(self, targets, v, visited, orig=None):
        simple = all(isinstance(t, ast.Name) for t in targets)
        if simple:
            return ast.Assign(targets, v)
        out = []
        if len(targets) == 1:
            src = v
        else:
            self.tmp += 1
            t = "_sxt_%d" % self.tmp
            out.append(ast.Assign([name(t, ast.Store())], v))
            src = name(t)
        for t in targets:
            out += self.store_to(t, src)
        return out

    def store_to(self, t, v):
        if isinstance(t, ast.Name):
            return [ast.Assign([t], v)]
        if isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
            return [ast.Expr(sx("effect")), ast.Assign([t], v)]
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                t = self.visit(t)
                return [ast.Expr(sx("effect")), ast.Assign([t], v)]
            return [ast.Expr(sx("effect")),
                    ast.Expr(sx("setitem", self.visit(t.value), self.visit(t.slice), v))]
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if star:
                sarg = ast.Tuple([ast.Constant(star[0]), ast.Constant(n - 1 - star[0])], ast.Load())
                src = sx("unpack", v, ast.Constant(n), sarg)
                elts = [e.value if isinstance(e, ast.Starred) else e for e in t.elts]
            else:
                src = sx("unpack", v, ast.Constant(n))
                elts = list(t.elts)
            pre, post, news = [], [], []
            for e in elts:
                if isinstance(e, ast.Name):
                    news.append(e)
                else:
                    self.tmp += 1
                    tn = "_sxt_%d" % self.tmp
                    news.append(name(tn, ast.Store()))
                    post += self.store_to(e, name(tn))
            return [ast.Assign([ast.Tuple(news, ast.Store())], src)] + post
        raise TypeError(t)

    def visit_AugAssign(self, node):
        v = self.visit(node.value)
        if isinstance(node.target, ast.Name):
            ld = name(node.target.id)
            if isinstance(node.op, ast.Add):
                return ast.Assign([node.target], sx("iadd", ld, v))
            if isinstance(node.op, ast.Mod):
                return ast.Assign([node.target], sx("mod", ld, v))
            node.value = v
            return node
        node.target = self.visit(node.target)
        node.value = v
        return [ast.Expr(sx("effect")), node]

    def visit_Delete(self, node):
        return [ast.Expr(sx("effect")), self.generic_visit(node)]

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        node.body = self.stmts(node.body)
        node.orelse = self.stmts(node.orelse) if node.orelse else []
        if isinstance(node.target, (ast.Attribute, ast.Subscript)):
            node.target = self.visit(node.target)
        return node

    def visit_ExceptHandler(self, node):
        if node.type is None:
            node.type = name("Exception")
        else:
            for n in ast.walk(node.type):
                if isinstance(n, ast.Name) and n.id == "BaseException":
                    n.id = "Exception"
            node.type = self.visit_keep(node.type)
        node.body = self.stmts(node.body)
        return node

    def visit_keep(self, node):
        return node

    SIMPLE = (ast.Assign, ast.AugAssign, ast.Expr, ast.Pass, ast.If)

    def simple_branch(self, body):
        for s in body:
            if not isinstance(s, self.SIMPLE):
                return False
            if isinstance(s, ast.Assign):
                if not all(isinstance(t, ast.Name) for t in s.targets):
                    return False
            elif isinstance(s, ast.AugAssign):
                if not isinstance(s.target, ast.Name):
                    return False
            elif isinstance(s, ast.If):
                if not (self.simple_branch(s.body) and self.simple_branch(s.orelse)):
                    return False
            if not thunkable(s):
                return False
        return True

    def visit_If(self, node):
        if self.in_func() and not self.stack[-1][1].get("lam") and \
                self.simple_branch(node.body) and self.simple_branch(node.orelse):
            info = self.stack[-1][1]
            nm = Names()
            for s in node.body + node.orelse:
                nm.visit(s)
            if not set(nm.stored) & info["decl"] and not any(v.startswith("__") or v.startswith("_sx") for v in nm.stored):
                return self.merge_if(node, nm.stored, info)
        node.test = self.visit(node.test)
        node.body = self.stmts(node.body)
        node.orelse = self.stmts(node.orelse) if node.orelse else []
        return node

    def merge_if(self, node, vs, info):
        for v in vs:
            if v not in info["init"]:
                info["init"].append(v)
        self.tmp += 1
        k = self.tmp
        test = self.visit(node.test)
        fns = []
        for tag, body in (("a", node.body), ("b", node.orelse)):
            b = self.stmts(body) if body else []
            ret = ast.Return(ast.Tuple([name(v) for v in vs], ast.Load()))
            fn = "_sxb_%d%s" % (k, tag)
            args = ast.arguments([], [ast.arg(v) for v in vs], None, [], [], None, [])
            fns.append(ast.FunctionDef(fn, args, b + [ret], [], None, None, type_params=[]))
        call = sx("if_stmt", test, name("_sxb_%da" % k), name("_sxb_%db" % k),
                  ast.Tuple([name(v) for v in vs], ast.Load()))
        if vs:
            st = ast.Assign([ast.Tuple([name(v, ast.Store()) for v in vs], ast.Store())], call)
        else:
            st = ast.Expr(call)
        return fns + [st]


def transform(src, filename, modname):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tree = ast.parse(src, filename)
        tree = Rewriter(modname).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, filename, "exec")


# module level replacements inside the rewritten world
import functools as _functools
import inspect as _inspect

FUNCTOOLS = types.ModuleType("functools")
FUNCTOOLS.__dict__.update({k: v for k, v in _functools.__dict__.items() if not k.startswith("__")})
FUNCTOOLS.lru_cache = models.lru_cache
FUNCTOOLS.cache = models.cache


class Loader(importlib.abc.Loader):
    def __init__(self, path, pkg):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = transform(src, self.path, module.__name__)
        module.__dict__[SX] = models
        module.__file__ = self.path
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            saved = sys.modules.get("functools")
            sys.modules["functools"] = FUNCTOOLS
            try:
                exec(code, module.__dict__)
            finally:
                sys.modules["functools"] = saved


class Finder(importlib.abc.MetaPathFinder):
    """roots: package name -> directory."""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        rel = fullname.split(".")[1:]
        base = os.path.join(self.roots[top], *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_loader(fullname, Loader(p, True), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_loader(fullname, Loader(p, False), origin=p)
        return None


def install(roots):
    f = Finder(roots)
    sys.meta_path.insert(0, f)
    return f


# ------------------------------------------------------------ module state


class State:
    """Module- and class-level state of the rewritten modules, restored before
    every path so that paths do not influence each other."""

    def __init__(self, prefixes):
        self.prefixes = prefixes
        self.saved = None
        self.take()

    def holders(self):
        for n, m in list(sys.modules.items()):
            if m is not None and n.split(".")[0] in self.prefixes:
                yield m.__dict__, None
                for v in list(m.__dict__.values()):
                    if isinstance(v, type) and getattr(v, "__module__", "").split(".")[0] in self.prefixes:
                        yield dict(v.__dict__), v
                        for w in list(v.__dict__.values()):
                            if isinstance(w, type) and w is not v:
                                yield dict(w.__dict__), w
                    elif isinstance(v, types.FunctionType) and v.__defaults__:
                        yield {"d%d" % i: d for i, d in enumerate(v.__defaults__)}, v

    def take(self):
        self.saved = []
        self.cont = {}
        seen = set()
        for d, cls in self.holders():
            key = id(cls) if cls is not None else id(d)
            if key in seen:
                continue
            seen.add(key)
            if cls is None:
                self.saved.append((None, d, dict(d)))
            elif isinstance(cls, type):
                self.saved.append((cls, None, dict(cls.__dict__)))
            for v in list(d.values()):
                self.containers(v)
        models.PERSISTENT = {i: {id(k) for k in saved} for i, (v, saved) in self.cont.items()
                             if isinstance(v, dict)}

    def containers(self, v, depth=4):
        if id(v) in self.cont or depth == 0:
            return
        if type(v) is list:
            self.cont[id(v)] = (v, list(v))
            for x in v:
                self.containers(x, depth - 1)
        elif isinstance(v, dict) and type(v).__name__ != "mappingproxy":
            self.cont[id(v)] = (v, dict(v))
            for x in v.values():
                self.containers(x, depth - 1)
        elif type(v) is set:
            self.cont[id(v)] = (v, set(v))
        elif isinstance(v, bytearray):
            self.cont[id(v)] = (v, bytes(v))
        elif hasattr(v, "__dict__") and not isinstance(v, (type, types.ModuleType, types.FunctionType)) \
                and type(v).__module__.split(".")[0] in self.prefixes:
            self.cont[id(v)] = (v.__dict__, dict(v.__dict__))
            for x in list(v.__dict__.values()):
                self.containers(x, depth - 1)
        elif isinstance(v, types.FunctionType):
            if v.__dict__:
                self.cont[id(v.__dict__)] = (v.__dict__, dict(v.__dict__))
            for x in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()):
                self.containers(x, depth - 1)
            for c in v.__closure__ or ():
                try:
                    self.containers(c.cell_contents, depth - 1)
                except ValueError:
                    pass
        elif isinstance(v, (staticmethod, classmethod)):
            self.containers(v.__func__, depth)

    def restore(self):
        models.SYMKEYS = False
        for s in models.MemoModel.registry:
            s.clear()
        for cls, d, saved in self.saved:
            if cls is None:
                if len(d) != len(saved) or any(d.get(k, d) is not v for k, v in saved.items()):
                    d.clear()
                    d.update(saved)
            else:
                cur = cls.__dict__
                for k in [k for k in cur if k not in saved]:
                    try:
                        delattr(cls, k)
                    except (AttributeError, TypeError):
                        pass
                for k, v in saved.items():
                    if cur.get(k, saved) is not v:
                        try:
                            setattr(cls, k, v)
                        except (AttributeError, TypeError):
                            pass
        for v, saved in self.cont.values():
            if type(v) is list:
                if len(v) != len(saved) or any(a is not b for a, b in zip(v, saved)):
                    v[:] = saved
            elif isinstance(v, dict):
                if len(v) != len(saved) or any(dict.get(v, k, v) is not x for k, x in saved.items()):
                    dict.clear(v)
                    dict.update(v, saved)
            elif type(v) is set:
                if v != saved:
                    v.clear()
                    v.update(saved)
            elif isinstance(v, bytearray):
                v[:] = saved
