"""
Loads the real sources of soil from /repo, with a mechanical instrumentation:

  * for/while loops go through vc.rt.for_/while_ (so that they can be cut); the local variables
    assigned in their bodies are re-bound at the head of the loop
  * return statements in loops, comprehensions, list and dict displays, f-strings and '...'.format() go through vc.rt
  * the target of the methods that change a collection (append, update, d[k] = v...) goes through vc.rt.mut, which returns it
  * builtins that have to know about symbolic values (len, float, isinstance...), and the functions of math and itertools, are
    replaced with ones that do the same for any other value
  * type annotations are dropped

Nothing else is changed or dropped: the statements of every function are those in /repo.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import rt

REPO = os.environ.get("SOIL_REPO", "/repo")


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "add", "discard", "setdefault", "popleft", "appendleft", "popitem", "sort", "reverse"}


def assigned(nodes):
    """Local names that are assigned in a list of statements"""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            # only walrus targets would leak
            pass

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.append((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

    v = V()
    for n in nodes:
        v.visit(n)
    return out


def name(s, ctx=None):
    return ast.Name(id=s, ctx=ctx or ast.Load())


def attr(o, k):
    return ast.Attribute(value=o, attr=k, ctx=ast.Load())


def call(f, *args):
    return ast.Call(func=f, args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scopes = []        # [(kind, name, globals)]
        self.loops = [[]]       # enclosing loops in the current function
        self.n = 0

    def rt(self, f):
        return attr(name("_vcrt_"), f)

    def lid(self, node):
        fn = ".".join(s for k, s, _ in self.scopes)
        return f"{self.modname}.{fn}:{getattr(node, 'lineno', 0)}"

    # -- scopes
    def _function(self, node):
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs + [x for x in (node.args.vararg, node.args.kwarg) if x]:
            a.annotation = None
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        globs = {n for s in ast.walk(node) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
        self.scopes.append(("function", node.name, globs))
        self.loops.append([])
        node.body = self.block(node.body)
        # arguments whose number is symbolic
        first = [ast.copy_location(ast.Assign(targets=[name(a.arg, ast.Store())], value=call(self.rt(f), name(a.arg))), node)
                 for a, f in ((node.args.vararg, "varargs"), (node.args.kwarg, "varkw")) if a is not None]
        doc = 1 if ast.get_docstring(node, clean=False) is not None else 0
        node.body[doc:doc] = first
        self.loops.pop()
        self.scopes.pop()
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _function

    def visit_Lambda(self, node):
        self.loops.append([])
        self.scopes.append(("function", "<lambda>", set()))
        node = self.generic_visit(node)
        self.scopes.pop()
        self.loops.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(d) for d in node.bases]
        node.keywords = [self.visit(d) for d in node.keywords]
        self.scopes.append(("class", node.name, set()))
        self.loops.append([])
        node.body = [self.visit(s) for s in node.body]
        node.body = [y for x in node.body for y in (x if isinstance(x, list) else [x])]
        self.loops.pop()
        self.scopes.pop()
        return node

    def infunction(self):
        return bool(self.scopes) and self.scopes[-1][0] == "function"

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_AnnAssign(self, node):
        if not self.infunction():
            return node         # fields of dataclasses
        node = self.generic_visit(node)
        return node

    # -- loops
    def visit_For(self, node):
        if not self.infunction():
            return self.generic_visit(node)
        self.n += 1
        var = f"_vcl{self.n}"
        globs = self.scopes[-1][2]
        names = [x for x in assigned(node.body) if x not in globs]
        targets = assigned([ast.Expr(node.target)]) if False else [
            t.id for t in ast.walk(node.target) if isinstance(t, ast.Name)]
        scratch = [x for x in names if x not in targets]
        it = self.visit(node.iter)
        enter = ast.Assign(targets=[name(var, ast.Store())], value=call(
            self.rt("for_"), it, const(self.lid(node)), ast.Tuple([const(x) for x in scratch], ast.Load())))
        self.loops[-1].append(var)
        body = self.block(node.body)
        self.loops[-1].pop()
        orelse = self.block(node.orelse)

        def rebind(method):
            return [ast.Assign(targets=[name(x, ast.Store())], value=call(
                attr(name(var), method), const(x),
                call(attr(call(name("locals")), "get"), const(x), self.rt("L").__class__(value=self.rt("L"), attr="UNSET", ctx=ast.Load()))))
                for x in scratch]
        new = ast.For(target=node.target, iter=name(var), body=rebind("local") + body,
                      orelse=rebind("local_exit") + orelse, type_comment=None)
        after = ast.Expr(call(attr(name(var), "after")))
        return [ast.copy_location(s, node) for s in (enter, new, after)]

    def visit_While(self, node):
        if not self.infunction():
            return self.generic_visit(node)
        self.n += 1
        var = f"_vcl{self.n}"
        globs = self.scopes[-1][2]
        names = [x for x in assigned(node.body + [ast.Expr(node.test)]) if x not in globs]
        enter = ast.Assign(targets=[name(var, ast.Store())], value=call(
            self.rt("while_"), const(self.lid(node)), ast.Tuple([const(x) for x in names], ast.Load())))
        self.loops[-1].append(var)
        test = self.visit(node.test)
        body = self.block(node.body)
        self.loops[-1].pop()
        orelse = self.block(node.orelse)
        items = [call(attr(name(var), "arrive"), call(name("locals")))]
        for x in names:
            items.append(ast.NamedExpr(target=name(x, ast.Store()), value=call(attr(name(var), "local"), const(x))))
        items.append(test)
        cond = ast.Subscript(value=ast.Tuple(items, ast.Load()), slice=const(-1), ctx=ast.Load())
        new = ast.While(test=cond, body=body, orelse=orelse)
        after = ast.Expr(call(attr(name(var), "after")))
        return [ast.copy_location(s, node) for s in (enter, new, after)]

    def visit_Return(self, node):
        node = self.generic_visit(node)
        if self.loops[-1]:
            node.value = call(self.rt("ret"), node.value or const(None), *[name(v) for v in self.loops[-1]])
        return node

    # compound statements may contain lists of statements
    def _compound(self, node):
        for field in ("test", "items", "subject"):
            if hasattr(node, field):
                v = getattr(node, field)
                setattr(node, field, [self.visit(x) for x in v] if isinstance(v, list) else self.visit(v))
        for field in ("body", "orelse", "finalbody"):
            if getattr(node, field, None):
                setattr(node, field, self.block(getattr(node, field)))
        for h in getattr(node, "handlers", []):
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self.block(h.body)
        return node

    visit_If = visit_With = visit_Try = visit_AsyncWith = _compound

    # -- expressions
    def _lambda_of(self, target, expr):
        """lambda item: expr, where the target is bound to the item"""
        if isinstance(target, ast.Name):
            args = [target.id]
            return ast.Lambda(args=_args(args), body=expr)
        if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(t, ast.Name) for t in target.elts):
            inner = ast.Lambda(args=_args([t.id for t in target.elts]), body=expr)
            return ast.Lambda(args=_args(["_vcx_"]), body=ast.Call(func=inner, args=[ast.Starred(name("_vcx_"), ast.Load())], keywords=[]))
        return None

    def _comp(self, node, kind):
        ok = len(node.generators) == 1 and not node.generators[0].is_async and self.infunction()
        bad = (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)
        if ok and any(isinstance(x, bad) for x in ast.walk(node)):
            ok = False
        if ok and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for x in ast.walk(node)):
            ok = False
        if not ok:
            return self.generic_visit(node)
        g = node.generators[0]
        lid = self.lid(node)
        it = self.visit(g.iter)
        self.loops.append([])
        conds = [self._lambda_of(g.target, self.visit(c)) for c in g.ifs]
        if kind == "dict":
            elt = self._lambda_of(g.target, ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load()))
        else:
            elt = self._lambda_of(g.target, self.visit(node.elt))
        self.loops.pop()
        if elt is None or any(c is None for c in conds):
            node.generators[0].iter = it
            return node
        return ast.copy_location(call(self.rt("comp"), const(kind), it, ast.Tuple(conds, ast.Load()), elt, const(lid)), node)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.infunction():
            return ast.copy_location(call(self.rt("mklist"), *node.elts), node)
        return node

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if self.infunction():
            pairs = [ast.Tuple([v] if k is None else [k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
            return ast.copy_location(call(self.rt("mkdict"), *pairs), node)
        return node

    def visit_JoinedStr(self, node):
        if not self.infunction():
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = self.generic_visit(spec) if spec is not None else const("")
                parts.append(ast.Tuple([self.visit(v.value), const(v.conversion), spec], ast.Load()))
        return ast.copy_location(call(self.rt("fstr"), *parts), node)

    # changes of plain collections are not tracked: they are not allowed in loops that are cut
    def visit_Call(self, node):
        node = self.generic_visit(node)
        if self.infunction():
            for a in node.args:
                if isinstance(a, ast.Starred):
                    a.value = ast.copy_location(call(self.rt("star"), a.value), node)
            for k in node.keywords:
                if k.arg is None:
                    k.value = ast.copy_location(call(self.rt("starkw"), k.value), node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in MUTATORS and self.infunction():
            node.func.value = ast.copy_location(call(self.rt("mut"), node.func.value), node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "format" and isinstance(node.func.value, ast.Constant) \
                and isinstance(node.func.value.value, str) and self.infunction():
            node.args = [node.func.value] + node.args
            node.func = self.rt("fmt")
        return node

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, (ast.Store, ast.Del)) and self.infunction():
            node.value = ast.copy_location(call(self.rt("mut"), node.value), node)
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and self.infunction():
            new = call(self.rt("is_"), node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.IsNot):
                new = ast.UnaryOp(ast.Not(), new)
            return ast.copy_location(new, node)
        return node

    def visit_Import(self, node):
        if not self.infunction():
            return node
        names = [(a.asname or a.name).split(".")[0] for a in node.names if a.name != "*"]
        return [node] + [ast.copy_location(ast.Assign(targets=[name(x, ast.Store())], value=call(self.rt("imported"), name(x))), node) for x in names]

    visit_ImportFrom = visit_Import

    def visit_YieldFrom(self, node):
        node = self.generic_visit(node)
        node.value = call(self.rt("yf"), node.value)
        return node


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[])


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding="utf-8") as f:
            source = f.read()
        tree = ast.parse(source, path)
        tree = Instrument(fullname).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["_vcrt_"] = rt
        for k, v in rt.OVERRIDES.items():
            module.__dict__[k] = v
        super().exec_module(module)
        for k, v in list(module.__dict__.items()):
            if k not in rt.OVERRIDES and k != "_vcrt_":
                new = rt.imported(v)
                if new is not v:
                    module.__dict__[k] = new


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "soil" and not fullname.startswith("soil."):
            return None
        parts = fullname.split(".")
        base = os.path.join(REPO, *parts)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=Loader(fullname, base + ".py"))
        return None


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
