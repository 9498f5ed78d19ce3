"""Behaviour-preserving rewrites of the repository, to see that the checks stay quiet on them.

usage: refactor.py SOURCE_REPO TARGET_DIR KIND[,KIND...]     (the target gets a rewritten copy of scaled/)
"""
import ast
import copy
import os
import shutil
import sys

NEW = [0]


def fresh(stem="v"):
    NEW[0] += 1
    return f"{stem}_{NEW[0]}"


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def assign(n, value):
    return ast.Assign([name(n, ast.Store())], value)


class Stmts(ast.NodeTransformer):
    """rewrites statement by statement inside functions: `stmt` returns a list or None"""

    def block(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            r = self.stmt(s) if self.depth else None
            out.extend([s] if r is None else r)
        return out

    depth = 0

    def generic_visit(self, node):
        inside = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef))
        if inside:
            self.depth += 1
            old, self.func = getattr(self, "func", None), node
        for f, v in ast.iter_fields(node):
            if f in ("body", "orelse", "finalbody") and isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.block(v))
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, (ast.excepthandler, ast.match_case)):
                        self.visit(x)
        if inside:
            self.depth -= 1
            self.func = old
        return node


class ReturnTemp(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
            n = fresh("result")
            return [assign(n, s.value), ast.Return(name(n))]


class ArgTemp(Stmts):
    """arguments of calls into variables first"""

    def stmt(self, s):
        if not isinstance(s, (ast.Expr, ast.Assign, ast.Return)) or s.value is None:
            return None
        e = s.value
        if isinstance(e, ast.Await):
            e = e.value
        if not isinstance(e, ast.Call) or any(isinstance(a, ast.Starred) for a in e.args):
            return None
        if not isinstance(e.func, (ast.Name, ast.Attribute)) or isinstance(e.func, ast.Name) and e.func.id == "super":
            return None
        if isinstance(e.func, ast.Attribute) and not isinstance(e.func.value, (ast.Name, ast.Attribute)):
            return None
        pre = []
        for i, a in enumerate(e.args):
            if isinstance(a, (ast.Constant, ast.Name, ast.Lambda)):
                continue
            n = fresh("arg")
            pre.append(assign(n, a))
            e.args[i] = name(n)
        for k in e.keywords:
            if k.arg is None or isinstance(k.value, (ast.Constant, ast.Name, ast.Lambda)):
                continue
            n = fresh("arg")
            pre.append(assign(n, k.value))
            k.value = name(n)
        return pre + [s] if pre else None


def negate(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}
        return ast.Compare(t.left, [m[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


class Invert(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.If):
            return [ast.If(negate(s.test), s.orelse or [ast.Pass()], s.body)]


class EarlyReturn(Stmts):
    """`if c: ...; return` + rest -> if/else"""

    def block(self, body):
        body = super().block(body)
        if not self.depth:
            return body
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(body):
                rest = body[i + 1 :]
                s.orelse = rest
                return body[: i + 1]
        return body

    def stmt(self, s):
        return None


class GuardClause(Stmts):
    """last `if c: body` of a function -> `if not c: return` + body"""

    def generic_visit(self, node):
        node = super().generic_visit(node)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and isinstance(node.body[-1], ast.If):
            s = node.body[-1]
            if not s.orelse:
                node.body[-1:] = [ast.If(negate(s.test), [ast.Return(None)], [])] + s.body
        if isinstance(node, (ast.For, ast.While)) and isinstance(node.body[-1], ast.If):
            s = node.body[-1]
            if not s.orelse:
                node.body[-1:] = [ast.If(negate(s.test), [ast.Continue()], [])] + s.body
        return node

    def stmt(self, s):
        return None


class SplitAnd(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for v in reversed(s.test.values):
                body = [ast.If(v, body, [])]
            return body


class Ternary(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            e = s.value
            return [ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)])]
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            e = s.value
            return [ast.If(e.test, [ast.Return(e.body)], []), ast.Return(e.orelse)]


def has(node, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(node))


class CompLoop(Stmts):
    """comprehensions that are a whole assigned/returned value -> loops"""

    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) or isinstance(s, ast.Return):
            e = s.value
            n = fresh("items")
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("tuple", "list") and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
                inner, wrap = ast.ListComp(e.args[0].elt, e.args[0].generators), lambda x: ast.Call(e.func, [x], [])
            else:
                inner, wrap = e, lambda x: x
            if isinstance(inner, ast.ListComp):
                init, put = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(name(n), "append", ast.Load()), [inner.elt], []))
            elif isinstance(inner, ast.SetComp):
                init, put = ast.Call(name("set"), [], []), ast.Expr(ast.Call(ast.Attribute(name(n), "add", ast.Load()), [inner.elt], []))
            elif isinstance(inner, ast.DictComp):
                init, put = ast.Dict([], []), ast.Assign([ast.Subscript(name(n), inner.key, ast.Store())], inner.value)
            else:
                return None
            if has(inner, ast.Lambda):
                return None
            body = [put]
            for g in reversed(inner.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [(ast.AsyncFor if g.is_async else ast.For)(g.target, g.iter, body, [])]
            s.value = wrap(name(n))
            return [assign(n, init)] + body + [s]


class LoopComp(Stmts):
    """`for x in xs: ys.append(e)` -> extend; nothing much in this repository"""

    def stmt(self, s):
        if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call):
            c = s.body[0].value
            if isinstance(c.func, ast.Attribute) and c.func.attr == "append" and not s.orelse:
                return [ast.Expr(ast.Call(ast.Attribute(c.func.value, "extend", ast.Load()), [ast.GeneratorExp(c.args[0], [ast.comprehension(s.target, s.iter, [], 0)])], []))]


class ForWhile(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            n = fresh("it")
            nxt = ast.Try([ast.Assign([s.target], ast.Call(name("next"), [name(n)], []))], [ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])], [], [])
            return [assign(n, ast.Call(name("iter"), [s.iter], [])), ast.While(ast.Constant(True), [nxt] + s.body, [])]


class ForIndex(Stmts):
    """for over list(...) -> over a copied list"""

    def stmt(self, s):
        if isinstance(s, ast.For) and not isinstance(s.iter, ast.Call):
            n = fresh("elements")
            return [assign(n, s.iter), ast.For(s.target, name(n), s.body, s.orelse)]


class WhileTrue(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not (isinstance(s.test, ast.Constant)):
            return [ast.While(ast.Constant(True), [ast.If(negate(s.test), [ast.Break()], [])] + s.body, [])]


class AugPlain(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)):
            load = copy.deepcopy(s.target)
            load.ctx = ast.Load()
            return [ast.Assign([s.target], ast.BinOp(load, s.op, s.value))]


class Walrus(Stmts):
    def block(self, body):
        body = super().block(body)
        if not self.depth:
            return body
        out, i = [], 0
        while i < len(body):
            s, t = body[i], body[i + 1] if i + 1 < len(body) else None
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, ast.If):
                first = t.test
                if isinstance(first, ast.UnaryOp):
                    first = first.operand
                if isinstance(first, ast.Compare):
                    if isinstance(first.left, ast.Name) and first.left.id == s.targets[0].id:
                        first.left = ast.NamedExpr(name(first.left.id, ast.Store()), s.value)
                        out.append(t)
                        i += 2
                        continue
            out.append(s)
            i += 1
        return out

    def stmt(self, s):
        return None


class Alias(Stmts):
    """`await self._x.f(...)` -> `x = self._x; await x.f(...)`"""

    def stmt(self, s):
        if not isinstance(s, (ast.Expr, ast.Assign, ast.Return)) or s.value is None:
            return None
        e = s.value
        if isinstance(e, ast.Await):
            e = e.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Attribute) and isinstance(e.func.value.value, ast.Name):
            n = fresh("target")
            pre = assign(n, e.func.value)
            e.func = ast.Attribute(name(n), e.func.attr, ast.Load())
            return [pre, s]


class BoundMethod(Stmts):
    """`await self.f(...)` -> `f = self.f; await f(...)`"""

    def stmt(self, s):
        if not isinstance(s, (ast.Expr, ast.Assign, ast.Return)) or s.value is None:
            return None
        e = s.value
        if isinstance(e, ast.Await):
            e = e.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, (ast.Name, ast.Attribute)):
            n = fresh("call")
            pre = assign(n, e.func)
            e.func = name(n)
            return [pre, s]


class AwaitTemp(Stmts):
    """x = await f(..)  ->  coroutine first"""

    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Await):
            n = fresh("pending")
            pre = assign(n, s.value.value)
            s.value = ast.Await(name(n))
            return [pre, s]


class WithTry(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.With) and len(s.items) == 1 and s.items[0].optional_vars is None and "lock" in ast.unparse(s.items[0].context_expr).lower() + "":
            e = s.items[0].context_expr
            n = fresh("lock")
            return [assign(n, e), ast.Expr(ast.Call(ast.Attribute(name(n), "acquire", ast.Load()), [], [])),
                    ast.Try(s.body, [], [], [ast.Expr(ast.Call(ast.Attribute(name(n), "release", ast.Load()), [], []))])]


class Exprs(ast.NodeTransformer):
    pass


class NotIn(Exprs):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.NotIn, ast.IsNot, ast.NotEq)):
            m = {ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.NotEq: ast.Eq}
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [m[type(n.ops[0])]()], n.comparators))
        return n


class Mirror(Exprs):
    """a == b -> b == a, a < b -> b > a"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in m and not has(n, ast.Await):
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n


class Format(Exprs):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        text, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                text += v.value.replace("{", "{{").replace("}", "}}")
            else:
                spec = "".join(x.value for x in v.format_spec.values if isinstance(x, ast.Constant)) if v.format_spec is not None else ""
                if v.format_spec is not None and any(not isinstance(x, ast.Constant) for x in v.format_spec.values):
                    return n
                text += "{" + ("!" + chr(v.conversion) if v.conversion > 0 else "") + (":" + spec if spec else "") + "}"
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(text), "format", ast.Load()), args, [])

    def visit_FormattedValue(self, n):
        return n


class DeMorgan(Exprs):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [negate(v) for v in n.test.values]))
        return n


class IsinstanceTuple(Exprs):
    """isinstance(x, A) -> isinstance(x, (A,)); len(x) == 0 -> not x is not the same for all, so left"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Name):
            n.args[1] = ast.Tuple([n.args[1]], ast.Load())
        return n


class LambdaDef(Stmts):
    """nested comprehension conditions via local functions; lambdas into named functions"""

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Expr, ast.Return)):
            pre = []

            class L(ast.NodeTransformer):
                def visit_Lambda(self, n):
                    f = fresh("function")
                    pre.append(ast.FunctionDef(f, n.args, [ast.Return(n.body)], [], None, type_params=[]))
                    return name(f)

                def visit_ListComp(self, n):
                    return n

                visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

            s = L().visit(s)
            return pre + [s]


class GenList(Exprs):
    """set(...)/list(...) around generators -> around list comprehension"""

    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        if has(n, ast.Await):
            return n
        return ast.ListComp(n.elt, n.generators)


class Extract(ast.NodeTransformer):
    """the body of an if/for/else inside a method into a method of its own"""

    def visit_ClassDef(self, node):
        new = []
        for f in list(node.body):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.args.args and f.args.args[0].arg == "self" and not any(isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod") for d in f.decorator_list) and not has(f, ast.Nonlocal, ast.Lambda):
                params = {a.arg for a in f.args.args + f.args.kwonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
                local = params | {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                local |= {h.name for h in ast.walk(f) if isinstance(h, ast.ExceptHandler) and h.name}
                self.blocks(f, f, local, new, isinstance(f, ast.AsyncFunctionDef))
        node.body.extend(new)
        return node

    def blocks(self, f, node, local, new, isasync):
        for fld in ("body", "orelse"):
            b = getattr(node, fld, None)
            if not isinstance(b, list) or not b or not isinstance(b[0], ast.stmt):
                continue
            if isinstance(node, (ast.If, ast.For, ast.While, ast.Try, ast.With)) and self.ok(b, local):
                free = sorted({x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name) and x.id in local and x.id != "self"})
                n = fresh("__extracted" if not any("super" == getattr(x, "id", "") for s in b for x in ast.walk(s)) else "_extracted")
                d = (ast.AsyncFunctionDef if isasync else ast.FunctionDef)(n, ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in free], None, [], [], None, []), b, [], None, type_params=[])
                new.append(d)
                call = ast.Call(ast.Attribute(name("self"), n, ast.Load()), [name(x) for x in free], [])
                ends = isinstance(b[-1], ast.Return)
                call = ast.Await(call) if isasync else call
                setattr(node, fld, [ast.Return(call) if ends else ast.Expr(call)])
            else:
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        self.blocks(f, s, local, new, isasync)

    def ok(self, b, local):
        if len(b) == 1 and isinstance(b[0], (ast.Return, ast.Raise, ast.Pass, ast.Continue, ast.Break)):
            return False
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and i == len(b) - 1:
                walk = [x for x in ast.walk(s)][1:]
            else:
                walk = list(ast.walk(s))
            for x in walk:
                if isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.Break, ast.Continue, ast.NamedExpr, ast.Delete)):
                    return False
                if isinstance(x, ast.Raise) and x.exc is None:
                    return False
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    return False
                if isinstance(x, ast.Name) and x.id == "super":
                    return False
        return True


class ToModule(Extract):
    """private methods that are not async and whose name is only called on self -> module functions is left to hand-written rewrites"""


class Keywords:
    """positional arguments of the repository's own message and data classes by keyword"""

    def __init__(self, repo):
        self.fields = {}
        for dp, _, fs in os.walk(os.path.join(repo, "scaled")):
            for f in fs:
                if f.endswith(".py"):
                    for c in ast.walk(ast.parse(open(os.path.join(dp, f)).read())):
                        if isinstance(c, ast.ClassDef):
                            ini = [x for x in c.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"]
                            if ini:
                                self.fields[c.name] = [a.arg for a in ini[0].args.args[1:]]
                            elif c.decorator_list and "dataclass" in ast.unparse(c.decorator_list[0]) or "attrs" in " ".join(map(ast.unparse, c.decorator_list)):
                                self.fields[c.name] = [x.target.id for x in c.body if isinstance(x, ast.AnnAssign)]

    def visit(self, tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in self.fields and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
                fs = self.fields[n.func.id]
                if len(fs) >= len(n.args):
                    n.keywords = [ast.keyword(f, a) for f, a in zip(fs, n.args)] + n.keywords
                    n.args = []
        return tree


class RenamePrivate:
    """private attributes, private methods, module-private names"""

    def __init__(self, repo):
        self.names = set()
        for dp, _, fs in os.walk(os.path.join(repo, "scaled")):
            for f in fs:
                if f.endswith(".py"):
                    t = ast.parse(open(os.path.join(dp, f)).read())
                    for x in ast.walk(t):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ("self", "cls") and isinstance(x.ctx, ast.Store):
                            self.names.add(x.attr)
                        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                            self.names.add(x.name)
        self.names = {n for n in self.names if n.startswith("_") and not n.endswith("__")}

    def visit(self, tree):
        r = lambda n: n + "_renamed" if n in self.names else n
        for x in ast.walk(tree):
            if isinstance(x, ast.Attribute):
                x.attr = r(x.attr)
            elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                x.name = r(x.name)
            elif isinstance(x, ast.Name):
                x.id = r(x.id)
            elif isinstance(x, ast.ImportFrom):
                for a in x.names:
                    a.name = r(a.name)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                x.target.id = r(x.target.id) if x.target.id.startswith("_") and not x.target.id.endswith("_renamed") else x.target.id
            elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value in self.names:
                x.value = r(x.value)
        return tree


class RenameLocals(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        glob = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        if has(f, ast.ClassDef):
            return f
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - glob
        nested = {a.arg for x in ast.walk(f) if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef)) and x is not f for a in x.args.args}
        loc -= nested
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id += "_local"
        return f

    visit_AsyncFunctionDef = visit_FunctionDef


class ReorderMethods(ast.NodeTransformer):
    def visit_ClassDef(self, c):
        m = [x for x in c.body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and not x.decorator_list]
        if len(m) > 1 and not any("enum" in ast.unparse(b).lower() for b in c.bases):
            rest = [x for x in c.body if x not in m]
            c.body = rest + m[::-1]
        return c


class MatchCase(Stmts):
    """chains of isinstance on one name -> match statement"""

    def stmt(self, s):
        if not isinstance(s, ast.If):
            return None
        cases, cur, subject = [], s, None
        while True:
            t = cur.test
            if not (isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and isinstance(t.args[1], ast.Name)):
                return None
            if subject is None:
                subject = ast.unparse(t.args[0])
                sub = t.args[0]
            elif ast.unparse(t.args[0]) != subject:
                return None
            cases.append(ast.match_case(ast.MatchClass(name(t.args[1].id), [], [], []), None, cur.body))
            if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                cur = cur.orelse[0]
                continue
            if cur.orelse:
                cases.append(ast.match_case(ast.MatchAs(), None, cur.orelse))
            break
        if t.args[1].id in ("bytes", "str", "int"):
            return None
        return [ast.Match(sub, cases)]


class EnumChain(Stmts):
    """`if x == E.A: return .. elif ...` -> sequence of ifs (bodies that end in return/raise only)"""

    def stmt(self, s):
        if isinstance(s, ast.If) and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and s.orelse:
            rest, s.orelse = s.orelse, []
            return [s] + rest


class TryElse(Stmts):
    """`try: a; b except` left; `try: return f() except` -> try: r = f() except ... else: return r"""

    def stmt(self, s):
        if isinstance(s, ast.Try) and not s.orelse and not s.finalbody and isinstance(s.body[-1], ast.Return) and s.body[-1].value is not None:
            n = fresh("value")
            s.body[-1:] = [assign(n, s.body[-1].value)]
            s.orelse = [ast.Return(name(n))]
            return [s]


class DelPop(Stmts):
    """`d.pop(k)` as a statement, d an attribute that is made as {} or dict() in this file -> del d[k]"""

    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "pop" and len(s.value.args) == 1 and ast.unparse(s.value.func.value) in DICTS:
            return [ast.Delete([ast.Subscript(s.value.func.value, s.value.args[0], ast.Del())])]


DICTS = set()


class GetIn(Exprs):
    """`d.get(k)` on own dicts -> `d[k] if k in d else None`"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) in (1, 2) and ast.unparse(n.func.value) in DICTS and isinstance(n.args[0], ast.Name):
            d = n.args[1] if len(n.args) == 2 else ast.Constant(None)
            return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [n.func.value]), ast.Subscript(n.func.value, n.args[0], ast.Load()), d)
        return n


KINDS = {k: v for k, v in globals().items() if isinstance(v, type) and k not in ("Stmts", "Exprs", "ToModule")}


def main():
    src, dst, kinds = sys.argv[1], sys.argv[2], sys.argv[3].split(",")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(os.path.join(src, "scaled"), os.path.join(dst, "scaled"), ignore=shutil.ignore_patterns("__pycache__"))
    for f in os.listdir(src):
        if f.endswith((".toml", ".py", ".md")):
            shutil.copy(os.path.join(src, f), dst)
    only = sys.argv[4].split(",") if len(sys.argv) > 4 else None
    for k in kinds:
        shared = KINDS[k](dst) if k in ("Keywords", "RenamePrivate") else None
        for dp, _, fs in os.walk(os.path.join(dst, "scaled")):
            for f in sorted(fs):
                if not f.endswith(".py") or only and not any(o in os.path.join(dp, f) for o in only):
                    continue
                p = os.path.join(dp, f)
                text = open(p).read()
                tree = ast.parse(text)
                DICTS.clear()
                for x in ast.walk(tree):
                    if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(x.value, ast.Dict | ast.Call):
                        if isinstance(x.value, ast.Dict) or ast.unparse(x.value.func) in ("dict", "defaultdict"):
                            DICTS.update(ast.unparse(t) for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))
                t = shared or KINDS[k]()
                tree = ast.fix_missing_locations(t.visit(tree))
                out = ast.unparse(tree)
                compile(out, p, "exec")
                open(p, "w").write(out + "\n")


if __name__ == "__main__":
    main()
