"""symx.ifconv - if-conversion of kernels.

Rewrites, from the kernel's own current source, every `if` whose branches only assign (to names already
bound, or to array elements) into predicated assignments when the condition is symbolic:

    if c:  A[i] = v      ->     A[i] = ite(c, v, A[i])

so that a symbolic condition does not fork the execution.  Concrete conditions keep the original statement.
"""
from __future__ import annotations

import ast
import inspect
import textwrap

from .core import Inconclusive, is_sym, ite, l_and, l_not, norm


def _pure(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Call, ast.Await, ast.Yield, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.IfExp)):
            return False
    return True


class Conv(ast.NodeTransformer):
    def __init__(self, args):
        self.bound = set(args)
        self.n = 0
        self.done = 0

    # ---- statements in textual order, so `bound` is what may have been assigned before
    def visit_FunctionDef(self, node):
        if self.n == 0:
            self.n = 1
            node.decorator_list = []
            node.returns = None
            for a in node.args.args + node.args.kwonlyargs:
                a.annotation = None
            node.body = self.block(node.body)
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.stmt(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def stmt(self, s):
        if isinstance(s, ast.If):
            c = self.convert(s)
            if c is not None:
                return c
            s.body = self.block(s.body)
            s.orelse = self.block(s.orelse)
            return s
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.names(s.target)
            s.body = self.block(s.body)
            s.orelse = self.block(s.orelse)
            return s
        if isinstance(s, ast.Assign):
            for t in s.targets:
                self.names(t)
        elif isinstance(s, ast.AnnAssign):
            self.names(s.target)
        return s

    def names(self, t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                self.bound.add(n.id)

    def simple(self, body):
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and _pure(s.value):
                t = s.targets[0]
                if isinstance(t, ast.Name) and t.id in self.bound:
                    continue
                if isinstance(t, ast.Subscript) and _pure(t) and not any(isinstance(x, ast.Slice) for x in ast.walk(t)):
                    continue
                return False
            if isinstance(s, ast.AugAssign) and _pure(s.value):
                t = s.target
                if isinstance(t, ast.Name) and t.id in self.bound:
                    continue
                if isinstance(t, ast.Subscript) and _pure(t) and not any(isinstance(x, ast.Slice) for x in ast.walk(t)):
                    continue
                return False
            if isinstance(s, ast.If) and self.simple(s.body) and self.simple(s.orelse):
                continue
            if isinstance(s, ast.Pass):
                continue
            return False
        return True

    def convert(self, s):
        if not (self.simple(s.body) and self.simple(s.orelse)):
            return None
        self.done += 1
        return self.pred(s, None)

    def pred(self, s, outer):
        self.n += 1
        c = "_symx_c%d" % self.n
        cond = s.test
        pre = [ast.Assign([ast.Name(c, ast.Store())], ast.Call(ast.Name("_symx_cond", ast.Load()), [cond] + ([ast.Name(outer, ast.Load())] if outer else []), []))]
        sym = self.assigns(s.body, c)
        if s.orelse:
            self.n += 1
            d = "_symx_c%d" % self.n
            sym.append(ast.Assign([ast.Name(d, ast.Store())], ast.Call(ast.Name("_symx_not", ast.Load()), [ast.Name(c, ast.Load())] + ([ast.Name(outer, ast.Load())] if outer else []), [])))
            sym += self.assigns(s.orelse, d)
        if outer:
            return pre + sym
        orig = ast.If(ast.Name(c, ast.Load()), s.body, s.orelse)
        return pre + [ast.If(ast.Call(ast.Name("_symx_is", ast.Load()), [ast.Name(c, ast.Load())], []), sym, [orig])]

    def assigns(self, body, c):
        out = []
        for s in body:
            if isinstance(s, ast.Assign):
                t, v = s.targets[0], s.value
                out.append(self.merge(t, v, c))
            elif isinstance(s, ast.AugAssign):
                t = s.target
                out.append(self.merge(t, ast.BinOp(_load(t), s.op, s.value), c))
            elif isinstance(s, ast.If):
                out += self.pred(s, c)
        return out or [ast.Pass()]

    @staticmethod
    def merge(t, v, c):
        return ast.Assign([_copy(t)], ast.Call(ast.Name("_symx_ite", ast.Load()), [ast.Name(c, ast.Load()), v, _load(t)], []))


def _copy(n):
    return ast.parse(ast.unparse(n) + " = 0").body[0].targets[0]


def _load(n):
    return ast.parse(ast.unparse(n), mode="eval").body


def _cond(c, outer=True):
    return l_and(outer, norm(c)) if outer is not True else norm(c)


def _not(c, outer=True):
    return l_and(outer, l_not(c)) if outer is not True else l_not(c)


def _ite(c, a, b):
    c = norm(c)
    if not is_sym(c):
        return a if c else b
    return ite(c, norm(a), norm(b))


def convert(f):
    """python function -> equivalent function that merges instead of forking; f itself when not applicable"""
    try:
        src = textwrap.dedent(inspect.getsource(f))
        tree = ast.parse(src)
        fd = tree.body[0]
        if not isinstance(fd, ast.FunctionDef) or f.__closure__:
            return f
        cv = Conv([a.arg for a in fd.args.args + fd.args.kwonlyargs])
        cv.visit(fd)
        if not cv.done:
            return f
        ast.fix_missing_locations(tree)
        g = f.__globals__
        g.setdefault("_symx_cond", _cond)
        g.setdefault("_symx_not", _not)
        g.setdefault("_symx_ite", _ite)
        g.setdefault("_symx_is", is_sym)
        loc = {}
        exec(compile(tree, inspect.getsourcefile(f) or "<kernel>", "exec"), g, loc)
        h = loc[fd.name]
        h.__defaults__, h.__kwdefaults__, h.__qualname__ = f.__defaults__, f.__kwdefaults__, f.__qualname__
        return h
    except (OSError, SyntaxError, TypeError, Inconclusive):
        return f
