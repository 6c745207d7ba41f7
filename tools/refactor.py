#!/usr/bin/env python3
"""refactor.py KIND DEST : copy of /repo in DEST whose beer/ package is rewritten by a
behaviour-preserving transformation (robustness of the proofs, see DESIGN.md).
KIND: temps, commute, helper, enum, while, torchfn, methods, comp"""
import ast
import copy
import os
import shutil
import subprocess
import sys

UNARY = {'exp', 'log', 'sum', 'mean', 'sqrt', 'abs', 'diagonal', 'digamma', 'lgamma', 'cumsum', 'clone',
         'reshape', 'logsumexp', 'numel_'}
SKIPFILES = {'vae-old.py', 'vbi.py', 'lm.py', 'lds.py', 'linearreg.py', 'marginalpldaset.py'}


def tname(k):
    return ast.Name(id=f'tmp_{k}', ctx=ast.Load())


class Base(ast.NodeTransformer):
    n = 0

    def new(self):
        Base.n += 1
        return f'tmp_{Base.n}'


class Temps(Base):
    'return e -> t = e; return t ; x = f(e1, e2) -> t = e1; x = f(t, e2)'

    def visit_Return(self, node):
        if node.value is None or isinstance(node.value, (ast.Name, ast.Constant)):
            return node
        t = self.new()
        return [ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=node.value),
                ast.Return(value=ast.Name(id=t, ctx=ast.Load()))]

    def visit_Assign(self, node):
        v = node.value
        if isinstance(v, ast.BinOp) and not isinstance(v.left, (ast.Name, ast.Constant)):
            t = self.new()
            pre = ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=v.left)
            v.left = ast.Name(id=t, ctx=ast.Load())
            return [pre, node]
        return node


class Commute(Base):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mult):
            node.left, node.right = node.right, node.left
        elif isinstance(node.op, ast.Sub):
            return ast.BinOp(left=ast.UnaryOp(op=ast.USub(), operand=node.right), op=ast.Add(), right=node.left)
        return node


class Helper(Base):
    'body of every function moved to an inner function'

    def visit_FunctionDef(self, node):
        src = ast.unparse(node)
        if 'super()' in src or 'yield' in src or 'nonlocal' in src or node.name.startswith('__init_sub'):
            return node
        a = node.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            return node
        if len(node.body) == 1 and isinstance(node.body[0], ast.Pass):
            return node
        names = [x.arg for x in a.posonlyargs + a.args]
        k = self.new()
        inner = ast.FunctionDef(name=k, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names],
                                                           kwonlyargs=[], kw_defaults=[], defaults=[]),
                                body=node.body, decorator_list=[])
        call = ast.Return(value=ast.Call(func=ast.Name(id=k, ctx=ast.Load()), args=[
            ast.Name(id=n, ctx=ast.Load()) for n in names], keywords=[]))
        node.body = [inner, call]
        return node


class Enum(Base):
    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        t = self.new()
        node.target = ast.Tuple(elts=[ast.Name(id=t, ctx=ast.Store()), node.target], ctx=ast.Store())
        node.iter = ast.Call(func=ast.Name(id='enumerate', ctx=ast.Load()), args=[node.iter], keywords=[])
        return node


class While(Base):
    def visit_For(self, node):
        self.generic_visit(node)
        it = node.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and \
                len(it.args) in (1, 2) and 'continue' not in ast.unparse(node) and isinstance(node.target, ast.Name):
            lo, hi = (ast.Constant(0), it.args[0]) if len(it.args) == 1 else it.args
            k = self.new()
            nm = lambda c: ast.Name(id=k, ctx=c)
            return [ast.Assign(targets=[nm(ast.Store())], value=lo),
                    ast.While(test=ast.Compare(left=nm(ast.Load()), ops=[ast.Lt()], comparators=[hi]), body=[
                        ast.Assign(targets=[node.target], value=nm(ast.Load()))] + node.body + [
                        ast.AugAssign(target=nm(ast.Store()), op=ast.Add(), value=ast.Constant(1))], orelse=[])]
        return node


def is_torch(n):
    return isinstance(n, ast.Name) and n.id in ('torch', 'math', 'np', 'random', 'self', 'super', 'F', 'nn')


class Methods(Base):
    'x.exp() -> torch.exp(x), x @ y -> torch.matmul(x, y)'

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in UNARY and not is_torch(f.value) and not isinstance(
                f.value, ast.Call) or isinstance(f, ast.Attribute) and f.attr in {'exp', 'log', 'sum'} and not is_torch(f.value):
            if isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name) and f.value.value.id in ('torch', 'math'):
                return node
            return ast.Call(func=ast.Attribute(value=ast.Name(id='torch', ctx=ast.Load()), attr=f.attr, ctx=ast.Load()),
                            args=[f.value] + node.args, keywords=node.keywords)
        if isinstance(f, ast.Attribute) and f.attr == 'view' and not is_torch(f.value):
            f.attr = 'reshape'
        if isinstance(f, ast.Attribute) and f.attr == 't' and not node.args:
            return ast.Call(func=ast.Attribute(value=f.value, attr='transpose', ctx=ast.Load()),
                            args=[ast.Constant(-1), ast.Constant(-2)], keywords=[]) if 0 else node
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.MatMult):
            return ast.Call(func=ast.Attribute(value=ast.Name(id='torch', ctx=ast.Load()), attr='matmul', ctx=ast.Load()),
                            args=[node.left, node.right], keywords=[])
        return node


class TorchFn(Base):
    'torch.exp(x) -> x.exp()'

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'torch' and \
                f.attr in {'exp', 'log', 'sum', 'logsumexp', 'diagonal', 'digamma', 'lgamma', 'sqrt', 'mean', 'cumsum',
                           'matmul', 'sigmoid', 'tanh', 'zeros_like_'} and node.args and not isinstance(node.args[0], ast.Constant):
            return ast.Call(func=ast.Attribute(value=node.args[0], attr=f.attr, ctx=ast.Load()),
                            args=node.args[1:], keywords=node.keywords)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        s = node.slice
        if isinstance(node.ctx, ast.Load) and isinstance(s, ast.Tuple) and len(s.elts) == 2 and isinstance(
                s.elts[0], ast.Slice) and not (s.elts[0].lower or s.elts[0].upper or s.elts[0].step) and isinstance(
                s.elts[1], ast.Constant) and s.elts[1].value is None:
            return ast.Call(func=ast.Attribute(value=node.value, attr='unsqueeze', ctx=ast.Load()),
                            args=[ast.Constant(1)], keywords=[])
        return node


class Comp(Base):
    'x = [f(i) for i in xs] -> explicit loop'

    def visit_Assign(self, node):
        v = node.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].is_async and len(
                node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            g = v.generators[0]
            k = self.new()
            body = [ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=k, ctx=ast.Load()), attr='append',
                                                         ctx=ast.Load()), args=[v.elt], keywords=[]))]
            for c in g.ifs:
                body = [ast.If(test=c, body=body, orelse=[])]
            return [ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())], value=ast.List(elts=[], ctx=ast.Load())),
                    ast.For(target=g.target, iter=g.iter, body=body, orelse=[]),
                    ast.Assign(targets=node.targets, value=ast.Name(id=k, ctx=ast.Load()))]
        return node


class IfInv(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            node.test = ast.UnaryOp(op=ast.Not(), operand=node.test)
            node.body, node.orelse = node.orelse, node.body
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        node.test = ast.UnaryOp(op=ast.Not(), operand=node.test)
        node.body, node.orelse = node.orelse, node.body
        return node


class Star(Base):
    'x[a] -> x[a, ...], x / y -> x * (1 / y) for y not an integer division'

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.BinOp(left=node.left, op=ast.Mult(), right=ast.BinOp(
                left=ast.Constant(1.), op=ast.Div(), right=node.right))
        if isinstance(node.op, ast.Pow) and isinstance(node.right, ast.Constant) and node.right.value == 2:
            return ast.BinOp(left=node.left, op=ast.Mult(), right=copy.deepcopy(node.left))
        return node


KINDS = dict(ifinv=IfInv, arith=Star, temps=Temps, commute=Commute, helper=Helper, enum=Enum, methods=Methods, torchfn=TorchFn, comp=Comp,
             **{'while': While})


def main():
    kind, dest = sys.argv[1:3]
    os.makedirs(dest)
    subprocess.run(['git', 'clone', '-q', '/repo', dest + '/repo'], check=True)
    for d, _, fs in os.walk(dest + '/repo/beer'):
        for f in fs:
            if f.endswith('.py') and f not in SKIPFILES:
                p = os.path.join(d, f)
                t = ast.parse(open(p).read())
                t = ast.fix_missing_locations(KINDS[kind]().visit(t))
                open(p, 'w').write(ast.unparse(t) + '\n')


if __name__ == '__main__':
    main()
