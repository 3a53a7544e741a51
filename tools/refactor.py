#!/usr/bin/env python3
"""Behaviour-preserving rewriting of a whole copy of the repository, to see that the
checks stay quiet: tools/refactor.py SRC DST [kinds].  Every function is split into a
wrapper and a helper, locals and private members renamed, branches inverted, loops
rewritten, results and arguments put in variables."""
import ast
import os
import shutil
import sys

SKIP_PRIVATE = {'_sock', '_tunnel', '_read_status', '_tunnel_host', '_tunnel_port', '_tunnel_headers', '_orig_stream'}


class Locals(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        if n.id in self.names:
            n.id = self.names[n.id]
        return n

    def visit_ExceptHandler(self, n):
        if n.name in self.names:
            n.name = self.names[n.name]
        self.generic_visit(n)
        return n


class Rewrite(ast.NodeTransformer):
    def __init__(self, kinds):
        self.kinds = kinds
        self.n = 0
        self.cls = []

    def tmp(self):
        self.n += 1
        return 'tmp_%d_' % self.n

    def visit_If(self, n):
        self.generic_visit(n)
        if 'invert' in self.kinds and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        if 'loops' in self.kinds and not n.orelse and not (isinstance(n.test, ast.Constant) and n.test.value is True):
            n.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], []))
            n.test = ast.Constant(True)
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if 'results' in self.kinds and n.value is not None and not isinstance(n.value, (ast.Constant, ast.Name)):
            t = self.tmp()
            return [ast.Assign([ast.Name(t, ast.Store())], n.value), ast.Return(ast.Name(t, ast.Load()))]
        return n

    def visit_Expr(self, n):
        self.generic_visit(n)
        v = n.value
        if ('args' in self.kinds and isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and v.args and
                not isinstance(v.args[0], (ast.Constant, ast.Name, ast.Starred)) and not any(isinstance(x, (ast.Yield, ast.Lambda)) for x in ast.walk(v))
                and not any(isinstance(x, ast.Call) for x in ast.walk(v.func))):
            t = self.tmp()
            a = ast.Assign([ast.Name(t, ast.Store())], v.args[0])
            v.args[0] = ast.Name(t, ast.Load())
            return [a, n]
        return n

    def visit_AugAssign(self, n):
        if 'augmented' in self.kinds and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name):
            load = ast.Attribute(n.target.value, n.target.attr, ast.Load())
            return ast.Assign([n.target], ast.BinOp(load, n.op, n.value))
        return n

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        self.generic_visit(n)
        self.cls.pop()
        if 'helpers' in self.kinds:
            out = []
            for s in n.body:
                out += self.split(s, n.name)
            n.body = out
        return n

    def split(self, s, cls):
        if not isinstance(s, ast.FunctionDef) or s.decorator_list or len(s.body) < 2 or s.name.startswith('__') and s.name != '__next__':
            return [s]
        if any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(s)):
            return [s]
        a = s.args
        if not a.args or a.args[0].arg not in ('self', 'cls') or a.kwonlyargs:
            return [s]
        name = 'impl_%s_%s' % (cls.lower(), s.name.strip('_'))
        args = [ast.Name(x.arg, ast.Load()) for x in a.args[1:]]
        if a.vararg:
            args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
        kw = [ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []
        call = ast.Call(ast.Attribute(ast.Name(a.args[0].arg, ast.Load()), name, ast.Load()), args, kw)
        wrapper = ast.FunctionDef(s.name, a, [ast.Return(call)], [], None)
        helper = ast.FunctionDef(name, ast.arguments(posonlyargs=[], args=a.args, vararg=a.vararg, kwonlyargs=[], kw_defaults=[], kwarg=a.kwarg, defaults=[]), s.body, [], None)
        return [wrapper, helper]

    def visit_FunctionDef(self, n):
        if 'locals' in self.kinds and not any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef)) for y in n.body for x in ast.walk(y)):
            params = {x.arg for x in n.args.args + n.args.kwonlyargs} | {x.arg for x in (n.args.vararg, n.args.kwarg) if x}
            stored = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {
                x.name for x in ast.walk(n) if isinstance(x, ast.ExceptHandler) and x.name}
            imported = {y.asname or y.name for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for y in x.names}
            names = {x: 'the_' + x for x in stored - params - imported}
            n.body = [Locals(names).visit(s) for s in n.body]
        self.generic_visit(n)
        return n


class Private(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in self.names:
            n.attr = self.names[n.attr]
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name in self.names:
            n.name = self.names[n.name]
        return n


def main():
    src, dst = sys.argv[1:3]
    kinds = sys.argv[3].split(',') if len(sys.argv) > 3 else ['invert', 'loops', 'results', 'args', 'augmented', 'helpers', 'locals', 'private']
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst, symlinks=True)
    d = os.path.join(dst, 'warcio')
    tests = ''.join(open(os.path.join(src, 'test', f), errors='replace').read() for f in os.listdir(os.path.join(src, 'test')) if f.endswith('.py'))
    trees = {}
    private = set()
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            trees[f] = ast.parse(open(os.path.join(d, f)).read())
            for c in ast.walk(trees[f]):
                if isinstance(c, ast.ClassDef):
                    private |= {x.name for x in c.body if isinstance(x, ast.FunctionDef)}
                elif isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Store):
                    private.add(c.attr)
    names = {x: '_p' + x for x in private if x.startswith('_') and not x.startswith('__') and x not in SKIP_PRIVATE and x not in tests} if 'private' in kinds else {}
    for f, t in trees.items():
        t = Private(names).visit(t)
        t = Rewrite(kinds).visit(t)
        ast.fix_missing_locations(t)
        with open(os.path.join(d, f), 'w') as fh:
            fh.write(ast.unparse(t) + '\n')
    print('renamed:', ' '.join(sorted(names)))


if __name__ == '__main__':
    main()
