#!/usr/bin/env python3
"""Development tool: behaviour-preserving rewrites of the whole repository, to see that the checks judge behaviour, not text.

python3 tools/refactor.py OUT [kind ...]   copies /repo to OUT and rewrites its sources (not the tests).  Kinds: locals, returns, branches,
conditions, loops, delegate, noop.  Then run the checks with VRT_REPO=OUT.
"""
import ast
import os
import subprocess
import sys


class Locals(ast.NodeTransformer):
    """Rename local variables of functions without nested scopes that close over them differently."""

    def visit_FunctionDef(self, f):
        params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
        for x in (f.args.vararg, f.args.kwarg):
            if x:
                params.add(x.arg)
        skip, stored = set(), set()
        for n in ast.walk(f):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                skip.update(n.names)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
                skip.add(n.name)
                skip.update(a.arg for a in getattr(n, "args", ast.arguments([], [], None, [], [], None, [])).args)
            if isinstance(n, ast.Lambda):
                skip.update(a.arg for a in n.args.args)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                skip.update((a.asname or a.name).split(".")[0] for a in n.names)
            if isinstance(n, ast.ExceptHandler) and n.name:
                skip.add(n.name)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stored.add(n.id)
        names = stored - params - skip
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = n.id + "_local"
        return f


class Returns(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        return f

    def visit_Return(self, r):
        if r.value is None or isinstance(r.value, ast.Constant):
            return r
        return [ast.Assign([ast.Name("outcome_", ast.Store())], r.value), ast.Return(ast.Name("outcome_", ast.Load()))]

    def visit_Lambda(self, n):
        return n


class Branches(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse or (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return n
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Conditions(ast.NodeTransformer):
    k = 0

    def body(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.If) and self.infunc:
                Conditions.k += 1
                v = "holds_%d" % Conditions.k
                out.append(ast.Assign([ast.Name(v, ast.Store())], s.test))
                s.test = ast.Name(v, ast.Load())
            out.append(s)
        return out
    infunc = 0

    def generic_visit(self, n):
        if isinstance(n, ast.FunctionDef):
            self.infunc += 1
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and not (f == "orelse" and isinstance(n, ast.If) and len(b) == 1 and isinstance(b[0], ast.If)):
                setattr(n, f, self.body(b))
        if isinstance(n, ast.FunctionDef):
            self.infunc -= 1
        return n


class Loops(ast.NodeTransformer):
    """for x in seq -> iterate over an explicit list (or, for range, a while loop when there is no continue)."""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        def conts(stmts):
            for s in stmts:
                if isinstance(s, ast.Continue):
                    return True
                if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
                    continue
                for f in ("body", "orelse", "handlers", "finalbody"):
                    b = getattr(s, f, [])
                    for x in b if isinstance(b, list) else []:
                        if conts(x.body if isinstance(x, ast.ExceptHandler) else [x]):
                            return True
            return False
        Loops.k += 1
        v, it = "step_%d" % Loops.k, "items_%d" % Loops.k
        is_range = isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range"
        if is_range and not conts(n.body):
            inc = ast.parse("%s = %s + 1" % (v, v)).body
            return ast.parse("%s = list(%s)" % (it, ast.unparse(n.iter))).body + ast.parse("%s = 0" % v).body + [
                ast.While(ast.parse("%s < len(%s)" % (v, it), mode="eval").body,
                          [ast.Assign([n.target], ast.parse("%s[%s]" % (it, v), mode="eval").body)] + inc + n.body, [])]
        return n


class Delegate(ast.NodeTransformer):
    """Every ordinary method hands over to a helper method that holds its former body."""

    def visit_ClassDef(self, c):
        out = []
        for s in c.body:
            if isinstance(s, ast.FunctionDef) and not s.name.startswith("__") and not s.decorator_list and not s.args.vararg and not s.args.kwarg \
                    and s.args.args and s.args.args[0].arg == "self" and "super()" not in ast.unparse(s) and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s)):
                h = ast.FunctionDef("%s_body_%s" % (s.name, c.name.lower()), ast.arguments([], [ast.arg(a.arg) for a in s.args.args], None, [], [], None, []), s.body, [], None, lineno=0, type_params=[])
                call = "return self.%s(%s)" % (h.name, ", ".join("%s=%s" % (a.arg, a.arg) for a in s.args.args[1:]))
                s.body = ast.parse(call).body
                out += [s, h]
            else:
                out.append(s)
        c.body = out
        return c


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(i, ast.parse("unused_ = None").body[0])
        return f


KINDS = dict(locals=Locals, returns=Returns, branches=Branches, conditions=Conditions, loops=Loops, delegate=Delegate, noop=Noop)


def main():
    out, kinds = sys.argv[1], sys.argv[2:] or list(KINDS)
    assert out.startswith("/tmp/")
    subprocess.check_call(["cp", "-a", "/repo", out])
    files = subprocess.check_output(["git", "-C", "/repo", "ls-files", "*.py"], text=True).split()
    n = 0
    for f in files:
        if "test" in f or f.endswith("_pb2.py"):
            continue
        p = os.path.join(out, f)
        t = ast.parse(open(p).read())
        for k in kinds:
            t = ast.fix_missing_locations(KINDS[k]().visit(t))
        s = ast.unparse(t) + "\n"
        compile(s, f, "exec")
        open(p, "w").write(s)
        n += 1
    print("%d files rewritten (%s)" % (n, " ".join(kinds)))


if __name__ == "__main__":
    main()
