#!/usr/bin/env python3-vt
"""Apply a set of hand-made, behaviour-preserving rewritings (tools/hand/<set>.py) to a copy of /repo.

A set holds DEFS: {file: source} with functions (top level or inside `class X:`) which replace those of the same name
(new names are added to the class or module), and SUBS: [(file, old, new, count or 0 for all)].  The copy goes to
/tmp/rf_<set>; tools/refactor_run.sh <set> then runs every check against it."""
import ast
import os
import shutil
import subprocess
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))


def span(n):
    return min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1, n.end_lineno


def put(path, src):
    for node in ast.parse(src).body:
        new = "\n".join(src.splitlines()[slice(*span(node))]) if not isinstance(node, (ast.Import, ast.ImportFrom)) else ast.unparse(node)
        text = open(path).read()
        lines = text.splitlines()
        tree = ast.parse(text)
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            first = [n for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom))][0]
            lines.insert(first.lineno - 1, new)
        elif isinstance(node, ast.FunctionDef):
            old = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == node.name]
            if old:
                a, b = span(old[0])
                lines[a:b] = new.splitlines()
            else:
                at = [n for n in tree.body if isinstance(n, (ast.ClassDef, ast.FunctionDef))][0]
                a, _ = span(at)
                lines[a:a] = new.splitlines() + ["", ""]
        elif isinstance(node, ast.Assign):
            at = [n for n in tree.body if isinstance(n, (ast.ClassDef, ast.FunctionDef))][0]
            lines[span(at)[0]:span(at)[0]] = new.splitlines() if hasattr(node, "decorator_list") else [ast.unparse(node), "", ""]
        else:
            for f in node.body:
                code = "\n".join(src.splitlines()[slice(*span(f))]) if isinstance(f, ast.FunctionDef) else " " * 4 + ast.unparse(f)
                text = "\n".join(lines) + "\n"
                lines = text.splitlines()
                cls = [n for n in ast.parse(text).body if isinstance(n, ast.ClassDef) and n.name == node.name][0]
                old = [n for n in cls.body if isinstance(n, ast.FunctionDef) and n.name == getattr(f, "name", None)]
                if old:
                    a, b = span(old[0])
                    lines[a:b] = code.splitlines()
                else:
                    lines[cls.end_lineno:cls.end_lineno] = [""] + code.splitlines()
        text = "\n".join(lines) + "\n"
        ast.parse(text)
        open(path, "w").write(text)


# Assign nodes have no decorators
ast.Assign.decorator_list = []
ast.Import.decorator_list = ast.ImportFrom.decorator_list = []


def main():
    for name in sys.argv[1:]:
        ns = {}
        exec(open(os.path.join(HERE, "hand", name + ".py")).read(), ns)
        dst = "/tmp/rf_" + name
        shutil.rmtree(dst, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", dst])
        for f, src in ns.get("DEFS", {}).items():
            put(os.path.join(dst, f), textwrap.dedent(src))
        for f, fn in ns.get("DROP", []):
            p = os.path.join(dst, f)
            t = open(p).read()
            a, b = [span(n) for n in ast.parse(t).body if getattr(n, "name", None) == fn][0]
            t = t.splitlines()
            del t[a:b]
            open(p, "w").write("\n".join(t) + "\n")
        for f, old, new, cnt in ns.get("SUBS", []):
            p = os.path.join(dst, f)
            t = open(p).read()
            if t.count(old) != cnt and cnt or not t.count(old):
                sys.exit("%s: %r occurs %d times" % (f, old, t.count(old)))
            open(p, "w").write(t.replace(old, new))
        for p in subprocess.check_output(["git", "-C", dst, "diff", "--name-only"], text=True).split():
            if p.endswith(".py"):
                compile(open(os.path.join(dst, p)).read(), p, "exec")
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "computing/test_d_table.py"], cwd=dst, capture_output=True, text=True)
        print(name, r.returncode, r.stdout.strip().splitlines()[-1], subprocess.check_output(["git", "-C", dst, "diff", "--shortstat"], text=True).strip())


main()
