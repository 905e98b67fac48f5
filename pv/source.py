"""Source ASTs of the real functions, read from /repo/src on every run."""
import ast, os, types
from . import env

_files = {}

def _index(path):
    ent = _files.get(path)
    if ent is None:
        with open(path, "rb") as f:
            src = f.read()
        tree = ast.parse(src)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                first = min([n.lineno] + [d.lineno for d in n.decorator_list])
                idx[(first, n.name)] = n
            elif isinstance(n, ast.Lambda):
                idx.setdefault((n.lineno, "<lambda>"), []).append(n)
        ent = _files[path] = (tree, idx)
    return ent

def in_repo(fn):
    code = getattr(fn, "__code__", None)
    return code is not None and os.path.abspath(code.co_filename).startswith(env.SRC + os.sep)

def node_of(fn):
    code = fn.__code__
    tree, idx = _index(os.path.abspath(code.co_filename))
    n = idx.get((code.co_firstlineno, code.co_name))
    if isinstance(n, list):
        return n[0] if len(n) == 1 else None
    return n

def is_generator(node):
    """Does the function's own body contain yield?"""
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False

def locals_of(node):
    """Names assigned in a function body (its local variables)."""
    out, glob = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg: out.add(a.vararg.arg)
    if a.kwarg: out.add(a.kwarg.arg)
    def walk(n, comp):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Global):
            glob.update(n.names); return
        if isinstance(n, ast.Nonlocal):
            glob.update(n.names); return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets leak
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split(".")[0])
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c, comp)
    for s in (node.body if isinstance(node.body, list) else [node.body]):
        walk(s, False)
    return out - glob
