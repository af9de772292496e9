"""Greedy reduction of a program that shows a disagreement (used for reports and replays)."""
import ast
import copy
import time


def _blocks(tree):
    for node in ast.walk(tree):
        for f in ("body", "orelse"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield node, f


def _candidates(tree):
    """yield functions that mutate a deep copy of the tree"""
    nb = list(_blocks(tree))
    for bi in range(len(nb)):
        node, f = nb[bi]
        n = len(getattr(node, f))
        step = max(1, n // 2)
        while step >= 1:
            for i in range(0, n, step):

                def m(t, bi=bi, i=i, step=step):
                    node, f = list(_blocks(t))[bi]
                    b = getattr(node, f)
                    del b[i : i + step]
                    if not b and not (f == "orelse"):
                        b.append(ast.Pass())

                yield m
            if step == 1:
                break
            step //= 2
        for i in range(n):
            st = getattr(node, f)[i]
            if isinstance(st, (ast.If, ast.For, ast.While)):
                for part in ("body", "orelse"):
                    if getattr(st, part):

                        def m(t, bi=bi, i=i, part=part):
                            node, f = list(_blocks(t))[bi]
                            b = getattr(node, f)
                            b[i : i + 1] = getattr(b[i], part)

                        yield m
    exprs = [n for n in ast.walk(tree) if isinstance(n, ast.expr)]
    for ei, e in enumerate(exprs):
        kids = [k for k in ast.iter_child_nodes(e) if isinstance(k, ast.expr)]
        for ki in range(min(3, len(kids))):
            if isinstance(e, (ast.Name, ast.Constant)):
                continue

            def m(t, ei=ei, ki=ki):
                exprs = [n for n in ast.walk(t) if isinstance(n, ast.expr)]
                target = exprs[ei]
                kid = [k for k in ast.iter_child_nodes(target) if isinstance(k, ast.expr)][ki]
                for p in ast.walk(t):
                    for fld, v in ast.iter_fields(p):
                        if v is target:
                            setattr(p, fld, kid)
                        elif isinstance(v, list):
                            for j, x in enumerate(v):
                                if x is target:
                                    v[j] = kid

            yield m


def _sig(tree):
    """parts that fix the meaning of the arguments"""
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            out.append((n.name, ast.dump(n.args)))
        elif isinstance(n, ast.ClassDef):
            out.append((n.name, tuple(ast.dump(x) for x in n.body if not isinstance(x, ast.FunctionDef))))
    return set(out)


def _odd(tree):
    return any(
        isinstance(n, ast.Expr) and isinstance(n.value, (ast.Name, ast.Attribute))
        for n in ast.walk(tree)
    )


def shrink(source, fails, seconds=60):
    """fails(source) -> bool"""
    end = time.time() + seconds
    try:
        tree = ast.parse(source)
    except SyntaxError:
        return source
    sig = _sig(tree)
    odd = _odd(tree)
    improved = True
    while improved and time.time() < end:
        improved = False
        for m in list(_candidates(tree)):
            if time.time() > end:
                break
            t = copy.deepcopy(tree)
            try:
                m(t)
                src = ast.unparse(ast.fix_missing_locations(t))
            except Exception:
                continue
            if not _sig(t) <= sig or (_odd(t) and not odd):
                continue
            if len(src) >= len(ast.unparse(tree)):
                continue
            if fails(src):
                tree = t
                improved = True
                break
    return ast.unparse(tree)
