"""Shared harness pieces."""
from symx.core import sand, sor, snot, simplies, site, SymInt, SymReal, SymBool, SymNum, SymComplex  # noqa: F401


def job(name, fn, bounds='', cost=1, opts=None, attrs=None, budget=None, max_witnesses=6, **params):
    j = dict(name=name, fn=fn, params=params, bounds=bounds, cost=cost, opts=opts or {}, attrs=attrs or {},
             max_witnesses=max_witnesses)
    if budget:
        j['budget'] = budget
    return j


def source_ints(files, lo, hi, most=6):
    """Integers these source files compare something with (read from the current tree), so that values around them are looked at."""
    import ast
    import os
    from symx import loader
    out = set()
    for f in files:
        try:
            tree = ast.parse(open(os.path.join(loader.REPO_SRC, f)).read())
        except (OSError, SyntaxError):
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Compare):
                for x in ast.walk(node):
                    if isinstance(x, ast.Constant) and type(x.value) in (int, float) and x.value == int(x.value) and lo < x.value <= hi:
                        out.add(int(x.value))
    return sorted(out)[:most]
