#!/usr/bin/env python3
"""Random mutation campaign: mutate.py OUT.txt N SEED FILE=C01,C02 [FILE=...]
Applies N random syntactic changes per file to scratch copies of the package and runs the quick checks given for it,
stopping at the first that notices; survivors are printed with their diff.  Development aid only."""
import ast, copy, difflib, os, random, shutil, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
REPO = os.environ.get('VERIF_REPO', '/repo')
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}


def sites(tree):
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr):
            doc.add(id(n.body[0].value))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare): out.append((n, 'cmp'))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN: out.append((n, 'bin'))
        elif isinstance(n, ast.BoolOp): out.append((n, 'bool'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)): out.append((n, 'un'))
        elif isinstance(n, ast.Constant) and id(n) not in doc and isinstance(n.value, (int, float, bool)): out.append((n, 'const'))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)): out.append((n, 'cond'))
        elif isinstance(n, ast.Call) and len(n.args) >= 2: out.append((n, 'args'))
        elif isinstance(n, ast.Call) and n.keywords: out.append((n, 'kw'))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'astype', 'sort_values', 'reset_index') : out.append((n, 'drop'))
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.With, ast.While, ast.Try)):
            for i, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                        not (isinstance(s.value.func, ast.Name) and s.value.func.id == 'print'):
                    out.append(((n, i), 'del'))
            if len(n.body) >= 2: out.append((n, 'swap'))
    return out


def apply(site, kind, rng):
    n = site
    if kind == 'cmp': n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == 'bin': n.op = BIN[type(n.op)]()
    elif kind == 'bool': n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'un':
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
        if isinstance(n.op, ast.Not): n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif kind == 'const': n.value = (not n.value) if isinstance(n.value, bool) else n.value + rng.choice((1, -1))
    elif kind == 'cond': n.test = ast.Constant(rng.random() < .5)
    elif kind == 'args': n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == 'kw': n.keywords.pop(rng.randrange(len(n.keywords)))
    elif kind == 'drop': n.func.attr, n.args, n.keywords = 'copy' if n.func.attr != 'copy' else 'view', [], []
    elif kind == 'del': n[0].body[n[1]] = ast.Pass()
    elif kind == 'swap':
        i = rng.randrange(len(n.body) - 1)
        n.body[i], n.body[i + 1] = n.body[i + 1], n.body[i]


def main():
    out, n, seed = open(sys.argv[1], 'a', buffering=1), int(sys.argv[2]), int(sys.argv[3])
    for spec in sys.argv[4:]:
        f, checks = spec.split('=')
        src = open(os.path.join(REPO, 'CHECLabPy', f)).read()
        base = ast.unparse(ast.parse(src))
        rng = random.Random('%s %d' % (f, seed))
        k = len(sites(ast.parse(src)))
        idx = rng.sample(range(k), min(n, k))
        caught = 0
        for i in idx:
            tree = ast.parse(src)
            try:
                apply(*sites(tree)[i], rng)
                new = ast.unparse(ast.fix_missing_locations(tree))
                compile(new, f, 'exec')
            except Exception as e:
                continue
            if new == base:
                continue
            d = tempfile.mkdtemp(prefix='mut_')
            try:
                shutil.copytree(os.path.join(REPO, 'CHECLabPy'), d + '/CHECLabPy', ignore=shutil.ignore_patterns('__pycache__'))
                open(os.path.join(d, 'CHECLabPy', f), 'w').write(new)
                res = 'SURVIVED'
                for c in checks.split(','):
                    r = subprocess.run([sys.executable, os.path.join(V, 'harness/check.py'), c, 'quick'], env=dict(os.environ, VERIF_REPO=d, VERIF_FAST='1'),
                                       capture_output=True, text=True)
                    if r.returncode == 1:
                        res = 'caught'
                        break
                    if r.returncode:
                        res = 'ERR%d %s' % (r.returncode, r.stderr[-200:])
            finally:
                shutil.rmtree(d, ignore_errors=True)
            if res == 'caught':
                caught += 1
                continue
            diff = [l for l in difflib.unified_diff(base.splitlines(), new.splitlines(), lineterm='', n=1) if not l.startswith(('---', '+++'))]
            out.write('%s %s\n%s\n\n' % (res, f, '\n'.join(diff)))
        out.write('== %s: %d of %d caught\n\n' % (f, caught, len(idx)))


main()
