"""Mutation campaign (not a check): one-token mutants of the library, kept when the repository's tests still pass, then judged by the checks of the file.
usage: python3 tools/mutate.py FILE.py [FILE.py ...] [--every N] [--out LOG]      (scratch copies under /tmp/mut, removed at the end)"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'angle_deg.py': 'C01 C02 C03 C30 C31 C32 C05 C28 C04 C07 C15 C19', 'vector_2d.py': 'C04 C03 C30 C31 C32 C05 C28 C09 C13 C16 C23', 'line_2d.py': 'C06 C31 C32 C05 C28 C08 C11 C18 C13',
    'ray_2d.py': 'C07 C10 C30 C31 C32 C05 C28 C14 C18 C11', 'segment_2d.py': 'C08 C09 C10 C30 C31 C32 C05 C28 C14 C18 C11 C21', 'circle_2d.py': 'C11 C10 C31 C32 C05 C28 C13 C15', 'triangle_2d.py': 'C12 C13 C14 C10 C31 C32 C05 C28',
    'sector_2d.py': 'C15 C10 C30 C31 C05 C28', 'size_2d.py': 'C10 C16 C30 C31 C05 C28', 'rect_2d.py': 'C16 C17 C18 C31 C32 C05 C28 C22', 'matrix_2d.py': 'C19 C30 C31 C32 C05 C28',
    'polygon_2d.py': 'C20 C22 C21 C31 C05 C28', 'convex_hull.py': 'C24 C23 C31 C05 C28', 'soccer_math.py': 'C25 C26 C27 C05 C28', 'region_2d.py': 'C05', 'math_values.py': 'C01 C04 C08 C25 C26'}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}


def variants(node):
    """list of (description, mutate function on the copied node)"""
    out = []
    if isinstance(node, ast.Compare):
        for i, o in enumerate(node.ops):
            for n in CMP.get(type(o), []):
                out.append((f'cmp {type(o).__name__}->{n.__name__}', lambda x, i=i, n=n: x.ops.__setitem__(i, n())))
    elif isinstance(node, (ast.BinOp, ast.AugAssign)):
        for n in BIN.get(type(node.op), []):
            out.append((f'op {type(node.op).__name__}->{n.__name__}', lambda x, n=n: setattr(x, 'op', n())))
    elif isinstance(node, ast.BoolOp):
        n = ast.And if isinstance(node.op, ast.Or) else ast.Or
        out.append((f'bool->{n.__name__}', lambda x: setattr(x, 'op', n())))
    elif isinstance(node, ast.Constant) and type(node.value) in (int, float):
        v = node.value
        for w in {v + 1, -v if v else 0.001, v * 1.001 if v else 1e-9, 0 if v else 1} - {v}:
            out.append((f'const {v}->{w}', lambda x, w=w: setattr(x, 'value', w)))
    elif isinstance(node, ast.Constant) and type(node.value) is bool:
        out.append(('bool const', lambda x: setattr(x, 'value', not x.value)))
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
        out.append(('unary dropped', lambda x: setattr(x, 'op', ast.UAdd() if isinstance(x.op, ast.USub) else ast.Not()) if isinstance(x.op, ast.USub) else setattr(x, 'operand', ast.UnaryOp(ast.Not(), x.operand))))
    elif isinstance(node, ast.If):
        out.append(('if True', lambda x: setattr(x, 'test', ast.Constant(True))))
        out.append(('if False', lambda x: setattr(x, 'test', ast.Constant(False))))
    elif isinstance(node, ast.Call) and len(node.args) >= 2:
        out.append(('args swapped', lambda x: x.args.__setitem__(slice(0, 2), x.args[1::-1])))
    elif isinstance(node, ast.Attribute):
        for a, b in (('x', 'y'), ('_x', '_y'), ('_a', '_b'), ('left', 'right'), ('top', 'bottom'), ('min_x', 'min_y'), ('max_x', 'max_y'), ('_left', '_top'), ('origin', 'terminal'), ('_origin', '_terminal'), ('_length', '_width'), ('sin', 'cos'),
                     ('min', 'max'), ('floor', 'ceil')):
            if node.attr in (a, b):
                n = b if node.attr == a else a
                out.append((f'attr {node.attr}->{n}', lambda x, n=n: setattr(x, 'attr', n)))
    elif isinstance(node, ast.Name) and node.id in ('min', 'max'):
        out.append(('min/max', lambda x: setattr(x, 'id', 'max' if x.id == 'min' else 'min')))
    elif isinstance(node, (ast.Assign, ast.Expr, ast.Break, ast.Continue)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        out.append(('statement dropped', 'drop'))
    elif isinstance(node, ast.Return) and isinstance(node.value, ast.Call) and getattr(node.value.func, 'id', getattr(node.value.func, 'attr', '')) in ('copy', 'Vector2D', 'Line2D', 'list', 'deepcopy'):
        if len(node.value.args) == 1:
            out.append(('copy dropped', lambda x: setattr(x, 'value', x.value.args[0])))
        elif not node.value.args and isinstance(node.value.func, ast.Attribute):
            out.append(('copy dropped', lambda x: setattr(x, 'value', x.value.func.value)))
    return out


def mutants(path):
    tree = ast.parse(open(path).read())
    nodes = list(ast.walk(tree))
    doc = set()
    for i, n in enumerate(nodes):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            doc.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.If) and 'TYPE_CHECKING' in ast.unparse(n.test):
            doc.update(id(m) for m in ast.walk(n))
    for i, n in enumerate(nodes):
        if id(n) in doc:
            continue
        for k, (d, f) in enumerate(variants(n)):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            before = ast.unparse(n).split('\n')[0]
            if f == 'drop':
                for p in ast.walk(t):
                    for fld in ('body', 'orelse', 'finalbody'):
                        b = getattr(p, fld, None)
                        if isinstance(b, list) and m in b:
                            b[b.index(m)] = ast.Pass()
            else:
                f(m)
            try:
                src = ast.unparse(ast.fix_missing_locations(t))
            except Exception:  # noqa
                continue
            yield f'{os.path.basename(path)}:{n.lineno} [{d}] {before[:110]}', src


def judge(job):
    fname, desc, src, repo = job
    w = f'/tmp/mut/w{os.getpid()}'
    if not os.path.exists(w):
        shutil.copytree(repo, w, ignore=shutil.ignore_patterns('.git'))
    target = f'{w}/src/pyrusgeom/{fname}'
    clean = open(f'{repo}/src/pyrusgeom/{fname}').read()
    try:
        open(target, 'w').write(src)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=f'{w}/src')
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=w, env=env, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired:
            return desc, 'tests'
        if r.returncode:
            return desc, 'tests'
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MC_REPO_SRC=f'{w}/src', MC_FIRST='1', MC_PROCS='1', MC_SCRATCH=f'{w}/scratch')
        for c in CHECKS[fname].split():
            try:
                r = subprocess.run(['python3', '-m', 'mc.core', c, 'quick'], cwd=ROOT, env=env, capture_output=True, text=True, timeout=600)
                if r.returncode == 1 and 'VIOLATION' in r.stdout:
                    return desc, c
                if r.returncode not in (0, 1):
                    return desc, f'{c} exit {r.returncode}'
            except subprocess.TimeoutExpired:
                return desc, f'{c} timeout'
        return desc, 'SURVIVED'
    finally:
        open(target, 'w').write(clean)


def main():
    args = sys.argv[1:]
    every, out = 1, '/tmp/mutants.log'
    if '--every' in args:
        i = args.index('--every')
        every = int(args[i + 1])
        del args[i:i + 2]
    if '--out' in args:
        i = args.index('--out')
        out = args[i + 1]
        del args[i:i + 2]
    only = None
    if '--lines' in args:
        i = args.index('--lines')
        only = json.loads(args[i + 1])
        del args[i:i + 2]
    jobs = []
    for f in args:
        for d, s in mutants(f'/repo/src/pyrusgeom/{f}'):
            if only is None or int(d.split(':')[1].split()[0]) in only:
                jobs.append((f, d, s, '/repo'))
    jobs = jobs[::every]
    print(len(jobs), 'mutants', flush=True)
    os.makedirs('/tmp/mut', exist_ok=True)
    stat = {}
    with mp.get_context('spawn').Pool(int(os.environ.get('MUT_PROCS', 7))) as pool, open(out, 'a') as log:
        for d, r in pool.imap_unordered(judge, jobs):
            stat[r] = stat.get(r, 0) + 1
            if r != 'tests':
                log.write(f'{r}\t{d}\n')
                log.flush()
    print(stat)
    shutil.rmtree('/tmp/mut', ignore_errors=True)


if __name__ == '__main__':
    main()
