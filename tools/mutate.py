"""Mutation survey (development aid, not a registered check): random small mutants of given files, run the property's check on each, print survivors.
usage: mutate.py PROP N SEED file[:name,name..] ...   (files relative to src/skmultiflow)"""
import ast, copy, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = int(os.environ.get('MUT_WORKERS', '4'))


def sites(tree, names):
    out = []
    def walk(n, inside):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef) and n.name in ('get_info', '__repr__', '__str__'):
                return
            inside = inside or not names or n.name in names
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                n.body[0]._doc = True
        if getattr(n, '_doc', False):
            return
        if isinstance(n, ast.Raise) or isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'warn' in ast.unparse(n.value.func):
            return
        if inside:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                out.append((n, 'cmp'))
            if isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
                out.append((n, 'bin'))
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                out.append((n, 'const'))
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append((n, 'bool'))
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                out.append((n, 'neg'))
            if isinstance(n, ast.BoolOp):
                out.append((n, 'boolop'))
            if isinstance(n, ast.AugAssign):
                out.append((n, 'aug'))
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
                out.append((n, 'drop'))
        for c in ast.iter_child_nodes(n):
            walk(c, inside)
    walk(tree, False)
    return out


def mutate(src, k, names, rnd):
    tree = ast.parse(src)
    ss = sites(tree, names)
    n, kind = ss[k % len(ss)]
    before = ast.unparse(n).split('\n')[0]
    line = getattr(n, 'lineno', 0)
    if kind == 'cmp':
        o = type(n.ops[0])
        alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        n.ops[0] = alt[o]()
    elif kind == 'bin':
        alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
        n.op = alt[type(n.op)]()
    elif kind == 'const':
        n.value = n.value + rnd.choice([1, -1])
    elif kind == 'bool':
        n.value = not n.value
    elif kind == 'neg':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == 'boolop':
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == 'aug':
        n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
    elif kind == 'drop':
        class T(ast.NodeTransformer):
            def generic_visit(self, m):
                m = super().generic_visit(m)
                for f in ('body', 'orelse', 'finalbody'):
                    b = getattr(m, f, None)
                    if isinstance(b, list):
                        setattr(m, f, [ast.copy_location(ast.Pass(), x) if x is n else x for x in b])
                return m
        tree = T().visit(tree)
        return ast.unparse(ast.fix_missing_locations(tree)), 'line %d: dropped %s' % (line, before)
    return ast.unparse(ast.fix_missing_locations(tree)), 'line %d: [%s] %s -> %s' % (line, kind, before, ast.unparse(n).split('\n')[0])


def main():
    prop, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = []
    for a in sys.argv[4:]:
        f, _, nm = a.partition(':')
        files.append((f, set(nm.split(',')) if nm else set()))
    rnd = random.Random(seed)
    allsites = []
    srcs = {}
    for f, nm in files:
        srcs[f] = open('/repo/src/skmultiflow/' + f).read()
        allsites += [(f, nm, k) for k in range(len(sites(ast.parse(srcs[f]), nm)))]
    rnd.shuffle(allsites)
    print(len(allsites), 'sites', flush=True)
    jobs = allsites[:N]
    q = queue.Queue()
    for w in range(W):
        d = '/tmp/mut/%s_%d' % (prop, w)
        if not os.path.exists(d):
            os.makedirs('/tmp/mut', exist_ok=True)
            subprocess.run(['cp', '-a', '/repo', d], check=True)
        subprocess.run(['rsync', '-a', '--exclude=.git', '/repo/src/', d + '/src/']) if shutil.which('rsync') else None
        q.put(d)

    def run(job):
        f, nm, k = job
        d = q.get()
        p = d + '/src/skmultiflow/' + f
        ev = d + '_ev'
        try:
            new, what = mutate(srcs[f], k, nm, random.Random(seed + k))
            open(p, 'w').write(new)
            env = dict(os.environ, PV_REPO=d, PV_EVIDENCE=ev)
            try:
                r = subprocess.run(['bash', 'run.sh', prop], cwd=V, env=env, capture_output=True, text=True, timeout=300)
                out = r.stdout + r.stderr
                kind = 'survived' if r.returncode == 0 else ('nofail' if 'no-failing-input-found' in out else 'killed') if r.returncode == 1 else 'BROKEN %d' % r.returncode
            except subprocess.TimeoutExpired:
                kind, out = 'TIMEOUT', ''
        finally:
            open(p, 'w').write(srcs[f])
            q.put(d)
        if kind not in ('killed',):
            print('%-9s %s %s | %s' % (kind, f, what, out.strip().split('\n')[-1][:150] if kind != 'nofail' else ' '.join(l for l in out.split('\n') if 'failed obl' in l)[:150]), flush=True)
        return kind
    with ThreadPoolExecutor(W) as ex:
        ks = list(ex.map(run, jobs))
    from collections import Counter
    print(Counter(ks))


main()
