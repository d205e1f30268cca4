"""mutation survey: python3 tools/mutate.py OUT.jsonl [--files a,b] [--sample N] [--workers W]
Generates small syntactic changes of /repo's functions in scratch copies, runs the checks responsible for the file
(from a scratch copy of /verif) and records which check, if any, reports each change. A development tool: no check uses it."""
import argparse, ast, json, os, random, shutil, subprocess, sys, time
from multiprocessing import Process, Queue

MAP = {
    'datamodel.py': 'C04 C05 C01 C06 C03 C02 C10 C09 C07'.split(),
    'evaluation/conllu_io.py': 'C07 C09 C08 C10'.split(),
    'evaluation/conll17_ud_eval.py': 'C11 C36 C13 C12'.split(),
    'evaluation/dataset.py': ['C18'],
    'evaluation/evaluation.py': 'C16 C15 C14 C17 C35'.split(),
    'evaluation/grid_eval.py': ['C17', 'C15'],
    'evaluation/trainers.py': ['C35', 'C29', 'C15', 'C14'],
    'lemmas/transformation_rules.py': 'C19 C20 C05 C23'.split(),
    'features/extractors.py': 'C22 C24 C23 C20 C21 C31'.split(),
    'features/provider.py': 'C21 C25 C29 C24 C34'.split(),
    'features/builder.py': 'C25 C21 C24 C29'.split(),
    'neural/tagger/neural_tagger.py': 'C26 C29 C34'.split(),
    'neural/network.py': 'C33 C30 C34'.split(),
    'neural/model.py': 'C33 C34'.split(),
    'neural/utils.py': 'C30 C33 C34'.split(),
    'neural/initializers.py': 'C33 C34'.split(),
    'neural/tagger/network_provider.py': 'C33 C30 C34'.split(),
    'neural/tagger/task_builders.py': 'C30 C34'.split(),
    'neural/tagger/shared_builders.py': 'C30 C34'.split(),
    'wrappers/udpipe1_2.py': ['C27'],
    'wrappers/tdozat.py': ['C32'],
    'processor.py': ['C28'], 'tagger.py': ['C28', 'C14', 'C35'], 'parser.py': ['C28'],
}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult}


def clone(n):
    return ast.parse(ast.unparse(n), mode='eval').body if isinstance(n, ast.expr) else ast.parse(ast.unparse(n)).body[0]


def variants(n):
    "replacement source texts for node n"
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []):
            c = clone(n); c.ops = [o()]; yield c
        if isinstance(n.ops[0], (ast.Lt, ast.Gt)):
            c = clone(n); c.ops = [ast.Gt() if isinstance(n.ops[0], ast.Lt) else ast.Lt()]; yield c
    if isinstance(n, ast.BoolOp):
        c = clone(n); c.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); yield c
        for i in range(len(n.values)):
            v = [clone(x) for j, x in enumerate(n.values) if j != i]
            yield v[0] if len(v) == 1 else ast.BoolOp(n.op, v)
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
        c = clone(n); c.op = BIN[type(n.op)](); yield c
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            yield ast.Constant(not n.value)
        elif isinstance(n.value, int):
            yield ast.Constant(n.value + 1)
            if n.value:
                yield ast.Constant(n.value - 1)
        elif n.value is None:
            yield ast.Constant(0)
        elif isinstance(n.value, str) and n.value:
            yield ast.Constant(n.value + 'X')
            yield ast.Constant('')
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield clone(n.operand)
    if isinstance(n, ast.IfExp):
        yield clone(n.body); yield clone(n.orelse)
    if isinstance(n, ast.Call):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            c = clone(n); c.args[0], c.args[1] = c.args[1], c.args[0]; yield c
        if n.keywords:
            for i in range(len(n.keywords)):
                c = clone(n); del c.keywords[i]; yield c
        if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'list', 'dict', 'set', 'tuple', 'int', 'str', 'reversed', 'enumerate', 'len', 'deepcopy', 'copy') and len(n.args) == 1:
            yield clone(n.args[0])
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('lower', 'strip', 'copy', 'items', 'keys', 'values', 'rstrip'):
            yield clone(n.func.value)
        if len(n.args) > 1:
            c = clone(n); c.args.pop(); yield c
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
        for f in ('lower', 'upper'):
            if getattr(n.slice, f) is not None:
                c = clone(n); setattr(c.slice, f, None); yield c
    if isinstance(n, ast.If) or isinstance(n, ast.While):
        pass
    if isinstance(n, ast.stmt):
        if isinstance(n, ast.If):
            c = clone(n); c.test = ast.UnaryOp(ast.Not(), c.test); yield c
            if n.orelse:
                pass
            c = clone(n); c.test = ast.Constant(False); yield c
            c = clone(n); c.test = ast.Constant(True); yield c
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            yield ast.Pass()
            if isinstance(n, ast.Continue):
                yield ast.Break()
            if isinstance(n, ast.Break):
                yield ast.Continue()
        elif isinstance(n, ast.Return) and n.value is not None:
            if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                c = clone(n) if False else ast.Return(ast.Constant(None)); yield c


def mutants(path):
    src = open(path, encoding='utf8').read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    out = []
    seen = set()

    def fn(node, stack):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                fn(ch, stack + [ch.name])
            elif isinstance(ch, ast.Expr) and (isinstance(ch.value, ast.Constant) or
                                               ast.unparse(ch.value).startswith(('print(', 'sys.stdout'))):
                continue  # docstrings and messages
            elif isinstance(node, ast.FunctionDef) and ch in (node.returns, node.args):
                continue
            else:
                if any(True for _ in stack) and hasattr(ch, 'lineno') and not isinstance(node, ast.arguments):
                    for v in variants(ch):
                        try:
                            txt = ast.unparse(ast.fix_missing_locations(v))
                        except Exception:
                            continue
                        if isinstance(v, ast.expr):
                            txt = '(' + txt + ')'
                        s = offs[ch.lineno - 1] + ch.col_offset
                        e = offs[ch.end_lineno - 1] + ch.end_col_offset
                        if isinstance(ch, ast.stmt):
                            ind = b' ' * ch.col_offset
                            txt = txt.replace('\n', '\n' + ind.decode())
                            if isinstance(ch, ast.If) and b[s:s + 4] == b'elif':
                                continue
                        new = b[:s] + txt.encode() + b[e:]
                        if b[s:e].decode() == txt or new in seen:
                            continue
                        seen.add(new)
                        try:
                            ast.parse(new)
                        except SyntaxError:
                            continue
                        out.append(dict(func='.'.join(stack), line=ch.lineno, old=b[s:e].decode(), new=txt, src=new))
                if not isinstance(ch, (ast.arg, ast.Raise)):
                    fn(ch, stack)
    fn(tree, [])
    return out


def worker(k, q, res, base, jobs):
    repo, ver = '%s/repo%d' % (base, k), '%s/verif%d' % (base, k)
    while True:
        m = q.get()
        if m is None:
            return
        p = os.path.join(repo, 'babylondigger', m['file'])
        orig = open(p, 'rb').read()
        open(p, 'wb').write(m['src'])
        runs = {}
        t = time.time()
        try:
            for prop in m['props']:
                env = dict(os.environ, VERIF_REPO=repo)
                try:
                    r = subprocess.run(['python3-vt', '-m', 'vp.check', prop, '--jobs', str(jobs)], cwd=ver, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                    runs[prop] = r.returncode
                    tail = r.stdout[-300:]
                except subprocess.TimeoutExpired:
                    runs[prop] = 'timeout'; tail = ''
                if runs[prop] == 1:
                    break
                if runs[prop] not in (0, 1):
                    m['tail'] = tail
        finally:
            open(p, 'wb').write(orig)
        d = {x: m[x] for x in m if x not in ('src', 'props')}
        d['runs'] = runs
        d['s'] = round(time.time() - t, 1)
        d['killed'] = next((p for p, r in runs.items() if r == 1), None)
        res.put(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('--files'); ap.add_argument('--sample', type=float, default=1.0)
    ap.add_argument('--workers', type=int, default=4); ap.add_argument('--jobs', type=int, default=2); ap.add_argument('--list', action='store_true')
    ap.add_argument('--done'); ap.add_argument('--funcs'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--base', default='/tmp/mut')
    a = ap.parse_args()
    have = {f[:3].upper() for f in os.listdir('/verif/props') if f.startswith('c') and f[1:3].isdigit()}
    todo = []
    rnd = random.Random(a.seed)
    for f in (a.files.split(',') if a.files else MAP):
        props = [p for p in MAP[f] if p in have]
        if not props:
            continue
        ms = mutants(os.path.join('/repo/babylondigger', f))
        if a.funcs:
            ms = [m for m in ms if any(x in m['func'] for x in a.funcs.split(','))]
        for m in ms:
            if rnd.random() < a.sample:
                m['file'] = f; m['props'] = props
                todo.append(m)
    if a.done:
        done = {(d['file'], d['line'], d['old'], d['new']) for d in map(json.loads, open(a.done))}
        todo = [m for m in todo if (m['file'], m['line'], m['old'], m['new']) not in done]
    print(len(todo), 'mutants')
    if a.list:
        return
    rnd.shuffle(todo)
    os.makedirs(a.base, exist_ok=True)
    q, res = Queue(), Queue()
    for k in range(a.workers):
        for src, d in (('/repo', 'repo'), ('/verif', 'verif')):
            dst = '%s/%s%d' % (a.base, d, k)
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(src, dst, ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded'), symlinks=True)
    for m in todo:
        q.put(m)
    ws = [Process(target=worker, args=(k, q, res, a.base, a.jobs)) for k in range(a.workers)]
    for w in ws:
        q.put(None); w.start()
    with open(a.out, 'w') as o:
        for i in range(len(todo)):
            d = res.get()
            o.write(json.dumps(d) + '\n'); o.flush()
    for w in ws:
        w.join()
    for k in range(a.workers):
        for d in ('repo', 'verif'):
            shutil.rmtree('%s/%s%d' % (a.base, d, k))


if __name__ == '__main__':
    main()
