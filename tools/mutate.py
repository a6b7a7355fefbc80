"""mutate.py OUT [FILE...]: small syntactic mutants of /repo/ombott that pass the tests, run against the checks
(scratch copies only). A survey of what the checks do not see; survivors have to be read by hand: most are equivalent
or outside of every property.  Environment: MUT_FRAC (fraction of the quick runs, default 0.1), MUT_JOBS, MUT_ONLY=k/n."""
import ast, copy, hashlib, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C15 C16 C17 C20'.split()
MAP = {
    'request_pkg/body_mixin.py': 'C04 C05 C13 C12 C06 C07 C08 C10',
    'request_pkg/multipart.py': 'C06 C07 C12 C13',
    'request_pkg/helpers.py': 'C07 C12 C10 C15 C11 C08 C13 C03',
    'request_pkg/props_mixin.py': 'C15 C08 C10 C03 C20 C11 C02',
    'request_pkg/request.py': 'C10 C08 C11 C03 C15',
    'request_pkg/errors.py': 'C12 C13 C05',
    'response.py': 'C20 C15 C03 C08 C10 C09 C17',
    'common_helpers.py': 'C20 C15 C08 C03 C10 C07 C12 C17',
    'ombott.py': 'C03 C09 C02 C01 C11 C08 C10 C20 C12',
    'mixable.py': 'C08 C03 C10',
    'static_stream.py': 'C16 C17',
    'error_render.py': 'C20 C03 C08',
    'errors.py': 'C03',
    'router/filter_factory.py': 'C01 C11 C02',
    'router/parser.py': 'C01 C11 C02',
    'router/radidict.py': 'C01 C11 C02 C08',
    'router/radirouter.py': 'C01 C02 C11 C08 C09',
    'router/sym_stream.py': 'C01 C11',
    'router/errors.py': 'C11',
}
FLIP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE],
        ast.GtE: [ast.Gt, ast.Lt], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Mod: ast.Add, ast.FloorDiv: ast.Mult}


def mutants(src):
    """(what, line, new source)"""
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    enc = [l.encode() for l in lines]
    for e in enc:
        offs.append(offs[-1] + len(e) + 1)
    raw = src.encode()
    out = []

    def put(node, text, what):
        a = offs[node.lineno - 1] + node.col_offset
        b = offs[node.end_lineno - 1] + node.end_col_offset
        new = (raw[:a] + text.encode() + raw[b:]).decode()
        try:
            compile(new, 'x', 'exec')
        except SyntaxError:
            return
        out.append((what, node.lineno, new))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0])), doc.add(id(n.body[0].value))
    for n in ast.walk(tree):
        if isinstance(n, ast.JoinedStr):
            for c in ast.walk(n):
                doc.add(id(c))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        par = lambda m: '(' + ast.unparse(m) + ')'
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for o in FLIP.get(type(op), []):
                    m = copy.deepcopy(n)
                    m.ops[i] = o()
                    put(n, par(m), 'cmp %s' % o.__name__)
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            put(n, par(m), 'and/or')
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                put(n, par(m if len(m.values) > 1 else m.values[0]), 'drop operand %d' % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, par(n.operand), 'drop not')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            put(n, par(m), 'binop')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n.test, ast.Constant):
                put(n.test, 'False', 'if False')
                if not isinstance(n, ast.While):
                    put(n.test, 'True', 'if True')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, repr(not n.value), 'bool')
            elif isinstance(n.value, int):
                put(n, repr(n.value + 1), 'int+1')
                if n.value:
                    put(n, repr(n.value - 1), 'int-1')
            elif isinstance(n.value, str) and 0 < len(n.value) < 30 and ' ' not in n.value.strip():
                put(n, repr(n.value + 'x'), 'str')
                put(n, "''", 'str empty')
            elif isinstance(n.value, bytes) and n.value:
                put(n, repr(n.value + b'x'), 'bytes')
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete, ast.Break, ast.Continue)):
            put(n, 'pass', 'delete stmt')
        elif isinstance(n, ast.Assign):
            put(n, 'pass', 'delete assign')
            put(n.value, 'None', 'assign None')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            put(n, 'return None', 'return None')
        elif isinstance(n, ast.Call):
            if n.args and len(n.args) + len(n.keywords) > 1:
                m = copy.deepcopy(n)
                m.args.pop()
                put(n, ast.unparse(m), 'drop last arg')
            for i in range(len(n.keywords)):
                m = copy.deepcopy(n)
                del m.keywords[i]
                put(n, ast.unparse(m), 'drop kwarg')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('strip', 'lower', 'upper', 'title', 'encode', 'decode', 'rstrip', 'lstrip', 'copy'):
                put(n, par(n.func.value), 'drop .%s()' % n.func.attr)
        elif isinstance(n, ast.ExceptHandler) and n.type is not None and not isinstance(n.type, ast.Tuple):
            put(n.type, 'ZeroDivisionError', 'except none')
    seen, res = set(), []
    for w in out:
        if w[2] not in seen and w[2] != src:
            seen.add(w[2])
            res.append(w)
    return res


def main():
    dest, files = sys.argv[1], sys.argv[2:] or list(MAP)
    frac = float(os.environ.get('MUT_FRAC', '0.1'))
    jobs = int(os.environ.get('MUT_JOBS', '8'))
    k, n = map(int, os.environ.get('MUT_ONLY', '0/1').split('/'))
    base = tempfile.mkdtemp(prefix='mutate-')
    sys.path.insert(0, VERIF)
    from sim import core
    runs = {p: max(150, int(core.module(p).RUNS['quick'] * frac)) for p in ALL}
    work = []
    for f in files:
        src = open('/repo/ombott/' + f).read()
        for i, (what, line, new) in enumerate(mutants(src)):
            work.append((f, i, what, line, new, src))
    random.Random(5).shuffle(work)
    work = work[k::n]
    done = set()
    if os.path.exists(dest):
        for l in open(dest):
            d = json.loads(l)
            done.add(d['h'])
    out = open(dest, 'a')
    free = list(range(jobs))
    for j in free:
        subprocess.run(['git', 'clone', '-q', '/repo', '%s/r%d' % (base, j)])
        os.makedirs('%s/v%d' % (base, j))
        for x in ('sim', 'run.sh', 'known_findings.txt', 'findings', 'properties.jsonl'):
            if os.path.exists(VERIF + '/' + x):
                subprocess.run(['cp', '-a', VERIF + '/' + x, '%s/v%d/' % (base, j)])
    print(len(work), 'mutants', base, flush=True)

    def one(w):
        f, i, what, line, new, src = w
        h = hashlib.sha1((f + new).encode()).hexdigest()[:12]
        if h in done:
            return
        j = free.pop()
        try:
            r, v = '%s/r%d' % (base, j), '%s/v%d' % (base, j)
            p = r + '/ombott/' + f
            open(p, 'w').write(new)
            res = None
            try:
                t = subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
                if t.returncode:
                    res = 'tests'
            except subprocess.TimeoutExpired:
                res = 'tests'
            if res is None:
                for prop in MAP[f].split():
                    try:
                        c = subprocess.run(['timeout', '-k', '5', '300', v + '/run.sh', 'check', prop, '--runs', str(runs[prop]), '--workers', '1'],
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                           env=dict(os.environ, VERIF_REPO=r, VERIF_NO_MINIMISE='1'))
                        rc = c.returncode
                    except Exception as e:
                        rc = repr(e)
                    if rc == 1:
                        res = prop
                        break
                    if rc != 0:
                        res = '%s:rc%s' % (prop, rc)
                        break
            open(p, 'w').write(src)
            d = dict(h=h, f=f, what=what, line=line, res=res or 'SURVIVED')
            if not res:
                a, b = src.split('\n'), new.split('\n')
                x = 0
                while x < min(len(a), len(b)) and a[x] == b[x]:
                    x += 1
                y = 0
                while y < min(len(a), len(b)) - x and a[-1 - y] == b[-1 - y]:
                    y += 1
                d['old'], d['new'] = '\n'.join(a[x:len(a) - y]), '\n'.join(b[x:len(b) - y])
            out.write(json.dumps(d) + '\n')
            out.flush()
        finally:
            free.append(j)

    try:
        with ThreadPoolExecutor(jobs) as ex:
            for fu in [ex.submit(one, w) for w in work]:
                try:
                    fu.result()
                except Exception as e:
                    print('ERR', repr(e), flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    main()
