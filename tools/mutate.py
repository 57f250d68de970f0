"""mutate.py OUT N WORKERS FILE=PROPS...: random syntactic mutants of /repo's files, run against the checks of PROPS
(development aid: lists the mutants that no check reports; run from a copy of /verif)"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

out, n, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
targets = [a.split('=') for a in sys.argv[4:]]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '//', ast.BitAnd: '|', ast.BitOr: '&', ast.Pow: '*'}
SWAP = {'minimum': 'maximum', 'maximum': 'minimum', 'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'zeros_like': 'ones_like',
        'zeros': 'ones', 'ones': 'zeros', 'sum': 'mean', 'mean': 'sum', 'floor': 'ceil', 'logical_and': 'logical_or', 'logical_or': 'logical_and'}


def mutants(src, path):
    tree = ast.parse(src)
    seg = lambda x: ast.get_source_segment(src, x)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda l, c: off[l - 1] + c
    res = []

    def rep(node, new, what):
        a, z = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
        res.append((node.lineno, what, a, z, new))

    def visit(node, fn):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [node.name]
        if len(fn) and isinstance(node, ast.stmt) and not isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                return
            if isinstance(node, ast.Raise):
                rep(node, 'pass', 'drop')
                return
            if isinstance(node, (ast.Assign, ast.AugAssign)) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                if not (isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name)):
                    rep(node, 'pass', 'drop')
            if isinstance(node, ast.AugAssign) and isinstance(node.op, (ast.Add, ast.Sub)):
                o = '-=' if isinstance(node.op, ast.Add) else '+='
                rep(node, '%s %s %s' % (seg(node.target), o, seg(node.value)), 'augop')
            if isinstance(node, (ast.If,)):
                rep(node.test, 'not (%s)' % seg(node.test), 'not')
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
            rep(node, '%s %s %s' % (seg(node.left), CMP[type(node.ops[0])], seg(node.comparators[0])), 'cmp')
        if isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, ast.Constant) | (isinstance(node.left, ast.JoinedStr)):
            rep(node, '%s %s %s' % (seg(node.left), BIN[type(node.op)], seg(node.right)), 'bin')
            if isinstance(node.op, (ast.Mult, ast.Div, ast.Add, ast.Sub)):
                rep(node, '(%s)' % seg(node.left), 'left')
        if isinstance(node, ast.BoolOp):
            o = ' or ' if isinstance(node.op, ast.And) else ' and '
            rep(node, '(' + o.join(seg(v) for v in node.values) + ')', 'bool')
            rep(node, '(%s)' % seg(node.values[0]), 'first')
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.Invert, ast.USub)) and not (
                isinstance(node.operand, ast.Constant) and False):
            rep(node, '(%s)' % seg(node.operand), 'unary')
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            rep(node, str(not node.value), 'const')
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
            rep(node, repr(node.value + 1), 'const')
            if node.value:
                rep(node, repr(node.value - 1) if isinstance(node.value, int) else repr(node.value * .9), 'const')
        if isinstance(node, ast.Call):
            if isinstance(node.func, ast.Attribute) and node.func.attr in ('copy', 'astype', 'flatten', 'deepcopy'):
                if node.func.attr == 'deepcopy':
                    rep(node, seg(node.args[0]), 'nocopy')
                else:
                    rep(node, seg(node.func.value), 'nocopy')
            if isinstance(node.func, ast.Attribute) and node.func.attr in SWAP:
                a, z = pos(node.func.end_lineno, node.func.end_col_offset) - len(node.func.attr), pos(node.func.end_lineno, node.func.end_col_offset)
                res.append((node.lineno, 'swap', a, z, SWAP[node.func.attr]))
            if isinstance(node.func, ast.Name) and node.func.id in SWAP:
                rep(node.func, SWAP[node.func.id], 'swap')
            if len(node.args) == 2 and not node.keywords:
                rep(node, '%s(%s, %s)' % (seg(node.func), seg(node.args[1]), seg(node.args[0])), 'args')
            for k in node.keywords:
                pass
        if isinstance(node, ast.IfExp):
            rep(node, '(%s)' % seg(node.body), 'ifexp')
        if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
            pass
        for f, v in ast.iter_fields(node):
            if f in ('annotation', 'returns', 'decorator_list'):
                continue
            if f == 'defaults' or f == 'kw_defaults':
                pass
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    visit(c, fn)
                    if fn:
                        pass
    names = {}

    def owner(node, fn):
        for c in ast.iter_child_nodes(node):
            g = fn + [c.name] if isinstance(c, (ast.FunctionDef, ast.ClassDef)) else fn
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                for l in range(c.lineno, c.end_lineno + 1):
                    names[l] = '.'.join(g)
            owner(c, g)
    owner(tree, [])
    visit(tree, [])
    return [(l, names.get(l, ''), w, (b[:a] + new.encode() + b[z:]).decode()) for l, w, a, z, new in res if l in names]


todo = []
rnd = random.Random(int(os.environ.get('MSEED', '1')))
for fn, props in targets:
    src = open('/repo/' + fn, newline='').read().replace('\r\n', '\n')
    ms = []
    for l, f, w, new in mutants(src, fn):
        if f.rsplit('.', 1)[-1] in os.environ.get('MSKIP', '').split(','):
            continue
        try:
            compile(new, fn, 'exec')
        except SyntaxError:
            continue
        if new != src:
            ms.append((fn, props.split(','), l, f, w, new, src))
    rnd.shuffle(ms)
    todo += ms[:n]
    print(fn, len(ms), 'mutants', flush=True)


def run(m):
    fn, props, l, f, w, new, src = m
    d = tempfile.mkdtemp(prefix='mt', dir='/tmp/mut')
    try:
        shutil.copytree('/repo/demod', d + '/demod', ignore=shutil.ignore_patterns('raw_data', 'parsed_data', '__pycache__', '*.npz', '*.npy', '*.csv', '*.xls*'))
        open(d + '/' + fn, 'w').write(new)
        for p in props:
            p, _, flt = p.partition(':')
            e = dict(os.environ, DEMOD_REPO=d, DV_PROC=os.environ.get('DV_PROC', '2'))
            try:
                r = subprocess.run(['./check', p, 'quick'] + ([flt] if flt else []), cwd=HERE, env=e, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return m, 'timeout', p
            if r.returncode:
                o = r.stdout
                return m, ('weak' if 'no-failing-input-found' in o else 'caught') if 'VIOLATION' in o else 'error', p
        return m, 'MISSED', ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


import difflib
with ThreadPoolExecutor(workers) as ex, open(out, 'a') as o:
    for m, r, p in ex.map(run, todo):
        fn, props, l, f, w, new, src = m
        df = [x for x in difflib.unified_diff(src.split('\n'), new.split('\n'), lineterm='', n=0)][3:]
        o.write(json.dumps(dict(result=r, prop=p, file=fn, line=l, fn=f, kind=w, diff=df)) + '\n')
        o.flush()
