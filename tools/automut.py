#!/usr/bin/env python3
"""automut.py [--n N] [--seed S] [--files a.py,b.py]: generic syntactic mutants of tracer/; those that pass the stable
tests are shown to the checks that look at the file, fastest first, until one reports; survivors are printed."""
import ast, os, sys, json, random, shutil, subprocess, tempfile, time, re, argparse
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, '/opt/vp/py3')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument('--n', type=int, default=200); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--files', default=''); ap.add_argument('--gui', action='store_true'); ap.add_argument('--list', action='store_true'); ap.add_argument('--kinds', default='')
A = ap.parse_args()
FILES = A.files.split(',') if A.files else sorted(f for f in subprocess.check_output(['git', '-C', '/repo', 'ls-files', 'tracer'], text=True).split() if f.endswith('.py'))
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
OP = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.Mod: []}
NAMES = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'sin': 'cos', 'cos': 'sin', 'argmin': 'argmax', 'hstack': 'vstack', 'vstack': 'hstack', 'zeros': 'ones', 'ones': 'zeros', 'append': 'insert', 'get_vertices': 'get_directions', 'get_directions': 'get_vertices', 'arcsin': 'arccos', 'arccos': 'arcsin', 'minimum': 'maximum', 'maximum': 'minimum'}
def mutants(f):
    src = open('/repo/' + f).read()
    try: tree = ast.parse(src)
    except SyntaxError: return []
    lines = src.split('\n'); off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    P = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda x, y: b[x:y].decode()
    out = []
    def add(kind, x, y, new, line): out.append((f, kind, x, y, new, line))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and '__name__' in ast.dump(n.test):
            for m in ast.walk(n): docs.add(id(m))
    for n in ast.walk(tree):
        if id(n) in docs: continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            x, y = P(n.left)[1], P(n.comparators[0])[0]
            for s in CMP.get(type(n.ops[0]), []): add('cmp', x, y, re.sub(r'(<=|>=|==|!=|<|>|is not|is|not in|in)', s, seg(x, y), count=1), ln)
        elif isinstance(n, ast.BinOp):
            x, y = P(n.left)[1], P(n.right)[0]
            t = seg(x, y)
            for s in OP.get(type(n.op), []):
                if t.count('*') > 1: continue
                add('op', x, y, re.sub(r'[-+*/&|]', s, t, count=1), ln)
            if not isinstance(n.op, (ast.Mod,)):
                a, c = P(n)
                add('left', a, c, '(' + seg(*P(n.left)) + ')', ln)
        elif isinstance(n, ast.UnaryOp) and not (isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and False):
            x, y = P(n); add('unary', x, y, '(' + seg(*P(n.operand)) + ')', ln)
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            x, y = P(n)
            v = n.value
            if v is True: add('const', x, y, 'False', ln)
            elif v is False: add('const', x, y, 'True', ln)
            elif isinstance(v, int):
                for w in {0: (1,), 1: (0, 2), 2: (1, 3), 3: (2,)}.get(v, (v + 1,)): add('const', x, y, str(w), ln)
            else: add('const', x, y, repr(v * 2), ln)
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            y = P(n)[1]; add('name', y - len(n.attr), y, NAMES[n.attr], ln)
        elif isinstance(n, ast.Name) and n.id in ('any', 'all', 'min', 'max'):
            x, y = P(n); add('name', x, y, NAMES[n.id], ln)
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            x, y = P(n.values[0])[1], P(n.values[1])[0]
            t = seg(x, y); add('bool', x, y, t.replace('and', 'or') if isinstance(n.op, ast.And) else t.replace('or', 'and'), ln)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                x, y = P(n); add('copy', x, y, seg(*P(n.func.value)), ln)
            if len(n.args) >= 2 and not any(isinstance(q, ast.Starred) for q in n.args):
                (x, y), (z, w) = P(n.args[0]), P(n.args[1])
                if not isinstance(n.args[1], ast.Constant) or not isinstance(n.args[0], ast.Constant): add('swap', x, w, seg(z, w) + seg(y, z) + seg(x, y), ln)
            for k in n.keywords:
                if k.arg:
                    x, y = P(k)
                    # drop the keyword
                    e = x
                    while e > 0 and b[e - 1:e] in (b' ', b'\n', b'\\'): e -= 1
                    if b[e - 1:e] == b',': add('kw', e - 1, y, '', ln)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name):
            x, y = P(n); add('unindex', x, y, seg(*P(n.value)), ln)
        elif isinstance(n, (ast.If, ast.While)):
            x, y = P(n.test); add('if', x, y, 'True' if isinstance(n, ast.If) else 'False', ln); 
            if isinstance(n, ast.If): add('if', x, y, 'False', ln)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Break, ast.Expr)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): continue
            x, y = P(n); add('del', x, y, 'pass', ln)
    return [m for m in out if b[m[2]:m[3]].decode() != m[4]]
allm = [m for f in FILES for m in mutants(f)]
if A.kinds: allm = [m for m in allm if m[1] in A.kinds.split(',')]
if A.list: print(len(allm)); sys.exit()
random.Random(A.seed).shuffle(allm)
allm = allm[:A.n]
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg')
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
# what each check looks at, and how long it takes
look = {}
for p in sorted(x[:3].upper() for x in os.listdir(ROOT + '/sa/props') if re.match(r'c\d\d\.py', x)):
    e = json.load(open('/verif/evidence/%s.json' % p))
    t = json.dumps(e)
    look[p] = ({f for f in FILES if f in t}, e.get('wall_seconds') or e.get('seconds') or 5)
ORDER = 'C13 C19 C23 C20 C09 C14 C17 C18 C10 C21 C05 C11 C03 C24 C12 C01 C08 C07 C02 C27 C28 C16 C04 C15 C22 C06'.split()
def one(m):
    f, kind, x, y, new, ln = m
    d = tempfile.mkdtemp(prefix='am_')
    try:
        shutil.copytree('/opt/vp/py3/tree', d + '/t', ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
        s = open('/repo/' + f).read().encode()
        s = s[:x] + new.encode() + s[y:]
        try: ast.parse(s)
        except SyntaxError: return m, 'syntax', ''
        os.makedirs(d + '/r'); shutil.copytree('/repo/tracer', d + '/r/tracer')
        open(d + '/r/' + f, 'wb').write(s)
        r = subprocess.run(['/usr/bin/python3', '-c', 'import sys; sys.path.insert(0, "/opt/vp/py3"); import translate; open(sys.argv[2], "w", encoding="utf-8").write(translate.translate(sys.argv[1]))', d + '/r/' + f, d + '/t/' + f], capture_output=True)
        if r.returncode: return m, 'syntax', ''
        subprocess.run(['/opt/venvpp/bin/python', '-m', 'pytest', '-p', 'seed_random', '-q', '-p', 'no:cacheprovider', '-c', '/dev/null', '--rootdir=' + d + '/t', '--timeout=60', '--continue-on-collection-errors', '--ignore=tests/test_assembly_tree.py', '-o', 'junit_family=xunit2', '--junitxml=' + d + '/j.xml', 'tests'], cwd=d + '/t', env=dict(env, PYTHONPATH=d + '/t:/opt/vp/py3/plugin'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', d + '/o.json', 'junit:' + d + '/j.xml'], stdout=subprocess.DEVNULL)
        got = set(json.load(open(d + '/o.json')).get('passed') or [])
        if base - got: return m, 'killed by tests', ''
        und = []
        for p in ORDER:
            if f not in look[p][0]: continue
            r = subprocess.run([sys.executable, ROOT + '/check.py', p], env=dict(os.environ, VERIF_REPO=d + '/r', VERIF_EVID=d + '/ev'), capture_output=True, text=True)
            if r.returncode == 1: return m, 'caught ' + p, ''
            g = re.search(r'(\d+) undecided', r.stdout)
            if r.returncode or g and int(g.group(1)): und.append('%s%s:%s' % (p, '' if r.returncode == 0 else '(rc %d)' % r.returncode, g and g.group(1)))
        return m, 'SURVIVED', ' '.join(und)
    except Exception as e: return m, 'error %r' % e, ''
    finally: shutil.rmtree(d, ignore_errors=True)
cnt = {}
with ThreadPoolExecutor(int(os.environ.get('J', 8))) as ex:
    for m, st, und in ex.map(one, allm):
        cnt[st] = cnt.get(st, 0) + 1
        if st.startswith(('SURV', 'error')):
            f, kind, x, y, new, ln = m
            s = open('/repo/' + f).read().encode()
            ls = s.rfind(b'\n', 0, x) + 1; le = s.find(b'\n', y)
            print('%s %s:%d [%s] %s  ==>  %s   %s' % (st, f, ln, kind, s[ls:le].decode().strip().replace('\n', '~'), (s[ls:x] + new.encode() + s[y:le]).decode().strip().replace('\n', '~'), und)); sys.stdout.flush()
print(cnt)
