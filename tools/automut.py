"""Systematic mutation of /repo (development aid, not a check).

  python3 tools/automut.py OUT.jsonl [N per file] [seed] [file ...]

Random operator, constant, condition, statement, argument and name mutants; those which pass the project's tests are given to every
rule until one reports a violation.  Survivors are the candidates to look at by hand.  No check uses this."""
import ast, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, JAX_PLATFORMS='cpu', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
RULES = ('P36 P34 P33 P35 P32 P25 P28 P29 P03 P15 P16 P17 P14 P13 P01 P02 P11 P19 P12 P30 P23 P09 P31 P05 P06 P21 P27 P18 P24 P08 P26 P04 P07 P22 P20 P10').split()
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.MatMult: '*', ast.FloorDiv: '/', ast.Mod: '*'}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
       ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    skip |= {id(x) for x in ast.walk(a.annotation)}
            if n.returns:
                skip |= {id(x) for x in ast.walk(n.returns)}
            for d in n.decorator_list:
                skip |= {id(x) for x in ast.walk(d)}
        elif isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        elif isinstance(n, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom)):
            skip |= {id(x) for x in ast.walk(n)}
    out = []

    def add(n, new, kind):
        s, e = pos(n)
        out.append((s, e, new, kind, n.lineno))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            l, r = seg(src, n.left), seg(src, n.right)
            s, e = pos(n.left)[1], pos(n.right)[0]
            mid = b[s:e].decode()
            op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.MatMult: '@', ast.FloorDiv: '//', ast.Mod: '%'}[type(n.op)]
            out.append((s, e, mid.replace(op, BIN[type(n.op)], 1), 'binop', n.lineno))
            add(n, f'({l})', 'left')
            add(n, f'({r})', 'right')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, f'({seg(src, n.left)} {o} {seg(src, n.comparators[0])})', 'cmp')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + o.join(f'({seg(src, v)})' for v in n.values) + ')', 'boolop')
            for v in n.values:
                add(n, f'({seg(src, v)})', 'boolpart')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            t = seg(src, n.test)
            add(n.test, f'(not ({t}))', 'negcond')
            add(n.test, 'True', 'condtrue')
            add(n.test, 'False', 'condfalse')
        elif isinstance(n, ast.UnaryOp):
            add(n, f'({seg(src, n.operand)})', 'unop')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, repr(not n.value), 'bool')
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            v = n.value
            add(n, repr(v + 1), 'const')
            if v:
                add(n, '0' if isinstance(v, int) else '0.0', 'const')
                add(n, f'(-{v!r})', 'const')
                if isinstance(v, float):
                    add(n, repr(v * 1.03), 'const')
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
            add(n, repr(n.value + '_'), 'str')
        elif isinstance(n, ast.Call):
            ps = [a for a in n.args if not isinstance(a, ast.Starred)]
            for i in range(len(ps) - 1):
                s, e = pos(ps[i])[0], pos(ps[i + 1])[1]
                mid = b[pos(ps[i])[1]:pos(ps[i + 1])[0]].decode()
                out.append((s, e, seg(src, ps[i + 1]) + mid + seg(src, ps[i]), 'swapargs', n.lineno))
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords and n.func.attr in ('copy', 'flatten', 'ravel', 'inv'):
                add(n, seg(src, n.func.value), 'dropcall')
            f = seg(src, n.func)
            if f.split('.')[-1] in ('array', 'copy', 'deepcopy', 'float', 'abs', 'asarray') and len(n.args) >= 1:
                add(n, f'({seg(src, n.args[0])})', 'dropcall')
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    s, e = pos(k)
                    t = b[e:e + 1].decode()
                    out.append((s, e + (1 if t == ',' else 0), '', 'dropkw', n.lineno))
        elif isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1 and not isinstance(n.elts[0], ast.Constant):
            i = random.randrange(len(n.elts) - 1)
            x, y = n.elts[i], n.elts[i + 1]
            s, e = pos(x)[0], pos(y)[1]
            out.append((s, e, seg(src, y) + b[pos(x)[1]:pos(y)[0]].decode() + seg(src, x), 'swapelts', n.lineno))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(n, 'pass', 'delete')
        if isinstance(n, ast.AugAssign):
            o = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}.get(type(n.op))
            if o:
                add(n, f'{seg(src, n.target)} {o} {seg(src, n.value)}', 'aug')
                add(n, f'{seg(src, n.target)} = {seg(src, n.value)}', 'aug')
        if isinstance(n, ast.Return) and n.value is not None:
            pass
    # names and attributes replaced by siblings of the same function
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        names = {}
        for x in ast.walk(fn):
            if id(x) in skip:
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in ('self', 'np', 'jnp', 'super', 'cls'):
                names.setdefault(x.id, []).append(x)
        loc = [k for k in names if k in {a.arg for a in fn.args.args} or any(isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == k for y in ast.walk(fn))]
        for k in loc:
            for x in names[k]:
                o = [q for q in loc if q != k]
                if o:
                    add(x, random.choice(o), 'name')
        ats = {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and id(x) not in skip:
                ats.setdefault(x.attr, []).append(x)
        for k, xs in ats.items():
            o = [q for q in ats if q != k]
            for x in xs:
                if o:
                    add(x, 'self.' + random.choice(o), 'attr')
    return b, out


def run(m):
    f, s, e, new, kind, line, i = m
    d = f'/tmp/am/m{i}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'docs'))
    p = f'{d}/safe_autonomy_dynamics/{f}'
    b = open(p, 'rb').read()
    old = b[s:e].decode()
    nb = b[:s] + new.encode() + b[e:]
    res = {'file': f, 'line': line, 'kind': kind, 'old': old, 'new': new, 'start': s, 'end': e}
    try:
        try:
            if ast.dump(ast.parse(nb)) == ast.dump(ast.parse(b)):
                return None
        except SyntaxError:
            return None
        open(p, 'wb').write(nb)
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'test', '-q', '--continue-on-collection-errors', '-p', 'no:cacheprovider'], cwd=d,
                               env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True, timeout=200)
            last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ''
        except subprocess.TimeoutExpired:
            last = 'timeout'
        if '175 passed' not in last:
            res['status'] = 'killed'
            return res
        res['status'] = 'survived'
        res['und'] = []
        for q in RULES:
            try:
                r = subprocess.run([sys.executable, HERE + '/tools/rule.py', q, d], capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res['und'].append(q + ':timeout')
                continue
            h = r.stdout.strip().splitlines()[-1] if r.stdout.strip() and r.returncode == 0 else r.stderr[-200:]
            g = re.search(r"'violated': (\d+)", h)
            v = int(g.group(1)) if g else 0
            if q == 'P22':
                v -= 1
            if v > 0:
                res['status'] = 'caught'
                res['by'] = q
                return res
            if 'discharged' not in h or 'undecided' in h:
                res['und'].append(q + ':' + h[:120])
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    outp = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 40
    random.seed(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    base = '/repo/safe_autonomy_dynamics'
    files = sys.argv[4:] or sorted(os.path.relpath(os.path.join(r, f), base) for r, _, fs in os.walk(base) for f in fs if f.endswith('.py'))
    jobs = []
    for f in files:
        _, ms = mutants(f'{base}/{f}')
        random.shuffle(ms)
        for m in ms[:n]:
            jobs.append((f,) + m + (len(jobs),))
    random.shuffle(jobs)
    print(len(jobs), 'mutants')
    os.makedirs('/tmp/am', exist_ok=True)
    with ThreadPoolExecutor(8) as ex, open(outp, 'a') as fo:
        for r in ex.map(run, jobs):
            if r:
                fo.write(json.dumps(r) + '\n')
                fo.flush()
