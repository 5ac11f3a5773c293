"""Mutation campaign (by hand): which small changes of fides survive the
repository's own tests, and which of those does no check notice?

    mutate.py list OUT.jsonl                 write all mutants
    mutate.py run MUTANTS.jsonl OUT.jsonl WORKERS

Works on copies under /tmp/mut; never touches /repo.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO = os.environ.get('MUT_BASE', '/repo')  # a frozen copy for long campaigns
FILES = ['minimize', 'trust_region', 'steps', 'stepback', 'subproblem',
         'hessian_approximation', 'constants', 'logging']
ORDER = {
    'subproblem': 'C04 C05 C06 C07 C32 C25 C22 C23 C30',
    'steps': 'C06 C07 C32 C25 C01 C16 C18 C22 C23 C30',
    'stepback': 'C07 C06 C25 C01',
    'trust_region': 'C07 C06 C25 C16',
    'hessian_approximation': 'C08 C09 C10 C11 C12 C27 C32 C31 C17 C21',
    'constants': 'C20 C19 C13',
    'logging': 'C28 C17',
    'minimize': 'C02 C16 C13 C12 C15 C03 C14 C18 C28 C26 C21 C20 C17 C24 C27 C19 C29 C31 C32 C01 C30',
}
ALL = [f'C{i:02d}' for i in range(1, 29)]

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt],
       ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is], ast.In: [ast.NotIn]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div],
       ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}
NAMES = {'argmin': 'argmax', 'min': 'max', 'max': 'min', 'nanmin': 'nanmax',
         'any': 'all', 'all': 'any', 'maximum': 'minimum', 'vstack': 'vstack'}


def variants(node):
    """yields (description, replacement node)"""
    c = copy.deepcopy
    if isinstance(node, ast.Compare):
        for k, op in enumerate(node.ops):
            for new in CMP.get(type(op), []):
                n = c(node)
                n.ops[k] = new()
                yield 'cmp', n
    if isinstance(node, ast.BinOp):
        for new in BIN.get(type(node.op), []):
            n = c(node)
            n.op = new()
            yield 'bin', n
        if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            yield 'left', c(node.left)
            yield 'right', c(node.right)
    if isinstance(node, ast.BoolOp):
        n = c(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield 'bool', n
        for v in node.values:
            yield 'bool1', c(v)
    if isinstance(node, ast.UnaryOp):
        yield 'unary', c(node.operand)
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield 'const', ast.Constant(not v)
        elif isinstance(v, (int, float)):
            yield 'const', ast.Constant(v + 1)
            if v != 0:
                yield 'const', ast.Constant(v * 0.9 if isinstance(v, float) else v - 1)
    if isinstance(node, ast.Attribute) and node.attr in NAMES:
        n = c(node)
        n.attr = NAMES[node.attr]
        yield 'name', n
    if isinstance(node, ast.Name) and node.id in ('min', 'max') and isinstance(node.ctx, ast.Load):
        yield 'name', ast.Name(NAMES[node.id], ast.Load())
    if isinstance(node, ast.Call):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'copy' and not node.args:
            yield 'nocopy', c(f.value)
        fn = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
        if fn in ('abs', 'real', 'sqrt', 'sign', 'array', 'int', 'isfinite') and node.args:
            yield 'nocall', c(node.args[0])
        if fn in ('min', 'max', 'nanmin') and len(node.args) == 2:
            yield 'pick', c(node.args[0])
            yield 'pick', c(node.args[1])
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        pass
    if isinstance(node, ast.Attribute) and node.attr == 'T' and isinstance(node.ctx, ast.Load):
        yield 'noT', c(node.value)


def stmts(node):
    """statement deletions"""
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise,
                         ast.Return, ast.Break, ast.Continue, ast.Delete)):
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        yield 'del', 'pass'
        if isinstance(node, ast.AugAssign):
            t = ast.unparse(node.target)
            yield 'assign', f'{t} = {ast.unparse(node.value)}'
    if isinstance(node, ast.AnnAssign) and node.value is not None:
        pass


def offsets(src, node):
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln))

    def off(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    return off(node.lineno, node.col_offset), off(node.end_lineno, node.end_col_offset)


def in_fstring_or_log(tree):
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.arguments)):
            a = n.args if isinstance(n, ast.FunctionDef) else n
            for arg in a.args:
                if arg.annotation is not None:
                    for m in ast.walk(arg.annotation):
                        skip.add(id(m))
            if isinstance(n, ast.FunctionDef) and n.returns is not None:
                for m in ast.walk(n.returns):
                    skip.add(id(m))
        if isinstance(n, ast.AnnAssign):
            for m in ast.walk(n.annotation):
                skip.add(id(m))
        if isinstance(n, ast.keyword) and n.arg in ('stacklevel',):
            for m in ast.walk(n):
                skip.add(id(m))
    return skip


def mutants():
    k = 0
    for f in FILES:
        src = open(f'{REPO}/fides/{f}.py').read()
        tree = ast.parse(src)
        skip = in_fstring_or_log(tree)
        seen = set()
        for node in ast.walk(tree):
            if id(node) in skip or not hasattr(node, 'lineno'):
                continue
            a, b = offsets(src, node)
            new = [(d, '(' + ast.unparse(ast.fix_missing_locations(n)) + ')') if not isinstance(n, (ast.Name, ast.Attribute, ast.Constant)) else (d, ast.unparse(n)) for d, n in variants(node)]
            new += list(stmts(node))
            for d, text in new:
                key = (a, b, text)
                if key in seen:
                    continue
                seen.add(key)
                out = src[:a] + text + src[b:]
                try:
                    ast.parse(out)
                except SyntaxError:
                    continue
                k += 1
                yield {'id': k, 'file': f, 'line': node.lineno, 'kind': d,
                       'a': a, 'b': b, 'old': src[a:b], 'new': text}


def tests(d):
    env = dict(os.environ, PYTHONPATH=d + '/repo', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent')
    try:
        r = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
             '-p', 'no:xdist', '--timeout=60', '--randomly-seed=0',
             '--randomly-dont-reorganize', '-W', 'ignore', 'tests'],
            cwd=d + '/repo', env=env, capture_output=True, text=True, timeout=600)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def checks(m, d, props, scale):
    env = dict(os.environ, VF_REPO=d + '/repo', PYTHONHASHSEED='0', TMPDIR=d + '/tmp')
    os.makedirs(d + '/tmp', exist_ok=True)
    try:
        r = subprocess.run(['/opt/venv/bin/python', d + '/verif/tools/multi.py', scale, *props],
                           env=env, capture_output=True, text=True, timeout=1200)
        out = r.stdout
    except subprocess.TimeoutExpired as e:
        m['other'].append('timeout')
        out = ''
    shutil.rmtree(d + '/tmp', ignore_errors=True)
    for line in out.splitlines():
        if line.startswith('KILLED'):
            m['killed'] = line.split()[1]
            m['msg'] = line
            return True
        if line.startswith('ERROR'):
            m['other'].append(line)
    if 'NONE' not in out:
        m['other'].append('no result')
    return False


def run(mutfile, outfile, workers):
    done = set()
    if os.path.exists(outfile):
        done = {json.loads(x)['id'] for x in open(outfile)}
    todo = [m for m in map(json.loads, open(mutfile)) if m['id'] not in done]
    q = Queue()
    for w in range(workers):
        d = f'/tmp/mut/w{w}'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d + '/repo', ignore=shutil.ignore_patterns('.git'))
        shutil.copytree('/verif', d + '/verif', ignore=shutil.ignore_patterns('.git', 'evidence', 'replays'))
        q.put(d)
    out = open(outfile, 'a')

    def one(m):
        d = q.get()
        try:
            path = f'{d}/repo/fides/{m["file"]}.py'
            src = open(f'{REPO}/fides/{m["file"]}.py').read()
            assert src[m['a']:m['b']] == m['old']
            open(path, 'w').write(src[:m['a']] + m['new'] + src[m['b']:])
            env = dict(os.environ, PYTHONPATH=d + '/repo', OPENBLAS_NUM_THREADS='1',
                       OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent')
            order = ORDER[m['file']].split()
            m['killed'], m['other'], m['tests'] = None, [], None
            if not checks(m, d, order, '0.04'):
                m['tests'] = 'pass' if tests(d) else 'fail'
                if m['tests'] == 'pass':
                    more = [p for p in ('C02', 'C12', 'C16', 'C17') if p not in order]
                    checks(m, d, order + more, '0.2')
            open(path, 'w').write(src)
            out.write(json.dumps(m) + '\n')
            out.flush()
        finally:
            q.put(d)

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, todo))


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        with open(sys.argv[2], 'w') as fo:
            n = 0
            for m in mutants():
                fo.write(json.dumps(m) + '\n')
                n += 1
        print(n)
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]))
