"""Mutation campaign: which small changes of the code do the checks miss?

    mutate.py OUT.jsonl [--files a.py,b.py] [--every N] [--offset K] [--jobs 8]

Works on copies of /repo and of this directory under a scratch directory.
Every mutant that passes the stable tests is given to the checks of the file
it is in; those that no check notices are listed in OUT.jsonl as "missed".
"""
import argparse
import ast
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CHECKS = {
    'sequentialparser/parsers.py': 'C01 C03 C04 C02 C05 C06 C12 C13 C23',
    'sequentialparser/sif2hdf5.py': 'C05 C04 C21 C03 C14 C01 C23',
    'sequentialparser/sequentialfiles.py': 'C02 C19 C03 C01 C21 C23',
    'calc/principal.py': 'C17 C24',
    'calc/vonmises.py': 'C17 C24',
    'calc/general.py': 'C18 C24',
    'data/file.py': 'C14 C21 C05 C22',
    'data/sifdata.py': 'C14 C06 C05 C21',
    'data/helpers.py': 'C05 C14 C06 C21 C24',
    'data/strucdata.py': 'C07 C08 C09 C10 C06 C14 C21 C22 C24',
    'data/hydrodata.py': 'C11 C12 C13 C14 C21 C22',
    'utils/writers.py': 'C15 C16 C24',
    'utils/vtfdata.py': 'C20 C24',
    'exceptions.py': 'C14 C15',
}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<',
       ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '*', ast.Mod: '+', ast.BitOr: '&', ast.BitAnd: '|'}


def mutants(src):
    """-> (line, description, new source)"""
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    raw = src.encode()
    for l in raw.split(b'\n'):
        starts.append(starts[-1] + len(l) + 1)

    def pos(lineno, col):
        return starts[lineno - 1] + col

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno,
                                                n.end_col_offset)

    def rep(a, b, text):
        return (raw[:a] + text.encode() + raw[b:]).decode()

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                docs.add(id(n.body[0]))
                docs.add(id(n.body[0].value))
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a = seg(n.left)[1]
            b = seg(n.comparators[0])[0]
            t = CMP.get(type(n.ops[0]))
            mid = raw[a:b].decode()
            if t and '(' not in mid and ')' not in mid:
                yield n.lineno, 'cmp ' + t, rep(a, b, ' %s ' % t)
        elif isinstance(n, ast.BinOp):
            a = seg(n.left)[1]
            b = seg(n.right)[0]
            t = BIN.get(type(n.op))
            mid = raw[a:b].decode()
            if isinstance(n.left, ast.Constant) and isinstance(
                    n.left.value, str):
                continue
            if t and '(' not in mid and ')' not in mid and '\n' not in mid:
                yield n.lineno, 'bin ' + t, rep(a, b, ' %s ' % t)
        elif isinstance(n, ast.BoolOp):
            a = seg(n.values[0])[1]
            b = seg(n.values[1])[0]
            mid = raw[a:b].decode()
            o, t = ('and', 'or') if isinstance(n.op, ast.And) else (
                'or', 'and')
            if mid.count(o) == 1 and '\n' not in mid:
                yield n.lineno, 'bool ' + t, rep(a, b, mid.replace(o, t))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not,
                                                             ast.USub)):
            a, b = seg(n)
            c, d = seg(n.operand)
            yield n.lineno, 'drop unary', rep(a, b, ' ' + raw[c:d].decode())
        elif isinstance(n, ast.Constant):
            a, b = seg(n)
            if n.value is True or n.value is False:
                yield n.lineno, 'bool const', rep(a, b, str(not n.value))
            elif isinstance(n.value, int):
                yield n.lineno, '+1', rep(a, b, str(n.value + 1))
                if n.value > 0:
                    yield n.lineno, '-1', rep(a, b, str(n.value - 1))
            elif isinstance(n.value, float):
                yield n.lineno, '*2', rep(a, b, str(n.value * 2 + 1))
            elif isinstance(n.value, str) and n.value and \
                    raw[a:b].count(b'\n') == 0:
                yield n.lineno, 'str', rep(a, b, repr(n.value + 'x'))
        elif isinstance(n, (ast.If, ast.While)):
            a, b = seg(n.test)
            t = raw[a:b].decode()
            yield n.lineno, 'negate', rep(a, b, 'not (%s)' % t)
        elif isinstance(n, ast.IfExp):
            a, b = seg(n.test)
            yield n.lineno, 'negate', rep(a, b,
                                          'not (%s)' % raw[a:b].decode())
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for part in (n.slice.lower, n.slice.upper):
                if part is not None:
                    a, b = seg(part)
                    yield n.lineno, 'slice', rep(a, b, '')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise,
                          ast.Continue, ast.Break, ast.Return, ast.Delete)):
            a, b = seg(n)
            yield n.lineno, 'delete', rep(a, b, 'pass')
        if isinstance(n, ast.Call) and n.keywords and len(n.args):
            k = n.keywords[-1]
            a = pos(k.lineno, k.col_offset)
            b = pos(k.end_lineno, k.end_col_offset)
            yield n.lineno, 'drop kw', rep(a, b, '')


def run(cmd, env, cwd, t):
    try:
        p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def clean(repo):
    shutil.rmtree(repo + '/tests/files/tmp', ignore_errors=True)
    for n in ('/slowdrift_G1.h5', '/tests/files/hydro/slowdrift_G1.h5'):
        if os.path.exists(repo + n):
            os.remove(repo + n)


def one(args):
    root, rel, line, desc, new, shards, seed = args
    pid = os.getpid()
    repo = os.path.join(root, 'repo%d' % pid)
    if not os.path.exists(repo):
        shutil.copytree(os.path.join(root, 'repo'), repo, symlinks=True)
    path = os.path.join(repo, 'freesif', rel)
    with open(path) as f:
        old = f.read()
    with open(path, 'w') as f:
        f.write(new)
    tmp = os.path.join(root, 'tmp%d' % pid)
    os.makedirs(tmp, exist_ok=True)
    env = dict(os.environ, PYTHONPATH=repo, FREESIF_REPO=repo, TMPDIR=tmp,
               PYTHONDONTWRITEBYTECODE='1', PBT_NOSHRINK='1', VERIF_SEED='1',
               OMP_NUM_THREADS='1')
    res = {'file': rel, 'line': line, 'what': desc}
    try:
        clean(repo)
        rc, out = run([PY, '-m', 'pytest', 'tests', '-x', '-q', '-p',
                       'no:cacheprovider'], env, repo, 120)
        clean(repo)
        if rc != 0:
            res['result'] = 'tests'
            return res
        took = []
        for c in CHECKS[rel].split():
            rc, out = run([PY, '-B', os.path.join(root, 'verif', 'pbt',
                                                  'run.py'), c, '--shards',
                           str(shards), '--seed', str(seed)], env, tmp, 400)
            if rc == 1:
                res['result'] = 'killed'
                res['by'] = c
                return res
            if rc != 0:
                took.append([c, rc, out[-300:]])
        res['result'] = 'missed'
        if took:
            res['trouble'] = took
        return res
    finally:
        with open(path, 'w') as f:
            f.write(old)
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files')
    ap.add_argument('--every', type=int, default=1)
    ap.add_argument('--offset', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--shards', type=int, default=1)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--skip-names', action='store_true',
                    help='leave the lists of record names alone')
    ap.add_argument('--only', help='jsonl of earlier results: redo "missed"')
    a = ap.parse_args()
    root = tempfile.mkdtemp(prefix='mutate-')
    try:
        subprocess.run(['cp', '-a', '/repo', root + '/repo'], check=True)
        shutil.copytree(HERE + '/pbt', root + '/verif/pbt')
        shutil.copy(HERE + '/known_findings.json', root + '/verif/')
        os.makedirs(root + '/verif/evidence')
        redo = None
        if a.only:
            with open(a.only) as f:
                redo = [json.loads(l) for l in f]
            redo = {(r['file'], r['line'], r['what'], r.get('k', 0))
                    for r in redo if r['result'] == 'missed'}
        todo = []
        for rel in sorted(CHECKS):
            if a.files and rel not in a.files.split(','):
                continue
            with open(os.path.join(root, 'repo', 'freesif', rel)) as f:
                src = f.read()
            seen = {}
            for line, desc, new in mutants(src):
                k = seen[line, desc] = seen.get((line, desc), -1) + 1
                try:
                    compile(new, rel, 'exec')
                except SyntaxError:
                    continue
                if a.skip_names and desc == 'str' and line < 80 and \
                        rel.endswith('sequentialfiles.py'):
                    continue
                if redo is not None and (rel, line, desc, k) not in redo:
                    continue
                todo.append((rel, line, desc, new, k))
        todo = todo[a.offset::a.every]
        print(len(todo), 'mutants', flush=True)
        out = open(a.out, 'a')
        count = {}
        with mp.Pool(a.jobs) as pool:
            work = ((root, rel, line, desc, new, a.shards, a.seed)
                    for rel, line, desc, new, k in todo)
            ks = [t[4] for t in todo]
            for i, r in enumerate(pool.imap(one, work)):
                r['k'] = ks[i]
                count[r['result']] = count.get(r['result'], 0) + 1
                out.write(json.dumps(r) + '\n')
                out.flush()
        print(count)
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    main()
