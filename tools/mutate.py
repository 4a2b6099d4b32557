"""Sensitivity experiment (no registered check uses it): plant random single-token mutations in the
functions a check encodes and list those the check does not report.

usage: mutate.py ID N SEED [substring of function names]"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '-', ast.Div: '*', ast.Mod: '+'}


def functions(tree, prefix=''):
    for n in ast.iter_child_nodes(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            name = prefix + n.name
            if isinstance(n, ast.FunctionDef):
                yield name, n
            yield from functions(n, name + '.')


def doc(f):
    return f.body[0] if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else None


def sites(f, src):
    """(description, start offset, end offset, new text)"""
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)

    def pos(line, col):
        return off[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    d = doc(f)
    skip = set()
    for n in ast.walk(f):
        if isinstance(n, (ast.Raise, ast.Assert)) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print'):
            skip.update(id(m) for m in ast.walk(n))
    for n in ast.walk(f):
        if n is f or id(n) in skip or n is d:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            mid = src[a:b]
            for o in CMP.get(type(n.ops[0]), []):
                old = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in',
                       ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}[type(n.ops[0])]
                if mid.count(old) == 1:
                    k = a + mid.index(old)
                    yield n.lineno, k, k + len(old), o
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant,)) or (
                isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(getattr(n.left, 'value', 0), str)):
            a, b = span(n.left)[1], span(n.right)[0]
            old = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Div: '/', ast.Mod: '%'}[type(n.op)]
            mid = src[a:b]
            if mid.count(old) == 1:
                k = a + mid.index(old)
                yield n.lineno, k, k + len(old), BIN[type(n.op)]
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            old = 'and' if isinstance(n.op, ast.And) else 'or'
            mid = src[a:b]
            if mid.count(old) == 1:
                k = a + mid.index(old)
                yield n.lineno, k, k + len(old), 'or' if old == 'and' else 'and'
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            yield n.lineno, a, a + 3, '   '
        elif isinstance(n, ast.Constant) and n.kind is None:
            a, b = span(n)
            if n.value is True or n.value is False:
                yield n.lineno, a, b, str(not n.value)
            elif type(n.value) is int:
                yield n.lineno, a, b, str(n.value + 1)
                if n.value:
                    yield n.lineno, a, b, str(n.value - 1)
            elif type(n.value) is float and n.value == int(n.value):
                yield n.lineno, a, b, str(n.value + 1)
        elif isinstance(n, (ast.If, ast.While)):
            pass
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) or (isinstance(n, ast.Expr) and n is not d):
            if n.lineno == n.end_lineno or True:
                a, b = span(n)
                yield n.lineno, a, b, 'pass'


def main():
    pid, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sub = sys.argv[4] if len(sys.argv) > 4 else ''
    rnd = random.Random(seed)
    ev = json.load(open(os.path.join(V, 'evidence', pid + '.json')))
    fns = ev['coverage']['functions_encoded']
    anchors = None
    for line in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(line)
        if p['id'] == pid:
            anchors = p.get('anchors', p.get('anchor'))['files']
    cand = []
    for path in anchors:
        mod = path[:-3].replace('/', '.')
        src = open(os.path.join(REPO, path), newline='').read()
        crlf = '\r\n' in src
        src = src.replace('\r\n', '\n')
        for name, f in functions(ast.parse(src)):
            if mod + '.' + name in fns and sub in name:
                ss = list(sites(f, src))
                cand += [(path, crlf, name) + s for s in ss]
    rnd.shuffle(cand)
    w = '/tmp/mutants/%s_%d' % (pid, seed)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(os.path.dirname(w), exist_ok=True)
    subprocess.run(['cp', '-a', REPO, w], check=True)
    tally = {}
    try:
        done = 0
        for path, crlf, name, line, a, b, new in cand:
            if done >= count:
                break
            src = open(os.path.join(REPO, path), newline='').read().replace('\r\n', '\n')
            mut = src[:a] + new + src[b:]
            try:
                compile(mut, path, 'exec')
            except SyntaxError:
                continue
            done += 1
            full = os.path.join(w, path)
            open(full, 'w', newline='').write(mut.replace('\n', '\r\n') if crlf else mut)
            t0 = time.time()
            try:
                r = subprocess.run([os.path.join(V, 'check'), pid, 'quick'], capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, VERIF_REPO=w, VERIF_FAILFAST='1'))
                rc, out = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, out = 'timeout', ''
            open(full, 'w', newline='').write(src.replace('\n', '\r\n') if crlf else src)
            v = {1: 'killed', 0: 'SURVIVED', 2: 'NO ANSWER'}.get(rc, str(rc))
            if rc == 1 and 'VIOLATION property' not in out:
                v = 'CRASH'
            tally[v] = tally.get(v, 0) + 1
            text = src.split('\n')[line - 1].strip()
            print('%s %-9s %5.1fs %s:%d %s  [%s -> %s]' % (pid, v, time.time() - t0, path, line, text[:90], src[a:b][:60].replace('\n', ' '), new), flush=True)
            if v == 'NO ANSWER':
                print('      ', [l[:200] for l in out.splitlines() if l.startswith('ERROR')][:1], flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print(pid, tally, 'of', len(cand), 'sites', flush=True)


if __name__ == '__main__':
    main()
