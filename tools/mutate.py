#!/usr/bin/env python3
"""mutate.py [-n PER_FUNCTION] [-w WORKERS] [-s SEED] [-o OUT] [FILE[:FUNCTION] ...]

Small syntactic mutants of the functions which the checks encode (as listed in
their evidence), each run against the checks which encode the function, in
copies of /repo and /verif under /tmp.  Prints the mutants which no check
notices: each is an equivalent change, outside every claim, or a gap."""
import argparse
import ast
import glob
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TMP = '/tmp/mutate'
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*', ast.BitAnd: '|', ast.BitOr: '&'}


def seg(lines, a, b):
    """Replace text between positions; None when it spans lines."""
    return a[0] == b[0]


def mutants(tree, src, names):
    """Yield (qualified function, line number, old line, new line)."""
    lines = src.splitlines(True)

    def repl(l, c0, c1, new):
        raw = lines[l - 1].encode()
        return (raw[:c0] + new.encode() + raw[c1:]).decode()

    def walk_fn(fn, q):
        body = fn.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    a, b = n.left, n.comparators[0]
                    if a.end_lineno == b.lineno:
                        for o in CMP.get(type(n.ops[0]), []):
                            mid = lines[a.end_lineno - 1].encode()[a.end_col_offset:b.col_offset].decode()
                            if mid.strip('() ') and '(' not in mid and ')' not in mid:
                                yield a.end_lineno, repl(a.end_lineno, a.end_col_offset, b.col_offset, ' %s ' % o)
                elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                    a, b = n.left, n.right
                    if a.end_lineno == b.lineno:
                        mid = lines[a.end_lineno - 1].encode()[a.end_col_offset:b.col_offset].decode()
                        if '(' not in mid and ')' not in mid and not (isinstance(a, ast.Constant) and isinstance(a.value, str)):
                            yield a.end_lineno, repl(a.end_lineno, a.end_col_offset, b.col_offset, ' %s ' % BIN[type(n.op)])
                elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
                    a, b = n.values
                    if a.end_lineno == b.lineno:
                        mid = lines[a.end_lineno - 1].encode()[a.end_col_offset:b.col_offset].decode()
                        new = mid.replace('and', '#').replace('or', 'and').replace('#', 'or')
                        yield a.end_lineno, repl(a.end_lineno, a.end_col_offset, b.col_offset, new)
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and n.lineno == n.operand.lineno:
                    yield n.lineno, repl(n.lineno, n.col_offset, n.operand.col_offset, '')
                elif isinstance(n, ast.Constant) and n.lineno == n.end_lineno:
                    if n.value is True or n.value is False:
                        yield n.lineno, repl(n.lineno, n.col_offset, n.end_col_offset, str(not n.value))
                    elif isinstance(n.value, (int, float)):
                        yield n.lineno, repl(n.lineno, n.col_offset, n.end_col_offset, repr(n.value + 1))
                        if n.value:
                            yield n.lineno, repl(n.lineno, n.col_offset, n.end_col_offset, '0')
                elif isinstance(n, (ast.If, ast.While)) and n.test.lineno == n.test.end_lineno == n.lineno:
                    t = n.test
                    yield n.lineno, repl(t.lineno, t.col_offset, t.end_col_offset,
                                         'not (%s)' % lines[t.lineno - 1].encode()[t.col_offset:t.end_col_offset].decode())
                elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) and n.lineno == n.end_lineno:
                    txt = lines[n.lineno - 1]
                    if isinstance(n, ast.Expr) and ('print' in txt or 'warn' in txt or isinstance(n.value, ast.Constant)):
                        continue
                    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                        continue     # usually a NameError
                    yield n.lineno, repl(n.lineno, n.col_offset, n.end_col_offset, 'pass')

    def rec(node, q):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                qq = (q + '.' if q else '') + n.name
                if isinstance(n, ast.FunctionDef) and qq in names:
                    for l, new in walk_fn(n, qq):
                        if new != lines[l - 1] and 'raise' not in new:
                            yield qq, l, lines[l - 1], new
                yield from rec(n, qq)
    seen = set()
    for m in rec(tree, ''):
        if m[1:] not in seen:
            seen.add(m[1:])
            new = list(lines)
            new[m[1] - 1] = m[3]
            try:
                ast.parse(''.join(new))
            except SyntaxError:
                continue
            yield m


def work(args):
    (k, f, q, line, old, new, props) = args
    w = os.path.join(TMP, 'w%d' % (mp.current_process()._identity[0]))
    if not os.path.exists(w):
        os.makedirs(w)
        subprocess.check_call(['cp', '-a', REPO, w + '/repo'])
        os.makedirs(w + '/verif')
        for x in ('run.py', 'symrun', 'checks', 'stubs', 'known_findings.json'):
            subprocess.check_call(['cp', '-a', os.path.join(VERIF, x), w + '/verif/'])
    path = os.path.join(w, 'repo', f)
    with open(path, newline='') as fh:
        src = fh.read()
    lines = src.splitlines(True)
    assert lines[line - 1] == old
    lines[line - 1] = new
    out = []
    killed = None
    try:
        with open(path, 'w', newline='') as fh:
            fh.write(''.join(lines))
        for p in props:
            env = dict(os.environ, VERIF_REPO=w + '/repo', SYMRUN_FAST='1', VERIF_JOBS='2')
            try:
                r = subprocess.run([w + '/verif/run.py', 'check', p], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                   text=True, timeout=700)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            out.append((p, rc))
            if rc == 1:
                killed = p
                break
    finally:
        with open(path, 'w', newline='') as fh:
            fh.write(src)
    return k, f, q, line, old.strip(), new.strip(), killed, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=4)
    ap.add_argument('-w', type=int, default=4)
    ap.add_argument('-c', type=int, default=4, help='checks per mutant')
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-o', default='/tmp/mutate.jsonl')
    ap.add_argument('-p', action='append', help='only these properties')
    ap.add_argument('what', nargs='*')
    a = ap.parse_args()
    cover, cost = {}, {}
    for e in glob.glob(VERIF + '/evidence/C*.json'):
        with open(e) as fh:
            d = json.load(fh)
        if a.p and d['property'] not in a.p:
            continue
        cost[d['property']] = d['wall_s']
        for fn in d['coverage']['functions_encoded']:
            f, q = fn.split(':')
            cover.setdefault(('nilmtk/' + f, q.replace('.<locals>', '')), []).append(d['property'])
    with open(VERIF + '/properties.jsonl') as fh:
        anchor = {d['id']: json.dumps(d) for d in map(json.loads, fh)}
    files = {}
    for (f, q), ps in cover.items():
        if not a.what or any(w == f or w == f + ':' + q for w in a.what):
            own = [p for p in ps if f in anchor[p]] or ps
            files.setdefault(f, {})[q] = sorted(own, key=lambda p: cost[p])[:a.c]
    rnd = random.Random(a.s)
    todo = []
    for f in sorted(files):
        with open(os.path.join(REPO, f), newline='') as fh:
            src = fh.read()
        per = {}
        for m in mutants(ast.parse(src), src, files[f]):
            per.setdefault(m[0], []).append(m)
        for q, ms in sorted(per.items()):
            for m in (ms if a.n <= 0 or len(ms) <= a.n else rnd.sample(ms, a.n)):
                todo.append((f,) + m + (files[f][q],))
    rnd.shuffle(todo)
    print(len(todo), 'mutants', flush=True)
    shutil.rmtree('/tmp/mutate', ignore_errors=True)
    t0 = time.time()
    dead = 0
    with mp.Pool(a.w) as pool, open(a.o, 'w') as fh:
        for i, r in enumerate(pool.imap_unordered(work, [(k,) + t for k, t in enumerate(todo)])):
            fh.write(json.dumps(r) + '\n')
            fh.flush()
            if r[6]:
                dead += 1
            else:
                print('SURVIVED %s:%d %s\n   - %s\n   + %s\n   %s' % (r[1], r[3], r[2], r[4], r[5], r[7]), flush=True)
    print('%d of %d killed, %.0f s' % (dead, len(todo), time.time() - t0))
    shutil.rmtree('/tmp/mutate', ignore_errors=True)


if __name__ == '__main__':
    main()
