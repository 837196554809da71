#!/usr/bin/env python3
"""Mutation sweep (development only; no check uses it): small changes of /repo's source, each run against the checks of the part it
is in. Prints those nothing notices, for a human to look at.
  mutate.py list FILE
  mutate.py run FILE STRIDE OFFSET OUT.jsonl [regex on the function name]"""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}
SYM = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in',
       ast.Is: 'is', ast.IsNot: 'is not', ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Div: '/', ast.Mod: '%',
       ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.And: 'and', ast.Or: 'or'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '%', ast.Div: '*', ast.Mod: '//', ast.LShift: '>>', ast.RShift: '<<',
       ast.BitAnd: '|', ast.BitOr: '&', ast.BitXor: '|'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)
    pos = lambda l, c: starts[l - 1] + len(lines[l - 1].encode()[:c].decode())
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def between(a, b, old, new, fn):
        i, j = span(a)[1], span(b)[0]
        k = src[i:j].find(old)
        if k >= 0:
            out.append((i + k, i + k + len(old), new, fn))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = n.name if isinstance(n, ast.FunctionDef) and not fn[:1].islower() else fn or n.name
        if isinstance(n, ast.Compare):
            a = n.left
            for o, b in zip(n.ops, n.comparators):
                if type(o) in CMP:
                    between(a, b, SYM[type(o)], CMP[type(o)], fn)
                a = b
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant | ast.JoinedStr) | isinstance(getattr(n.left, 'value', 0), str):
            between(n.left, n.right, SYM[type(n.op)], BIN[type(n.op)], fn)
        elif isinstance(n, ast.BoolOp):
            for a, b in zip(n.values, n.values[1:]):
                between(a, b, SYM[type(n.op)], 'or' if isinstance(n.op, ast.And) else 'and', fn)
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            i, j = span(n)
            out.append((i, j, str(n.value + 1), fn))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            i, j = span(n)
            out.append((i, j, str(not n.value), fn))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            i, j = span(n)
            k, l = span(n.operand)
            out.append((i, j, '(' + src[k:l] + ')', fn))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            i, j = span(n)
            k, l = span(n.operand)
            out.append((i, j, src[k:l], fn))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Assert, ast.Raise, ast.Continue, ast.Break)) or \
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            s = ast.get_source_segment(src, n)
            if 'log.debugln' not in s:
                i, j = span(n)
                out.append((i, j, 'pass', fn))
        if isinstance(n, ast.If):
            i, j = span(n.test)
            out.append((i, j, 'False', fn))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'log.debugln' in ast.get_source_segment(src, n):
            return
        if isinstance(n, (ast.AnnAssign,)) and n.value is None:
            return
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef,)) and c in (n.args, n.returns):
                continue
            walk(c, fn)
    walk(tree, '')
    return sorted(set(out))


def checks(file, fn):
    if file == 'leb128.py':
        return ['C13', 'C11']
    if file == '__main__.py':
        return ['C33']
    if file == 'arith.py':
        return ['C01', 'C03', 'C02', 'C04', 'C05', 'C14', 'C06']
    if file == 'opcode.py':
        return ['C11', 'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08']
    if file == 'wasi.py':
        for pat, cs in (('args|environ', ['C26', 'C33', 'C27']), ('clock|random|raise|yield', ['C34', 'C27', 'C31']), ('readdir', ['C25', 'C31', 'C27']),
                        ('poll', ['C28', 'C31', 'C27']), ('proc_exit|main', ['C29', 'C22', 'C31']), ('sock', ['C32', 'C31', 'C27']),
                        ('prestat', ['C35', 'C33', 'C27', 'C22', 'C21']), ('fd_(read|write|pread|pwrite|seek|tell|alloc|filestat_set_size|sync|datasync)', ['C27', 'C23', 'C21', 'C31', 'C30', 'C22']),
                        ('renumber|close', ['C22', 'C21', 'C32', 'C31']), ('stat', ['C30', 'C21', 'C27', 'C31', 'C24']),
                        ('path_open', ['C24', 'C21', 'C20', 'C30', 'C31', 'C22', 'C23']), ('path', ['C20', 'C24', 'C21', 'C27', 'C31']), ('advise', ['C21', 'C31', 'C23'])):
            if re.search(pat, fn):
                return cs
        return ['C27', 'C20', 'C26', 'C34', 'C32', 'C24', 'C21', 'C23', 'C25', 'C28', 'C30', 'C29', 'C22', 'C35', 'C31', 'C15']
    if re.search(r'v128|x16|x8|x4|x2', fn):
        return ['C04', 'C05', 'C14', 'C06']
    if re.search(r'i(32|64)', fn):
        return ['C01', 'C03', 'C06', 'C14']
    if re.search(r'f(32|64)', fn):
        return ['C02', 'C03', 'C06', 'C14']
    if re.search(r'memory|data', fn):
        return ['C06', 'C12', 'C11']
    if re.search(r'table|elem|ref_', fn):
        return ['C07', 'C12', 'C11']
    return ['C14', 'C13', 'C16', 'C08', 'C09', 'C07', 'C06', 'C10', 'C11', 'C29', 'C12', 'C15']


def main():
    file = sys.argv[2]
    src = open('/repo/pywasm/' + file).read()
    ms = mutants(src)
    if sys.argv[1] == 'list':
        print(len(ms))
        return
    if len(sys.argv) > 6:
        ms = [m for m in ms if re.search(sys.argv[6], m[3])]
    ms = ms[int(sys.argv[4])::int(sys.argv[3])]
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    shutil.copytree('/repo/pywasm', d + '/pywasm', ignore=shutil.ignore_patterns('__pycache__'))
    os.chmod(d, 0o755)
    env = dict(os.environ, MC_REPO=d, MC_STOP='1')
    try:
        for n, (i, j, new, fn) in enumerate(ms):
            bad = src[:i] + new + src[j:]
            try:
                compile(bad, file, 'exec')
            except SyntaxError:
                continue
            open(d + '/pywasm/' + file, 'w').write(bad)
            t = time.time()
            caught = None
            for c in checks(file, fn):
                try:
                    r = subprocess.run(['./run.sh', c, 'quick'], cwd=HERE, env=env, capture_output=True, text=True, timeout=600)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc:
                    caught = c if rc == 1 else '%s rc=%s' % (c, rc)
                    break
            line = src.count('\n', 0, i) + 1
            a, b = src.rfind('\n', 0, i) + 1, src.find('\n', j)
            with open(sys.argv[5], 'a') as f:
                f.write(json.dumps({'n': n, 'of': len(ms), 'line': line, 'fn': fn, 'old': src[i:j][:80], 'new': new[:80], 'text': (src[a:i] + '[[' + new + ']]' + src[j:b]).strip()[:200],
                                    'caught': caught, 's': round(time.time() - t)}) + '\n')
    finally:
        shutil.rmtree(d)


main()
