"""Mutation survey: plant many small changes in scratch copies of the package and list
those no check reports. Usage: mutate.py SEED COUNT [--files a.py,b.py] [--funcs regex]
Development aid only: no check uses it."""
import argparse
import ast
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')
BIN = {'Add': '-', 'Sub': '+', 'Mult': '/', 'Div': '*', 'Pow': '*', 'FloorDiv': '/', 'Mod': '*'}
CMP = {'Lt': '<=', 'LtE': '<', 'Gt': '>=', 'GtE': '>', 'Eq': '!=', 'NotEq': '==', 'In': 'not in', 'NotIn': 'in',
       'Is': 'is not', 'IsNot': 'is'}


def seg(src, n):
    return ast.get_source_segment(src, n)


def offsets(src):
    out, o = [], 0
    for l in src.encode().split(b'\n'):
        out.append(o)
        o += len(l) + 1
    return out


def mutants(src, want):
    tree = ast.parse(src)
    offs = offsets(src)
    raw = src.encode()

    def rep(n, text):
        s = offs[n.lineno - 1] + n.col_offset
        e = offs[n.end_lineno - 1] + n.end_col_offset
        return (raw[:s] + text.encode() + raw[e:]).decode(), raw[s:e].decode()
    out = []

    def add(fn, n, kind, text):
        try:
            new, old = rep(n, text)
            ast.parse(new)
        except Exception:
            return
        out.append((fn, n.lineno, kind, old, text, new))

    def visit(fn, f):
        doc = ast.get_docstring(f, clean=False)
        names = sorted({n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)})
        strs = sorted({n.value for n in ast.walk(f) if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value != doc})
        bound = sorted({n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} |
                       {a.arg for a in f.args.args})
        for n in ast.walk(f):
            if n is not f and isinstance(n, (ast.FunctionDef,)):
                pass
            if isinstance(n, ast.BinOp):
                l, r = seg(src, n.left), seg(src, n.right)
                op = type(n.op).__name__
                if op in BIN:
                    add(fn, n, 'op', '(%s) %s (%s)' % (l, BIN[op], r))
                if not isinstance(n.left, ast.Constant) or not isinstance(n.left.value, str):
                    add(fn, n, 'left', '(%s)' % l)
                    add(fn, n, 'right', '(%s)' % r)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                add(fn, n, 'unary', '(%s)' % seg(src, n.operand))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                add(fn, n, 'const', repr(n.value + 1))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(fn, n, 'bool', repr(not n.value))
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in strs and n.value:
                cand = [s for s in strs if s != n.value and len(s) == len(n.value)]
                if cand:
                    add(fn, n, 'string', repr(random.choice(cand)))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                op = type(n.ops[0]).__name__
                add(fn, n, 'cmp', '%s %s %s' % (seg(src, n.left), CMP[op], seg(src, n.comparators[0])))
            elif isinstance(n, ast.BoolOp):
                add(fn, n, 'boolop', (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % seg(src, v) for v in n.values))
                add(fn, n, 'boolop-drop', '(%s)' % seg(src, n.values[0]))
            elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
                add(fn, n.test, 'negate', 'not (%s)' % seg(src, n.test))
            elif isinstance(n, ast.Call):
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    a, b = n.args[:2]
                    t = seg(src, n)
                    parts = [seg(src, x) for x in n.args]
                    parts[0], parts[1] = parts[1], parts[0]
                    parts += [seg(src, k) or '' for k in n.keywords]
                    add(fn, n, 'swapargs', '%s(%s)' % (seg(src, n.func), ', '.join(parts)))
                if n.keywords and all(k.arg for k in n.keywords):
                    i = random.randrange(len(n.keywords))
                    parts = [seg(src, x) for x in n.args] + ['%s=%s' % (k.arg, seg(src, k.value)) for j, k in enumerate(n.keywords) if j != i]
                    add(fn, n, 'dropkw', '%s(%s)' % (seg(src, n.func), ', '.join(parts)))
            elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)):
                if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    add(fn, n, 'delete', 'pass')
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in bound:
                cand = [x for x in bound if x != n.id and x in names]
                if cand:
                    add(fn, n, 'name', random.choice(cand))
            elif isinstance(n, (ast.Break, ast.Continue)):
                add(fn, n, 'jump', 'pass')

    def walk(body, pre):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                visit(pre + s.name, s)
            elif isinstance(s, ast.ClassDef):
                walk(s.body, pre + s.name + '.')
    walk(tree.body, '')
    seen, uniq = set(), []
    for m in out:
        if m[5] not in seen and (want is None or re.search(want, m[0])):
            seen.add(m[5])
            uniq.append(m)
    return uniq


def reach():
    """function -> [(seconds, property)] from the last evidence."""
    out = {}
    for f in glob.glob(os.path.join(HERE, 'evidence', 'C*.json')):
        e = json.load(open(f))
        for q in e['coverage']['functions_analysed']:
            out.setdefault(q, []).append((e['wall_s'], e['property']))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('seed', type=int)
    ap.add_argument('count', type=int)
    ap.add_argument('--files', default='')
    ap.add_argument('--funcs', default=None)
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--skip', default='C04')
    ap.add_argument('--sa', default=os.path.join(HERE, 'sa'))
    ap.add_argument('--kinds', default='')
    ap.add_argument('--tests', action='store_true')
    a = ap.parse_args()
    random.seed(a.seed)
    files = a.files.split(',') if a.files else [os.path.basename(p) for p in glob.glob(REPO + '/bicycleparameters/*.py')
                                                if os.path.basename(p) not in ('version.py', '__init__.py', 'parameter_dicts.py', '_mooreriderlean2012.py')]
    pool = []
    for f in sorted(files):
        src = open(os.path.join(REPO, 'bicycleparameters', f)).read()
        pool += [(f,) + m for m in mutants(src, a.funcs)]
    if a.kinds:
        pool = [m for m in pool if m[3] in a.kinds.split(',')]
    # spread over functions: pick a function, then a mutant of it
    by = {}
    for m in pool:
        by.setdefault((m[0], m[1]), []).append(m)
    picks = []
    keys = sorted(by)
    while len(picks) < a.count and keys:
        k = random.choice(keys)
        m = by[k].pop(random.randrange(len(by[k])))
        picks.append(m)
        if not by[k]:
            keys.remove(k)
    rm = reach()

    def one(m):
        f, fn, line, kind, old, new, text = m
        mod = f[:-3]
        d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
        try:
            shutil.copytree(os.path.join(REPO, 'bicycleparameters'), os.path.join(d, 'bicycleparameters'),
                            ignore=shutil.ignore_patterns('__pycache__'))
            with open(os.path.join(d, 'bicycleparameters', f), 'w') as h:
                h.write(text)
            props = sorted(set(sum([v for q, v in rm.items() if q == '%s.%s' % (mod, fn) or
                                    q.startswith('%s.%s.' % (mod, fn))], [])))
            if not props:
                return m, 'UNREACHED', []
            other = []
            for t, p in props:
                if p in a.skip.split(','):
                    continue
                try:
                    r = subprocess.run(['bash', '-c', 'ulimit -v 12000000; exec timeout 300 python3 %s/run.py --property %s' % (a.sa, p)],
                                       env=dict(os.environ, SA_REPO=d), capture_output=True, text=True)
                except Exception as e:
                    other.append('%s:%s' % (p, e))
                    continue
                if r.returncode == 1:
                    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATED')]
                    return m, 'caught', [p, v[0][:150] if v else '']
                und = r.stdout.count('\nUNDECIDED')
                if r.returncode or und:
                    other.append('%s:rc%d,und%d' % (p, r.returncode, und))
            return m, 'SURVIVED', other
        finally:
            shutil.rmtree(d, ignore_errors=True)
    n = {}
    with ThreadPoolExecutor(a.jobs) as ex:
        for m, res, info in ex.map(one, picks):
            n[res] = n.get(res, 0) + 1
            if res != 'caught':
                print('%s %s %s:%d [%s] %s  ->  %s   %s' % (res, m[0], m[1], m[2], m[3], m[4][:110].replace('\n', ' '),
                                                          m[5][:110].replace('\n', ' '), ' '.join(info)), flush=True)
    print(n)


if __name__ == '__main__':
    main()
