#!/usr/bin/env python3
"""Writes behaviour-preserving rewrites of the package: the checks have to
stay quiet on every one of them.

    refactor.py KIND SRC_REPO OUT_DIR [SEED]     (OUT_DIR/bicycleparameters)
"""
import ast, copy, keyword, os, random, sys

SKIP = {'_mooreriderlean2012.py', 'version.py', '__init__.py'}


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def funcs(tree):
    return [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef,))]


def bound(f):
    """names bound in the function itself, with its parameters, and whether it is plain (no nested scopes)"""
    params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
    if f.args.vararg: params.add(f.args.vararg.arg)
    if f.args.kwarg: params.add(f.args.kwarg.arg)
    loc = set()
    plain = True
    for x in ast.walk(f):
        if x is f: continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): loc.add(x.id)
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)): plain = False
        if isinstance(x, ast.ExceptHandler) and x.name: loc.add(x.name)
        if isinstance(x, ast.FunctionDef): loc.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            loc |= {(a.asname or a.name).split('.')[0] for a in x.names}
    return params, loc, plain


class Blocks(ast.NodeTransformer):
    """rewrite(stmt) -> list of statements, for every statement of every function body"""
    def __init__(self, fn):
        self.fn = fn
        self.f = []

    def visit_FunctionDef(self, n):
        self.f.append(n)
        self.generic_visit(n)
        self.f.pop()
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        if self.f:
            for k in ('body', 'orelse', 'finalbody'):
                b = getattr(n, k, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(n, k, self.block(b, n, k))
        return n

    def block(self, b, owner, k):
        return self.fn(b, self.f[-1], owner, k)


def each(fn):
    def go(b, f, owner, k):
        out = []
        for s in b:
            r = fn(s, f)
            out += r if isinstance(r, list) else [r]
        return out
    return lambda t, rng: Blocks(go).visit(t)


COUNT = [0]
def fresh(p='tmp'):
    COUNT[0] += 1
    return '_%s%d' % (p, COUNT[0])

def load(n): return ast.Name(n, ast.Load())
def store(n): return ast.Name(n, ast.Store())
def assign(n, v): return ast.Assign([store(n)], v)

# --- kinds

def k_plain(t, rng): return t

def k_rename(t, rng):
    for f in funcs(t):
        params, loc, plain = bound(f)
        if not plain: continue
        g = {x for s in ast.walk(f) if isinstance(s, (ast.Import, ast.ImportFrom)) for a in s.names for x in [(a.asname or a.name).split('.')[0]]}
        m = {x: x + '_val' for x in loc - params - g}
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('locals', 'eval', 'exec', 'vars') for x in ast.walk(f)): continue
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in m: x.id = m[x.id]
            if isinstance(x, ast.ExceptHandler) and x.name in m: x.name = m[x.name]
    return t

def neg(c):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not): return c.operand
    if isinstance(c, ast.Compare) and len(c.ops) == 1:
        o = {ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}.get(type(c.ops[0]))
        if o: return ast.Compare(c.left, [o()], c.comparators)
    return ast.UnaryOp(ast.Not(), c)

@each
def k_invert(s, f):
    if isinstance(s, ast.If) and s.orelse:
        return ast.If(neg(s.test), s.orelse, s.body)
    return s

class _Tern(ast.NodeTransformer):
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(neg(n.test), n.orelse, n.body)

def k_ternary(t, rng): return _Tern().visit(t)

def k_guard(t, rng):
    """if c: return x; rest   ->   if c: return x else: rest; and the reverse"""
    def go(b, f, owner, k):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                if not s.orelse and i + 1 < len(b):
                    return b[:i] + [ast.If(s.test, s.body, go(b[i + 1:], f, owner, k))]
        return b
    return Blocks(go).visit(t)

def k_unguard(t, rng):
    def go(b, f, owner, k):
        out = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                out += [ast.If(s.test, s.body, [])] + s.orelse
            else: out.append(s)
        return out
    return Blocks(go).visit(t)

@each
def k_return(s, f):
    if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
        n = fresh('result')
        return [assign(n, s.value), ast.Return(load(n))]
    return s

def hoistable(e):
    return isinstance(e, (ast.BinOp, ast.Call, ast.Subscript)) and not any(
        isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.IfExp, ast.BoolOp, ast.Starred, ast.NamedExpr, ast.Yield)) for x in ast.walk(e))

@each
def k_temps(s, f):
    """the first argument of every call of an assignment or return goes through a temporary"""
    if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and s.value is not None:
        v = s.value
        if isinstance(v, ast.Call) and v.args and hoistable(v.args[0]) and all(isinstance(a, (ast.Name, ast.Constant, ast.Attribute)) for a in [v.func]):
            pre = []
            for i, a in enumerate(v.args):
                if not hoistable(a):
                    if isinstance(a, (ast.Name, ast.Constant)): continue
                    break
                n = fresh(); pre.append(assign(n, a)); v.args[i] = load(n)
            return pre + [s]
        if isinstance(v, ast.BinOp) and hoistable(v.left):
            n = fresh()
            pre = [assign(n, v.left)]; v.left = load(n)
            return pre + [s]
    return s

@each
def k_comp(s, f):
    """list comprehension on the right of an assignment or return -> loop"""
    if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
        g = s.value.generators[0]
        tn = names(g.target)
        params, loc, plain = bound(f)
        m = {x: fresh(x) for x in tn}
        c = copy.deepcopy(s.value)
        for x in ast.walk(c):
            if isinstance(x, ast.Name) and x.id in m: x.id = m[x.id]
        cg = c.generators[0]
        cg.iter = g.iter
        out = fresh('out')
        body = [ast.Expr(ast.Call(ast.Attribute(load(out), 'append', ast.Load()), [c.elt], []))]
        for i in cg.ifs: body = [ast.If(i, body, [])]
        loop = ast.For(cg.target, cg.iter, body, [])
        s.value = load(out)
        return [assign(out, ast.List([], ast.Load())), loop, s]
    return s

def k_loop(t, rng):
    """x = []; for ..: x.append(e)  ->  comprehension"""
    def go(b, f, owner, k):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if (i + 1 < len(b) and isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts
                    and isinstance(s.targets[0], ast.Name) and isinstance(b[i + 1], ast.For) and len(b[i + 1].body) == 1):
                l = b[i + 1]; c = l.body[0]
                if (isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and isinstance(c.value.func, ast.Attribute)
                        and c.value.func.attr == 'append' and isinstance(c.value.func.value, ast.Name)
                        and c.value.func.value.id == s.targets[0].id and not l.orelse):
                    out.append(ast.Assign(s.targets, ast.ListComp(c.value.args[0], [ast.comprehension(l.target, l.iter, [], 0)])))
                    i += 2
                    continue
            out.append(s); i += 1
        return out
    return Blocks(go).visit(t)

class _Items(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and isinstance(it.func.value, ast.Name) and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
            k, v = n.target.elts
            return ast.For(k, ast.Call(load('list'), [ast.Call(ast.Attribute(it.func.value, 'keys', ast.Load()), [], [])], []),
                           [ast.Assign([v], ast.Subscript(it.func.value, load(k.id), ast.Load()))] + n.body, n.orelse)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 and isinstance(it.args[0], ast.Name) and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
            i, v = n.target.elts
            c = fresh('count')
            return [assign(c, ast.Constant(-1)),
                    ast.For(v, it.args[0], [assign(c, ast.BinOp(load(c), ast.Add(), ast.Constant(1))), ast.Assign([i], load(c))] + n.body, n.orelse)]
        return n

def k_items(t, rng): return _Items().visit(t)

class _Zip(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'zip' and isinstance(n.target, ast.Tuple):
            r = fresh('row')
            return ast.For(store(r), it, [ast.Assign([x], ast.Subscript(load(r), ast.Constant(i), ast.Load())) for i, x in enumerate(n.target.elts)] + n.body, n.orelse)
        return n

def k_zip(t, rng): return _Zip().visit(t)

class _Alg(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Subscript, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), n.left)
        if isinstance(n.op, ast.Mult) and not isinstance(n.left, (ast.List, ast.Constant)) and not (isinstance(n.right, ast.Constant)):
            if not any(isinstance(x, (ast.List, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str) and False for x in (n.left, n.right)):
                return ast.BinOp(n.right, ast.Mult(), n.left)
        if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and n.right.value in (2, 2.0):
            return ast.BinOp(n.left, ast.Mult(), ast.Constant(0.5))
        if isinstance(n.op, ast.Sub) and isinstance(n.left, (ast.BinOp,)) and isinstance(n.left.op, ast.Mult):
            return ast.BinOp(ast.UnaryOp(ast.USub(), n.right), ast.Add(), n.left)
        return n
    def visit_AugAssign(self, n): return n

def k_algebra(t, rng): return _Alg().visit(t)

class _Dot(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'dot' and isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'numpy') and len(n.args) == 2:
            return ast.Call(ast.Attribute(ast.Call(ast.Attribute(load('np'), 'asarray', ast.Load()), [n.args[0]], []), 'dot', ast.Load()), [n.args[1]], [])
        return n
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.MatMult):
            return ast.Call(ast.Attribute(load('np'), 'dot', ast.Load()), [n.left, n.right], [])
        return n

def k_dot(t, rng): return _Dot().visit(t)

class _Str(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        fmt, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant): fmt += v.value.replace('{', '{{').replace('}', '}}')
            else:
                conv = '' if v.conversion in (-1, None) else '!' + chr(v.conversion)
                spec = ''
                if v.format_spec:
                    if len(v.format_spec.values) > 1 or not isinstance(v.format_spec.values[0], ast.Constant): return n
                    spec = ':' + v.format_spec.values[0].value
                fmt += '{%s%s}' % (conv, spec)
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), args, [])
    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        return n
    def visit_BinOp(self, n):
        self.generic_visit(n)
        # 'a' + x + 'b' with a literal somewhere -> ''.join
        if isinstance(n.op, ast.Add) and isinstance(n.right, ast.Constant) and isinstance(n.right.value, str):
            return ast.Call(ast.Attribute(ast.Constant(''), 'join', ast.Load()), [ast.List([n.left, n.right], ast.Load())], [])
        return n

def k_strings(t, rng): return _Str().visit(t)

class _Dict(ast.NodeTransformer):
    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() and not keyword.iskeyword(k.value) for k in n.keys):
            return ast.Call(load('dict'), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        if not n.keys: return ast.Call(load('dict'), [], [])
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'dict' and not n.args and not n.keywords: return ast.Dict([], [])
        return n
    def visit_List(self, n):
        self.generic_visit(n)
        if not n.elts and isinstance(n.ctx, ast.Load): return ast.Call(load('list'), [], [])
        return n

def k_dicts(t, rng): return _Dict().visit(t)

@each
def k_with(s, f):
    if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].context_expr, ast.Call) and isinstance(s.items[0].context_expr.func, ast.Name) and s.items[0].context_expr.func.id == 'open':
        v = s.items[0].optional_vars
        return [ast.Assign([v], s.items[0].context_expr), ast.Try(s.body, [], [], [ast.Expr(ast.Call(ast.Attribute(load(v.id), 'close', ast.Load()), [], []))])]
    return s

@each
def k_nest(s, f):
    if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
        b = s.body
        for c in reversed(s.test.values): b = [ast.If(c, b, [])]
        return b
    if isinstance(s, ast.If) and s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or):
        n = fresh('cond')
        return [assign(n, s.test), ast.If(load(n), s.body, s.orelse)]
    return s

@each
def k_cond(s, f):
    """conditions go through a variable"""
    if isinstance(s, ast.If):
        n = fresh('cond')
        return [assign(n, s.test), ast.If(load(n), s.body, s.orelse)]
    return s

def k_wrap(t, rng):
    """every function's body moves to a private helper"""
    def wrap(body, cls):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                s.body = wrap(s.body, True)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.name.startswith('__') and not any(
                    isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(s)) and not s.args.vararg and not s.args.kwarg:
                h = copy.deepcopy(s)
                h.name = '_impl_' + s.name
                h.args.defaults, h.args.kw_defaults = [], [None] * len(h.args.kwonlyargs)
                doc = ast.get_docstring(s) is not None
                if doc: h.body = h.body[1:] or [ast.Pass()]
                p = [a.arg for a in s.args.args]
                fnc = ast.Attribute(load(p[0]), h.name, ast.Load()) if cls else load(h.name)
                call = ast.Call(fnc, [load(x) for x in (p[1:] if cls else p)], [ast.keyword(a.arg, load(a.arg)) for a in s.args.kwonlyargs])
                s.body = s.body[:1] * doc + [ast.Return(call)]
                out += [h, s]
            else: out.append(s)
        return out
    t.body = wrap(t.body, False)
    return t

def k_extract(t, rng):
    """right-hand sides of assignments move to module-level helpers"""
    new = []
    glob = {x for s in t.body for x in ([s.name] if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else names(s, ast.Store) if isinstance(s, ast.Assign) else [])}
    def go(s, f):
        if isinstance(s, ast.Assign) and isinstance(s.value, (ast.BinOp, ast.Call)):
            params, loc, plain = bound(f)
            outer = {x for g in funcs(t) for x in bound(g)[0] | bound(g)[1]}
            comp = {x for c in ast.walk(s.value) if isinstance(c, ast.comprehension) for x in names(c.target)}
            lam = {a.arg for c in ast.walk(s.value) if isinstance(c, ast.Lambda) for a in c.args.args}
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals') for x in ast.walk(s.value)) or lam: return s
            if any(isinstance(x, ast.Name) and x.id == '__class__' for x in ast.walk(s.value)): return s
            used = [x for x in sorted(names(s.value, ast.Load)) if (x in params | loc or (x in outer and x not in glob)) and x not in comp]
            imports = {x for g in [f] for i in ast.walk(g) if isinstance(i, (ast.Import, ast.ImportFrom)) for a in i.names for x in [(a.asname or a.name).split('.')[0]]}
            h = fresh('helper')
            new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in used], None, [], [], None, []), [ast.Return(s.value)], [], None))
            s.value = ast.Call(load(h), [load(x) for x in used], [])
        return s
    t = each(go)(t, rng)
    # helpers go after the imports
    i = max([j for j, s in enumerate(t.body) if isinstance(s, (ast.Import, ast.ImportFrom, ast.Try))] or [0]) + 1
    t.body[i:i] = new
    return t

def k_swap(t, rng):
    """adjacent assignments of names that do not depend on one another change places"""
    pure = lambda e: not any(isinstance(x, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp)) and not (
        isinstance(x, ast.BinOp)) and not (isinstance(x, ast.Subscript)) and not (isinstance(x, ast.Attribute)) and not (
        isinstance(x, ast.Call) and ast.unparse(x.func).split('.')[-1] in ('sin', 'cos', 'sqrt', 'zeros', 'array', 'eye', 'len', 'dot')) for x in ast.walk(e))
    def ok(a, b):
        if not all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and pure(x.value) for x in (a, b)): return False
        x, y = a.targets[0].id, b.targets[0].id
        return x != y and x not in names(b.value) and y not in names(a.value)
    def go(b, f, owner, k):
        b = list(b); i = 0
        while i + 1 < len(b):
            if ok(b[i], b[i + 1]):
                b[i], b[i + 1] = b[i + 1], b[i]; i += 2
            else: i += 1
        return b
    return Blocks(go).visit(t)

@each
def k_tuple(s, f):
    if isinstance(s, ast.Try):           # unpacking may be what raises there
        s.body = [x.was if hasattr(x, 'was') else x for x in s.body if not hasattr(x, 'drop')]
        return s
    r = tuple1(s)
    if isinstance(r, list):
        for x in r: x.drop = True
        del r[-1].drop
        r[-1].was = copy.deepcopy(s)
    return r


def tuple1(s):
    """a, b = x, y  ->  one after another through temporaries; a, b = f() -> indexing"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple):
        ts = s.targets[0].elts
        if any(isinstance(x, ast.Starred) for x in ts): return s
        if isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(ts):
            ns = [fresh() for _ in ts]
            return [assign(n, v) for n, v in zip(ns, s.value.elts)] + [ast.Assign([x], load(n)) for x, n in zip(ts, ns)]
        n = fresh()
        return [assign(n, s.value)] + [ast.Assign([x], ast.Subscript(load(n), ast.Constant(i), ast.Load())) for i, x in enumerate(ts)]
    return s

@each
def k_aug(s, f):
    """x += e -> x = x + e where e is a literal (numbers and strings)"""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Subscript)) and (isinstance(s.value, (ast.Constant, ast.JoinedStr)) or isinstance(s.value, ast.BinOp) and isinstance(s.value.right, ast.Constant) and isinstance(s.value.right.value, str)):
        t = copy.deepcopy(s.target)
        for x in ast.walk(t):
            if x is t: x.ctx = ast.Load()
        return ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
    return s

def k_imports(t, rng):
    """np.x -> from numpy import x as _np_x"""
    used = set()
    class T(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Name) and n.value.id == 'np' and n.attr in ('sin', 'cos', 'tan', 'sqrt', 'array', 'zeros', 'dot', 'pi', 'abs', 'arctan', 'arcsin', 'arctan2', 'empty', 'linspace', 'eye', 'zeros_like', 'linalg', 'hstack', 'vstack'):
                used.add(n.attr)
                return load('_np_' + n.attr)
            return n
    if not any(isinstance(s, ast.Import) and any(a.asname == 'np' for a in s.names) for s in t.body): return t
    t = T().visit(t)
    if used:
        i = [j for j, s in enumerate(t.body) if isinstance(s, ast.Import) and any(a.asname == 'np' for a in s.names)][0]
        t.body.insert(i + 1, ast.ImportFrom('numpy', [ast.alias(x, '_np_' + x) for x in sorted(used)], 0))
    return t

def k_noop(t, rng):
    def go(b, f, owner, k):
        if owner is f and len(b):
            d = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str) else 0
            return b[:d] + [assign('_unused', ast.Constant(0)), ast.Expr(ast.Call(load('len'), [ast.Constant('x')], []))] + b[d:]
        return b
    return Blocks(go).visit(t)

@each
def k_elif(s, f):
    """membership in a literal list -> or of equalities, and string comparisons turned around"""
    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and isinstance(n.left, ast.Name) and n.comparators[0].elts:
                eq = isinstance(n.ops[0], ast.In)
                v = [ast.Compare(n.left, [ast.Eq() if eq else ast.NotEq()], [e]) for e in n.comparators[0].elts]
                return v[0] if len(v) == 1 else ast.BoolOp(ast.Or() if eq else ast.And(), v)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.Gt, ast.Lt, ast.GtE, ast.LtE)) and isinstance(n.comparators[0], ast.Constant):
                o = {ast.Eq: ast.Eq, ast.Gt: ast.Lt, ast.Lt: ast.Gt, ast.GtE: ast.LtE, ast.LtE: ast.GtE}[type(n.ops[0])]()
                return ast.Compare(n.comparators[0], [o], [n.left])
            return n
    if isinstance(s, (ast.If, ast.While)): s.test = T().visit(s.test)
    return s

@each
def k_while(s, f):
    """for x in range(n) -> while"""
    if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) and not s.orelse and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s)):
        n, lim = fresh('i'), fresh('n')
        return [assign(lim, s.iter.args[0]), assign(n, ast.Constant(0)),
                ast.While(ast.Compare(load(n), [ast.Lt()], [load(lim)]), [ast.Assign([s.target], load(n))] + s.body + [ast.AugAssign(store(n), ast.Add(), ast.Constant(1))], [])]
    return s

class _Kw(ast.NodeTransformer):
    """own module-level functions are called with keywords"""
    def __init__(self, sig): self.sig = sig
    def visit_Call(self, n):
        self.generic_visit(n)
        nm = n.func.id if isinstance(n.func, ast.Name) else None
        if nm in self.sig and n.args and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) <= len(self.sig[nm]):
            n.keywords = [ast.keyword(k, v) for k, v in zip(self.sig[nm], n.args)] + n.keywords
            n.args = []
        return n

def k_keywords(t, rng):
    sig = {s.name: [a.arg for a in s.args.args] for s in t.body if isinstance(s, ast.FunctionDef)}
    return _Kw(sig).visit(t)

class _Get(ast.NodeTransformer):
    """attribute chains of self read through a local once per statement is too deep; x.shape[0] <-> len(x)"""
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Attribute) and n.value.attr == 'shape' and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
            return ast.Call(load('len'), [n.value.value], [])
        return n

def k_shape(t, rng): return _Get().visit(t)

@each
def k_chain(s, f):
    """if/elif chains -> a sequence with the condition of the earlier ones negated"""
    if isinstance(s, ast.If) and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If) and not s.orelse[0].orelse and not any(isinstance(x, ast.Call) for x in ast.walk(s.test)):
        n = fresh('first')
        return [assign(n, s.test), ast.If(load(n), s.body, []), ast.If(ast.BoolOp(ast.And(), [ast.UnaryOp(ast.Not(), load(n)), s.orelse[0].test]), s.orelse[0].body, [])]
    return s

def k_selfalias(t, rng):
    """self.x read more than once in a method goes through a local (attributes the method does not assign)"""
    for c in ast.walk(t):
        if not isinstance(c, ast.ClassDef): continue
        meths = {m.name for m in c.body if isinstance(m, ast.FunctionDef)}
        for m in c.body:
            if not isinstance(m, ast.FunctionDef) or m.decorator_list or not m.args.args or m.args.args[0].arg != 'self' or m.name == '__init__': continue
            if not bound(m)[2]: continue
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self' for x in ast.walk(m)): continue
            st = {x.attr for x in ast.walk(m) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and not isinstance(x.ctx, ast.Load)}
            rd = [x for x in ast.walk(m) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and isinstance(x.ctx, ast.Load) and x.attr not in st and x.attr not in meths]
            first = set()
            # only attributes read in the first statement (so that they are surely there)
            d = 1 if ast.get_docstring(m) else 0
            if len(m.body) <= d: continue
            for x in ast.walk(m.body[d]):
                if x in rd and not isinstance(m.body[d], (ast.If, ast.For, ast.While, ast.Try)): first.add(x.attr)
            if not first: continue
            class T(ast.NodeTransformer):
                def visit_Attribute(self, n):
                    self.generic_visit(n)
                    if n in rd and n.attr in first: return load('own_' + n.attr)
                    return n
            body = [T().visit(s) for s in m.body[d:]]
            m.body = m.body[:d] + [assign('own_' + a, ast.Attribute(load('self'), a, ast.Load())) for a in sorted(first)] + body
    return t

KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('k_')}


def main():
    kind, src, out = sys.argv[1:4]
    rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    pkg = os.path.join(src, 'bicycleparameters')
    n = 0
    for f in sorted(os.listdir(pkg)):
        if not f.endswith('.py'): continue
        s = open(os.path.join(pkg, f)).read()
        if f not in SKIP:
            t = ast.parse(s)
            before = ast.unparse(t)
            for k in kind.split('+'):
                t = KINDS[k](t, rng)
                t = ast.parse(ast.unparse(ast.fix_missing_locations(t)))
            after = ast.unparse(t)
            n += sum(a != b for a, b in zip(before.split('\n'), after.split('\n')))
            s = after + '\n'
        with open(os.path.join(out, 'bicycleparameters', f), 'w') as fh: fh.write(s)
    print(kind, 'lines that differ:', n)


if __name__ == '__main__':
    main()
