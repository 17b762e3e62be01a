"""Definite assignment, name resolution and call shapes over the syntax tree."""
import ast
import builtins

BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def bound_names(fn):
    """Names local to a function (parameters and anything stored), minus global/nonlocal."""
    out, free = set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                out.add((x.asname or x.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            free |= set(n.names)
    return out - free


def own(fn):
    """Nodes of a function, not those of nested functions, classes or comprehensions'
    own targets."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, FUNCS + (ast.ClassDef,)):
            stack.extend(getattr(n, 'decorator_list', []))
            if not isinstance(n, ast.ClassDef):
                stack.extend(n.args.defaults + [d for d in n.args.kw_defaults if d is not None])
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            stack.append(n.generators[0].iter)
            # names used inside count as uses but its targets are not ours
            continue
        stack.extend(ast.iter_child_nodes(n))


class Flow(object):
    """Forward analysis: definitely and possibly assigned locals at each load."""

    def __init__(self, fn):
        self.local = bound_names(fn)
        a = fn.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        params |= {x.arg for x in (a.vararg, a.kwarg) if x}
        self.never, self.maybe = [], []
        self.loops = []
        body = fn.body if isinstance(fn.body, list) else [ast.Expr(fn.body)]
        self.block(body, (frozenset(params), frozenset(params)))

    # a state is (definite, possible), None when unreachable
    @staticmethod
    def join(x, y):
        if x is None:
            return y
        if y is None:
            return x
        return (x[0] & y[0], x[1] | y[1])

    def put(self, st, names):
        names = frozenset(names)
        return (st[0] | names, st[1] | names)

    def use(self, e, st):
        """Evaluate an expression's loads; returns the state with walrus bindings."""
        if e is None or st is None:
            return st
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [d for d in e.args.kw_defaults if d is not None]:
                st = self.use(d, st)
            return st
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = st
            for i, g in enumerate(e.generators):
                self.use(g.iter, inner)
                inner = self.put(inner, stored(g.target))
                for c in g.ifs:
                    self.use(c, inner)
            for x in ((e.key, e.value) if isinstance(e, ast.DictComp) else (e.elt,)):
                self.use(x, inner)
            return st
        if isinstance(e, ast.NamedExpr):
            st = self.use(e.value, st)
            return self.put(st, [e.target.id])
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.local and e.id not in st[0]:
                (self.maybe if e.id in st[1] else self.never).append(e)
            return st
        if isinstance(e, (ast.BoolOp,)):
            st = self.use(e.values[0], st)
            after = st
            for x in e.values[1:]:
                after = self.use(x, after)
            return self.join(st, after)
        if isinstance(e, ast.IfExp):
            st = self.use(e.test, st)
            return self.join(self.use(e.body, st), self.use(e.orelse, st))
        for x in ast.iter_child_nodes(e):
            st = self.use(x, st)
        return st

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [d for d in s.args.kw_defaults if d is not None]:
                st = self.use(d, st)
            return self.put(st, [s.name])
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases:
                st = self.use(d, st)
            return self.put(st, [s.name])
        if isinstance(s, ast.Assign):
            st = self.use(s.value, st)
            for t in s.targets:
                st = self.target(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                st = self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            st = self.use(s.value, st)
            return self.target(s.target, st)
        if isinstance(s, ast.AnnAssign):
            st = self.use(s.value, st)
            return self.target(s.target, st) if s.value is not None else st
        if isinstance(s, (ast.Return, ast.Expr)):
            st = self.use(s.value, st)
            return None if isinstance(s, ast.Return) else st
        if isinstance(s, ast.Raise):
            st = self.use(s.exc, st)
            self.use(s.cause, st)
            return None
        if isinstance(s, ast.If):
            st = self.use(s.test, st)
            k = truth(s.test)
            a = self.block(s.body, st) if k is not False else None
            b = self.block(s.orelse, st) if k is not True else None
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            loop = isinstance(s, ast.While)
            st = self.use(s.test if loop else s.iter, st)
            out = []
            state = st
            for _ in range(2):
                self.loops.append([None, None])
                if _ == 0:
                    keep = (list(self.never), list(self.maybe))
                b = self.block(s.body, state if loop else self.target(s.target, state))
                brk, cont = self.loops.pop()
                b = self.join(b, cont)
                if _ == 0:
                    self.never, self.maybe = keep
                    state = self.join(st, b)
                    # possible from the first turn, definite from before
                    state = (st[0], state[1])
            ends = st if not (loop and truth(s.test) is True) else None
            if b is not None and ends is not None:
                ends = (ends[0], ends[1] | b[1])
            if loop and ends is not None:
                ends = self.use(s.test, ends) if False else ends
            e = self.block(s.orelse, ends) if ends is not None else None
            return self.join(e, brk)
        if isinstance(s, ast.Break):
            self.loops[-1][0] = self.join(self.loops[-1][0], st)
            return None
        if isinstance(s, ast.Continue):
            self.loops[-1][1] = self.join(self.loops[-1][1], st)
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.target(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            body = self.block(s.body, st)
            assigned = set()
            for x in s.body:
                for n in [x] + list(ast.walk(x)):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        assigned.add(n.id)
            caught = {h: None for h in s.handlers}
            mid = (st[0], st[1] | (frozenset(assigned) & self.local))
            out = self.block(s.orelse, body) if body is not None else None
            names = set()
            for h in s.handlers:
                names |= {getattr(x, 'id', getattr(x, 'attr', '')) for x in ast.walk(h.type)} if h.type is not None else {'*'}
            for h in s.handlers:
                hs = mid
                if h.name:
                    hs = self.put(hs, [h.name])
                out = self.join(out, self.block(h.body, hs))
            if names & {'NameError', 'UnboundLocalError'}:
                # testing for an unbound name is what this statement is for
                inside = {id(n) for x in s.body for n in ast.walk(x)}
                self.maybe = [n for n in self.maybe if id(n) not in inside]
            if s.finalbody:
                f = self.block(s.finalbody, self.join(out, mid) if out is not None else mid)
                if out is None or f is None:
                    return None
                return (out[0] | (f[0] - mid[0]), f[1])
            return out
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.put(st, [(x.asname or x.name).split('.')[0] for x in s.names])
        if isinstance(s, ast.Delete):
            gone = {t.id for t in s.targets if isinstance(t, ast.Name)}
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    st = self.use(t, st)
            return (st[0] - gone, st[1] - gone)
        if isinstance(s, ast.Assert):
            st = self.use(s.test, st)
            return st
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return st
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                st = self.use(x, st)
        return st

    def target(self, t, st):
        if isinstance(t, ast.Name):
            return self.put(st, [t.id])
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                st = self.target(x, st)
            return st
        if isinstance(t, ast.Starred):
            return self.target(t.value, st)
        return self.use(t, st)


def truth(e):
    if isinstance(e, ast.Constant):
        return bool(e.value)
    return None


def stored(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def undefined(mod):
    """Names a function loads that no enclosing scope, module or builtin defines."""
    top = set(BUILTIN)
    star = False
    stack = list(mod.tree.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            top.add(n.name)
            continue
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                star = star or x.name == '*'
                top.add((x.asname or x.name).split('.')[0])
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            top.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            top.add(n.name)
        if not isinstance(n, FUNCS):
            stack.extend(ast.iter_child_nodes(n))
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Global):
            top |= set(n.names)
    out = []
    if star:
        return out

    def visit(n, scope, cls):
        if isinstance(n, FUNCS):
            for d in list(getattr(n, 'decorator_list', [])) + n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
                visit(d, scope, cls)
            inner = (scope - cls) | bound_names(n)
            for x in (n.body if isinstance(n.body, list) else [n.body]):
                visit(x, inner, set())
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                visit(d, scope, cls)
            mine = set()
            for x in n.body:
                for y in ast.walk(x) if not isinstance(x, FUNCS + (ast.ClassDef,)) else ():
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        mine.add(y.id)
                if isinstance(x, FUNCS + (ast.ClassDef,)):
                    mine.add(x.name)
            for x in n.body:
                visit(x, scope | mine, mine - scope)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = set(scope)
            for g in n.generators:
                visit(g.iter, inner, cls)
                inner |= set(stored(g.target))
                for c in g.ifs:
                    visit(c, inner, cls)
            for x in ((n.key, n.value) if isinstance(n, ast.DictComp) else (n.elt,)):
                visit(x, inner, cls)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in scope:
            out.append(n)
            return
        for x in ast.iter_child_nodes(n):
            visit(x, scope, cls)
    for x in mod.tree.body:
        visit(x, set(top), set())
    return out


def shape_error(call, fn, skip):
    """Why a call cannot bind to a function definition, or None."""
    a = fn.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    if len(call.args) > len(pos) and a.vararg is None:
        return '%d positional arguments, takes %d' % (len(call.args), len(pos))
    given = set(pos[:len(call.args)])
    for k in call.keywords:
        if k.arg in given:
            return 'argument %s twice' % k.arg
        if k.arg not in pos and k.arg not in [x.arg for x in a.kwonlyargs] and a.kwarg is None:
            return 'no parameter %s' % k.arg
        given.add(k.arg)
    need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) < len(pos) else []
    need += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [x for x in need if x not in given]
    return 'missing %s' % ', '.join(miss) if miss else None
