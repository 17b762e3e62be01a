"""Type-and-effect inference over every assignment of the generated equations: each
value carries its physical dimension, its parity under the mirror reflection of the
bicycle, whether it is identically zero, and the set of inputs it depends on. Each
element must be defined once, before it is read; sums must agree in dimension and
parity; angles are dimensionless; the entries of A, B, C and D must have the dimension
and parity of the quantities they relate; every parameter, coordinate and speed must
reach the state matrix."""
import ast
from fractions import Fraction
import an
import values as V
from common import *
from C30 import unpacking, kinematic, order
TECHNIQUE = 'definite assignment, dimension and parity inference, and backward dependence over the syntax tree of the generated module'
ASSUMPTIONS = ['signs of individual terms are not determined by dimensions and parity']

D0 = (0, 0, 0)
INERTIA, TORQUE, LENGTH, RATE = (1, 2, 0), (1, 2, -2), (0, 1, 0), (0, 0, -1)
PAR = {'c': (1, 2, -1), 'k': TORQUE, 'd': LENGTH, 'l': LENGTH, 'g': (0, 1, -2), 'i': INERTIA, 'm': (1, 0, 0), 'r': LENGTH}
ODD = {'q2', 'q3', 'q4', 'q7', 'q9', 'u4', 'u7', 'u9', 'T4', 'T7', 'T9'}


def mul(a, b):
    return tuple(x + y for x, y in zip(a, b))


def scale(a, n):
    return tuple(x * n for x in a)


def dim_of(n):
    if n[0] == 'q':
        return LENGTH if n in ('q1', 'q2') else D0
    return RATE if n[0] == 'u' else TORQUE if n[0] == 'T' else PAR[n[0]]


class Val(object):
    __slots__ = ('dim', 'odd', 'zero', 'deps', 'int')

    def __init__(self, dim=D0, odd=0, zero=False, deps=frozenset(), int_=None):
        self.dim, self.odd, self.zero, self.deps, self.int = dim, odd, zero, deps, int_


class Ill(Exception):
    pass


class Give(Exception):
    pass


class Return(Exception):
    pass


class Eval(object):
    def __init__(self, ctx, mod, w):
        self.ctx, self.mod, self.w = ctx, mod, w
        self.arrays = {}
        self.shapes = {}
        self.env = {}
        self.defined = {}
        self.twice = []
        self.unread = set()
        self.bad = []
        self.early = []
        self.n = 0
        self.lost = []
        self.depth = 0

    def run(self, body):
        for s in body:
            try:
                self.stmt(s)
            except Ill as e:
                self.bad.append((s, str(e)))
                self.forget(s)
            except Give as e:
                self.lost.append((s, str(e)))
                self.forget(s)

    def forget(self, s):
        for t in getattr(s, 'targets', [getattr(s, 'target', None)]):
            if isinstance(t, ast.Name):
                self.env[t.id] = None
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                try:
                    self.arrays[t.value.id][self.index(t)] = None
                except (Give, KeyError, Ill):
                    pass

    def index(self, t):
        i = t.slice
        vs = i.elts if isinstance(i, ast.Tuple) else [i]
        out = []
        for v in vs:
            x = self.ev(v)
            if isinstance(x, (list, dict)) or x is None or x.int is None:
                raise Give('index is not constant')
            out.append(x.int)
        return tuple(out)

    def store(self, t, v, s):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            if isinstance(v, dict):
                self.arrays[t.id] = v
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            nm = t.value.id
            if nm not in self.arrays:
                raise Give('unknown array ' + nm)
            k = self.index(t)
            sh = self.shapes.get(nm)
            if sh and (len(k) != len(sh) or not all(-n <= i < n for i, n in zip(k, sh))):
                raise Ill('%s is outside %s%s' % (ast.unparse(t), nm, sh))
            key = (nm, k)
            if key in self.defined:
                self.twice.append((s, key))
            self.defined[key] = s
            self.arrays[nm][k] = v
            self.unread.add(key)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, list):
                raise Give('unpacking')
            for x, y in zip(t.elts, v):
                self.store(x, y, s)
        else:
            raise Give('target')

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            self.n += 1
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, (ast.Name, ast.Attribute)):
                fn = s.value.func.id if isinstance(s.value.func, ast.Name) else s.value.func.attr
                if fn in ('empty', 'zeros'):
                    x = self.ev(s.value.args[0])
                    sh = tuple(v.int for v in (x if isinstance(x, list) else [x]))
                    for t in s.targets:
                        self.arrays[t.id] = {}
                        self.shapes[t.id] = sh
                        if fn == 'zeros':
                            import itertools
                            for k in itertools.product(*map(range, sh)):
                                self.arrays[t.id][k] = Val(zero=True)
                    return
            v = self.ev(s.value)
            for t in s.targets:
                self.store(t, v, s)
        elif isinstance(s, ast.AugAssign):
            self.n += 1
            import copy
            load = copy.copy(s.target)
            load.ctx = ast.Load()
            v = self.ev(ast.copy_location(ast.BinOp(load, s.op, s.value), s))
            if isinstance(s.target, ast.Subscript):
                self.defined.pop((s.target.value.id, self.index(s.target)), None)
            self.store(s.target, v, s)
        elif isinstance(s, ast.For):
            it = s.iter
            if isinstance(it, ast.Call) and getattr(it.func, 'id', '') == 'range':
                seq = [Val(int_=i) for i in range(*[self.ev(a).int for a in it.args])]
            elif isinstance(it, (ast.Tuple, ast.List)):
                seq = [self.ev(e) for e in it.elts]
            else:
                raise Give('loop')
            for x in seq:
                self.store(s.target, x, s)
                self.run(s.body)
        elif isinstance(s, ast.Return):
            self.env['return'] = self.ev(s.value) if s.value is not None else None
            raise Return()
        elif isinstance(s, (ast.Expr, ast.Pass)) and (isinstance(s, ast.Pass) or isinstance(s.value, ast.Constant)):
            pass
        else:
            raise Give(type(s).__name__)

    def ev(self, n):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, (int, float)):
                return Val(zero=n.value == 0, int_=n.value if isinstance(n.value, int) else Fraction(n.value))
            raise Give('constant')
        if isinstance(n, ast.Name):
            if n.id in self.env:
                v = self.env[n.id]
                if v is None:
                    raise Give('%s is unknown' % n.id)
                return v
            if n.id in self.arrays:
                return self.arrays[n.id]
            raise Ill('%s is read before it is assigned' % n.id)
        if isinstance(n, ast.Subscript):
            if not isinstance(n.value, ast.Name):
                raise Give('subscript')
            b = self.env.get(n.value.id, self.arrays.get(n.value.id))
            if isinstance(b, list):
                return b[self.index(n)[0]]
            if not isinstance(b, dict):
                raise Give('subscript of ' + n.value.id)
            k = self.index(n)
            self.unread.discard((n.value.id, k))
            if k not in b:
                raise Ill('%s is read before it is assigned' % ast.unparse(n))
            if b[k] is None:
                raise Give('%s is unknown' % ast.unparse(n))
            return b[k]
        if isinstance(n, (ast.Tuple, ast.List)):
            return [self.ev(e) for e in n.elts]
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand)
            if isinstance(n.op, ast.USub) and v.int is not None:
                return Val(zero=v.zero, int_=-v.int)
            return Val(v.dim, v.odd, v.zero, v.deps)
        if isinstance(n, ast.BinOp):
            return self.binop(n)
        if isinstance(n, ast.Call):
            return self.call(n)
        raise Give(type(n).__name__)

    def binop(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        if not isinstance(a, Val) or not isinstance(b, Val):
            raise Give('array arithmetic')
        i = None
        deps = a.deps | b.deps
        if isinstance(n.op, (ast.Add, ast.Sub)):
            if a.int is not None and b.int is not None:
                i = a.int + b.int if isinstance(n.op, ast.Add) else a.int - b.int
                return Val(zero=i == 0, int_=i)
            if a.zero:
                return Val(b.dim, b.odd, b.zero, b.deps)
            if b.zero:
                return Val(a.dim, a.odd, a.zero, a.deps)
            if a.dim != b.dim:
                raise Ill('%s adds %s and %s' % (ast.unparse(n)[:120], unit(a.dim), unit(b.dim)))
            if a.odd != b.odd:
                raise Ill('%s adds terms of different mirror parity' % ast.unparse(n)[:120])
            return Val(a.dim, a.odd, False, deps)
        if isinstance(n.op, ast.Mult):
            if a.int is not None and b.int is not None:
                i = a.int * b.int
            if a.zero or b.zero:
                return Val(zero=True, int_=0 if i is not None else None)
            return Val(mul(a.dim, b.dim), (a.odd + b.odd) % 2, False, deps, i)
        if isinstance(n.op, ast.Div):
            if a.zero:
                return Val(zero=True)
            if b.zero:
                raise Ill('%s divides by zero' % ast.unparse(n)[:120])
            return Val(mul(a.dim, scale(b.dim, -1)), (a.odd + b.odd) % 2, False, deps)
        if isinstance(n.op, ast.Pow):
            return self.power(a, b)
        raise Give('operator')

    def power(self, a, b):
        if b.int is None:
            raise Give('power')
        if a.zero:
            return Val(zero=True)
        if b.int % 1 and a.odd:
            raise Ill('root of an odd quantity')
        return Val(scale(a.dim, b.int), int(a.odd * b.int % 2), False, a.deps)

    def call(self, n):
        fn = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
        args = [self.ev(x) for x in n.args]
        if fn == 'pow':
            return self.power(*args)
        if fn in ('sin', 'cos', 'tan'):
            v = args[0]
            if not v.zero and v.dim != D0:
                raise Ill('%s of a %s' % (fn, unit(v.dim)))
            if fn == 'cos':
                return Val(deps=v.deps)
            return Val(odd=v.odd, zero=v.zero, deps=v.deps)
        if fn == 'pitch_from_roll_and_steer':
            want = [D0, D0] + [LENGTH] * 5
            for v, d in zip(args, want):
                if not v.zero and v.dim != d:
                    raise Ill('%s gets a %s' % (fn, unit(v.dim)))
            return Val(deps=frozenset().union(*[v.deps for v in args]))
        f = self.mod.functions.get(fn)
        if f is not None and self.depth < 5 and not n.keywords:
            sub = Eval(self.ctx, self.mod, self.w)
            sub.depth = self.depth + 1
            for x, v in zip(f.args.args, args):
                sub.env[x.arg] = v
                if isinstance(v, dict):
                    sub.arrays[x.arg] = v
            try:
                sub.run(f.body)
            except Return:
                pass
            self.bad += sub.bad
            self.lost += sub.lost
            self.n += sub.n
            v = sub.env.get('return')
            if v is None:
                raise Give('call of ' + fn)
            return v
        raise Give('call of %s' % fn)


def unit(d):
    return ' '.join('%s^%s' % (n, e) for n, e in zip(('kg', 'm', 's'), d) if e) or 'pure number'


def check(ctx):
    mod = ctx.project.module('_mooreriderlean2012')
    w = ctx.where('_mooreriderlean2012', 'eval_linear')
    params, slots, f = unpacking(ctx)
    by = {p: order(slots, p) for p in params}
    E = Eval(ctx, mod, w)
    ctx.extra_funcs |= {('_mooreriderlean2012', 'eval_linear')}
    line = lambda s: 'bicycleparameters/_mooreriderlean2012.py:%d' % s.lineno
    for p in params[:4]:
        E.env[p] = E.arrays[p] = {(i,): Val(dim_of(n), int(n in ODD), False, frozenset([n])) for n, (x, i) in slots.items() if x == p}
    try:
        E.run(f.body)
    except Return:
        pass
    for s, why in E.bad:
        rule = 'defined before use' if 'read before' in why else 'homogeneous'
        ctx.ob(rule, ast.unparse(getattr(s, 'targets', [getattr(s, 'target', s)])[0])[:60], False, why, line(s))
    for s, why in E.lost[:20]:
        ctx.ob('homogeneous', ast.unparse(s)[:60], an.UNK, why, line(s))
    for s, (nm, k) in E.twice:
        ctx.ob('defined once', '%s%s' % (nm, list(k)), False, 'assigned again, first at line %d' % E.defined[(nm, k)].lineno, line(s))
    ctx.ob('homogeneous', 'assignments typed', not E.bad if not E.lost else an.UNK if not E.bad else False,
           '%d assignments, %d ill-typed, %d not followed' % (E.n, len(E.bad), len(E.lost)), w)
    ctx.ob('defined once', 'elements', not E.twice, '%d elements, %d assigned twice' % (len(E.defined), len(E.twice)), w)
    ret = E.env.get('return')
    if not isinstance(ret, list) or len(ret) < 2:
        ctx.ob('result', 'returned arrays', an.UNK, 'not a tuple of arrays', w)
        return
    r = [s for s in f.body if isinstance(s, ast.Return)]
    names = [x.id if isinstance(x, ast.Name) else None for x in r[-1].value.elts] if r else []
    qs, us, rs = [by[p] for p in params[:3]]
    xs = qs + us
    d = [dim_of(x) for x in xs]
    reach = set()
    for nm, arr, rows, cols in (('A', ret[0], xs, xs), ('B', ret[1], xs, rs)):
        for i, x in enumerate(rows):
            for j, y in enumerate(cols):
                c = '%s[d%s/dt, %s]' % (nm, x, y)
                if (i, j) not in arr:
                    ctx.ob('defined before use', c, False, 'never assigned', w)
                    continue
                v = arr[(i, j)]
                if v is None:
                    ctx.ob('entry', c, an.UNK, '', w)
                    continue
                reach |= v.deps
                if v.zero:
                    ctx.ob('entry', c, True, 'zero', w)
                    continue
                want = mul(mul(d[i], (0, 0, -1)), scale(dim_of(y), -1))
                odd = int(x in ODD) ^ int(y in ODD)
                ctx.ob('entry', c, v.dim == want and v.odd == odd, '%s parity %d, needs %s parity %d' %
                       (unit(v.dim), v.odd, unit(want), odd), w)
    for nm, arr, cols in zip(names[2:], ret[2:], (xs, rs)):
        rows = E.shapes.get(nm, (0, 0))
        for i in range(rows[0]):
            seen = {}
            for j in range(rows[1]):
                if (i, j) not in arr:
                    ctx.ob('defined before use', '%s[%d,%d]' % (nm, i, j), False, 'never assigned', w)
                elif arr[(i, j)] is not None and not arr[(i, j)].zero:
                    v = arr[(i, j)]
                    seen.setdefault((mul(v.dim, dim_of(cols[j])), v.odd ^ int(cols[j] in ODD)), []).append(cols[j])
            ctx.ob('entry', '%s row %d' % (nm, i), len(seen) <= 1, '; '.join('%s for %s' % (unit(k[0]), v) for k, v in seen.items()), w)
    for nm in by[params[3]]:
        ctx.ob('participates', 'parameter %s' % nm, True if nm in reach else an.UNK if E.lost else False, 'reaches the state or input matrix' if nm in reach else 'never used', w)
    for nm in qs[2:] + us:
        if nm not in ('q8',):
            ctx.ob('participates', 'state %s' % nm, True if nm in reach else an.UNK if E.lost else False, '', w)
    kinematic(f, xs, ctx, w)
