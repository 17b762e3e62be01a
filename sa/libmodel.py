"""Models of the builtins and libraries the package calls. Anything without a
model becomes an uninterpreted term (equal on equal arguments) plus an event."""
import itertools
import re
from fractions import Fraction

import ring
import values as V
from values import (Num, Const, Str, Tup, Ref, Arr, Slice, Term, Ext, Obj, Ite, Frozen,
                    NONE, TRUE, FALSE, UNBOUND, ABSENT, num, const, tup, term, ext,
                    string, ref, arr, Value)

BUILTINS = set('''abs all any bool bytes callable chr complex dict dir divmod enumerate
filter float format frozenset getattr hasattr hash id input int isinstance issubclass iter
len list map max min next object open ord pow print property range repr reversed round set
setattr slice sorted staticmethod classmethod str sum super tuple type vars zip raw_input
exit quit delattr locals globals __import__ memoryview bytearray unicode NotImplemented
Exception BaseException ValueError TypeError KeyError IndexError AttributeError IOError OSError
FileNotFoundError RuntimeError NotImplementedError ImportError StopIteration NameError
ZeroDivisionError ArithmeticError LookupError Warning UserWarning DeprecationWarning
FutureWarning AssertionError PermissionError FileExistsError EOFError KeyboardInterrupt
OverflowError UnicodeDecodeError ModuleNotFoundError'''.split())

NOEVENT = ('numpy.', 'math.', 'uncertainties.', 'builtins.', 'scipy.linalg', 'os.path.',
           'copy.', 'collections.', 'itertools.', 'functools.', 're.', 'operator.')


def scalar(v):
    return isinstance(v, Num)


class Lib(object):
    def __init__(self, I):
        self.I = I
        self.ext = {}
        self.register()

    # -------------------------------------------------------------- helpers
    def NeedSplit(self, v):
        from interp import NeedSplit
        return NeedSplit(V.mk(v.var, TRUE, FALSE))

    def unsupported(self, msg):
        from interp import Unsupported
        return Unsupported(msg)

    def imported(self, name):
        pass

    def builtin(self, id):
        if id in BUILTINS:
            return ext('builtins.' + id)
        if id == '__name__':
            return string('bicycleparameters')
        return None

    def opq(self, n):
        """The term behind an opaque number, or None."""
        r = n.rf
        if r.d or len(r.n.t) != 1:
            return None
        (m, c), = r.n.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = ring.atom_by_id(m[0][0])
            if a.head == 'opq':
                return a.args[0]
        return None

    def tonum(self, v):
        """Leaf value -> Num (or None)."""
        if isinstance(v, Num):
            return v
        if v is TRUE:
            return const(1)
        if v is FALSE:
            return const(0)
        if isinstance(v, Term):
            return num(ring.app('opq', v))
        return None

    def force(self, v):
        """Require an unconditional value."""
        if v.var != Value.var:
            raise self.NeedSplit(v)
        return v

    def zero_cond(self, rf):
        if rf.is_const():
            return V.boolean(rf.is_zero())
        if ring.zero_test(rf):
            return TRUE
        if ring.is_neg(rf):
            rf = -rf
        if not rf.d and len(rf.n.t) == 1:
            # a monomial vanishes iff one of its factors does
            (m, c), = rf.n.t.items()
            if c != 1:
                rf = rf * ring.const(1 / c)
        return V.cond_atom(('zero', rf))

    def pos_cond(self, rf):
        """rf > 0"""
        if rf.is_const():
            return V.boolean(rf.const() > 0)
        if ring.zero_test(rf):
            return FALSE
        inf = ring.infinite_part(rf)
        if inf:
            return V.boolean(inf > 0)
        lead = rf.n.t[rf.n.lead()]
        if abs(lead) != 1:
            rf = rf * ring.const(1 / abs(lead))
        if ring.is_neg(rf):
            # rf > 0  <=>  not (-rf >= 0)  <=> not(-rf > 0) and not(zero)
            p = V.cond_atom(('pos', -rf))
            z = self.zero_cond(rf)
            return V.and_(V.not_(p), V.not_(z))
        return V.cond_atom(('pos', rf))

    def present(self, v):
        """Condition under which a dictionary slot holds a value."""
        return V.apply(lambda x: FALSE if x is ABSENT else TRUE, v)

    # ---------------------------------------------------------- arithmetic
    def arith(self, op, a, b, st=None, node=None):
        """Scalar arithmetic on Num leaves."""
        def f(x, y):
            xn, yn = self.tonum(x), self.tonum(y)
            if xn is None or yn is None:
                return term('binop', string(op), x, y)
            return self.nn(op, xn, yn, st, node)
        return V.apply(f, a, b)

    def nn(self, op, x, y, st=None, node=None):
        u = x.u or y.u
        k = 'i' if x.k == 'i' and y.k == 'i' else 'c' if 'c' in (x.k, y.k) else 'f'
        a, b = x.rf, y.rf
        if op == 'Add':
            return num(a + b, u, k)
        if op == 'Sub':
            return num(a - b, u, k)
        if op in ('Mult', 'MatMult'):
            return num(a * b, u, k)
        if op == 'Div':
            if b.is_zero():
                return term('div0', x)
            return num(a / b, u, 'f' if k == 'i' else k)
        if op == 'Pow':
            return self.power(x, y)
        if a.is_const() and b.is_const() and not b.is_zero():
            p, q = a.const(), b.const()
            if op == 'FloorDiv':
                return num(ring.const(p // q), u, k)
            if op == 'Mod':
                return num(ring.const(p % q), u, k)
            if k == 'i':
                p, q = int(p), int(q)
                if op == 'LShift':
                    return const(p << q)
                if op == 'RShift':
                    return const(p >> q)
                if op == 'BitAnd':
                    return const(p & q)
                if op == 'BitOr':
                    return const(p | q)
        return num(ring.app('op' + op, a, b), u, k)

    def power(self, x, y):
        u = x.u or y.u
        if y.rf.is_const():
            c = y.rf.const()
            if c.denominator == 1 and abs(c) <= 64:
                k = 'i' if x.k == 'i' and c >= 0 else 'c' if x.k == 'c' else 'f'
                if c < 0 and x.rf.is_zero():
                    return term('div0', x)
                return num(x.rf.pow(int(c)), u, k)
            if c.denominator == 2 and abs(c) < 32:
                s = ring.sqrt(x.rf)
                return num(s.pow(int(c * 2)), u, 'f')
        return num(ring.app('pow', x.rf, y.rf), u, 'f')

    # ---------------------------------------------------------------- arrays
    def is_seq(self, st, v):
        if isinstance(v, (Arr, Tup)):
            return True
        if isinstance(v, Ref):
            return self.I.obj(st, v.addr).kind in ('list', 'set')
        return False

    def seq_items(self, st, v):
        if isinstance(v, Tup):
            return list(v.items)
        return list(self.I.obj(st, v.addr).items)

    def as_arr(self, st, v, depth=0):
        """(items, shape) of an array-like value; scalars have shape ()."""
        v = V.restrict(v, st.pc)
        if isinstance(v, Arr):
            return self.I.arr_items(st, v), v.shape
        if isinstance(v, Tup) or (isinstance(v, Ref) and self.I.obj(st, v.addr).kind in ('list', 'set')):
            subs = [self.as_arr(st, x, depth + 1) for x in self.seq_items(st, v)]
            if not subs:
                return [], (0,)
            sh = subs[0][1]
            if any(s[1] != sh for s in subs):
                return [term('ragged')], ()
            items = []
            for s in subs:
                items += s[0]
            return items, (len(subs),) + sh
        if v.var != Value.var:
            # a conditional scalar, or conditional arrays of one shape
            ls = V.leaves(v, st.pc)
            if all(not isinstance(l, (Arr, Tup, Ref)) for c, l in ls):
                return [v], ()
            ps = [(c, self.as_arr(st, l, depth + 1)) for c, l in ls]
            sh = ps[0][1][1]
            if any(p[1][1] != sh for p in ps):
                raise self.NeedSplit(v)
            items = ps[-1][1][0]
            for c, (its, _) in ps[:-1]:
                items = [V.ite(c, a, b) for a, b in zip(its, items)]
            return items, sh
        return [v], ()

    def from_items(self, st, items, shape, dt='f'):
        if shape == ():
            return items[0]
        return self.I.new_arr(st, items, shape, dt)

    def dt_of(self, items):
        for i in items:
            for c, l in V.leaves(i) if i.var != Value.var else [(TRUE, i)]:
                if isinstance(l, Num):
                    if l.k != 'i':
                        return 'f'
                elif isinstance(l, (Term,)):
                    return 'f'
                elif l is TRUE or l is FALSE:
                    pass
                else:
                    return 'O'
        return 'i'

    def bshape(self, s1, s2):
        r = []
        for a, b in itertools.zip_longest(reversed(s1), reversed(s2), fillvalue=1):
            if a == b or b == 1:
                r.append(a)
            elif a == 1:
                r.append(b)
            else:
                return None
        return tuple(reversed(r))

    def bcast(self, items, shape, out):
        if shape == out:
            return items
        n = len(out)
        sh = (1,) * (n - len(shape)) + tuple(shape)
        strides = []
        s = 1
        for d in reversed(sh):
            strides.append(0 if d == 1 else s)
            s *= d
        strides.reverse()
        return [items[sum(i * k for i, k in zip(ix, strides))]
                for ix in itertools.product(*[range(d) for d in out])]

    def elementwise(self, st, f, *vs, **kw):
        """Apply scalar f over broadcast array-likes."""
        node = kw.get('node')
        parts = [self.as_arr(st, v) for v in vs]
        sh = ()
        for _, s in parts:
            t = self.bshape(sh, s)
            if t is None:
                self.I.raise_(st, 'ValueError', string('operands could not be broadcast together'), node)
            sh = t
        cols = [self.bcast(i, s, sh) for i, s in parts]
        out = [f(*xs) for xs in zip(*cols)]
        return self.from_items(st, out, sh, self.dt_of(out[:1]))

    def isarraylike(self, st, v):
        if isinstance(v, Arr):
            return True
        if v.var != Value.var:
            return any(isinstance(l, Arr) for c, l in V.leaves(v, st.pc))
        return False

    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'Pow': 'pow', 'MatMult': 'matmul', 'FloorDiv': 'floordiv', 'Mod': 'mod', 'BitOr': 'or', 'BitAnd': 'and'}

    def binop(self, st, op, a, b, node):
        if isinstance(a, Ref) or isinstance(b, Ref):
            f = self.dunder(st, a, '__%s__' % self.DUNDER.get(op, op))
            if f is not None:
                return self.I.call(st, f, [b], {}, node)
            f = self.dunder(st, b, '__r%s__' % self.DUNDER.get(op, op))
            if f is not None:
                return self.I.call(st, f, [a], {}, node)
        A = self.isarraylike(st, a)
        B = self.isarraylike(st, b)
        if op == 'MatMult':
            return self.matmul(st, a, b, node)
        if A or B:
            other = b if A else a
            if other.var != Value.var or not isinstance(other, (Str,)):
                if not (isinstance(other, Ref) and self.I.obj(st, other.addr).kind == 'inst'):
                    return self.elementwise(st, lambda x, y: self.arith(op, x, y, st, node), a, b, node=node)
        simple = (Num, Term)
        def leafok(v):
            return isinstance(v, simple) or v is TRUE or v is FALSE
        if a.var != Value.var or b.var != Value.var:
            la = [l for c, l in V.leaves(a, st.pc)]
            lb = [l for c, l in V.leaves(b, st.pc)]
            if all(leafok(x) for x in la) and all(leafok(x) for x in lb):
                return self.arith(op, a, b, st, node)
            if all(isinstance(x, Str) for x in la) and all(isinstance(x, Str) for x in lb) and op == 'Add':
                return V.apply(lambda x, y: string(x, y), a, b)
            raise self.NeedSplit(a if a.var != Value.var else b)
        if leafok(a) and leafok(b):
            if op in ('BitAnd', 'BitOr') and a in (TRUE, FALSE) and b in (TRUE, FALSE):
                return V.and_(a, b) if op == 'BitAnd' else V.or_(a, b)
            return self.arith(op, a, b, st, node)
        if isinstance(a, Str):
            if op == 'Add':
                if isinstance(b, Str):
                    return string(a, b)
                if isinstance(b, Term):
                    return string(a, b)
            if op == 'Mod':
                return self.percent(st, a, b, node)
            if op == 'Mult' and isinstance(b, Num):
                if b.rf.is_const() and a.lit is not None:
                    return string(a.lit * max(0, int(b.rf.const())))
                return term('strrep', a, b)
        if isinstance(b, Str):
            if op == 'Add' and isinstance(a, Term):
                return string(a, b)
            if op == 'Mult' and isinstance(a, Num):
                return self.binop(st, op, b, a, node)
        if op == 'Add' and isinstance(a, Tup) and isinstance(b, Tup):
            return tup(a.items + b.items)
        if isinstance(a, Ref) and self.I.obj(st, a.addr).kind == 'list':
            la = self.I.obj(st, a.addr).items
            if op == 'Add' and isinstance(b, Ref) and self.I.obj(st, b.addr).kind == 'list':
                return self.I.new_list(st, la + self.I.obj(st, b.addr).items)
            if op == 'Mult' and isinstance(b, Num) and b.rf.is_const():
                return self.I.new_list(st, la * int(b.rf.const()))
        if op == 'Mult' and isinstance(a, Num) and isinstance(b, Ref):
            return self.binop(st, op, b, a, node)
        if op == 'Mult' and isinstance(a, Tup) and isinstance(b, Num) and b.rf.is_const():
            return tup(a.items * int(b.rf.const()))
        if isinstance(a, Ref) and self.I.obj(st, a.addr).kind == 'set' and isinstance(b, Ref):
            ia = self.I.obj(st, a.addr).items
            ib = self.seq_items(st, b)
            if op == 'Sub':
                return self.I.new_set(st, [x for x in ia if x not in ib])
            if op == 'BitOr':
                return self.I.new_set(st, ia + ib)
            if op == 'BitAnd':
                return self.I.new_set(st, [x for x in ia if x in ib])
            if op == 'BitXor':
                return self.I.new_set(st, [x for x in ia if x not in ib] + [x for x in ib if x not in ia])
        if isinstance(a, Ref) and self.I.obj(st, a.addr).kind == 'dict' and op == 'BitOr' and isinstance(b, Ref):
            d = self.I.new_dict(st, {})
            self.dict_update(st, d, a, node)
            self.dict_update(st, d, b, node)
            return d
        bad = (NONE, ABSENT)
        if a is NONE or b is NONE or isinstance(a, (Str, Tup)) and isinstance(b, Num) or \
                isinstance(b, (Str, Tup)) and isinstance(a, Num) or (isinstance(a, Str) or isinstance(b, Str)) and \
                not (isinstance(a, (Term, Ext, Obj)) or isinstance(b, (Term, Ext, Obj)) or
                     isinstance(a, Num) and self.opq(a) is not None or isinstance(b, Num) and self.opq(b) is not None):
            self.I.raise_(st, 'TypeError', string('unsupported operand types for %s' % op), node)
        if isinstance(a, Ref) and self.is_seq(st, a) and isinstance(b, (Num, Term)) or \
                isinstance(b, Ref) and self.is_seq(st, b) and isinstance(a, (Num,)):
            if isinstance(b, Term) or isinstance(a, Term):
                # numpy scalar/array operand semantics unknown: elementwise
                return self.elementwise(st, lambda x, y: self.arith(op, x, y, st, node), a, b, node=node)
            self.I.raise_(st, 'TypeError', string('unsupported operand types for %s' % op), node)
        return term('binop', string(op), self.I.freeze(st, a), self.I.freeze(st, b))

    INPLACE = {'Add', 'Sub', 'Mult', 'Div'}

    def augop(self, st, op, a, b, node):
        if isinstance(a, Arr) and op != 'MatMult':
            # in place on the viewed buffer
            r = self.binop(st, op, a, b, node)
            items, sh = self.as_arr(st, r)
            items = self.bcast(items, sh, a.shape)
            buf = self.I.mut(st, a.buf)
            for i, x in zip(a.idx, items):
                buf.items[i] = x
            return a
        if isinstance(a, Ref) and self.I.obj(st, a.addr).kind == 'list' and op == 'Add':
            its = self.iterate(st, b, node)
            self.I.mut(st, a.addr).items.extend(its)
            return a
        return self.binop(st, op, a, b, node)

    def unop(self, st, op, a, node):
        if op == 'Not':
            return V.not_(self.I.truth(a, st))
        if op == 'USub' or op == 'UAdd':
            def f(x):
                n = self.tonum(x)
                if n is None:
                    return term('neg', x)
                return num(-n.rf, n.u, n.k) if op == 'USub' else n
            if self.isarraylike(st, a):
                return self.elementwise(st, lambda x: V.apply(f, x), a)
            return V.apply(f, a)
        if op == 'Invert':
            if isinstance(a, Arr):
                return self.elementwise(st, lambda x: V.not_(self.I.truth(x, st)), a)
            if isinstance(a, Num) and a.k == 'i' and self.opq(a) is None:
                return num(-a.rf - ring.RONE, a.u, 'i')
            if a is TRUE or a is FALSE:
                return const(-2 if a is TRUE else -1)
            return V.not_(self.I.truth(a, st))
        raise self.unsupported('unary ' + op)

    def matmul(self, st, a, b, node):
        a = V.restrict(a, st.pc)
        b = V.restrict(b, st.pc)
        if not (self.is_seq(st, a) and self.is_seq(st, b)):
            if a.var != Value.var:
                raise self.NeedSplit(a)
            if b.var != Value.var:
                raise self.NeedSplit(b)
            return term('matmul', self.I.freeze(st, a), self.I.freeze(st, b))
        ia, sa = self.as_arr(st, a)
        ib, sb = self.as_arr(st, b)
        va = len(sa) == 1
        vb = len(sb) == 1
        if va:
            sa = (1,) + sa
        if vb:
            sb = sb + (1,)
        if sa[-1] != sb[-2]:
            self.I.raise_(st, 'ValueError', string('shapes not aligned'), node)
        batch = self.bshape(sa[:-2], sb[:-2])
        if batch is None:
            self.I.raise_(st, 'ValueError', string('shapes not aligned'), node)
        n, k, m = sa[-2], sa[-1], sb[-1]
        ia = self.bcast(ia, sa, batch + sa[-2:])
        ib = self.bcast(ib, sb, batch + sb[-2:])
        out = []
        nb = 1
        for d in batch:
            nb *= d
        for t in range(nb):
            A = ia[t * n * k:(t + 1) * n * k]
            B = ib[t * k * m:(t + 1) * k * m]
            for i in range(n):
                for j in range(m):
                    out.append(self.addup([self.arith('Mult', A[i * k + q], B[q * m + j]) for q in range(k)]))
        sh = batch + (() if va else (n,)) + (() if vb else (m,))
        return self.from_items(st, out, sh)

    def addup(self, xs):
        if not xs:
            return const(0)
        r = xs[0]
        for x in xs[1:]:
            r = self.arith('Add', r, x)
        return r

    # ------------------------------------------------------------- compare
    def compare(self, st, op, a, b, node):
        if op in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE') and (self.isarraylike(st, a) or self.isarraylike(st, b)):
            if a is NONE or b is NONE:
                return V.boolean(op == 'NotEq')
            return self.elementwise(st, lambda x, y: self.cmp1(st, op, x, y, node), a, b, node=node)
        if op in ('In', 'NotIn'):
            r = self.contains(st, b, a, node)
            return V.not_(r) if op == 'NotIn' else r
        return self.cmp1(st, op, a, b, node)

    def cmp1(self, st, op, a, b, node):
        def f(x, y):
            return self.leafcmp(st, op, x, y, node)
        return V.apply(f, a, b)

    def leafcmp(self, st, op, x, y, node):
        if op in ('NotEq', 'IsNot'):
            return V.not_(self.leafcmp(st, 'Eq' if op == 'NotEq' else 'Is', x, y, node))
        if op in ('Eq', 'Is'):
            return self.eqcond(st, x, y, op)
        if isinstance(x, Str) and isinstance(y, Str) and x.lit is not None and y.lit is not None:
            return V.boolean({'Lt': x.lit < y.lit, 'Gt': x.lit > y.lit, 'LtE': x.lit <= y.lit,
                              'GtE': x.lit >= y.lit}[op])
        xn, yn = self.tonum(x), self.tonum(y)
        if isinstance(x, Term) and isinstance(y, Term) or xn is None or yn is None:
            if xn is None or yn is None:
                if op == 'Lt':
                    return V.cond_atom(('lt', x, y))
                if op == 'Gt':
                    return V.cond_atom(('lt', y, x))
                if op == 'GtE':
                    return V.not_(V.cond_atom(('lt', x, y)))
                return V.not_(V.cond_atom(('lt', y, x)))
        d = xn.rf - yn.rf
        if op == 'Gt':
            return self.pos_cond(d)
        if op == 'Lt':
            return self.pos_cond(-d)
        if op == 'GtE':
            return V.not_(self.pos_cond(-d))
        return V.not_(self.pos_cond(d))

    def eqcond(self, st, x, y, op='Eq'):
        if x is y:
            if isinstance(x, Arr):
                return V.TRUE
            return TRUE
        CONSTS = (Const,)
        if isinstance(x, Num) and isinstance(y, Num):
            if op == 'Is' and x.u != y.u:
                return FALSE
            tx, ty = self.opq(x), self.opq(y)
            d = x.rf - y.rf
            if tx is not None and y.rf.is_const():
                return V.cond_atom(('is', tx, y))
            if ty is not None and x.rf.is_const():
                return V.cond_atom(('is', ty, x))
            return self.zero_cond(d)
        if isinstance(x, Num) and isinstance(y, Term):
            x, y = y, x
        if isinstance(x, Term) and isinstance(y, Num):
            if y.rf.is_const():
                return V.cond_atom(('is', x, y))
            return self.zero_cond(self.tonum(x).rf - y.rf)
        for p, q in ((x, y), (y, x)):
            if isinstance(p, (Const, Ext)) or (isinstance(p, Str) and p.lit is not None):
                if isinstance(q, Term):
                    if q.head in V.SURE and p is NONE:
                        return FALSE
                    return V.cond_atom(('is', q, p))
                if isinstance(q, Str) and q.lit is None:
                    if isinstance(p, Str):
                        d = self.str_differ(p, q)
                        if d:
                            return FALSE
                        return V.cond_atom(('is', q, p))
                    return FALSE
                if isinstance(q, Num) and p in (TRUE, FALSE):
                    return self.zero_cond(q.rf - (ring.RONE if p is TRUE else ring.RZERO))
                if isinstance(q, Num):
                    t = self.opq(q)
                    if t is not None:
                        return V.cond_atom(('is', t, p))
                return FALSE
        if isinstance(x, Str) and isinstance(y, Str):
            if self.str_differ(x, y):
                return FALSE
            a, b = sorted((x, y), key=lambda v: V.show(v))
            return V.cond_atom(('eq', a, b))
        if isinstance(x, Tup) and isinstance(y, Tup):
            if len(x.items) != len(y.items):
                return FALSE
            r = TRUE
            for p, q in zip(x.items, y.items):
                r = V.and_(r, V.apply(lambda s, t: self.eqcond(st, s, t), p, q))
            return r
        if op == 'Eq' and (isinstance(x, Ref) or isinstance(y, Ref)):
            for p, q in ((x, y), (y, x)):
                f = self.dunder(st, p, '__eq__')
                if f is not None:
                    return self.I.truth(self.I.call(st, f, [q], {}, None), st)
        if isinstance(x, Ref) and isinstance(y, Ref) and op == 'Eq':
            ox, oy = self.I.obj(st, x.addr), self.I.obj(st, y.addr)
            if ox.kind == oy.kind == 'list':
                if len(ox.items) != len(oy.items):
                    return FALSE
                r = TRUE
                for p, q in zip(ox.items, oy.items):
                    r = V.and_(r, V.apply(lambda s, t: self.eqcond(st, s, t), p, q))
                return r
            if ox.kind == oy.kind == 'set':
                if all(self.hashable(p) for p in ox.items + oy.items):
                    return V.boolean(set(ox.items) == set(oy.items))
            if ox.kind == oy.kind == 'dict' and not ox.rest and not oy.rest and all(
                    self.hashable(p) for p in list(ox.d) + list(oy.d)):
                r = TRUE
                for k in list(ox.d) + [k for k in oy.d if k not in ox.d]:
                    p, q = ox.d.get(k, ABSENT), oy.d.get(k, ABSENT)
                    r = V.and_(r, V.apply(lambda s, t: V.boolean(s is t) if s is ABSENT or t is ABSENT
                                          else self.eqcond(st, s, t), p, q))
                return r
            if ox.kind == oy.kind == 'inst' and ox.cls is oy.cls and isinstance(ox.cls, Obj) and \
                    ox.cls.data.get('fields'):
                r = TRUE
                for n, _ in ox.cls.data['fields']:
                    r = V.and_(r, V.apply(lambda s, t: self.eqcond(st, s, t), ox.attrs[n], oy.attrs[n]))
                return r
            if ox.kind != oy.kind:
                return FALSE
        if isinstance(x, Ref) and isinstance(y, Ref) and op == 'Is':
            return FALSE
        if isinstance(x, (Obj, Ext, Const)) and isinstance(y, (Obj, Ext, Const)):
            return FALSE
        if type(x) is not type(y) and not isinstance(x, Term) and not isinstance(y, Term):
            return FALSE
        a, b = sorted((self.I.freeze(st, x), self.I.freeze(st, y)), key=lambda v: V.show(v))
        if a is b and op == 'Eq':
            return TRUE
        return V.cond_atom(('eq', a, b))

    def str_differ(self, a, b):
        """Whether two strings can never be equal (decided on literal ends)."""
        if a.lit is not None and b.lit is not None:
            return a.lit != b.lit
        pa, pb = a.parts, b.parts
        if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
            n = min(len(pa[0]), len(pb[0]))
            if pa[0][:n] != pb[0][:n]:
                return True
        if pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
            n = min(len(pa[-1]), len(pb[-1]))
            if n and pa[-1][-n:] != pb[-1][-n:]:
                return True
        if a.lit is not None or b.lit is not None:
            l, o = (a.lit, b) if a.lit is not None else (b.lit, a)
            for p in o.parts:
                if isinstance(p, str) and p not in l:
                    return True
        return False

    def hashable(self, v):
        return isinstance(v, (Str, Const, Tup)) or isinstance(v, Num) and v.rf.is_const()

    def contains(self, st, c, x, node):
        if c.var != Value.var:
            raise self.NeedSplit(c)
        f = self.dunder(st, c, '__contains__')
        if f is not None:
            return self.I.truth(self.I.call(st, f, [x], {}, node), st)
        if self.dunder(st, c, '__iter__') is not None:
            c = self.I.new_list(st, self.iterate(st, c, node))
        if isinstance(c, Ref) and self.I.obj(st, c.addr).kind == 'dict':
            if x.var != Value.var:
                raise self.NeedSplit(x)
            o = self.I.obj(st, c.addr)
            return self.haskey(st, o, x)
        if self.is_seq(st, c):
            its = self.iterate(st, c, node)
            r = FALSE
            for i in its:
                r = V.or_(r, V.apply(lambda s, t: self.eqcond(st, s, t), i, x))
            return r
        if isinstance(c, Str):
            x = self.force(x)
            if c.lit is not None and isinstance(x, Str) and x.lit is not None:
                return V.boolean(x.lit in c.lit)
            if isinstance(x, Str) and x.lit is not None and any(
                    isinstance(p, str) and x.lit in p for p in c.parts):
                return TRUE
            return V.cond_atom(('in', x, c))
        x = self.force(x)
        return V.cond_atom(('in', self.I.freeze(st, x), self.I.freeze(st, c)))

    def haskey(self, st, o, k):
        if k in o.d:
            return V.restrict(self.present(o.d[k]), st.pc)
        if self.hashable(k) and all(self.hashable(x) for x in o.d):
            if o.rest:
                if isinstance(k, Str) and k.lit is not None and self.I.cfg.get('open_haskey'):
                    r = self.I.cfg['open_haskey'](o, k.lit)
                    if r is not None:
                        return r
                return V.cond_atom(('haskey', o.name or '?', k))
            return FALSE
        r = FALSE
        for x, v in o.d.items():
            r = V.or_(r, V.and_(self.eqcond(st, x, k), self.present(v)))
        if o.rest:
            r = V.or_(r, V.cond_atom(('haskey', o.name or '?', k)))
        return r

    # ------------------------------------------------------------ dictionaries
    def dict_get(self, st, o, a, k, node, default=None):
        if k.var != Value.var:
            raise self.NeedSplit(k)
        self.I.lib_read(st, o, k, node) if hasattr(self.I, 'lib_read') else None
        if k in o.d:
            v = V.restrict(o.d[k], st.pc)
            p = self.present(v)
            if p is TRUE:
                return v
            if default is not None:
                return V.ite(p, v, default)
            if o.factory is not None:
                from interp import NeedSplit
                if p is not FALSE:
                    raise NeedSplit(p)
                v = self.I.call(st, o.factory, [], {}, node)
                self.I.mut(st, a).d[k] = v
                return v
            self.I.raise_if(st, V.not_(p), 'KeyError', k, node)
            return V.restrict(v, st.pc)
        if not (self.hashable(k) and all(self.hashable(x) for x in o.d)):
            # possibly equal to a present key
            cands = [(self.eqcond(st, x, k), v) for x, v in o.d.items()]
            cands = [(c, v) for c, v in cands if c is not FALSE]
            for c, v in cands:
                c = V.restrict(c, st.pc)
                if c is TRUE:
                    return v
                if c is not FALSE:
                    from interp import NeedSplit
                    raise NeedSplit(c)
        if o.rest:
            c = V.cond_atom(('haskey', o.name or '?', k))
            oh = self.I.cfg.get('open_haskey')
            if oh and isinstance(k, Str) and k.lit is not None:
                r = oh(o, k.lit)
                if r is not None:
                    c = r
            v = o.rest(k)
            if default is not None:
                return V.ite(V.restrict(c, st.pc), v, default)
            if self.I.handled('KeyError') or c is FALSE:
                self.I.raise_if(st, V.not_(c), 'KeyError', k, node)
            return v
        if default is not None:
            return default
        if o.factory is not None:
            v = self.I.call(st, o.factory, [], {}, node)
            self.I.mut(st, a).d[k] = v
            return v
        self.I.raise_(st, 'KeyError', k, node)

    def dict_items(self, st, d, node):
        d = self.force(d)
        if isinstance(d, Tup) or isinstance(d, Ref) and self.I.obj(st, d.addr).kind == 'list':
            return [tuple(self.unpack(st, x, 2, node)) for x in self.iterate(st, d, node)]
        if not isinstance(d, Ref):
            raise self.unsupported('items of %s' % V.show(d))
        o = self.I.obj(st, d.addr)
        if o.kind != 'dict':
            raise self.unsupported('items of %s' % o.kind)
        if o.rest:
            ks = self.I.cfg.get('open_keys')
            if ks and o.name in ks:
                return [(string(k), self.dict_get(st, o, d.addr, string(k), node)) for k in ks[o.name]]
            raise self.unsupported('iteration over an open dictionary %s' % o.name)
        out = []
        for k, v in o.d.items():
            v = V.restrict(v, st.pc)
            p = self.present(v)
            if p is FALSE:
                continue
            if p is not TRUE:
                from interp import NeedSplit
                raise NeedSplit(p)
            out.append((k, v))
        return out

    def dict_update(self, st, d, other, node):
        its = self.dict_items(st, other, node)
        if self.I.obj(st, d.addr).mirror is not None:
            for k, v in its:
                self.setitem(st, d, k, v, node)
            return
        o = self.I.mut(st, d.addr)
        for k, v in its:
            o.d[k] = v

    # --------------------------------------------------------------- indexing
    def const_int(self, v):
        if isinstance(v, Num) and v.rf.is_const() and v.rf.const().denominator == 1:
            return int(v.rf.const())
        if v is TRUE:
            return 1
        if v is FALSE:
            return 0
        return None

    def pyslice(self, s):
        vals = []
        for x in (s.a, s.b, s.c):
            if x is NONE:
                vals.append(None)
            else:
                i = self.const_int(x)
                if i is None:
                    return None
                vals.append(i)
        return slice(*vals)

    def arr_index(self, st, a, k, node):
        """Basic/advanced indexing -> (idx list, shape) or None when opaque."""
        ks = list(k.items) if isinstance(k, Tup) else [k]
        ks = [V.restrict(x, st.pc) for x in ks]
        for x in ks:
            if x.var != Value.var:
                raise self.NeedSplit(x)
        if len(ks) == 1 and isinstance(ks[0], (Arr, Ref)):
            its, sh = self.as_arr(st, ks[0])
            if sh == a.shape and sh and all(i in (TRUE, FALSE) or i.var != Value.var or self.isbool(i) for i in its):
                cs = [V.restrict(self.I.truth(i, st), st.pc) for i in its]
                for c in cs:
                    if c not in (TRUE, FALSE):
                        from interp import NeedSplit
                        raise NeedSplit(c)
                sel = [j for j, c in zip(a.idx, cs) if c is TRUE]
                return sel, (len(sel),)
        nexp = sum(1 for x in ks if x is not NONE and x is not V.ELLIPSIS)
        if V.ELLIPSIS in ks:
            i = ks.index(V.ELLIPSIS)
            ks[i:i + 1] = [V.slice_(NONE, NONE, NONE)] * (len(a.shape) - nexp)
        while sum(1 for x in ks if x is not NONE) < len(a.shape):
            ks.append(V.slice_(NONE, NONE, NONE))
        if sum(1 for x in ks if x is not NONE) > len(a.shape):
            self.I.raise_(st, 'IndexError', string('too many indices'), node)
        axes = []      # ('i', int) ('s', [ints]) ('n',) ('a', [ints])
        d = 0
        for x in ks:
            if x is NONE:
                axes.append(('n',))
                continue
            n = a.shape[d]
            d += 1
            if isinstance(x, Slice):
                s = self.pyslice(x)
                if s is None:
                    return None
                axes.append(('s', list(range(n))[s]))
            elif isinstance(x, (Arr, Ref, Tup)):
                its, sh = self.as_arr(st, x)
                if len(sh) == 1 and len(its) == n and all(i in (TRUE, FALSE) for i in its) and n:
                    js = [j for j, i in enumerate(its) if i is TRUE]
                    axes.append(('a', js, (len(js),)))
                    continue
                if its and any(i in (TRUE, FALSE) for i in its):
                    return None
                js = []
                for i in its:
                    if i.var != Value.var:
                        raise self.NeedSplit(i)
                    j = self.const_int(i)
                    if j is None:
                        return None
                    js.append(j % n if -n <= j < n else self.I.raise_(st, 'IndexError', string('index out of range'), node))
                axes.append(('a', js, sh))
            else:
                j = self.const_int(x)
                if j is None:
                    return None
                if not -n <= j < n:
                    self.I.raise_(st, 'IndexError', string('index %d out of range for axis of size %d' % (j, n)), node)
                axes.append(('i', j % n))
        strides = []
        s = 1
        for n in reversed(a.shape):
            strides.append(s)
            s *= n
        strides.reverse()
        if any(x[0] == 'a' for x in axes):
            # integers take part in the broadcasting of index arrays
            axes = [('a', [x[1]], ()) if x[0] == 'i' else x for x in axes]
        adv = [x for x in axes if x[0] == 'a']
        bsh = ()
        for x in adv:
            bsh = self.bshape(bsh, x[2])
            if bsh is None:
                self.I.raise_(st, 'IndexError', string('shape mismatch: indexing arrays could not be broadcast together'), node)
        pos = [i for i, x in enumerate(axes) if x[0] == 'a']
        front = bool(pos) and pos[-1] - pos[0] + 1 != len(pos)
        L = 1
        for n in bsh:
            L *= n
        offs = [0] * L
        shape = []
        terms = []
        d = 0
        base = 0
        at = None
        for x in axes:
            if x[0] == 'n':
                shape.append((1,))
                terms.append([0])
                continue
            stp = strides[d]
            d += 1
            if x[0] == 'i':
                base += x[1] * stp
            elif x[0] == 's':
                shape.append((len(x[1]),))
                terms.append([j * stp for j in x[1]])
            else:
                if at is None:
                    at = len(terms)
                offs = [p + j * stp for p, j in zip(offs, self.bcast(x[1], x[2], bsh))]
        if at is not None:
            if front:
                at = 0
            shape.insert(at, bsh)
            terms.insert(at, offs)
        idx = [a.idx[base + sum(t)] for t in itertools.product(*terms)]
        return idx, tuple(n for x in shape for n in x)

    def isbool(self, v):
        return v is TRUE or v is FALSE or (v.var != Value.var and all(l in (TRUE, FALSE) for c, l in V.leaves(v)))

    def getitem(self, st, o, k, node):
        o = V.restrict(o, st.pc)
        k = V.restrict(k, st.pc)
        if o.var != Value.var:
            raise self.NeedSplit(o)
        if k.var != Value.var:
            raise self.NeedSplit(k)
        if isinstance(o, Ext) and o.path in ('numpy.r_', 'numpy.c_'):
            return self.concat_getitem(st, o.path[-2:], k, node)
        if isinstance(o, Arr):
            r = self.arr_index(st, o, k, node)
            if r is None:
                return self.opaque_getitem(st, o, k)
            idx, sh = r
            if sh == ():
                return V.restrict(self.I.obj(st, o.buf).items[idx[0]], st.pc)
            advanced = not self.basic(k)
            if advanced:
                b = self.I.obj(st, o.buf)
                return self.I.new_arr(st, [b.items[i] for i in idx], sh, o.dt)
            return arr(o.buf, idx, sh, o.dt)
        if isinstance(o, Ref):
            h = self.I.obj(st, o.addr)
            if h.kind == 'dict':
                if isinstance(k, Ref):
                    self.I.raise_(st, 'TypeError', string('unhashable'), node)
                return self.dict_get(st, h, o.addr, k, node)
            if h.kind == 'list':
                return self.seq_get(st, h.items, k, node, lambda x: self.I.new_list(st, x), o)
            if h.kind == 'inst':
                f = self.I.lookup(h.cls, '__getitem__') if h.cls else None
                if f is not None:
                    return self.I.call(st, V.bound(f, o), [k], {}, node)
                if h.cls is not None and not h.open and not self.foreign(h.cls):
                    self.I.raise_(st, 'TypeError', string('object is not subscriptable'), node)
        if isinstance(o, Tup):
            return self.seq_get(st, list(o.items), k, node, tup, o)
        if isinstance(o, Str):
            if o.lit is not None:
                if isinstance(k, Slice):
                    s = self.pyslice(k)
                    if s is not None:
                        return string(o.lit[s])
                else:
                    i = self.const_int(k)
                    if i is not None:
                        if not -len(o.lit) <= i < len(o.lit):
                            self.I.raise_(st, 'IndexError', string('string index'), node)
                        return string(o.lit[i])
            elif isinstance(k, Slice):
                s = self.pyslice(k)
                if s is not None:
                    r = self.str_slice(o, s)
                    if r is not None:
                        return r
            else:
                i = self.const_int(k)
                if i is not None and i >= 0 and isinstance(o.parts[0], str) and i < len(o.parts[0]):
                    return string(o.parts[0][i])
                if i is not None and i < 0 and isinstance(o.parts[-1], str) and -i <= len(o.parts[-1]):
                    return string(o.parts[-1][i])
            return term('getitem', o, self.I.freeze(st, k))
        if isinstance(o, Num):
            t = self.opq(o)
            if t is not None:
                return self.getitem(st, t, k, node)
            self.I.raise_(st, 'TypeError', string('number is not subscriptable'), node)
        if o is NONE:
            self.I.raise_(st, 'TypeError', string('None is not subscriptable'), node)
        if isinstance(o, Term) and o.head == 'seqitem_err':
            raise self.unsupported('x')
        return self.opaque_getitem(st, o, k)

    def basic(self, k):
        ks = k.items if isinstance(k, Tup) else (k,)
        return all(isinstance(x, (Slice, Num)) or x is NONE or x is V.ELLIPSIS for x in ks)

    def str_slice(self, o, s):
        if s.step not in (None, 1):
            return None
        a, b = s.start, s.stop
        parts = list(o.parts)
        if b is not None and b < 0:
            if isinstance(parts[-1], str) and len(parts[-1]) >= -b:
                parts[-1] = parts[-1][:b]
                b = None
            else:
                return None
        if a:
            if a > 0 and isinstance(parts[0], str) and len(parts[0]) >= a:
                if b is not None and b > 0:
                    if b <= len(o.parts[0]):
                        return string(o.parts[0][a:b])
                    return None
                parts[0] = parts[0][a:]
            else:
                return None
        elif b is not None:
            if b >= 0 and isinstance(parts[0], str) and len(parts[0]) >= b:
                return string(parts[0][:b])
            return None
        return string(*parts)

    def opaque_getitem(self, st, o, k):
        if isinstance(o, Term) and isinstance(k, Tup) and o.head == 'getitem' and False:
            pass
        hook = self.I.cfg.get('getitem_hook')
        if hook:
            r = hook(st, o, k)
            if r is not None:
                return r
        return term('getitem', self.I.freeze(st, o), self.I.freeze(st, k))

    def seq_get(self, st, items, k, node, mkf, o):
        if isinstance(k, Slice):
            s = self.pyslice(k)
            if s is None:
                return self.opaque_getitem(st, o, k)
            return mkf(items[s])
        i = self.const_int(k)
        if i is None:
            if isinstance(k, (Str, Tup)):
                self.I.raise_(st, 'TypeError', string('list indices must be integers'), node)
            return self.opaque_getitem(st, o, k)
        if not -len(items) <= i < len(items):
            self.I.raise_(st, 'IndexError', string('list index out of range'), node)
        return items[i]

    def setitem(self, st, o, k, v, node):
        o = V.restrict(o, st.pc)
        k = V.restrict(k, st.pc)
        if o.var != Value.var:
            raise self.NeedSplit(o)
        if k.var != Value.var and not isinstance(o, Arr):
            raise self.NeedSplit(k)
        if isinstance(o, Arr):
            r = self.arr_index(st, o, k, node)
            if r is None:
                self.I.event(st, 'setitem', (o, self.I.freeze(st, k), self.I.freeze(st, v)), node)
                b = self.I.mut(st, o.buf)
                t = term('updated', self.I.freeze(st, k), self.I.freeze(st, v))
                for i in o.idx:
                    b.items[i] = term('maybe', b.items[i], t)
                return
            idx, sh = r
            items, vs = self.as_arr(st, v)
            while len(vs) > len(sh) and vs[0] == 1:
                vs = vs[1:]
            bs = self.bshape(vs, sh)
            if bs != sh:
                if len(items) == 1 and items[0].var == Value.var and isinstance(items[0], Term) and items[0].head == 'ragged':
                    raise self.unsupported('ragged assignment')
                self.I.raise_(st, 'ValueError', string('could not broadcast input array from shape %r into shape %r' % (vs, sh)), node)
            items = self.bcast(items, vs, sh)
            b = self.I.mut(st, o.buf)
            if o.dt in ('i', 'd') and any(isinstance(y, Num) and y.u for x in items for _, y in V.leaves(x, st.pc)):
                self.I.event(st, 'drop_uncertainty', ('numpy array of floats',), node)
                self.I.raise_(st, 'TypeError', string('an uncertain value stored into an array of floats'), node)
            for i, x in zip(idx, items):
                if o.dt == 'i':
                    x = V.apply(lambda y: num(ring.app('trunc', y.rf), y.u, 'i') if isinstance(y, Num) and y.k != 'i' else y, x)
                elif o.dt == 'd':
                    # numpy discards the imaginary part when it stores into floats
                    x = V.apply(lambda y: self.call(st, ext('numpy.real'), [y], {}, node) if isinstance(y, Num) and y.k == 'c' else y, x)
                b.items[i] = x
            return
        f = self.dunder(st, o, '__setitem__')
        if f is not None:
            self.I.call(st, f, [k, v], {}, node)
            return
        if isinstance(o, Ref):
            h = self.I.obj(st, o.addr)
            if h.kind == 'dict' and h.mirror is not None:
                if not (isinstance(k, Str) and k.lit is not None):
                    raise self.unsupported('attribute named at run time')
                self.setattr(st, h.mirror, k.lit, v, node)
                h.d[k] = v
                return
            h = self.I.mut(st, o.addr)
            if h.kind == 'dict':
                if isinstance(k, Ref):
                    self.I.raise_(st, 'TypeError', string('unhashable'), node)
                h.d[k] = v
                return
            if h.kind == 'list':
                i = self.const_int(k)
                if i is None:
                    if isinstance(k, Slice):
                        s = self.pyslice(k)
                        if s is not None:
                            its = self.iterate(st, v, node)
                            h.items[s] = its
                            return
                    self.I.event(st, 'setitem', (o, self.I.freeze(st, k), self.I.freeze(st, v)), node)
                    t = term('updated', self.I.freeze(st, k), self.I.freeze(st, v))
                    h.items = [term('maybe', self.I.freeze(st, x), t) for x in h.items]
                    return
                if not -len(h.items) <= i < len(h.items):
                    self.I.raise_(st, 'IndexError', string('list assignment index out of range'), node)
                h.items[i] = v
                return
        if isinstance(o, (Tup, Str, Num)) and not (isinstance(o, Num) and self.opq(o) is not None):
            self.I.raise_(st, 'TypeError', string('object does not support item assignment'), node)
        self.I.event(st, 'setitem', (o, self.I.freeze(st, k), self.I.freeze(st, v)), node)

    def delitem(self, st, o, k, node):
        o = self.force(o)
        k = self.force(k)
        if isinstance(o, Ref):
            h = self.I.mut(st, o.addr)
            if h.kind == 'dict':
                if k in h.d:
                    del h.d[k]
                    return
                if h.rest is None:
                    self.I.raise_(st, 'KeyError', k, node)
                h.d[k] = ABSENT
                return
            if h.kind == 'list':
                i = self.const_int(k)
                if i is not None and -len(h.items) <= i < len(h.items):
                    del h.items[i]
                    return
        self.I.event(st, 'delitem', (o, self.I.freeze(st, k)), node)

    # --------------------------------------------------------------- iterate
    def iterate(self, st, v, node):
        v = V.restrict(v, st.pc)
        if v.var != Value.var:
            raise self.NeedSplit(v)
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            o = self.I.obj(st, v.addr)
            if o.kind in ('list', 'set'):
                return list(o.items)
            if o.kind == 'dict':
                return [k for k, _ in self.dict_items(st, v, node)]
            if o.kind == 'inst' and not o.open and isinstance(o.cls, Obj) and o.cls.kind == 'class' and \
                    all(isinstance(b, Obj) and b.kind == 'class' or V.show(b) == V.show(ext('builtins.object')) for c in self.I.mro(o.cls) for b in c.data['bases']) and \
                    not any(self.I.lookup(o.cls, n) for n in ('__iter__', '__getitem__', '__getattr__')):
                self.I.raise_(st, 'TypeError', string('object is not iterable'), node)
            f = self.dunder(st, v, '__iter__')
            if f is not None:
                r = self.I.call(st, f, [], {}, node)
                if r is not v:
                    return self.iterate(st, r, node)
            elif self.dunder(st, v, '__getitem__') is not None and self.dunder(st, v, '__len__') is not None:
                n = self.const_int(self.I.call(st, self.dunder(st, v, '__len__'), [], {}, node))
                if n is not None:
                    g = self.dunder(st, v, '__getitem__')
                    return [self.I.call(st, g, [const(i)], {}, node) for i in range(n)]
        if isinstance(v, Arr):
            if not v.shape:
                self.I.raise_(st, 'TypeError', string('iteration over a 0-d array'), node)
            n = v.shape[0]
            m = len(v.idx) // n if n else 0
            if len(v.shape) == 1:
                return self.I.arr_items(st, v)
            return [arr(v.buf, v.idx[i * m:(i + 1) * m], v.shape[1:], v.dt) for i in range(n)]
        if isinstance(v, Str):
            if v.lit is not None:
                return [string(c) for c in v.lit]
        if isinstance(v, Num):
            t = self.opq(v)
            if t is not None:
                v = t
            else:
                self.I.raise_(st, 'TypeError', string('number is not iterable'), node)
        if v is NONE:
            self.I.raise_(st, 'TypeError', string('None is not iterable'), node)
        hook = self.I.cfg.get('iterate_hook')
        if hook:
            r = hook(st, v, node)
            if r is not None:
                return r
        raise self.unsupported('iteration over %s at line %s' % (V.show(v, 2), getattr(node, 'lineno', '?')))

    def unpack(self, st, v, n, node):
        v = V.restrict(v, st.pc)
        if v.var != Value.var:
            raise self.NeedSplit(v)
        if isinstance(v, Num):
            t = self.opq(v)
            if t is not None:
                v = t
        if isinstance(v, Term):
            hook = self.I.cfg.get('iterate_hook')
            r = hook(st, v, node) if hook else None
            if r is None:
                return [term('getitem', v, const(i)) for i in range(n)]
            its = r
        else:
            its = self.iterate(st, v, node)
        if len(its) != n:
            self.I.raise_(st, 'ValueError', string('cannot unpack %d values into %d' % (len(its), n)), node)
        return its

    # ------------------------------------------------------------- attributes
    def pyfunc(self, name, fn):
        return V.obj('pyfunc', name=name, fn=fn)

    def method(self, name, f, *pre):
        return self.pyfunc(name, lambda st, args, kw, node: f(st, *pre, args=args, kw=kw, node=node))

    def getattr(self, st, o, attr, node):
        o = V.restrict(o, st.pc)
        if o.var != Value.var:
            raise self.NeedSplit(o)
        if isinstance(o, Ext):
            return self.ext_attr(o.path + '.' + attr)
        if isinstance(o, Obj):
            k = o.kind
            if k == 'module':
                m = o.data['name']
                if o.data.get('pkg') and self.I.project.has(attr) and attr not in ('version',):
                    return V.obj('module', name=attr)
                v = self.I.module_attr(st, m, attr)
                if v is None:
                    self.I.raise_(st, 'AttributeError', string(attr), node)
                return v
            if k == 'class':
                if attr == '__name__':
                    return string(o.data['name'])
                v = self.I.lookup(o, attr)
                if v is None or self.foreign(o):
                    if self.foreign(o):
                        return term('attr', term('class', string(o.data['name'])), string(attr))
                    self.I.raise_(st, 'AttributeError', string(attr), node)
                if isinstance(v, Obj) and v.kind == 'classmethod':
                    return V.bound(v.data['func'], o)
                if isinstance(v, Obj) and v.kind == 'staticmethod':
                    return v.data['func']
                return v
            if k == 'super':
                cls = o.data['cls']
                sv = o.data['self']
                start = self.I.obj(st, sv.addr).cls if isinstance(sv, Ref) else sv
                m = self.I.mro(start)
                m = m[m.index(cls) + 1:] if cls in m else self.I.mro(cls)[1:]
                for c in m:
                    if attr in c.data['ns']:
                        f = c.data['ns'][attr]
                        if isinstance(f, Obj) and f.kind == 'classmethod':
                            f = f.data['func']
                        return V.bound(f, sv)
                if attr == '__init__':
                    return self.pyfunc('__init__', lambda st, a, k, n: NONE)
                self.I.raise_(st, 'AttributeError', string(attr), node)
            if k in ('func', 'bound', 'pyfunc') and attr in ('__name__', '__qualname__'):
                return string(o.data.get('name') or '?')
            if k == 'property' and attr == 'setter':
                return self.pyfunc('setter', lambda st, a, kw, n: o)
        if isinstance(o, Ref):
            h = self.I.obj(st, o.addr)
            if h.kind == 'inst':
                if attr in h.attrs:
                    v = V.restrict(h.attrs[attr], st.pc)
                    p = self.present(v)
                    if p is not TRUE:
                        self.I.raise_if(st, V.not_(p), 'AttributeError', string(attr), node)
                        v = V.restrict(v, st.pc)
                    return v
                if attr == '__class__':
                    return h.cls
                if attr == '__dict__':
                    d = self.I.new_dict(st, {string(k): v for k, v in h.attrs.items()})
                    self.I.mut(st, d.addr).mirror = o
                    return d
                if h.cls is not None:
                    v = self.I.lookup(h.cls, attr)
                    if v is not None:
                        if isinstance(v, Obj):
                            if v.kind == 'func':
                                return V.bound(v, o)
                            if v.kind == 'property':
                                return self.I.call(st, v.data['func'], [o], {}, node)
                            if v.kind == 'classmethod':
                                return V.bound(v.data['func'], h.cls)
                            if v.kind == 'staticmethod':
                                return v.data['func']
                        return v
                if h.open:
                    return h.open(attr)
                if h.cls is not None:
                    g = self.I.lookup(h.cls, '__getattr__')
                    if g is not None:
                        return self.I.call(st, V.bound(g, o), [string(attr)], {}, node)
                    if self.foreign(h.cls):
                        raise self.unsupported('attribute %s inherited from a library class' % attr)
                self.I.raise_(st, 'AttributeError', string(attr), node)
            if h.kind == 'list' or h.kind == 'set':
                f = getattr(self, 'list_' + attr, None)
                if f:
                    return self.method(attr, f, o)
            if h.kind == 'dict':
                f = getattr(self, 'dict_' + attr, None) if attr not in ('get',) else self.dict_get_m
                if f and attr not in ('items_',):
                    if attr == 'items':
                        f = self.dict_items_m
                    elif attr == 'update':
                        f = self.dict_update_m
                    return self.method(attr, f, o)
            if attr in ('__class__',):
                return ext('builtins.' + h.kind)
            if h.kind in ('list', 'dict', 'set') and hasattr({'list': [], 'dict': {}, 'set': set()}[h.kind], attr):
                raise self.unsupported('%s.%s is not modelled' % (h.kind, attr))
            self.I.raise_(st, 'AttributeError', string(attr), node)
        if isinstance(o, Str):
            f = getattr(self, 'str_m_' + attr, None)
            if f:
                return self.method(attr, f, o)
            if attr.startswith('__') or attr in ('nominal_value', 'std_dev', 'shape'):
                self.I.raise_(st, 'AttributeError', string(attr), node)
            return self.method(attr, lambda st, s, args, kw, node: term('str.' + attr, s, *[self.I.freeze(st, a) for a in args]), o)
        if isinstance(o, Arr):
            return self.arr_attr(st, o, attr, node)
        if isinstance(o, Tup):
            if attr == 'index':
                return self.method(attr, self.list_index, o)
            if attr == 'count':
                return self.method(attr, self.list_count, o)
            if self.I.tupfields:
                r = self.tuple_attr(st, o, attr, node)
                if r is not None:
                    return r
        if isinstance(o, Num):
            t = self.opq(o)
            if attr in ('nominal_value', 'n'):
                if o.u:
                    return num(o.rf, False, 'f')
                if t is None:
                    self.I.raise_(st, 'AttributeError', string(attr), node)
            if attr in ('std_dev', 's'):
                if o.u:
                    return num(ring.app('opq', term('std', num(o.rf))), False)
                if t is None:
                    self.I.raise_(st, 'AttributeError', string(attr), node)
            if attr in ('real', 'imag') and t is None:
                return self.ext['numpy.' + attr](st, [o], {}, node)
            if attr in ('conjugate', 'conj') and t is None:
                if o.k == 'c':
                    return self.pyfunc(attr, lambda st, a, k, n: self.ext['numpy.conj'](st, [o], {}, n))
                return self.pyfunc(attr, lambda st, a, k, n: o)
            if t is not None:
                return self.getattr(st, t, attr, node)
            if attr in ('ndim', 'shape', 'size', 'dtype', 'T', 'copy', 'item', 'mean', 'sum',
                        'tolist', 'astype', 'flatten', 'ravel', 'reshape', 'squeeze') or hasattr(1.0, attr):
                if o.k == 'i' or attr in ('tolist', 'astype', 'flatten', 'ravel', 'reshape') or hasattr(1.0, attr):
                    pass
                # a plain float has none of these, a numpy scalar has
                raise self.unsupported('attribute %s of a number' % attr)
            self.I.raise_(st, 'AttributeError', string(attr), node)
        if isinstance(o, Term):
            if o.head == 'exc' and attr == 'args':
                return tup(o.args[1:])
            hook = self.I.cfg.get('attr_hook')
            if hook:
                r = hook(st, o, attr)
                if r is not None:
                    return r
            if self.I.handled('AttributeError') and attr in ('nominal_value', 'std_dev'):
                self.I.raise_if(st, V.not_(V.cond_atom(('hasattr', o, attr))), 'AttributeError', string(attr), node)
            return term('attr', o, string(attr))
        if o is NONE:
            self.I.raise_(st, 'AttributeError', string('None has no attribute ' + attr), node)
        if o is TRUE or o is FALSE:
            self.I.raise_(st, 'AttributeError', string(attr), node)
        return term('attr', self.I.freeze(st, o), string(attr))

    def foreign(self, cls):
        """Whether a class of the package inherits from a library class."""
        for c in self.I.mro(cls):
            for b in c.data['bases']:
                if not (isinstance(b, Obj) and b.kind == 'class') and not (
                        isinstance(b, Ext) and b.path in ('builtins.object', 'abc.ABC', 'typing.Generic',
                                                          'builtins.tuple')):
                    if isinstance(b, Ext) and b.path.endswith(('Error', 'Exception', 'Warning')):
                        continue
                    return True
        return False

    def dunder(self, st, v, name):
        """A special method the class of an instance defines, bound, or None."""
        if isinstance(v, Ref):
            h = self.I.obj(st, v.addr)
            if h.kind == 'inst' and isinstance(h.cls, Obj) and h.cls.kind == 'class':
                f = self.I.lookup(h.cls, name)
                if f is not None and isinstance(f, Obj):
                    return V.bound(f, v)
        return None

    def ext_attr(self, path):
        if path.startswith('builtins.') and path.split('.')[-1] in ('__name__', '__qualname__') and path.count('.') == 2:
            return string(path.split('.')[1])
        if path in self.re_flags:
            return const(self.re_flags[path])
        if path in ('numpy.pi', 'math.pi', 'scipy.pi'):
            return num(ring.PI)
        if path in ('numpy.newaxis',):
            return NONE
        if path in ('numpy.e', 'math.e'):
            return num(ring.exp(ring.RONE))
        if path in ('numpy.inf', 'math.inf'):
            return num(ring.app('inf'))
        if path in ('numpy.nan', 'math.nan', 'numpy.NaN'):
            return num(ring.app('nan'))
        if path in ('os.curdir', 'os.path.curdir'):
            return string('.')
        if path in ('os.sep', 'os.path.sep'):
            return string('/')
        return ext(path)

    def setattr(self, st, o, attr, v, node):
        o = V.restrict(o, st.pc)
        if o.var != Value.var:
            raise self.NeedSplit(o)
        if isinstance(o, Ref):
            h = self.I.obj(st, o.addr)
            if h.kind == 'inst':
                self.I.mut(st, o.addr).attrs[attr] = v
                return
        if isinstance(o, Obj) and o.kind in ('func', 'class'):
            if o.kind == 'class':
                o.data['ns'][attr] = v
            return
        if isinstance(o, Arr) and attr == 'shape':
            raise self.unsupported('assignment to shape')
        self.I.event(st, 'setattr', (o, attr, self.I.freeze(st, v)), node)

    # ------------------------------------------------------------ list methods
    def list_append(self, st, o, args, kw, node):
        h = self.I.mut(st, o.addr)
        h.items = h.items + [args[0]]
        return NONE

    def list_add(self, st, o, args, kw, node):
        h = self.I.mut(st, o.addr)
        if args[0] not in h.items and not self.member(st, args[0], h.items, node):
            h.items = h.items + [args[0]]
        return NONE

    def list_union(self, st, o, args, kw, node):
        its = self.seq_items(st, o)
        for a in args:
            its += self.iterate(st, a, node)
        return self.I.new_set(st, its)

    def member(self, st, i, its, node):
        """Whether i is among its, followed on one path at a time."""
        c = FALSE
        for x in its:
            c = V.or_(c, V.apply(lambda s, t: self.eqcond(st, s, t), i, x))
        c = V.restrict(c, st.pc)
        if c is not TRUE and c is not FALSE:
            raise self.NeedSplit(c)
        return c is TRUE

    def list_difference(self, st, o, args, kw, node):
        its = self.seq_items(st, o)
        for a in args:
            x = self.iterate(st, a, node)
            its = [i for i in its if not self.member(st, i, x, node)]
        return self.I.new_set(st, its)

    def list_intersection(self, st, o, args, kw, node):
        its = self.seq_items(st, o)
        for a in args:
            x = self.iterate(st, a, node)
            its = [i for i in its if self.member(st, i, x, node)]
        return self.I.new_set(st, its)

    def list_update(self, st, o, args, kw, node):
        h = self.I.obj(st, o.addr)
        if h.kind != 'set':
            self.I.raise_(st, 'AttributeError', string("'list' object has no attribute 'update'"), node)
        for a in args:
            for i in self.iterate(st, a, node):
                self.list_add(st, o, [i], {}, node)
        return NONE

    def list_isdisjoint(self, st, o, args, kw, node):
        x = self.iterate(st, args[0], node)
        return V.boolean(not any(self.member(st, i, x, node) for i in self.seq_items(st, o)))

    def list_issuperset(self, st, o, args, kw, node):
        its = self.seq_items(st, o)
        return V.boolean(all(self.member(st, i, its, node) for i in self.iterate(st, args[0], node)))

    def list_difference_update(self, st, o, args, kw, node):
        its = self.seq_items(st, self.list_difference(st, o, args, kw, node))
        self.I.mut(st, o.addr).items = its
        return NONE

    def list_intersection_update(self, st, o, args, kw, node):
        its = self.seq_items(st, self.list_intersection(st, o, args, kw, node))
        self.I.mut(st, o.addr).items = its
        return NONE

    def list_symmetric_difference(self, st, o, args, kw, node):
        its = self.seq_items(st, o)
        x = self.iterate(st, args[0], node)
        return self.I.new_set(st, [i for i in its if i not in x] + [i for i in x if i not in its])

    def list_appendleft(self, st, o, args, kw, node):
        return self.list_insert(st, o, [const(0)] + list(args), kw, node)

    def list_popleft(self, st, o, args, kw, node):
        return self.list_pop(st, o, [const(0)], kw, node)

    def list_rotate(self, st, o, args, kw, node):
        k = self.const_int(args[0]) if args else 1
        h = self.I.mut(st, o.addr)
        if k is None:
            raise self.unsupported('rotate')
        if h.items:
            k %= len(h.items)
            h.items = h.items[len(h.items) - k:] + h.items[:len(h.items) - k]
        return NONE

    def list_issubset(self, st, o, args, kw, node):
        r = TRUE
        for i in self.seq_items(st, o):
            r = V.and_(r, self.contains(st, args[0], i, node))
        return r

    def list_extend(self, st, o, args, kw, node):
        its = self.iterate(st, args[0], node)
        self.I.mut(st, o.addr).items.extend(its)
        return NONE

    def list_insert(self, st, o, args, kw, node):
        i = self.const_int(self.force(args[0]))
        if i is None:
            raise self.unsupported('insert at unknown position')
        self.I.mut(st, o.addr).items.insert(i, args[1])
        return NONE

    def list_pop(self, st, o, args, kw, node):
        h = self.I.mut(st, o.addr)
        if not h.items:
            self.I.raise_(st, 'IndexError', string('pop from empty list'), node)
        i = self.const_int(self.force(args[0])) if args else -1
        if i is None:
            raise self.unsupported('pop at unknown position')
        if not -len(h.items) <= i < len(h.items):
            self.I.raise_(st, 'IndexError', string('pop index out of range'), node)
        return h.items.pop(i)

    def list_remove(self, st, o, args, kw, node):
        h = self.I.mut(st, o.addr)
        x = args[0]
        for n, i in enumerate(h.items):
            c = V.restrict(V.apply(lambda s, t: self.eqcond(st, s, t), i, x), st.pc)
            if c is TRUE:
                del h.items[n]
                return NONE
            if c is not FALSE:
                from interp import NeedSplit
                raise NeedSplit(c)
        self.I.raise_(st, 'ValueError', string('list.remove(x): x not in list'), node)

    def list_index(self, st, o, args, kw, node):
        its = self.seq_items(st, o)
        r = None
        for n, i in enumerate(its):
            c = V.restrict(V.apply(lambda s, t: self.eqcond(st, s, t), i, args[0]), st.pc)
            if c is TRUE:
                return const(n)
            if c is not FALSE:
                from interp import NeedSplit
                raise NeedSplit(c)
        self.I.raise_(st, 'ValueError', string('not in list'), node)

    def list_count(self, st, o, args, kw, node):
        n = 0
        for i in self.seq_items(st, o):
            c = V.restrict(V.apply(lambda s, t: self.eqcond(st, s, t), i, args[0]), st.pc)
            if c is TRUE:
                n += 1
            elif c is not FALSE:
                from interp import NeedSplit
                raise NeedSplit(c)
        return const(n)

    def list_copy(self, st, o, args, kw, node):
        h = self.I.obj(st, o.addr)
        return self.I.new_set(st, h.items) if h.kind == 'set' else self.I.new_list(st, h.items)

    def list_clear(self, st, o, args, kw, node):
        self.I.mut(st, o.addr).items = []
        return NONE

    def list_reverse(self, st, o, args, kw, node):
        self.I.mut(st, o.addr).items.reverse()
        return NONE

    def list_sort(self, st, o, args, kw, node):
        its = self.sort_items(st, self.seq_items(st, o), kw, node)
        self.I.mut(st, o.addr).items[:] = its
        return NONE

    def sort_items(self, st, its, kw, node):
        key = kw.get('key')
        rev = kw.get('reverse', FALSE)
        keys = [self.I.call(st, key, [x], {}, node) for x in its] if key is not None and key is not NONE else list(its)

        def ck(v):
            if isinstance(v, Num) and v.rf.is_const():
                return (0, v.rf.const())
            if isinstance(v, Str) and v.lit is not None:
                return (1, v.lit)
            if isinstance(v, Tup):
                s = [ck(x) for x in v.items]
                return None if None in s else (2, tuple(s))
            return None
        cs = [ck(k) for k in keys]
        if None in cs:
            if all(isinstance(k, Str) for k in keys):
                # unknown strings: any fixed order
                f = self.I.cfg.get('sort_unknown')
                if f:
                    return f(its)
            if len(its) <= 1:
                return its
            if kw.get('key') in (None, NONE) and all(isinstance(x, Num) for x in its):
                # the i-th smallest of these numbers, whichever it is
                args = sorted(its, key=lambda x: repr(x.rf))
                u = False
                for x in its:
                    u = u or x.u
                out = [num(ring.app('opq', term('nth smallest', const(i), *args)), u) for i in range(len(its))]
                return out[::-1] if rev is TRUE else out
            raise self.unsupported('sorting unknown values')
        order = sorted(range(len(its)), key=lambda i: cs[i], reverse=(rev is TRUE))
        return [its[i] for i in order]

    # ------------------------------------------------------------ dict methods
    def dict_items_m(self, st, o, args, kw, node):
        return self.I.new_list(st, [tup(x) for x in self.dict_items(st, o, node)])

    def dict_keys(self, st, o, args, kw, node):
        h = self.I.obj(st, o.addr)
        if h.rest and not (self.I.cfg.get('open_keys') or {}).get(h.name):
            return term('keys', string(h.name or '?'))
        return self.I.new_list(st, [k for k, _ in self.dict_items(st, o, node)])

    def dict_values(self, st, o, args, kw, node):
        return self.I.new_list(st, [v for _, v in self.dict_items(st, o, node)])

    dict_iteritems = dict_items_m

    def dict_copy(self, st, o, args, kw, node):
        h = self.I.obj(st, o.addr)
        return self.I.new_dict(st, h.d, h.rest, h.name)

    def dict_get_m(self, st, o, args, kw, node):
        h = self.I.obj(st, o.addr)
        return self.dict_get(st, h, o.addr, self.force(args[0]), node, args[1] if len(args) > 1 else kw.get('default', NONE))

    def dict_update_m(self, st, o, args, kw, node):
        for a in args:
            self.dict_update(st, o, a, node)
        h = self.I.mut(st, o.addr)
        for k, v in kw.items():
            h.d[string(k)] = v
        return NONE

    def dict_setdefault(self, st, o, args, kw, node):
        h = self.I.obj(st, o.addr)
        k = self.force(args[0])
        p = V.restrict(self.haskey(st, h, k), st.pc)
        if p is TRUE:
            return self.dict_get(st, h, o.addr, k, node)
        if p is FALSE:
            self.I.mut(st, o.addr).d[k] = args[1] if len(args) > 1 else NONE
            return args[1] if len(args) > 1 else NONE
        from interp import NeedSplit
        raise NeedSplit(p)

    def dict_pop(self, st, o, args, kw, node):
        h = self.I.obj(st, o.addr)
        k = self.force(args[0])
        v = self.dict_get(st, h, o.addr, k, node, args[1] if len(args) > 1 else None)
        m = self.I.mut(st, o.addr)
        if k in m.d:
            if m.rest:
                m.d[k] = ABSENT
            else:
                del m.d[k]
        elif m.rest:
            m.d[k] = ABSENT
        return v

    def dict_clear(self, st, o, args, kw, node):
        h = self.I.mut(st, o.addr)
        h.d.clear()
        h.rest = None
        return NONE

    # ------------------------------------------------------------- str methods
    def lits(self, args):
        out = []
        for a in args:
            if isinstance(a, Str) and a.lit is not None:
                out.append(a.lit)
            elif a is NONE:
                out.append(None)
            else:
                i = self.const_int(a)
                if i is None and isinstance(a, Tup):
                    i = self.lits([self.force(x) for x in a.items])
                    i = tuple(i) if i is not None else None
                if i is None:
                    return None
                out.append(i)
        return out

    def str_generic(name):
        def f(self, st, s, args, kw, node):
            args = [self.force(a) for a in args]
            l = self.lits(args)
            if s.lit is not None and l is not None and not kw:
                r = getattr(s.lit, name)(*l)
                return self.topy(st, r)
            return self.str_opaque(st, name, s, args, kw)
        return f

    def str_opaque(self, st, name, s, args, kw):
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isupper', 'islower', 'isspace'):
            if name == 'startswith' and isinstance(args[0], Str) and args[0].lit is not None and s.parts and isinstance(s.parts[0], str):
                l = args[0].lit
                if len(s.parts[0]) >= len(l):
                    return V.boolean(s.parts[0].startswith(l))
                if not l.startswith(s.parts[0]):
                    return FALSE
            if name == 'endswith' and isinstance(args[0], Str) and args[0].lit is not None and s.parts and isinstance(s.parts[-1], str):
                l = args[0].lit
                if len(s.parts[-1]) >= len(l):
                    return V.boolean(s.parts[-1].endswith(l))
                if not l.endswith(s.parts[-1]):
                    return FALSE
            return V.cond_atom(('str.' + name, s) + tuple(self.I.freeze(st, a) for a in args))
        return term('str.' + name, s, *[self.I.freeze(st, a) for a in args])

    def topy(self, st, r):
        if isinstance(r, bool):
            return V.boolean(r)
        if isinstance(r, str):
            return string(r)
        if isinstance(r, int):
            return const(r)
        if isinstance(r, list):
            return self.I.new_list(st, [self.topy(st, x) for x in r])
        if isinstance(r, tuple):
            return tup([self.topy(st, x) for x in r])
        raise self.unsupported('python value %r' % (r,))

    for _n in '''startswith endswith lower upper title capitalize strip lstrip rstrip replace
            split rsplit splitlines partition rpartition find rfind index count isdigit
            isalpha isupper islower isspace zfill ljust rjust center swapcase
            removeprefix removesuffix casefold isalnum isnumeric isdecimal isidentifier expandtabs'''.split():
        locals()['str_m_' + _n] = str_generic(_n)
    del _n

    def str_m_join(self, st, s, args, kw, node):
        its = self.iterate(st, args[0], node)
        parts = []
        for i, x in enumerate(its):
            if i:
                parts.append(s)
            parts.append(x)
        return self.concat(st, parts)

    def str_m_format(self, st, s, args, kw, node):
        if s.lit is None:
            return term('str.format', s, *[self.I.freeze(st, a) for a in args])
        import string as pystring
        parts = []
        auto = 0
        for lit, field, spec, conv in pystring.Formatter().parse(s.lit):
            parts.append(lit)
            if field is None:
                continue
            m = re.match(r'^([^.\[]*)(.*)$', field)
            base, rest = m.group(1), m.group(2)
            if base == '':
                v = args[auto]
                auto += 1
            elif base.isdigit():
                if int(base) >= len(args):
                    self.I.raise_(st, 'IndexError', string('format index'), node)
                v = args[int(base)]
            else:
                if base not in kw:
                    self.I.raise_(st, 'KeyError', string(base), node)
                v = kw[base]
            if rest:
                for t in re.findall(r'\.(\w+)|\[([^\]]+)\]', rest):
                    if t[0]:
                        v = self.getattr(st, v, t[0], node)
                    else:
                        v = self.getitem(st, v, const(int(t[1])) if t[1].isdigit() else string(t[1]), node)
            if '{' in (spec or ''):
                inner = self.str_m_format(st, string(spec), args[auto:], kw, node)
                spec = inner.lit if isinstance(inner, Str) and inner.lit is not None else inner
            parts.append(self.format_value(st, v, spec, conv or '', node))
        return self.concat(st, parts)

    def str_m_encode(self, st, s, args, kw, node):
        return term('encode', s)

    # --------------------------------------------------------------- formatting
    def format_value(self, st, v, spec, conv, node):
        v = V.restrict(v, st.pc)
        def f(x):
            if isinstance(x, Str) and not spec and conv != 'r':
                return x
            if isinstance(x, Term) and x.head == 'exc' and not spec and not conv and len(x.args) == 2 and \
                    x.args[0].lit != 'KeyError' and isinstance(x.args[1], Str):
                return x.args[1]
            if isinstance(x, Str) and x.lit is not None and conv == 'r' and not spec:
                return string(repr(x.lit))
            m = self.dunder(st, x, '__repr__' if conv == 'r' else '__format__' if spec else '__str__')
            if m is None and not spec:
                m = self.dunder(st, x, '__repr__')
            if m is not None:
                return self.I.call(st, m, [string(spec)] if spec else [], {}, node)
            if isinstance(x, Num) and x.rf.is_const() and not x.u:
                c = x.rf.const()
                try:
                    if x.k == 'i':
                        return string(format(int(c), spec or ''))
                    if isinstance(spec, str) and spec:
                        return string(format(float(c), spec))
                except (ValueError, TypeError):
                    pass
            if isinstance(x, Str) and x.lit is not None and isinstance(spec, str) and not conv:
                try:
                    return string(format(x.lit, spec))
                except ValueError:
                    pass
            if x in (NONE, TRUE, FALSE) and not spec:
                return string(x.name)
            return string(term('fmt', string(spec) if isinstance(spec, str) else spec, string(conv), self.I.freeze(st, x)))
        return V.apply(f, v)

    def concat(self, st, parts):
        out = string('')
        for p in parts:
            if isinstance(p, str):
                p = string(p)
            def f(a, b):
                if isinstance(b, Str):
                    return string(a, b)
                return string(a, b if isinstance(b, Value) else string(b))
            out = V.apply(f, out, p)
        return out

    def percent(self, st, s, b, node):
        if s.lit is None:
            return term('percent', s, self.I.freeze(st, b))
        specs = re.split(r'(%(?:\((\w+)\))?([-+ #0]*[\d*]*(?:\.(?:\d+|\*))?)([diouxXeEfFgGcrsa%]))', s.lit)
        parts = []
        args = list(b.items) if isinstance(b, Tup) else [b]
        i = 0
        n = 0
        while i < len(specs):
            parts.append(specs[i])
            if i + 4 < len(specs):
                key, flags, typ = specs[i + 2], specs[i + 3], specs[i + 4]
                if typ == '%':
                    parts.append('%')
                else:
                    if key:
                        v = self.getitem(st, b, string(key), node)
                    else:
                        if n >= len(args):
                            self.I.raise_(st, 'TypeError', string('not enough arguments for format string'), node)
                        while '*' in flags and n < len(args):
                            k = self.const_int(args[n])
                            if k is None:
                                return term('percent', s, self.I.freeze(st, b))
                            flags = flags.replace('*', str(k), 1)
                            n += 1
                        if n >= len(args):
                            self.I.raise_(st, 'TypeError', string('not enough arguments for format string'), node)
                        v = args[n]
                        n += 1
                    if typ in 'sr' and not flags:
                        parts.append(self.format_value(st, v, '', 'r' if typ == 'r' else '', node))
                    else:
                        if typ in 'sr' and '.' not in flags:
                            flags = '<' + flags[1:] if flags.startswith('-') else '>' + flags
                        elif flags.startswith('-'):
                            flags = '<' + flags[1:]
                        parts.append(self.format_value(st, v, flags + typ, '', node))
            i += 5
        return self.concat(st, parts)

    # ------------------------------------------------------------------- with
    def enter(self, st, v, node):
        if isinstance(v, Term):
            return v
        if isinstance(v, Ref):
            h = self.I.obj(st, v.addr)
            if h.kind == 'inst' and h.cls is not None:
                f = self.I.lookup(h.cls, '__enter__')
                if f is not None:
                    return self.I.call(st, V.bound(f, v), [], {}, node)
        return v

    def leave(self, st, v, node, exc):
        """Leave a with block; TRUE when the context swallows the exception."""
        f = self.dunder(st, v, '__exit__')
        if f is not None:
            e = exc or None
            a = [ext('builtins.' + e[0]), e[1], term('traceback')] if e else [NONE] * 3
            return self.I.truth(self.I.call(st, f, a, {}, node), st)
        self.I.event(st, 'close', (v, 'with'), node)
        if isinstance(v, Term) and v.head == 'suppress':
            from interp import exc_matches
            return V.boolean(bool(exc) and any(exc_matches(exc[0], t.lit, self.I.exc_own) for t in v.args))
        return FALSE

    def x_contextlib__suppress(self, st, args, kw, node):
        def name(x):
            x = self.force(x)
            if isinstance(x, Ext):
                return x.path.split('.')[-1]
            if isinstance(x, Obj) and x.kind == 'class':
                return x.data['name']
            raise self.unsupported('suppress(%s)' % V.show(x, 2))
        return term('suppress', *[string(name(x)) for x in args])

    # ------------------------------------------------------------------ calls
    def call(self, st, f, args, kw, node):
        if isinstance(f, Num):
            t = self.opq(f)
            if t is not None:
                f = t
        if isinstance(f, Ext):
            h = self.ext.get(f.path)
            if h is None:
                ov = self.I.cfg.get('ext')
            else:
                ov = self.I.cfg.get('ext')
            if ov and f.path in ov:
                return ov[f.path](st, args, kw, node)
            if h is not None:
                return h(st, args, kw, node)
            r = self.by_contract(st, f.path, args, kw, node)
            if r is not None:
                return r
            p = f.path.split('.')
            if len(p) == 3 and p[0] == 'builtins' and p[1] in ('str', 'list', 'dict', 'set', 'tuple') and args:
                # a method taken from its class
                return self.I.call(st, self.getattr(st, args[0], p[2], node), list(args[1:]), kw, node)
            return self.opaque_call(st, f.path, None, args, kw, node)
        if isinstance(f, Term):
            if f.head == 'attr':
                name = f.args[1].lit
                h = getattr(self, 'term_' + name, None)
                if h is not None:
                    r = h(st, f.args[0], args, kw, node)
                    if r is not None:
                        return r
                if f.args[0].__class__ is Term and f.args[0].head in self.ARRAYS and name in self.ARRAY_METHODS and \
                        'numpy.' + name in self.ext:
                    return self.call(st, ext('numpy.' + name), [f.args[0]] + list(args), kw, node)
                ov = self.I.cfg.get('term_call')
                if ov:
                    r = ov(st, f.args[0], name, args, kw, node)
                    if r is not None:
                        return r
                return self.opaque_call(st, '.' + name, f.args[0], args, kw, node)
            hook = self.I.cfg.get('call_hook')
            if hook:
                r = hook(st, f, args, kw, node)
                if r is not None:
                    return r
            return self.opaque_call(st, 'call', f, args, kw, node)
        if isinstance(f, Ref):
            h = self.I.obj(st, f.addr)
            if h.kind == 'inst' and h.cls is not None:
                c = self.I.lookup(h.cls, '__call__')
                if c is not None:
                    return self.I.call(st, V.bound(c, f), args, kw, node)
        if f is NONE or isinstance(f, (Num, Str, Tup, Const, Arr)):
            self.I.raise_(st, 'TypeError', string('%s is not callable' % V.show(f, 2)), node)
        return self.opaque_call(st, 'call', f, args, kw, node)

    # terms that are numpy arrays, and methods of arrays that are functions of numpy too
    ARRAYS = {'evals', 'evecs', 'asarray', 'argsort', 'matmul', 'inv', 'transpose'}
    ARRAY_METHODS = set('''argsort argmin argmax sum mean std min max prod cumsum dot round clip any all ravel reshape
        swapaxes squeeze repeat conj conjugate diagonal trace'''.split())
    FRESH = ('matplotlib.', 'plotly.', 'dash')

    def opaque_call(self, st, name, recv, args, kw, node):
        fa = [self.I.freeze(st, a) for a in args]
        fk = [(k, self.I.freeze(st, v)) for k, v in sorted(kw.items())]
        extra = [self.I.freeze(st, recv)] if recv is not None else []
        pure = name.startswith(NOEVENT)
        if pure and name in self.I.cfg.get('impure', ()):
            pure = False
        targs = extra + fa + [x for k, v in fk for x in (string(k), v)]
        fresh = name.startswith(self.FRESH) or name in ('builtins.open',)
        if not pure:
            if fresh or recv is not None and self.I.cfg.get('fresh_methods', True):
                s = next(self.I.serial)
                r = term('call:' + name, const(s), *targs)
            else:
                r = term('call:' + name, *targs)
            self.I.event(st, 'call', (name, recv, tuple(fa), dict(fk), r), node)
        else:
            r = term('call:' + name, *targs)
        return r

    # ------------------------------------------------- registry of ext models
    def register(self):
        for k in dir(self):
            if k.startswith('x_'):
                path = k[2:].replace('__', '.')
                self.ext[path] = getattr(self, k)
        import libnumpy
        libnumpy.register(self)
        import libmore
        libmore.register(self)

    # ------------------------------------------------------------- builtins
    def x_builtins__len(self, st, args, kw, node):
        v = self.force(V.restrict(args[0], st.pc))
        if isinstance(v, Num) and self.opq(v) is not None:
            v = self.opq(v)
        if isinstance(v, Tup):
            return const(len(v.items))
        if isinstance(v, Arr):
            if not v.shape:
                self.I.raise_(st, 'TypeError', string('len() of unsized object'), node)
            return const(v.shape[0])
        if isinstance(v, Ref):
            o = self.I.obj(st, v.addr)
            if o.kind in ('list', 'set'):
                return const(len(o.items))
            if o.kind == 'dict':
                return const(len(self.dict_items(st, v, node)))
            f = self.dunder(st, v, '__len__')
            if f is not None:
                return self.I.call(st, f, [], {}, node)
        if isinstance(v, Str):
            if v.lit is not None:
                return const(len(v.lit))
        if isinstance(v, Num) or v is NONE or v in (TRUE, FALSE):
            self.I.raise_(st, 'TypeError', string('object has no len()'), node)
        hook = self.I.cfg.get('len_hook')
        if hook:
            r = hook(st, v)
            if r is not None:
                return r
        return num(ring.app('len', self.I.freeze(st, v)), False, 'i')

    def x_builtins__range(self, st, args, kw, node):
        its = [self.const_int(self.force(a)) for a in args]
        if None in its:
            return term('range', *args)
        return self.I.new_list(st, [const(i) for i in range(*its)])

    x_builtins__xrange = x_builtins__range

    def x_builtins__enumerate(self, st, args, kw, node):
        its = self.iterate(st, args[0], node)
        s = args[1] if len(args) > 1 else kw.get('start', const(0))
        s = self.const_int(s)
        return self.I.new_list(st, [tup((const(i + s), x)) for i, x in enumerate(its)])

    def x_builtins__zip(self, st, args, kw, node):
        endless = [self.endless(V.restrict(a, st.pc), 1) is not None for a in args]
        if any(endless) and not all(endless):
            n = min(len(self.iterate(st, a, node)) for a, e in zip(args, endless) if not e and self.cycle_of(st, a) is None)
            args = [self.I.new_list(st, self.endless(V.restrict(a, st.pc), n)) if e else a for a, e in zip(args, endless)]
        cyc = [self.cycle_of(st, a) for a in args]
        ls = [None if c is not None else self.iterate(st, a, node) for a, c in zip(args, cyc)]
        lens = [len(x) for x in ls if x is not None]
        if any(c is not None for c in cyc):
            if not lens:
                raise self.unsupported('endless zip')
            n = min(lens)
            first = [i for i, x in enumerate(ls) if x is not None and len(x) == n][0]
            for i, c in enumerate(cyc):
                if c is not None:
                    h = self.I.mut(st, c)
                    k = len(h.items)
                    ls[i] = [h.items[j % k] for j in range(n)]
                    m = (n + (i < first)) % k
                    h.items = h.items[m:] + h.items[:m]
        return self.I.new_list(st, [tup(x) for x in zip(*ls)])

    def cycle_of(self, st, v):
        v = V.restrict(v, st.pc)
        if isinstance(v, Ref) and self.I.obj(st, v.addr).kind == 'cycle':
            return v.addr
        return None

    def x_itertools__cycle(self, st, args, kw, node):
        from interp import HCycle
        v = self.force(V.restrict(args[0], st.pc))
        if isinstance(v, Ext) and v.path == 'matplotlib.colors.TABLEAU_COLORS':
            its = [string('tab:' + c) for c in 'blue orange green red purple brown pink gray olive cyan'.split()]
        else:
            its = self.iterate(st, v, node)
        if not its:
            raise self.unsupported('empty cycle')
        return V.ref(self.I.alloc(st, HCycle(its)))

    def x_builtins__list(self, st, args, kw, node):
        if not args:
            return self.I.new_list(st, [])
        return self.I.new_list(st, self.iterate(st, args[0], node))

    def x_builtins__tuple(self, st, args, kw, node):
        return tup(self.iterate(st, args[0], node) if args else ())

    def x_builtins__set(self, st, args, kw, node):
        if not args:
            return self.I.new_set(st, [])
        v = self.force(args[0])
        if isinstance(v, Term):
            return term('set', v)
        return self.I.new_set(st, self.iterate(st, v, node))

    x_builtins__frozenset = x_builtins__set

    def x_builtins__dict(self, st, args, kw, node):
        d = self.I.new_dict(st, {})
        if args:
            a = self.force(args[0])
            if isinstance(a, Ref) and self.I.obj(st, a.addr).kind == 'dict':
                h = self.I.obj(st, a.addr)
                d = self.I.new_dict(st, h.d, h.rest, h.name)
            else:
                self.dict_update(st, d, a, node)
        h = self.I.mut(st, d.addr)
        for k, v in kw.items():
            h.d[string(k)] = v
        return d

    def x_builtins__reversed(self, st, args, kw, node):
        return self.I.new_list(st, self.iterate(st, args[0], node)[::-1])

    def x_builtins__sorted(self, st, args, kw, node):
        return self.I.new_list(st, self.sort_items(st, self.iterate(st, args[0], node), kw, node))

    def x_builtins__map(self, st, args, kw, node):
        ls = [self.iterate(st, a, node) for a in args[1:]]
        return self.I.new_list(st, [self.I.call(st, args[0], list(x), {}, node) for x in zip(*ls)])

    def x_builtins__filter(self, st, args, kw, node):
        out = []
        for x in self.iterate(st, args[1], node):
            r = x if args[0] is NONE else self.I.call(st, args[0], [x], {}, node)
            c = V.restrict(self.I.truth(r, st), st.pc)
            if c is TRUE:
                out.append(x)
            elif c is not FALSE:
                from interp import NeedSplit
                raise NeedSplit(c)
        return self.I.new_list(st, out)

    def x_builtins__iter(self, st, args, kw, node):
        return self.I.new_list(st, self.iterate(st, args[0], node))

    def x_builtins__next(self, st, args, kw, node):
        v = self.force(args[0])
        if isinstance(v, Ref):
            h = self.I.mut(st, v.addr)
            if h.kind == 'cycle':
                h.items = h.items[1:] + h.items[:1]
                return h.items[-1]
            if h.items:
                return h.items.pop(0)
            if len(args) > 1:
                return args[1]
            self.I.raise_(st, 'StopIteration', NONE, node)
        return term('next', v)

    def x_builtins__sum(self, st, args, kw, node):
        v = self.force(args[0])
        if isinstance(v, Term):
            return term('sum', v)
        its = self.iterate(st, v, node)
        r = args[1] if len(args) > 1 else kw.get('start', const(0))
        for x in its:
            r = self.binop(st, 'Add', r, x, node)
        return r

    def x_builtins__abs(self, st, args, kw, node):
        return self.elementwise(st, lambda x: V.apply(self.abs1, x), args[0])

    def abs1(self, x):
        n = self.tonum(x)
        if n is None:
            return term('abs', x)
        return num(ring.absolute(n.rf), n.u, n.k)

    def minmax(self, st, args, kw, node, ismax):
        its = args if len(args) > 1 else self.iterate(st, args[0], node)
        if 'key' in kw:
            keys = [self.I.call(st, kw['key'], [x], {}, node) for x in its]
        else:
            keys = its
        if not its:
            if 'default' in kw:
                return kw['default']
            self.I.raise_(st, 'ValueError', string('empty sequence'), node)
        best, bk = its[0], keys[0]
        for x, k in zip(its[1:], keys[1:]):
            c = self.I.truth(self.cmp1(st, 'Gt' if ismax else 'Lt', k, bk, node), st)
            best = V.ite(c, x, best)
            bk = V.ite(c, k, bk)
        return best

    def x_builtins__max(self, st, args, kw, node):
        return self.minmax(st, args, kw, node, True)

    def x_builtins__min(self, st, args, kw, node):
        return self.minmax(st, args, kw, node, False)

    def x_builtins__any(self, st, args, kw, node):
        r = FALSE
        for x in self.iterate(st, args[0], node):
            r = V.or_(r, self.I.truth(x, st))
        return r

    def x_builtins__all(self, st, args, kw, node):
        r = TRUE
        for x in self.iterate(st, args[0], node):
            r = V.and_(r, self.I.truth(x, st))
        return r

    def x_builtins__bool(self, st, args, kw, node):
        return self.I.truth(args[0], st) if args else FALSE

    def x_builtins__float(self, st, args, kw, node):
        if not args:
            return const(0.0)
        v = V.restrict(args[0], st.pc)
        if isinstance(v, Arr):
            its = self.I.arr_items(st, v)
            if len(its) == 1:
                return self.x_builtins__float(st, [its[0]], kw, node)
            self.I.raise_(st, 'TypeError', string('only length-1 arrays can be converted'), node)
        if v.var != Value.var:
            if self.all_plain(v):
                return V.apply(lambda x: self.x_builtins__float(st, [x], kw, node), v)
            raise self.NeedSplit(v)
        if isinstance(v, Num):
            if v.u:
                self.I.event(st, 'drop_uncertainty', ('float', v), node)
                self.I.raise_(st, 'TypeError', string('cannot convert an uncertain value to float'), node)
            if v.k == 'i':
                return num(v.rf, v.u, 'f')
            return v
        if isinstance(v, Str) and v.lit is not None:
            if v.lit.strip().lower().lstrip('+-') in ('nan', 'inf', 'infinity'):
                r = num(ring.app('nan' if 'nan' in v.lit.lower() else 'inf'))
                return self.unop(st, 'USub', r, node) if v.lit.strip()[0] == '-' else r
            try:
                return num(ring.const(Fraction(v.lit.strip())), k='f')
            except ValueError:
                self.I.raise_(st, 'ValueError', string('could not convert string to float'), node)
        if v in (TRUE, FALSE):
            return const(1.0 if v is TRUE else 0.0)
        if v is NONE or isinstance(v, (Ref, Tup)):
            self.I.raise_(st, 'TypeError', string('float() argument'), node)
        if isinstance(v, Str):
            self.I.may_raise(st, 'ValueError', ('float', v), node)
            return num(ring.app('opq', term('float', v)))
        self.I.may_raise(st, 'ValueError', ('float', v), node)
        return num(ring.app('opq', term('float', v)))

    def all_plain(self, v):
        return all(isinstance(x, Num) and not x.u for _, x in V.leaves(v, TRUE))

    def x_builtins__int(self, st, args, kw, node):
        v = V.restrict(args[0], st.pc) if args else const(0)
        if v.var != Value.var and self.all_plain(v):
            return V.apply(lambda x: self.x_builtins__int(st, [x], kw, node), v)
        v = self.force(v)
        if isinstance(v, Num) and v.rf.is_const():
            return const(int(v.rf.const()))
        if isinstance(v, Num):
            if v.k == 'i':
                return v
            return num(ring.app('trunc', v.rf), False, 'i')
        if isinstance(v, Str) and v.lit is not None:
            try:
                return const(int(v.lit))
            except ValueError:
                self.I.raise_(st, 'ValueError', string('invalid literal for int()'), node)
        if v in (TRUE, FALSE):
            return const(1 if v is TRUE else 0)
        self.I.may_raise(st, 'ValueError', ('int', v), node)
        return num(ring.app('int', self.I.freeze(st, v)), False, 'i')

    def x_builtins__complex(self, st, args, kw, node):
        return term('complex', *args)

    def x_builtins__round(self, st, args, kw, node):
        v = self.force(args[0])
        if isinstance(v, Num) and v.rf.is_const() and all(self.const_int(a) is not None for a in args[1:]):
            r = round(v.rf.const(), *[self.const_int(a) for a in args[1:]])
            return num(ring.const(r), k='i' if len(args) == 1 else 'f')
        n = self.tonum(v)
        if n is not None:
            return num(ring.app('round', n.rf, *[a for a in args[1:]]), n.u, 'f')
        return term('round', *args)

    def x_builtins__str(self, st, args, kw, node):
        if not args:
            return string('')
        v = args[0]
        return self.format_value(st, v, '', '', node)

    x_builtins__unicode = x_builtins__str

    def x_builtins__repr(self, st, args, kw, node):
        return self.format_value(st, args[0], '', 'r', node)

    def x_builtins__format(self, st, args, kw, node):
        spec = args[1].lit if len(args) > 1 and isinstance(args[1], Str) and args[1].lit is not None else ''
        return self.format_value(st, args[0], spec, '', node)

    def x_builtins__print(self, st, args, kw, node):
        self.I.event(st, 'print', tuple(self.I.freeze(st, a) for a in args), node)
        return NONE

    def x_builtins__input(self, st, args, kw, node):
        n = next(self.I.serial)
        r = term('input', const(n))
        self.I.event(st, 'input', (tuple(args), r), node)
        return string(r)

    x_builtins__raw_input = x_builtins__input

    def x_builtins__callable(self, st, args, kw, node):
        v = self.force(args[0])
        if isinstance(v, Obj) and v.kind in ('func', 'bound', 'class', 'pyfunc'):
            return TRUE
        if isinstance(v, Ext):
            return TRUE
        if isinstance(v, Term):
            return V.cond_atom(('callable', v))
        return FALSE

    def x_builtins__id(self, st, args, kw, node):
        return term('id', self.force(args[0]))

    def x_builtins__hasattr(self, st, args, kw, node):
        v = V.restrict(args[0], st.pc)
        n = args[1].lit
        def f(v):
            if isinstance(v, Num):
                t = self.opq(v)
                if t is not None:
                    return V.cond_atom(('hasattr', t, n))
                if n in ('nominal_value', 'std_dev'):
                    return V.boolean(v.u)
                return V.boolean(n in ('real', 'imag', 'conjugate'))
            if isinstance(v, Ref):
                h = self.I.obj(st, v.addr)
                if h.kind == 'inst':
                    if n in h.attrs:
                        return V.restrict(self.present(h.attrs[n]), st.pc)
                    if h.cls is not None and self.I.lookup(h.cls, n) is not None:
                        return TRUE
                    if h.open:
                        return V.cond_atom(('hasattr', v, n))
                    return FALSE
                return V.boolean(hasattr({'list': [], 'dict': {}, 'set': set()}[h.kind], n))
            if isinstance(v, Arr):
                import_attrs = ('shape', 'dtype', 'ndim', 'T', 'size', '__len__', '__iter__', 'tolist', 'copy')
                return V.boolean(n in import_attrs)
            if isinstance(v, Str):
                return V.boolean(hasattr('', n))
            if isinstance(v, Tup):
                return V.boolean(hasattr((), n))
            if isinstance(v, Term):
                return V.cond_atom(('hasattr', v, n))
            if v is NONE:
                return FALSE
            return V.cond_atom(('hasattr', v, n))
        return V.apply(f, v)

    def x_builtins__getattr(self, st, args, kw, node):
        n = self.force(args[1])
        if not isinstance(n, Str) or n.lit is None:
            return term('getattr', *[self.I.freeze(st, a) for a in args])
        if len(args) > 2:
            c = V.restrict(self.x_builtins__hasattr(st, [args[0], n], {}, node), st.pc)
            return self.I.choose(st, c, lambda z: self.getattr(z, args[0], n.lit, node), lambda z: args[2])
        return self.getattr(st, args[0], n.lit, node)

    def x_builtins__setattr(self, st, args, kw, node):
        n = self.force(args[1])
        if isinstance(n, Str) and n.lit is not None:
            self.setattr(st, args[0], n.lit, args[2], node)
        return NONE

    def x_builtins__object(self, st, args, kw, node):
        return term('object', const(next(self.I.serial)))

    def x_builtins__open(self, st, args, kw, node):
        path = V.restrict(args[0], st.pc)
        mode = args[1] if len(args) > 1 else kw.get('mode', string('r'))
        path = self.force(path)
        mode = self.force(mode)
        m = mode.lit if isinstance(mode, Str) else None
        if m is not None and 'w' not in m and 'a' not in m and 'x' not in m:
            for n in ('FileNotFoundError',):
                if self.I.handled(n):
                    self.I.raise_if(st, V.not_(self.exists(path)), n, term('exc', string(n)), node)
        s = next(self.I.serial)
        r = term('file', const(s), path, mode)
        self.I.event(st, 'open', (r, path, m), node)
        return r

    def exists(self, path):
        return V.cond_atom(('exists', path))

    def x_builtins__type(self, st, args, kw, node):
        v = self.force(V.restrict(args[0], st.pc))
        t = self.typeof(st, v)
        if t is not None:
            return t
        return term('type', self.I.freeze(st, v))

    def typeof(self, st, v):
        if isinstance(v, Num):
            if self.opq(v) is not None:
                return None
            if v.u:
                return ext('uncertainties.core.AffineScalarFunc')
            return ext('builtins.' + {'i': 'int', 'f': 'float', 'c': 'complex'}[v.k])
        if isinstance(v, Str):
            return ext('builtins.str')
        if isinstance(v, Tup):
            return ext('builtins.tuple')
        if isinstance(v, Arr):
            return ext('numpy.ndarray')
        if isinstance(v, Ref):
            h = self.I.obj(st, v.addr)
            if h.kind == 'inst':
                return h.cls
            return ext('builtins.' + h.kind)
        if v in (TRUE, FALSE):
            return ext('builtins.bool')
        if v is NONE:
            return ext('builtins.NoneType')
        if isinstance(v, Term) and v.head == 'exc':
            return ext('builtins.' + v.args[0].lit)
        if isinstance(v, Obj) and v.kind in ('func', 'bound', 'pyfunc'):
            return ext('types.FunctionType')
        return None

    SUBTYPE = {('builtins.bool', 'builtins.int'), ('numpy.float64', 'builtins.float'),
               ('builtins.int', 'numbers.Number'), ('builtins.float', 'numbers.Number'),
               ('builtins.int', 'numbers.Real'), ('builtins.float', 'numbers.Real'),
               ('builtins.int', 'numbers.Integral'),
               ('builtins.str', 'builtins.basestring'),
               ('builtins.list', 'collections.abc.Sequence'), ('builtins.tuple', 'collections.abc.Sequence'),
               ('builtins.list', 'collections.abc.Iterable'), ('builtins.tuple', 'collections.abc.Iterable'),
               ('numpy.ndarray', 'collections.abc.Iterable'), ('builtins.dict', 'collections.abc.Mapping'),
               ('uncertainties.core.AffineScalarFunc', 'uncertainties.UFloat'),
               ('uncertainties.core.AffineScalarFunc', 'uncertainties.core.UFloat'),
               ('uncertainties.core.AffineScalarFunc', 'uncertainties.Variable'),
               ('uncertainties.core.AffineScalarFunc', 'uncertainties.core.Variable')}

    def x_builtins__isinstance(self, st, args, kw, node):
        v = V.restrict(args[0], st.pc)
        ts = self.force(args[1])
        ts = list(ts.items) if isinstance(ts, Tup) else [ts]

        def f(x):
            t = self.typeof(st, x)
            if t is None:
                tx = self.opq(x) if isinstance(x, Num) else x
                r = FALSE
                for y in ts:
                    name = y.path.replace('builtins.', '') if isinstance(y, Ext) else V.show(y)
                    r = V.or_(r, V.cond_atom(('type', tx, name)))
                return r
            r = FALSE
            for y in ts:
                if isinstance(t, Obj):
                    if isinstance(y, Obj) and y in self.I.mro(t):
                        return TRUE
                    continue
                if y is t or isinstance(y, Ext) and isinstance(t, Ext) and \
                        (t.path, y.path) in self.SUBTYPE:
                    return TRUE
                if isinstance(y, Ext) and y.path == 'builtins.object':
                    return TRUE
            return r
        return V.apply(f, v)

    def x_builtins__issubclass(self, st, args, kw, node):
        a, b = self.force(args[0]), self.force(args[1])
        if isinstance(a, Obj) and isinstance(b, Obj):
            return V.boolean(b in self.I.mro(a))
        return V.cond_atom(('issubclass', a, b))

    def x_builtins__pow(self, st, args, kw, node):
        return self.binop(st, 'Pow', args[0], args[1], node)

    def x_builtins__divmod(self, st, args, kw, node):
        return tup((self.binop(st, 'FloorDiv', args[0], args[1], node), self.binop(st, 'Mod', args[0], args[1], node)))

    def x_builtins__ord(self, st, args, kw, node):
        v = self.force(args[0])
        if isinstance(v, Str) and v.lit is not None and len(v.lit) == 1:
            return const(ord(v.lit))
        return term('ord', v)

    def x_builtins__chr(self, st, args, kw, node):
        i = self.const_int(self.force(args[0]))
        return string(chr(i)) if i is not None else term('chr', args[0])

    def x_builtins__vars(self, st, args, kw, node):
        return self.getattr(st, args[0], '__dict__', node)

    def exc_ctor(self, name):
        return lambda st, args, kw, node: term('exc', string(name), *[self.I.freeze(st, a) for a in args])

    # ------------------------------------------------------------ os, copy, ...
    def x_os__path__join(self, st, args, kw, node):
        args = [self.force(V.restrict(a, st.pc)) for a in args]
        parts = []
        for i, a in enumerate(args):
            if i:
                prev = parts[-1] if parts else None
                last = prev.parts[-1] if isinstance(prev, Str) and prev.parts else None
                if not (isinstance(last, str) and last.endswith('/')):
                    parts.append(string('/'))
            parts.append(a if isinstance(a, Str) else string(a))
        return string(*parts)

    def x_os__path__exists(self, st, args, kw, node):
        return self.exists(self.force(V.restrict(args[0], st.pc)))

    x_os__path__isfile = x_os__path__exists

    def x_os__path__isdir(self, st, args, kw, node):
        return V.cond_atom(('exists', self.force(V.restrict(args[0], st.pc))))

    def x_os__path__split(self, st, args, kw, node):
        v = self.force(args[0])
        if isinstance(v, Str) and v.lit is not None:
            import posixpath
            return tup([string(x) for x in posixpath.split(v.lit)])
        if isinstance(v, Str) and v.parts and isinstance(v.parts[-1], str) and '/' in v.parts[-1]:
            h, t = v.parts[-1].rsplit('/', 1)
            return tup((string(*(v.parts[:-1] + (h,))), string(t)))
        return tup((string(term('dirname', v)), string(term('basename', v))))

    def x_os__path__dirname(self, st, args, kw, node):
        return self.x_os__path__split(st, args, kw, node).items[0]

    def x_os__path__basename(self, st, args, kw, node):
        return self.x_os__path__split(st, args, kw, node).items[1]

    def x_os__path__splitext(self, st, args, kw, node):
        v = self.force(args[0])
        if isinstance(v, Str) and v.lit is not None:
            import posixpath
            return tup([string(x) for x in posixpath.splitext(v.lit)])
        if isinstance(v, Str) and v.parts and isinstance(v.parts[-1], str) and '.' in v.parts[-1]:
            h, t = v.parts[-1].rsplit('.', 1)
            return tup((string(*(v.parts[:-1] + (h,))), string('.' + t)))
        return tup((string(term('root', v)), string(term('ext', v))))

    def copy_shallow(self, st, args, kw, node):
        v = self.force(args[0])
        if isinstance(v, Ref):
            o = self.I.obj(st, v.addr).copy()
            return ref(self.I.alloc(st, o))
        if isinstance(v, Arr):
            return self.I.new_arr(st, self.I.arr_items(st, v), v.shape, v.dt)
        return v

    def copy_deep(self, st, args, kw, node):
        memo = {}

        def go(v):
            v = V.restrict(v, st.pc)
            if v.var != Value.var:
                return V.mk(v.var, go(v.hi), go(v.lo))
            if isinstance(v, Ref):
                if v in memo:
                    return memo[v]
                o = self.I.obj(st, v.addr).copy()
                r = ref(self.I.alloc(st, o))
                memo[v] = r
                if o.kind in ('list', 'set'):
                    o.items = [go(x) for x in o.items]
                elif o.kind == 'dict':
                    o.d = {k: go(x) for k, x in o.d.items()}
                elif o.kind == 'inst':
                    o.attrs = {k: go(x) for k, x in o.attrs.items()}
                return r
            if isinstance(v, Arr):
                return self.I.new_arr(st, self.I.arr_items(st, v), v.shape, v.dt)
            if isinstance(v, Tup):
                return tup([go(x) for x in v.items])
            return v
        return go(args[0])

    x_copy__copy = copy_shallow
    x_copy__deepcopy = copy_deep

    def x_collections__OrderedDict(self, st, args, kw, node):
        return self.x_builtins__dict(st, args, kw, node)

    def x_collections__defaultdict(self, st, args, kw, node):
        return self.I.new_dict(st, {})

    def x_warnings__warn(self, st, args, kw, node):
        self.I.event(st, 'warn', tuple(self.I.freeze(st, a) for a in args), node)
        return NONE

    def x_re__sub(self, st, args, kw, node):
        a = [self.force(V.restrict(x, st.pc)) for x in args[:3]]
        if len(args) == 3 and not kw and all(isinstance(x, Str) and x.lit is not None for x in a):
            return string(re.sub(a[0].lit, a[1].lit, a[2].lit))
        return self.opaque_call(st, 're.sub', None, args, kw, node)

    def x_re__split(self, st, args, kw, node):
        a = [self.force(V.restrict(x, st.pc)) for x in args[:2]]
        if len(args) == 2 and not kw and all(isinstance(x, Str) and x.lit is not None for x in a):
            return self.I.new_list(st, [NONE if x is None else string(x) for x in re.split(a[0].lit, a[1].lit)])
        return self.opaque_call(st, 're.split', None, args, kw, node)

    def x_re__findall(self, st, args, kw, node):
        a = [self.force(V.restrict(x, st.pc)) for x in args[:2]]
        if len(args) == 2 and not kw and all(isinstance(x, Str) and x.lit is not None for x in a):
            return self.I.new_list(st, [string(x) if isinstance(x, str) else tup([string(y) for y in x])
                                        for x in re.findall(a[0].lit, a[1].lit)])
        return self.opaque_call(st, 're.findall', None, args, kw, node)

    def x_itertools__product(self, st, args, kw, node):
        ls = [self.iterate(st, a, node) for a in args]
        return self.I.new_list(st, [tup(x) for x in itertools.product(*ls)])

    def x_itertools__combinations(self, st, args, kw, node):
        return self.I.new_list(st, [tup(x) for x in itertools.combinations(
            self.iterate(st, args[0], node), self.const_int(args[1]))])

    def x_itertools__chain(self, st, args, kw, node):
        out = []
        for a in args:
            out += self.iterate(st, a, node)
        return self.I.new_list(st, out)

    def x_functools__partial(self, st, args, kw, node):
        return V.obj('partial', name='partial', func=args[0], args=list(args[1:]), kw=dict(kw))

    # ------------------------------------------------------ methods of terms
    def term_write(self, st, t, args, kw, node):
        if t.head != 'file':
            return None
        self.I.event(st, 'write', (t, args[0]), node)
        return NONE

    def term_writelines(self, st, t, args, kw, node):
        if t.head != 'file':
            return None
        for x in self.iterate(st, args[0], node):
            self.I.event(st, 'write', (t, x), node)
        return NONE

    def term_close(self, st, t, args, kw, node):
        if t.head == 'file':
            self.I.event(st, 'close', (t, 'close'), node)
            return NONE
        return None

    def term_read(self, st, t, args, kw, node):
        if t.head == 'file':
            self.I.event(st, 'read', (t,), node)
            return string(term('content', t.args[1]))
        return None

    def term_format(self, st, t, args, kw, node):
        return term('str.format', t, *[self.I.freeze(st, a) for a in args])
