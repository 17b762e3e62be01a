"""Physical dimensions of value-graph expressions.

A dimension is a tuple of exponents (mass, length, time, signal). dim(rf) is the
dimension of an expression in normal form: the terms of a polynomial must agree,
arguments of trigonometric functions must be angles, square roots halve, and so on.
ANY is the dimension of zero and infinity, None an unknown one; Ill is raised when
the terms of an expression disagree."""
from fractions import Fraction
import re
import ring
import values as V

D0 = (0, 0, 0, 0)
ANY = 'any'
MASS, LENGTH, TIME, SIGNAL = (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)


def D(m=0, l=0, t=0, s=0):
    return (m, l, t, s)


INERTIA, FORCE, TORQUE, SPEED, ACCEL = D(1, 2), D(1, 1, -2), D(1, 2, -2), D(0, 1, -1), D(0, 1, -2)


def mul(a, b):
    if a is None or b is None:
        return None
    if a == ANY or b == ANY:
        return ANY
    return tuple(x + y for x, y in zip(a, b))


def scale(a, k):
    if a is None or a == ANY:
        return a
    k = Fraction(k)
    return tuple(x * k for x in a)


def show(d):
    if d is None or d == ANY:
        return str(d)
    out = ['%s^%s' % (n, x) if x != 1 else n for n, x in zip(('kg', 'm', 's', 'signal'), d) if x]
    return ' '.join(out) or 'a pure number'


class Ill(Exception):
    pass


class Dims(object):
    """table(name) gives the dimension of an input symbol (None when unknown)."""

    def __init__(self, table, opaque=None):
        self.table = table
        self.opaque = opaque
        self.cache = {}
        self.polys = {}
        self.unknown = set()

    def join(self, a, b, what):
        if a == ANY:
            return b
        if b == ANY:
            return a
        if a is None or b is None:
            return a if b is None else b
        if tuple(a) != tuple(b):
            raise Ill('%s: %s and %s' % (what, show(a), show(b)))
        return a

    def atom(self, i):
        if i not in self.cache:
            self.cache[i] = self._atom(ring.atom_by_id(i))
        return self.cache[i]

    def angle(self, x, head):
        d = self.rf(x)
        if d not in (ANY, None) and tuple(d) != D0:
            raise Ill('argument of %s is not an angle or pure number but %s: %s' % (head, show(d), ring.show(x)[:120]))

    def _atom(self, a):
        h = a.head
        if h == 'var':
            d = self.table(str(a.args[0]))
            if d is None:
                self.unknown.add(str(a.args[0]))
            return d
        if h in ('pi', 'imag', 'e'):
            return D0
        if h == 'inf':
            return ANY
        if h in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sinh', 'cosh', 'tanh'):
            self.angle(a.args[0], h)
            return D0
        if h == 'atan2':
            self.join(self.rf(a.args[0]), self.rf(a.args[1]), 'arguments of atan2')
            return D0
        if h == 'sqrt':
            return scale(self.rf(a.args[0]), Fraction(1, 2))
        if h in ('abs', 'real', 'conj'):
            return self.rf(a.args[0])
        if h == 'opq' and self.opaque is not None:
            return self.opaque(self, a.args[0])
        return None

    def poly(self, p):
        k = id(p)
        if k in self.polys:
            return self.polys[k][1]
        out = ANY
        first = None
        for m, c in p.t.items():
            d = D0
            for at, e in m:
                d = mul(d, scale(self.atom(at), e))
            if d is None:
                out = None if out == ANY else out
                continue
            if out in (ANY, None):
                out, first = d, (m, c)
            elif d != ANY and tuple(d) != tuple(out):
                raise Ill('terms %s (%s) and %s (%s) are added' % (
                    ring.show_mono(*first)[:80], show(out), ring.show_mono(m, c)[:80], show(d)))
        self.polys[k] = (p, out)
        return out

    def rf(self, r):
        d = self.poly(r.n)
        for f, k in r.d:
            d = mul(d, scale(self.poly(f), -k))
        return d

    def value(self, v):
        return self.rf(v.rf)


BODY = re.compile(r'^(r_)?(.*)$')


def std(name):
    """Documented dimensions of the package's parameters and measurements."""
    n = name
    if re.match(r'I[A-Z]?(xx|yy|zz|xz|xy|yz)\d*$', n) or re.match(r'i[a-g]\d\d$', n) or re.match(r'J\d+$', n):
        return INERTIA
    if n == 'g':
        return ACCEL
    if re.match(r'(v|speed|v0)$', n):
        return SPEED
    if re.match(r'(lam|lamst|gamma|beta\d*|alpha\w*|nF|nR|somersault|tilt)$', n):
        return D0
    if re.match(r'T[ct][A-Z]\d+$', n) or n == 'T':
        return TIME
    if re.match(r'm([A-Z]|[a-g])?\d*$', n):
        return MASS
    if re.match(r'kT(phi|del)_(phi|del)$', n):
        return TORQUE
    if re.match(r'kT(phi|del)_(phi|del)d$', n):
        return mul(TORQUE, TIME)
    if n == 'k9':
        return TORQUE
    if n == 'c9':
        return mul(TORQUE, TIME)
    if re.match(r'k[A-Z](aa|bb|yy)$', n):
        return LENGTH
    if re.match(r'([cwfab]|[xyz][A-Zc]l?|h\d|h|d\d?|[dlr][A-Zfr]|l\d*|a[A-Z]\d+|xcl|zcl|hbb|lcs|lsp|lst|whb|LhbR|LhbF|L[a-z]\d[Lw])$', n):
        return LENGTH
    return None


def table(extra=None, base=std, prefixes=('r_',)):
    extra = extra or {}

    def f(name):
        if name in extra:
            return extra[name]
        for p in prefixes:
            if name.startswith(p):
                name = name[len(p):]
        if name in extra:
            return extra[name]
        if name.endswith('_new'):
            return f(name[:-4])
        m = re.match(r'(.*)_(\d+)$', name)
        if m:
            return f(m.group(1))
        return base(name)
    return f


class Watch(object):
    """Follows every operation of an analysis and records ill-dimensioned results at
    the operation that produced them."""

    def __init__(self, a, dims):
        self.a, self.dims = a, dims
        self.bad = {}
        self.sites = set()
        self.n = 0
        lib = a.I.lib
        binop, compare, call = lib.binop, lib.compare, lib.call

        def watch_binop(st, op, x, y, node):
            r = binop(st, op, x, y, node)
            if op in ('Add', 'Sub', 'Mult', 'Div', 'Pow'):
                self.result(st, r, node)
            return r

        def watch_compare(st, op, x, y, node):
            if isinstance(x, V.Num) and isinstance(y, V.Num) and op not in ('Is', 'IsNot', 'In', 'NotIn'):
                self.site(node)
                try:
                    self.dims.join(self.dims.value(x), self.dims.value(y), 'compared')
                except Ill as e:
                    self.add(node, str(e))
            return compare(st, op, x, y, node)

        def watch_call(st, f, args, kw, node):
            r = call(st, f, args, kw, node)
            self.result(st, r, node)
            return r
        lib.binop, lib.compare, lib.call = watch_binop, watch_compare, watch_call

    def site(self, node):
        if node is not None and hasattr(node, 'lineno'):
            self.sites.add((self.a.I.callstack[-1][0] if self.a.I.callstack else '', node.lineno, node.col_offset))

    def add(self, node, msg):
        try:
            w = self.a.I.where(node)
        except Exception:
            w = '?'
        if msg not in self.bad:
            self.bad[msg] = w

    def result(self, st, r, node):
        if r is None:
            return
        self.site(node)
        try:
            leaves = self.leaves(st, r)
        except Exception:
            return
        for x in leaves:
            self.n += 1
            try:
                self.dims.value(x)
            except Ill as e:
                self.add(node, str(e))

    def leaves(self, st, v, depth=0):
        out = []
        for _, x in V.leaves(v, V.TRUE) if not isinstance(v, V.Num) else [(None, v)]:
            if isinstance(x, V.Num):
                out.append(x)
            elif depth < 3:
                if isinstance(x, V.Ref):
                    x = self.a.I.freeze(st, x)
                if isinstance(x, (V.Tup, V.Frozen)):
                    for y in x.items:
                        out += self.leaves(st, y, depth + 1)
        return out
