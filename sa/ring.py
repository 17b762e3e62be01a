"""Exact normal form for the numeric values of the dataflow analysis.

A numeric value is a rational function  P / (f1^k1 ... fn^kn)  where P is a
multivariate Laurent polynomial with exact rational coefficients over *atoms*.
Atoms are input variables, the constant pi, and applications of functions
(sin, cos, sqrt, exp, ... and uninterpreted library functions) to arguments.
Two values are equal when the numerator of their difference normalises to zero
modulo  cos^2 = 1 - sin^2  and  sqrt(x)^2 = x.
"""
import cmath
import hashlib
import math
from fractions import Fraction

ZERO = Fraction(0)
ONE = Fraction(1)


class Atom(object):
    __slots__ = ('id', 'head', 'args', 'key')

    def __init__(self, id, head, args):
        self.id = id
        self.head = head
        self.args = args
        self.key = (head, args)

    def __repr__(self):
        if self.head == 'var':
            return str(self.args[0])
        return '%s(%s)' % (self.head, ', '.join(show_arg(a) for a in self.args))


def show_arg(a):
    return repr(a) if not isinstance(a, str) else a


_atoms = []
_atom_index = {}


def atom(head, *args):
    key = (head, args)
    a = _atom_index.get(key)
    if a is None:
        a = Atom(len(_atoms), head, args)
        _atoms.append(a)
        _atom_index[key] = a
    return a


def atom_by_id(i):
    return _atoms[i]


# ----------------------------------------------------------------- monomials
def mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        s = d.get(a, 0) + e
        if s:
            d[a] = s
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def mono_pow(m, k):
    return tuple((a, e * k) for a, e in m)


# --------------------------------------------------------------- polynomials
class TooBig(Exception):
    pass


LIMIT = 400000
MULLIMIT = 3000000
# total polynomial work allowed for one obligation before it is given up
BUDGET = [None]


def spend(n):
    if BUDGET[0] is not None:
        BUDGET[0] -= n
        if BUDGET[0] < 0:
            raise TooBig('obligation budget exhausted')


class Poly(object):
    __slots__ = ('t', '_h', '_k')

    def __init__(self, terms):
        self.t = terms
        self._h = None
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key)
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), ZERO)

    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        spend(len(b))
        for m, c in b.items():
            s = r.get(m, ZERO) + c
            if s:
                r[m] = s
            else:
                del r[m]
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if not c:
            return PZERO
        return Poly({m: k * c for m, k in self.t.items()})

    def mulmono(self, m, c=ONE):
        if not m and c == 1:
            return self
        return Poly({mono_mul(n, m): k * c for n, k in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return PZERO
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return o.mulmono(m, c)
        if len(o.t) == 1:
            (m, c), = o.t.items()
            return self.mulmono(m, c)
        n = len(self.t) * len(o.t)
        if n > MULLIMIT:
            raise TooBig('product of %d x %d terms' % (len(self.t), len(o.t)))
        spend(n)
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                s = r.get(m, ZERO) + c1 * c2
                if s:
                    r[m] = s
                else:
                    r.pop(m, None)
        if len(r) > LIMIT:
            raise TooBig('%d terms' % len(r))
        return Poly(r)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s

    def content(self):
        """The monomial gcd (with the lowest exponents)."""
        it = iter(self.t)
        try:
            low = dict(next(it))
        except StopIteration:
            return ()
        for m in it:
            d = dict(m)
            for a in list(low):
                e = d.get(a, 0)
                if e < low[a]:
                    low[a] = e
            for a, e in d.items():
                if e < 0 and a not in low:
                    low[a] = e
        # atoms absent from some monomial have exponent <= 0
        first = True
        for a in list(low):
            if low[a] > 0:
                for m in self.t:
                    if not any(x == a for x, _ in m):
                        low[a] = 0
                        break
        return tuple(sorted((a, e) for a, e in low.items() if e))

    def lead(self):
        return max(self.t)


PZERO = Poly({})
PONE = Poly({(): ONE})


def poly_divexact(p, q):
    """p / q when exact (both with non-negative exponents), else None."""
    if not p.t:
        return PZERO
    if len(q.t) > len(p.t):
        return None
    # order monomials by a vector over the atoms involved
    ats = sorted(q.atoms() | p.atoms())
    pos = {a: i for i, a in enumerate(ats)}
    n = len(ats)

    def vec(m):
        v = [0] * n
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)
    qv = {vec(m): c for m, c in q.t.items()}
    lq = max(qv)
    cq = qv[lq]
    r = {vec(m): c for m, c in p.t.items()}
    # necessary condition: the least term must be divisible as well
    sq = min(qv)
    sp = min(r)
    if any(x < y for x, y in zip(sp, sq)):
        return None
    import heapq
    heap = [tuple(-x for x in m) for m in r]
    heapq.heapify(heap)
    out = {}
    steps = 0
    while r:
        while True:
            if not heap:
                return None
            top = tuple(-x for x in heapq.heappop(heap))
            if top in r:
                break
        d = tuple(x - y for x, y in zip(top, lq))
        if any(x < 0 for x in d):
            return None
        c = r[top] / cq
        out[d] = c
        steps += 1
        spend(len(qv))
        if steps * len(qv) > 400000:
            return None
        for m, k in qv.items():
            mm = tuple(x + y for x, y in zip(m, d))
            s = r.get(mm, ZERO) - k * c
            if s:
                if mm not in r:
                    heapq.heappush(heap, tuple(-x for x in mm))
                r[mm] = s
            else:
                r.pop(mm, None)
    return Poly({tuple((ats[i], e) for i, e in enumerate(v) if e): c
                 for v, c in out.items()})


# --------------------------------------------------------- rational functions
class RF(object):
    __slots__ = ('n', 'd', '_h')

    def __init__(self, n, d=()):
        self.n = n          # Poly
        self.d = d          # tuple of (Poly factor, multiplicity), sorted by hash
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.n, frozenset(self.d)))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, RF) and self.n == o.n and
                             (self.d == o.d or frozenset(self.d) == frozenset(o.d)))

    def is_const(self):
        return not self.d and self.n.is_const()

    def const(self):
        return self.n.const()

    def is_zero(self):
        return not self.n.t

    def __repr__(self):
        return show(self)

    def __neg__(self):
        return RF(-self.n, self.d)

    def __add__(self, o):
        if o.__class__ is not RF:
            o = lift(o)
        if self.d == o.d:
            return _mk(self.n + o.n, self.d)
        a = dict(self.d)
        b = dict(o.d)
        l = dict(a)
        for f, k in b.items():
            l[f] = max(l.get(f, 0), k)
        n1 = self.n
        n2 = o.n
        for f, k in l.items():
            for _ in range(k - a.get(f, 0)):
                n1 = n1 * f
            for _ in range(k - b.get(f, 0)):
                n2 = n2 * f
        return _mk(n1 + n2, tuple(l.items()))

    def __sub__(self, o):
        if o.__class__ is not RF:
            o = lift(o)
        return self + (-o)

    def __mul__(self, o):
        if o.__class__ is not RF:
            o = lift(o)
        if not self.n.t or not o.n.t:
            return RZERO
        d = dict(self.d)
        for f, k in o.d:
            d[f] = d.get(f, 0) + k
        return _mk(self.n * o.n, tuple(d.items()))

    def inverse(self):
        if not self.n.t:
            raise ZeroDivisionError
        num = PONE
        for f, k in self.d:
            for _ in range(k):
                num = num * f
        c = self.n.content()
        core = self.n.mulmono(mono_pow(c, -1)) if c else self.n
        num = num.mulmono(mono_pow(c, -1)) if c else num
        if len(core.t) == 1:
            (m, k), = core.t.items()
            return _mk(num.mulmono(mono_pow(m, -1), 1 / k), ())
        lc = core.t[core.lead()]
        if lc != 1:
            core = core.scale(1 / lc)
            num = num.scale(1 / lc)
        return _mk(num, ((core, 1),))

    def __truediv__(self, o):
        if o.__class__ is not RF:
            o = lift(o)
        return self * o.inverse()

    def pow(self, k):
        if k < 0:
            return self.inverse().pow(-k)
        r = RONE
        b = self
        while k:
            if k & 1:
                r = r * b
            k >>= 1
            if k:
                b = b * b
        return r

    def __pow__(self, k):
        return self.pow(k)

    # plain numbers on either side, for writing specifications
    def __radd__(self, o):
        return lift(o) + self

    def __rsub__(self, o):
        return lift(o) - self

    def __rmul__(self, o):
        return lift(o) * self

    def __rtruediv__(self, o):
        return lift(o) / self

    def atoms(self):
        s = self.n.atoms()
        for f, k in self.d:
            s |= f.atoms()
        return s


def _mk(n, d):
    if not n.t:
        return RZERO
    n, extra = reduce_poly(n)
    if extra is not None:
        # reduction introduced denominators
        return RF(n, ()) * RF(PONE, tuple(d)) + extra * RF(PONE, tuple(d)) \
            if n.t else extra * RF(PONE, tuple(d))
    if not n.t:
        return RZERO
    if d:
        nd = []
        for f, k in d:
            if len(n.t) >= len(f.t):
                while k:
                    c = n.content()
                    neg = tuple((a, -e) for a, e in c if e < 0)
                    q = poly_divexact(n.mulmono(neg) if neg else n, f)
                    if q is None:
                        break
                    n = q.mulmono(mono_pow(neg, -1)) if neg else q
                    k -= 1
            if k:
                nd.append((f, k))
        d = tuple(sorted(nd, key=lambda x: hash(x[0])))
    return RF(n, d)


def reduce_poly(p):
    """Apply cos^2 -> 1 - sin^2 and sqrt(x)^2 -> x. Returns (poly, extra RF or
    None) whose sum is the value."""
    hit = False
    for m in p.t:
        for a, e in m:
            if e >= 2 and _atoms[a].head in ('cos', 'sqrt'):
                hit = True
                break
        if hit:
            break
    if not hit:
        return p, None
    out = {}
    todo = list(p.t.items())
    extra = None
    while todo:
        m, c = todo.pop()
        for i, (a, e) in enumerate(m):
            at = _atoms[a]
            if e >= 2 and at.head == 'cos':
                s = atom('sin', *at.args).id
                rest = m[:i] + (((a, e - 2),) if e > 2 else ()) + m[i + 1:]
                todo.append((rest, c))
                todo.append((mono_mul(rest, ((s, 2),)), -c))
                break
            if e >= 2 and at.head == 'sqrt':
                x = at.args[0]
                k, r = divmod(e, 2)
                rest = m[:i] + (((a, r),) if r else ()) + m[i + 1:]
                if x.d:
                    t = RF(Poly({rest: c})) * x.pow(k)
                    extra = t if extra is None else extra + t
                else:
                    xp = PONE
                    for _ in range(k):
                        xp = xp * x.n
                    for mm, cc in xp.t.items():
                        todo.append((mono_mul(rest, mm), c * cc))
                break
        else:
            s = out.get(m, ZERO) + c
            if s:
                out[m] = s
            else:
                out.pop(m, None)
    return Poly(out), extra


RZERO = RF(PZERO)
RONE = RF(PONE)


def lift(o):
    return o if o.__class__ is RF else const(o)


def const(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        c = Fraction(repr(c))
    c = Fraction(c)
    if not c:
        return RZERO
    return RF(Poly({(): c}))


def from_atom(a):
    return RF(Poly({((a.id, 1),): ONE}))


def var(name):
    return from_atom(atom('var', name))


PI = from_atom(atom('pi'))
IMAG = from_atom(atom('imag'))


def zero_test(r):
    """True when r is identically zero."""
    n = r.n
    while True:
        if not n.t:
            return True
        c = n.content()
        neg = tuple((a, -e) for a, e in c if e < 0)
        if not neg:
            return False
        n = n.mulmono(neg)
        n, extra = reduce_poly(n)
        if extra is not None:
            return zero_test(RF(n) + extra)


def equal(a, b):
    if a == b:
        return True
    return zero_test(a - b)


# ----------------------------------------------------------------- functions
def _single(rf):
    """(coefficient, monomial) when rf is one monomial."""
    if rf.d or len(rf.n.t) != 1:
        return None
    (m, c), = rf.n.t.items()
    return c, m


_PI_ID = atom('pi').id


def is_neg(rf):
    """Canonical sign: whether the leading coefficient is negative."""
    return rf.n.t[rf.n.lead()] < 0


def sin(x):
    return _trig(x)[0]


def cos(x):
    return _trig(x)[1]


def tan(x):
    s, c = _trig(x)
    return s / c


def _trig(x):
    if x.is_zero():
        return RZERO, RONE
    if x.d or len(x.n.t) > 4:
        if is_neg(x):
            s, c = _trig0(-x)
            return -s, c
        return _trig0(x)
    S, C = RZERO, RONE
    for m, c in sorted(x.n.t.items()):
        s1, c1 = _trig_mono(m, c)
        S, C = S * c1 + C * s1, C * c1 - S * s1
    return S, C


def _trig_mono(m, c):
    if m == ((_PI_ID, 1),):
        k = c * 2
        if k.denominator == 1:
            q = k.numerator % 4
            return [(RZERO, RONE), (RONE, RZERO), (RZERO, -RONE), (-RONE, RZERO)][q]
    if c < 0:
        s, k = _trig_mono(m, -c)
        return -s, k
    p, q = c.numerator, c.denominator
    if p > 6:
        return _trig0(RF(Poly({m: c})))
    s1, c1 = _trig0(RF(Poly({m: Fraction(1, q)})))
    S, C = RZERO, RONE
    for _ in range(p):
        S, C = S * c1 + C * s1, C * c1 - S * s1
    return S, C


def _trig0(x):
    sg = _single(x)
    if sg and sg[0] == 1 and len(sg[1]) == 1 and sg[1][0][1] == 1:
        a = _atoms[sg[1][0][0]]
        if a.head in ('asin', 'acos', 'atan'):
            u = a.args[0]
            if a.head == 'asin':
                return u, sqrt(RONE - u * u)
            if a.head == 'acos':
                return sqrt(RONE - u * u), u
            h = sqrt(RONE + u * u)
            return u / h, RONE / h
        if a.head == 'atan2':
            y, xx = a.args
            h = sqrt(xx * xx + y * y)
            return y / h, xx / h
    return from_atom(atom('sin', x)), from_atom(atom('cos', x))


def _isqrt(n):
    if n < 0:
        return None
    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt(x):
    if x.is_zero():
        return RZERO
    if x.is_const():
        c = x.const()
        a, b = _isqrt(c.numerator), _isqrt(c.denominator)
        if a is not None and b is not None:
            return const(Fraction(a, b))
    return from_atom(atom('sqrt', x))


def asin(x):
    if x.is_zero():
        return RZERO
    if x.is_const() and abs(x.const()) == 1:
        return PI * const(Fraction(1, 2)) * x
    if is_neg(x):
        return -asin(-x)
    return from_atom(atom('asin', x))


def acos(x):
    # acos(x) = pi/2 - asin(x)
    return PI * const(Fraction(1, 2)) - asin(x)


def atan(x):
    if x.is_zero():
        return RZERO
    if x.is_const() and abs(x.const()) == 1:
        return PI * const(Fraction(1, 4)) * x
    if is_neg(x):
        return -atan(-x)
    return from_atom(atom('atan', x))


def atan2(y, x):
    return from_atom(atom('atan2', y, x))


def exp(x):
    if x.is_zero():
        return RONE
    return from_atom(atom('exp', x))


def log(x):
    if x == RONE:
        return RZERO
    return from_atom(atom('log', x))


def gaussian(x):
    """(re, im) of a complex constant, None for anything else or a real."""
    if x.d or x.is_const() or len(x.n.t) > 2:
        return None
    re, im = Fraction(0), Fraction(0)
    for mono, c in x.n.t.items():
        if not mono:
            re = c
        elif len(mono) == 1 and mono[0][1] == 1 and atom_by_id(mono[0][0]).head == 'imag':
            im = c
        else:
            return None
    return Fraction(re), Fraction(im)


def absolute(x):
    if x.is_const():
        return const(abs(x.const()))
    z = gaussian(x)
    if z is not None:
        return sqrt(const(z[0]**2 + z[1]**2))
    # |x| = sqrt(x^2) so that norms of one-element vectors agree with abs
    if is_neg(x):
        x = -x
    return from_atom(atom('abs', x))


def app(head, *args):
    return from_atom(atom(head, *args))


# ---------------------------------------------------- numeric false-alarm filter
INTERPRETED = {'var', 'pi', 'imag', 'sin', 'cos', 'sqrt', 'asin', 'atan', 'atan2',
               'exp', 'log', 'abs', 'acos'}


def _hash01(s):
    h = hashlib.sha256(s.encode()).digest()
    return int.from_bytes(h[:6], 'big') / 2.0 ** 48


class Point(object):
    """One sample of the variables; used only to keep an incomplete normal form
    from raising a false alarm."""

    def __init__(self, salt, overrides=None, signed=False, wide=1.):
        self.salt = salt
        self.wide = wide
        self.signed = signed
        self.cache = {}
        self.overrides = overrides or {}

    def atom(self, i):
        v = self.cache.get(i)
        if v is None:
            v = self._atom(_atoms[i])
            self.cache[i] = v
        return v

    def _atom(self, a):
        h = a.head
        if h == 'var':
            if a.args[0] in self.overrides:
                return self.overrides[a.args[0]]
            x = self.wide * (0.55 + 0.9 * _hash01('%s/%s' % (self.salt, a.args[0])))
            if self.signed and _hash01('sign/%s/%s' % (self.salt, a.args[0])) < 0.5:
                return -x
            return x
        if h == 'pi':
            return math.pi
        if h == 'imag':
            return 1j
        if h in INTERPRETED:
            xs = [self.rf(x) for x in a.args]
            if h == 'atan2':
                y, x = xs
                if isinstance(x, complex) or isinstance(y, complex):
                    return cmath.phase(complex(x) + 1j * complex(y))
                return math.atan2(y, x)
            x = xs[0]
            if h == 'abs':
                return abs(x)
            f = {'sin': cmath.sin, 'cos': cmath.cos, 'sqrt': cmath.sqrt,
                 'asin': cmath.asin, 'atan': cmath.atan, 'exp': cmath.exp,
                 'log': cmath.log, 'acos': cmath.acos}[h]
            return f(x)
        if h == 'opq' and getattr(a.args[0], 'head', None) == 'nth smallest':
            i, xs = a.args[0].args[0], a.args[0].args[1:]
            xs = [self.rf(x.rf) for x in xs]
            if not any(isinstance(x, complex) for x in xs):
                return sorted(xs)[int(i.rf.const())]
        parts = []
        for x in a.args:
            if isinstance(x, RF):
                v = complex(self.rf(x))
                parts.append('%.7g%+.7gj' % (v.real, v.imag))
            else:
                parts.append(self.other(x))
        x = 0.55 + 0.9 * _hash01('%s|%s|%s' % (self.salt, h, '|'.join(parts)))
        if h == 'opq' and 'in(' in parts[0] and self.signed:
            # a free input of either sign
            if _hash01('sign|%s|%s' % (self.salt, parts[0])) < 0.5:
                return -x
        return x

    def other(self, x):
        f = getattr(x, 'num_key', None)
        if f is not None:
            return f(self)
        return repr(x)

    def poly(self, p):
        s = 0
        scale = 0.0
        for m, c in p.t.items():
            t = float(c)
            for a, e in m:
                t = t * self.atom(a) ** e
            s += t
            scale = max(scale, abs(t))
        return s, scale

    def rf(self, r):
        return self.rf2(r)[0]

    def rf2(self, r):
        n, sc = self.poly(r.n)
        for f, k in r.d:
            d = self.poly(f)[0] ** k
            n = n / d
            sc = sc / abs(d) if d else sc
        return n, sc


def numerically_zero(r, salts=('a', 'b', 'c')):
    ok = 0
    for s in salts:
        try:
            v, sc = Point(s).rf2(r)
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        ok += 1
        if abs(v) > 1e-7 * max(sc, 1e-12):
            return False
    if ok and any(a.head == 'abs' for a in all_atoms(r).values()):
        # an absolute value only goes away where no sign can change it
        waves = any(a.head in ('sin', 'cos') for a in all_atoms(r).values())
        for s, wide in [(s, 1.) for s in 'defghi'] + ([(s, 7.) for s in 'jklmno'] if waves else []):
            try:
                v, sc = Point(s, signed=True, wide=wide).rf2(r)
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            if abs(v) > 1e-7 * max(sc, 1e-12):
                return False
    return ok > 0


def size(r):
    return len(r.n.t) + sum(len(f.t) for f, _ in r.d)


def clearly_differ(a, b, salts=('a', 'b', 'c')):
    """Whether a and b have plainly different values wherever both were
    evaluated: spares an exact difference of two large expressions."""
    seen = 0
    for s in salts:
        try:
            va, sa = Point(s).rf2(a)
            vb, sb = Point(s).rf2(b)
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        if not abs(va - vb) > 1e-3 * max(sa, sb, 1e-12):
            return False
        seen += 1
    return seen > 1


def all_atoms(r, seen=None):
    """All atoms of r including those nested in arguments."""
    seen = {} if seen is None else seen
    stack = [r]
    while stack:
        x = stack.pop()
        if isinstance(x, RF):
            for i in x.atoms():
                if i not in seen:
                    seen[i] = _atoms[i]
                    stack.extend(_atoms[i].args)
        else:
            f = getattr(x, 'sub_rfs', None)
            if f is not None:
                stack.extend(f())
    return seen


def infinite_part(r):
    """Coefficient of a lone infinity added to finite terms, or 0."""
    if r.d:
        return 0
    c = 0
    for m, k in r.n.t.items():
        for a, e in m:
            if _atoms[a].head == 'inf':
                if len(m) != 1 or e != 1:
                    return 0
                c = k
    return c


# ------------------------------------------------------------------- display
def show_mono(m, c):
    parts = []
    for a, e in m:
        s = repr(_atoms[a])
        parts.append(s if e == 1 else '%s**%d' % (s, e))
    if not parts:
        return str(c)
    s = '*'.join(parts)
    if c == 1:
        return s
    if c == -1:
        return '-' + s
    return '%s*%s' % (c, s)


def show_poly(p, limit=12):
    if not p.t:
        return '0'
    items = sorted(p.t.items())
    s = ' + '.join(show_mono(m, c) for m, c in items[:limit]).replace('+ -', '- ')
    if len(items) > limit:
        s += ' + ...(%d terms)' % len(items)
    return s


def show(r, limit=12):
    s = show_poly(r.n, limit)
    if r.d:
        s = '(%s)/%s' % (s, ''.join('(%s)%s' % (show_poly(f, limit),
                                                '' if k == 1 else '**%d' % k)
                                    for f, k in r.d))
    return s
