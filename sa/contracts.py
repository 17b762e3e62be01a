"""Contracts of library functions, written in Python and *interpreted by the
analyser* (this file is parsed, never imported): `numpy__roll` is what a call
of numpy.roll means on arguments the analyser can follow."""
import math
import re
import numpy as np


# ------------------------------------------------------------- linear algebra
def numpy__linalg__multi_dot(arrays, out=None):
    r = np.asarray(arrays[0])
    for a in arrays[1:]:
        r = np.dot(r, np.asarray(a))
    return r


def numpy__linalg__matrix_power(a, n):
    a = np.asarray(a)
    if n < 0:
        a = np.linalg.inv(a)
        n = -n
    r = np.eye(a.shape[0])
    for _ in range(n):
        r = np.dot(r, a)
    return r


def numpy__trace(a, offset=0):
    a = np.asarray(a)
    return sum([a[i, i + offset] for i in range(a.shape[0]) if 0 <= i + offset < a.shape[1]])


def numpy__kron(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return np.array([x * y for x in a for y in b])
    a, b = np.atleast_2d(a), np.atleast_2d(b)
    return np.array([[x * y for x in r for y in s] for r in a for s in b])


def numpy__triu(m, k=0):
    m = np.asarray(m)
    return np.array([[x if j - i >= k else 0 for j, x in enumerate(r)] for i, r in enumerate(m)])


def numpy__tril(m, k=0):
    m = np.asarray(m)
    return np.array([[x if j - i <= k else 0 for j, x in enumerate(r)] for i, r in enumerate(m)])


def numpy__tensordot(a, b, axes=2):
    a, b = np.asarray(a), np.asarray(b)
    if axes == 1:
        return np.dot(a, b) if b.ndim <= 2 else _unsupported('tensordot')
    if axes == 0:
        return np.multiply.outer(a, b)
    if axes == 2 and a.ndim == 2 and b.ndim == 2:
        return np.sum(a * b)
    return _unsupported('tensordot')


def numpy__multiply__outer(a, b):
    return np.outer(a, b) if np.ndim(a) == 1 and np.ndim(b) == 1 else _unsupported('multiply.outer')


def numpy__add__outer(a, b):
    return np.array([[x + y for y in b] for x in a])


def numpy__subtract__outer(a, b):
    return np.array([[x - y for y in b] for x in a])


def numpy__add__reduce(a, axis=0):
    return np.sum(np.asarray(a), axis=axis)


def numpy__multiply__reduce(a, axis=0):
    return np.prod(np.asarray(a), axis=axis)


def numpy__add__accumulate(a):
    return np.cumsum(a)


# ---------------------------------------------------------------- elementwise
def numpy__maximum(a, b):
    a, b = _operand(a), _operand(b)
    return np.where(a >= b, a, b) if np.ndim(a) or np.ndim(b) else a if a >= b else b


def numpy__minimum(a, b):
    a, b = _operand(a), _operand(b)
    return np.where(a <= b, a, b) if np.ndim(a) or np.ndim(b) else a if a <= b else b


def numpy__fmax(a, b):
    return numpy__maximum(a, b)


def numpy__fmin(a, b):
    return numpy__minimum(a, b)


def numpy__clip(a, a_min=None, a_max=None, min=None, max=None):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = _operand(a)
    if lo is not None:
        r = numpy__maximum(r, lo)
    if hi is not None:
        r = numpy__minimum(r, hi)
    return r


def _operand(a):
    return np.asarray(a) if np.ndim(a) else a


def _each(f, a):
    a = _operand(a)
    if np.ndim(a) == 0:
        return f(a)
    return np.array([f(x) for x in a.ravel()]).reshape(a.shape)


def _each2(f, a, b):
    a, b = _operand(a), _operand(b)
    if np.ndim(a) == 0 and np.ndim(b) == 0:
        return f(a, b)
    a = a + np.zeros(np.shape(b))
    b = b + np.zeros(np.shape(a))
    return np.array([f(x, y) for x, y in zip(a.ravel(), b.ravel())]).reshape(a.shape)


def numpy__round(a, decimals=0):
    return _each(lambda x: round(x, decimals), a)


def numpy__around(a, decimals=0):
    return _each(lambda x: round(x, decimals), a)


def numpy__round_(a, decimals=0):
    return _each(lambda x: round(x, decimals), a)


def numpy__reciprocal(a):
    return 1 / _operand(a)


def numpy__divmod(a, b):
    a, b = _operand(a), _operand(b)
    return a // b, a % b


def numpy__floor_divide(a, b):
    return _operand(a) // _operand(b)


def numpy__remainder(a, b):
    return _operand(a) % _operand(b)


def numpy__cbrt(a):
    return _operand(a) ** (1.0 / 3.0)


def numpy__exp2(a):
    return 2.0 ** _operand(a)


def numpy__float_power(a, b):
    return _operand(a) ** b


def numpy__nan_to_num(a):
    return _unsupported('nan_to_num')


# ------------------------------------------------------------------ reductions
def numpy__ptp(a, axis=None):
    return np.max(a, axis=axis) - np.min(a, axis=axis)


def numpy__var(a, axis=None, ddof=0):
    a = np.asarray(a)
    if axis is not None:
        return np.std(a, axis=axis, ddof=ddof) ** 2
    m = np.mean(a)
    return sum([(x - m) ** 2 for x in a.ravel()]) / (a.size - ddof)


def numpy__median(a, axis=None):
    if axis is not None:
        return _unsupported('median over an axis')
    s = np.sort(np.ravel(a))
    n = len(s)
    return s[n // 2] * 1.0 if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def numpy__average(a, axis=None, weights=None):
    if weights is None:
        return np.mean(a, axis=axis)
    a, w = np.asarray(a), np.asarray(weights)
    return np.sum(a * w, axis=axis) / np.sum(w, axis=axis if w.ndim == a.ndim else None)


def numpy__cumprod(a):
    out = []
    r = 1
    for x in np.ravel(a):
        r = r * x
        out.append(r)
    return np.array(out)


def numpy__trapezoid(y, x=None, dx=1.0):
    y = np.asarray(y)
    t = 0.0
    for i in range(len(y) - 1):
        t = t + (dx if x is None else x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2
    return t


def numpy__trapz(y, x=None, dx=1.0):
    return numpy__trapezoid(y, x, dx)


def scipy__integrate__trapezoid(y, x=None, dx=1.0):
    return numpy__trapezoid(y, x, dx)


def numpy__apply_along_axis(func1d, axis, arr, *args):
    a = np.asarray(arr)
    if a.ndim == 1:
        return func1d(a, *args)
    if a.ndim != 2:
        return _unsupported('apply_along_axis')
    rows = a if axis in (1, -1) else a.T
    r = np.array([func1d(x, *args) for x in rows])
    return r if r.ndim == 1 or axis in (1, -1) else r.T


def numpy__gradient(f, *varargs):
    return _unsupported('gradient')


# ----------------------------------------------------------------- rearranging
def numpy__roll(a, shift, axis=None):
    a = np.asarray(a)
    if axis is None:
        f = a.ravel()
        n = len(f)
        return np.array([f[(i - shift) % n] for i in range(n)]).reshape(a.shape)
    if axis == 0:
        n = a.shape[0]
        return np.array([a[(i - shift) % n] for i in range(n)])
    return numpy__roll(a.T, shift, 0).T if a.ndim == 2 else _unsupported('roll')


def numpy__rot90(m, k=1):
    m = np.asarray(m)
    for _ in range(k % 4):
        m = m.T[::-1]
    return m


def numpy__insert(arr, obj, values, axis=None):
    if axis is not None or np.ndim(arr) != 1:
        return _unsupported('insert along an axis')
    a = list(np.asarray(arr))
    return np.array(a[:obj] + list(np.ravel(values)) + a[obj:])


def numpy__take(a, indices, axis=None):
    a = np.asarray(a)
    if axis is None:
        return a.ravel()[indices]
    if axis == 0:
        return a[indices]
    if axis in (1, -1) and a.ndim == 2:
        return a[:, indices]
    return _unsupported('take')


def numpy__split(ary, indices_or_sections, axis=0):
    a = np.asarray(ary)
    if axis == 1:
        return [x.T for x in numpy__split(a.T, indices_or_sections)]
    n = a.shape[0]
    if np.ndim(indices_or_sections) == 0:
        k = indices_or_sections
        if n % k:
            raise ValueError('array split does not result in an equal division')
        cuts = [n // k * i for i in range(1, k)]
    else:
        cuts = list(indices_or_sections)
    lo = [0] + cuts
    hi = cuts + [n]
    return [a[i:j] for i, j in zip(lo, hi)]


def numpy__array_split(ary, indices_or_sections, axis=0):
    a = np.asarray(ary)
    if np.ndim(indices_or_sections):
        return numpy__split(a, indices_or_sections, axis)
    n, k = a.shape[axis], indices_or_sections
    cuts = []
    at = 0
    for i in range(k - 1):
        at += n // k + (1 if i < n % k else 0)
        cuts.append(at)
    return numpy__split(a, cuts, axis)


def numpy__vsplit(ary, n):
    return numpy__split(ary, n, 0)


def numpy__hsplit(ary, n):
    return numpy__split(ary, n, 1 if np.ndim(ary) > 1 else 0)


def numpy__meshgrid(x, y, indexing='xy'):
    x, y = np.asarray(x), np.asarray(y)
    a = np.array([[u for u in x] for _ in y])
    b = np.array([[v for _ in x] for v in y])
    return [a.T, b.T] if indexing == 'ij' else [a, b]


def numpy__unique(a):
    return np.array(_distinct(np.sort(np.ravel(a))))


def _distinct(s):
    out = []
    for x in s:
        if not out or x != out[-1]:
            out.append(x)
    return out


def numpy__flatnonzero(a):
    return np.nonzero(np.ravel(a))[0]


def numpy__argwhere(a):
    return np.array(list(zip(*np.nonzero(np.asarray(a)))))


def numpy__searchsorted(a, v, side='left'):
    if np.ndim(v):
        return np.array([numpy__searchsorted(a, x, side) for x in v])
    return sum([1 if (x < v if side == 'left' else x <= v) else 0 for x in a])


def numpy__digitize(x, bins):
    return numpy__searchsorted(bins, x, 'right')


def numpy__geomspace(start, stop, num=50):
    r = (stop / start) ** (1.0 / (num - 1))
    return np.array([start * r ** i for i in range(num)])


def numpy__logspace(start, stop, num=50, base=10.0):
    return np.array([base ** x for x in np.linspace(start, stop, num)])


def numpy__fromiter(iter, dtype=None, count=-1):
    return np.array(list(iter))


def numpy__ndindex(*shape):
    if len(shape) == 1 and np.ndim(shape[0]):
        shape = tuple(shape[0])
    out = [()]
    for n in shape:
        out = [i + (j,) for i in out for j in range(n)]
    return out


def numpy__ndenumerate(a):
    a = np.asarray(a)
    return [(i, a[i]) for i in numpy__ndindex(*a.shape)]


def numpy__nditer(a):
    return list(np.ravel(a))


def numpy__fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[i, i] = val[i % len(val)] if np.ndim(val) else val


def numpy__copyto(dst, src):
    dst[...] = src


def numpy__put(a, ind, v):
    if a.ndim != 1:
        return _unsupported('put')
    a[ind] = v


def numpy__place(arr, mask, vals):
    return _unsupported('place')


def numpy__putmask(a, mask, values):
    if np.ndim(values):
        return _unsupported('putmask')
    a[mask] = values


def numpy__put_along_axis(*a):
    return _unsupported('put_along_axis')


def numpy__tri(n, m=None, k=0):
    return np.array([[1.0 if j - i <= k else 0.0 for j in range(n if m is None else m)] for i in range(n)])


def numpy__diagflat(v, k=0):
    return np.diag(np.ravel(v), k) if k else np.diag(np.ravel(v))


def numpy__fliplr(m):
    return np.asarray(m)[:, ::-1]


def numpy__flipud(m):
    return np.asarray(m)[::-1]


def numpy__resize(*a):
    return _unsupported('resize')


def numpy__polyval(p, x):
    r = 0
    for c in p:
        r = r * x + c
    return r


def numpy__deg2rad(x):
    return _operand(x) * (np.pi / 180)


def ndarray__trace(a, offset=0):
    return numpy__trace(a, offset)


def ndarray__round(a, decimals=0):
    return numpy__round(a, decimals)


def ndarray__clip(a, min=None, max=None):
    return numpy__clip(a, min, max)


def ndarray__take(a, indices, axis=None):
    return numpy__take(a, indices, axis)


def ndarray__ptp(a, axis=None):
    return numpy__ptp(a, axis)


def ndarray__var(a, axis=None, ddof=0):
    return numpy__var(a, axis, ddof)


def ndarray__nonzero(a):
    return np.nonzero(a)


def ndarray__repeat(a, repeats, axis=None):
    return np.repeat(a, repeats, axis=axis) if axis is not None else np.repeat(a, repeats)


def ndarray__cumprod(a):
    return numpy__cumprod(a)


def ndarray__searchsorted(a, v, side='left'):
    return numpy__searchsorted(a, v, side)


def ndarray__argsort(a):
    return np.argsort(a)


def ndarray__diagonal(a):
    return np.diagonal(a)


def ndarray__swapaxes(a, i, j):
    return np.swapaxes(a, i, j)


# ------------------------------------------------------------------------ math
def math__fsum(xs):
    return sum(xs)


def math__prod(xs, start=1):
    for x in xs:
        start = start * x
    return start


def math__isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)


def math__dist(p, q):
    return math.sqrt(sum([(x - y) ** 2 for x, y in zip(p, q)]))


def math__comb(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


# ------------------------------------------------------ functools and operator
def functools__reduce(function, iterable, *initial):
    items = list(iterable)
    if initial:
        r = initial[0]
    else:
        if not items:
            raise TypeError('reduce() of empty iterable with no initial value')
        r = items[0]
        items = items[1:]
    for x in items:
        r = function(r, x)
    return r


def functools__wraps(wrapped, *a, **k):
    return lambda f: f


def functools__update_wrapper(wrapper, wrapped, *a, **k):
    return wrapper


def functools__cmp_to_key(f):
    return _unsupported('cmp_to_key')


def functools__total_ordering(c):
    return c


def operator__itemgetter(*keys):
    if len(keys) == 1:
        return lambda o: o[keys[0]]
    return lambda o: tuple([o[k] for k in keys])


def operator__attrgetter(*names):
    def one(o, n):
        for p in n.split('.'):
            o = getattr(o, p)
        return o
    if len(names) == 1:
        return lambda o: one(o, names[0])
    return lambda o: tuple([one(o, n) for n in names])


def operator__methodcaller(name, *a, **k):
    return lambda o: getattr(o, name)(*a, **k)


def operator__add(a, b): return a + b
def operator__sub(a, b): return a - b
def operator__mul(a, b): return a * b
def operator__truediv(a, b): return a / b
def operator__floordiv(a, b): return a // b
def operator__mod(a, b): return a % b
def operator__pow(a, b): return a ** b
def operator__matmul(a, b): return a @ b
def operator__neg(a): return -a
def operator__pos(a): return a
def operator__abs(a): return abs(a)
def operator__and_(a, b): return a & b
def operator__or_(a, b): return a | b
def operator__not_(a): return not a
def operator__truth(a): return bool(a)
def operator__eq(a, b): return a == b
def operator__ne(a, b): return a != b
def operator__lt(a, b): return a < b
def operator__le(a, b): return a <= b
def operator__gt(a, b): return a > b
def operator__ge(a, b): return a >= b
def operator__is_(a, b): return a is b
def operator__is_not(a, b): return a is not b
def operator__contains(a, b): return b in a
def operator__getitem(a, b): return a[b]
def operator__concat(a, b): return a + b


def operator__setitem(a, b, c):
    a[b] = c


def operator__iadd(a, b):
    a += b
    return a


# ------------------------------------------------------------------- itertools
def itertools__islice(iterable, *a):
    return list(iterable)[slice(*a)]


def itertools__starmap(f, iterable):
    return [f(*x) for x in iterable]


def itertools__accumulate(iterable, func=None, initial=None):
    out = [] if initial is None else [initial]
    for x in iterable:
        if not out:
            out.append(x)
        else:
            out.append(out[-1] + x if func is None else func(out[-1], x))
    return out


def itertools__permutations(iterable, r=None):
    items = list(iterable)
    r = len(items) if r is None else r
    out = [[]]
    for _ in range(r):
        out = [p + [i] for p in out for i in range(len(items)) if i not in p]
    return [tuple([items[i] for i in p]) for p in out]


def itertools__combinations_with_replacement(iterable, r):
    items = list(iterable)
    out = [[]]
    for _ in range(r):
        out = [p + [i] for p in out for i in range(p[-1] if p else 0, len(items))]
    return [tuple([items[i] for i in p]) for p in out]


def itertools__zip_longest(*iterables, fillvalue=None):
    ls = [list(i) for i in iterables]
    n = max([len(x) for x in ls])
    return [tuple([x[i] if i < len(x) else fillvalue for x in ls]) for i in range(n)]


def itertools__takewhile(predicate, iterable):
    out = []
    for x in iterable:
        if not predicate(x):
            break
        out.append(x)
    return out


def itertools__dropwhile(predicate, iterable):
    items = list(iterable)
    i = 0
    while i < len(items) and predicate(items[i]):
        i += 1
    return items[i:]


def itertools__filterfalse(predicate, iterable):
    return [x for x in iterable if not (x if predicate is None else predicate(x))]


def itertools__compress(data, selectors):
    return [d for d, s in zip(data, selectors) if s]


def itertools__pairwise(iterable):
    items = list(iterable)
    return list(zip(items, items[1:]))


def itertools__tee(iterable, n=2):
    items = list(iterable)
    return tuple([list(items) for _ in range(n)])


def itertools__chain__from_iterable(iterable):
    return [x for y in iterable for x in y]


def itertools__groupby(iterable, key=None):
    out = []
    last = None
    for x in iterable:
        k = x if key is None else key(x)
        if out and k == last:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
        last = k
    return out


def collections__deque(iterable=(), maxlen=None):
    return list(iterable) if maxlen is None else list(iterable)[-maxlen:]


def collections__Counter(iterable=()):
    d = _defaulting(int)
    if isinstance(iterable, dict):
        d.update(iterable)
    else:
        for x in iterable:
            d[x] = d[x] + 1 if x in d else 1
    return d


def collections__ChainMap(*maps):
    d = {}
    for m in reversed(maps):
        d.update(m)
    return d


# -------------------------------------------------------------------------- re
class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.flags = flags

    def _a(self, *a):
        return a + ((self.flags,) if self.flags != 0 else ())

    def match(self, s): return re.match(*self._a(self.pattern, s))
    def search(self, s): return re.search(*self._a(self.pattern, s))
    def fullmatch(self, s): return re.fullmatch(*self._a(self.pattern, s))
    def findall(self, s): return re.findall(*self._a(self.pattern, s))
    def finditer(self, s): return re.finditer(*self._a(self.pattern, s))
    def split(self, s, maxsplit=0): return re.split(self.pattern, s) if maxsplit == 0 and self.flags == 0 else re.split(self.pattern, s, maxsplit, self.flags)
    def sub(self, repl, s, count=0): return re.sub(self.pattern, repl, s) if count == 0 and self.flags == 0 else re.sub(self.pattern, repl, s, count, self.flags)


def re__compile(pattern, flags=0):
    return Pattern(pattern, flags)


class Match:
    def __init__(self, text, groups, named, spans):
        self.string = text
        self._g = groups
        self._n = named
        self._s = spans

    def group(self, *ks):
        if not ks:
            return self._g[0]
        r = tuple([self._n[k] if isinstance(k, str) else self._g[k] for k in ks])
        return r[0] if len(r) == 1 else r

    def __getitem__(self, k):
        return self.group(k)

    def groups(self, default=None):
        return tuple([default if g is None else g for g in self._g[1:]])

    def groupdict(self):
        return dict(self._n)

    def span(self, k=0): return self._s[k]
    def start(self, k=0): return self._s[k][0]
    def end(self, k=0): return self._s[k][1]


class _NullContext:
    def __init__(self, v): self.v = v
    def __enter__(self): return self.v
    def __exit__(self, *a): return None


def contextlib__nullcontext(v=None):
    return _NullContext(v)


class _Closing:
    def __init__(self, v): self.v = v
    def __enter__(self): return self.v

    def __exit__(self, *a):
        self.v.close()


def contextlib__closing(v):
    return _Closing(v)


def builtins__dict__fromkeys(keys, value=None):
    return {k: value for k in keys}


def collections__OrderedDict__fromkeys(keys, value=None):
    return {k: value for k in keys}
