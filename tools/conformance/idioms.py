import os
import re
import math
import copy
import functools
import itertools
import operator
import collections
from collections import OrderedDict, defaultdict, namedtuple, Counter
from functools import partial, reduce
import numpy as np

A = [[2., 1., 0.], [0., 3., 1.], [1., 0., 4.]]
B = [[1., 2.], [3., 4.], [5., 6.]]
X = [3., 1., 2., 5., 4.]

def f_multi_dot(): return np.linalg.multi_dot([np.array(A), np.array(B), np.ones((2, 2))])
def f_clip(): return np.clip(np.array(X), 2, 4)
def f_maximum(): return np.maximum(np.array(X), 2.5)
def f_minimum(): return np.minimum(X, [1, 2, 3, 4, 5])
def f_round(): return np.round(np.array([1.234, 5.678]), 1)
def f_trace(): return np.trace(np.array(A)) + np.array(A).trace()
def f_unique(): return np.unique([3, 1, 3, 2])
def f_roll(): return np.roll(np.array(X), 2)
def f_kron(): return np.kron(np.eye(2), np.ones((1, 2)))
def f_triu(): return np.triu(np.array(A)) + np.tril(np.array(A), -1)
def f_logical(): return np.logical_and(np.array(X) > 1, np.array(X) < 4)
def f_logical2(): return np.logical_or(np.array(X) > 4, ~(np.array(X) > 2))
def f_fill_diagonal():
    a = np.zeros((3, 3)); np.fill_diagonal(a, [1, 2, 3]); return a
def f_ptp(): return np.ptp(np.array(X))
def f_var(): return np.var(np.array(X))
def f_median(): return np.median(np.array(X))
def f_meshgrid(): return np.meshgrid([1, 2, 3], [4, 5])
def f_split(): return np.split(np.arange(6), 3)
def f_hsplit(): return np.hsplit(np.array(A)[:, :2], 2)
def f_take(): return np.take(np.array(X), [0, 2])
def f_flatnonzero(): return np.flatnonzero(np.array(X) > 2)
def f_argwhere(): return np.argwhere(np.array(X) > 2)
def f_count_nonzero(): return np.count_nonzero(np.array(X) > 2)
def f_searchsorted(): return np.searchsorted([1, 2, 3, 4], 2.5)
def f_isfinite(): return np.isfinite(np.array(X)).all()
def f_cumprod(): return np.cumprod([1, 2, 3])
def f_logspace(): return np.geomspace(1, 8, 4)
def f_apply(): return np.apply_along_axis(lambda r: r.sum(), 1, np.array(A))
def f_fromiter(): return np.fromiter((x * 2 for x in X), dtype=float)
def f_trapz(): return np.trapezoid(X) if hasattr(np, 'trapezoid') else np.trapz(X)
def f_result(): return np.asarray(X, dtype=np.float64).astype(int).tolist()
def f_iscomplexobj(): return np.iscomplexobj(np.array(X))
def f_reduce(): return reduce(lambda a, b: a * b, X, 1.)
def f_reduce2(): return functools.reduce(operator.mul, [1, 2, 3])
def f_itemgetter(): return operator.itemgetter('a', 'b')({'a': 1, 'b': 2})
def f_itemgetter2(): return sorted([('b', 1), ('a', 2)], key=operator.itemgetter(0))
def f_attrgetter(): return operator.attrgetter('real')(3.0)
def f_count(): return [i for i, _ in zip(itertools.count(1), 'abc')]
def f_islice(): return list(itertools.islice(X, 1, 4))
def f_starmap(): return list(itertools.starmap(pow, [(2, 3), (3, 2)]))
def f_accumulate(): return list(itertools.accumulate([1, 2, 3]))
def f_from_iterable(): return list(itertools.chain.from_iterable([[1], [2, 3]]))
def f_permutations(): return list(itertools.permutations('abc', 2))
def f_zip_longest(): return list(itertools.zip_longest([1, 2], [3], fillvalue=0))
def f_repeat(): return list(itertools.repeat('x', 3))
def f_cwr(): return list(itertools.combinations_with_replacement('ab', 2))
def f_takewhile(): return list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1]))
def f_groupby(): return [(k, list(g)) for k, g in itertools.groupby('aabbb')]
def f_namedtuple():
    P = namedtuple('P', ['x', 'y']); p = P(1, y=2); return p.x + p[1], list(p)
def f_namedtuple2():
    P = collections.namedtuple('P', 'x y'); a, b = P(3, 4); return a - b
def f_counter(): return Counter('aab')['a']
def f_deque():
    d = collections.deque([1, 2]); d.append(3); d.appendleft(0); return list(d)
def f_defaultdict():
    d = defaultdict(list); d['a'].append(1); return dict(d)
def f_fsum(): return math.fsum([1, 2, 3]) + math.prod([2, 3])
def f_isclose(): return math.isclose(1.0, 1.0 + 1e-12)
def f_partition(): return 'a=b=c'.partition('='), 'a=b=c'.rpartition('=')
def f_removeprefix(): return 'IBxx'.removeprefix('IB') + 'IBxx'.removesuffix('xx')
def f_splitlines(): return 'a\nb\n'.splitlines()
def f_str(): return 'Abc'.lower(), 'abc'.upper(), 'abc'.title(), 'a'.center(3), 'a'.ljust(3), 'a'.rjust(3, '.'), '7'.zfill(3), 'aXb'.swapcase(), 'abc'.capitalize()
def f_str2(): return 'abcabc'.find('c'), 'abcabc'.rfind('c'), 'abc'.index('b'), 'aab'.count('a'), 'abc'.replace('b', ''), 'a b'.split(), ' a '.lstrip(), ' a '.rstrip(), 'a.b'.rsplit('.', 1)
def f_str3(): return 'abc'.isalpha(), '12'.isdigit(), 'ab'.startswith(('a', 'x')), 'ab'.endswith('b'), 'abc'[::-1], 'abc'[1:], 'abc'[-1], 'b' in 'abc'
def f_translate(): return 'abc'.translate(str.maketrans('a', 'x'))
def f_format(): return '{:.2f} {:>5} {a!r} {0}'.format(1.234, 'x', a='y') if False else '{0:.2f} {a}'.format(1.234, a='y')
def f_pct(): return '%s %d %.1f %5.2f|%-5s|' % ('a', 3, 2.25, 1.5, 'z')
def f_fstr(): 
    x = 1.5; n = 4; return f'{x:.3f} {n:02d} {"a":>4} {x!r} {x=}'
def f_template(): 
    import string
    return string.ascii_lowercase[:3]
def f_dict(): 
    d = dict(a=1, b=2); e = {**d, 'c': 3}; f = d | {'z': 0}; d.setdefault('q', []).append(1); return d, e, f, d.pop('a'), d.get('zz', 5), list(reversed(['a', 'b'])), 'a' in d
def f_dictcomp(): return {k: v for k, v in zip('abc', range(3)) if v}, dict.fromkeys('ab', 0), dict([('a', 1)]), {v: k for k, v in {'a': 1}.items()}
def f_set(): return sorted({1, 2} | {3}), sorted({1, 2} & {2}), sorted({1, 2} - {2}), sorted({1, 2} ^ {2, 3}), {1} <= {1, 2}, {1}.issubset([1, 2]), sorted(set('ab').union('c')), {1}.isdisjoint({2})
def f_list(): 
    l = [3, 1]; l.extend([2]); l.insert(0, 9); l.sort(reverse=True); l.remove(1); l.reverse(); m = l[:]; m += [7]; del m[0]; return l, m, l.index(9), l.count(3), l * 2, [0] * 3, m.pop(), l.copy()
def f_starred(): 
    a, *b, c = [1, 2, 3, 4]; return a, b, c, [*b, *'xy'], (*b, 1), max(*b, 0)
def f_walrus():
    if (n := len(X)) > 3: return n
def f_match():
    p = {'kind': 'a', 'n': 2}
    match p['kind']:
        case 'a' | 'b': return 'ab'
        case _: return 'other'
def f_match2():
    match (1, 2):
        case (x, y) if x < y: return y - x
        case [_, *rest]: return rest
def f_lambda(): return (lambda *a, **k: (a, k))(1, 2, z=3)
def f_kwonly():
    def g(a, /, b=2, *c, d=4, **e): return a, b, c, d, e
    return g(1), g(1, 3, 5, d=6, f=7)
def f_closure():
    n = 0
    def inc():
        nonlocal n
        n += 1
        return n
    inc(); inc()
    return n
def f_gen():
    def g():
        for i in range(3):
            yield i * 2
    return list(g()), sum(x for x in g()), [y for y in g() if y]
def f_genfrom():
    def g():
        yield from [1, 2]
        yield 3
    return list(g())
def f_while():
    n = 10; out = []
    while n:
        n -= 3
        if n < 2: break
        out.append(n)
    else: out.append('end')
    return out
def f_forelse():
    for i in range(3):
        if i == 5: break
    else: return 'none'
def f_try():
    try: return {}['a']
    except (KeyError, IndexError) as e: return type(e).__name__
    finally: pass
def f_try2():
    out = []
    try: out.append(1)
    except ValueError: out.append(2)
    else: out.append(3)
    finally: out.append(4)
    return out
def f_chained(): 
    a = b = [1]; b.append(2); return a, 1 < 2 < 3, 1 < 3 < 2
def f_global(): return len(X), X[1:3], X[-1], X[::2]
def f_nested(): return [[i * j for j in range(3)] for i in range(2)], [x for r in A for x in r if x]
def f_any(): return any(x > 4 for x in X), all(x > 0 for x in X), min(X), max(X, key=lambda x: -x), sum(X), sorted(X), min(X, default=3), round(2.567, 2), abs(-1), divmod(7, 2), pow(2, 3)
def f_zip(): return list(zip(*[(1, 2), (3, 4)])), list(map(lambda x, y: x + y, [1, 2], [3, 4])), list(filter(None, [0, 1])), list(enumerate('ab', 1))
def f_np_idx():
    a = np.arange(12.).reshape(3, 4); a[1, :] = 0; a[:, -1] += 1; a[[0, 2], 1:3] *= 2; return a, a[..., 0], a[a > 5], a[::-1], a.T[0], a[None, 0].shape, a.flat[3], a[np.newaxis].shape, a.ravel()[2]
def f_np_meth():
    a = np.array(A); return a.sum(axis=0), a.mean(axis=1), a.max(), a.argmax(), a.min(axis=0), a.cumsum()[3], a.std(), a.prod(), a.any(), a.all(), a.flatten(), a.reshape(-1)[0], a.ndim, a.size, a.diagonal(), a.swapaxes(0, 1), a.squeeze().shape, a.copy()[0], a.astype(int), a.round(), a.dot(a)[0], a.conj()[0], a.nonzero()[0], a.repeat(2)[:3], a.item(0), a.take([0]), a.clip(1, 2), a.ptp() if hasattr(a, 'ptp') else 4.
def f_np_where(): return np.where(np.array(X) > 2, 1, 0), np.where(np.array(X) > 2)[0], np.nonzero(np.array(X) > 2)
def f_np_build(): return np.r_[1, 2:4], np.c_[[1, 2], [3, 4]], np.full((2,), 3.), np.tile([1, 2], 2), np.repeat([1, 2], 2), np.append([1], [2]), np.insert([1, 3], 1, 2), np.delete([1, 2], 0), np.atleast_2d([1]), np.broadcast_to([1, 2], (2, 2)), np.identity(2), np.diag([1, 2]), np.diag(np.array(A)), np.stack([[1], [2]], axis=1)
def f_np_sort(): return np.sort(X), np.argsort(X), np.argsort(X)[::-1], np.flip(X), np.argmax(X), np.abs([-1, 2]), np.sign(-2.), np.cross([1, 0, 0], [0, 1, 0]), np.outer([1, 2], [3, 4]), np.inner([1, 2], [3, 4]), np.einsum('ij,jk->ik', A, A), np.tensordot(np.array(A), np.array(A), 1), np.lexsort(([1, 0], [2, 2]))
def f_np_lin(): return np.linalg.inv(np.array(A)), np.linalg.solve(np.array(A), [1., 2., 3.]), np.linalg.det(np.array(A)), np.linalg.norm([3., 4.]), np.linalg.matrix_power(np.array(A), 2), np.linalg.norm(np.array(A), axis=1)
def f_np_ufunc(): return np.add(1, 2), np.subtract(3, 1), np.multiply.outer([1, 2], [3]), np.add.reduce([1, 2]), np.negative(1), np.power(2, 3), np.square(3), np.hypot(3., 4.), np.float64(2), np.divide(1, 4), np.mod(7, 3), np.arctan2(1., 1.), np.deg2rad(180.), np.rad2deg(np.pi), np.reciprocal(4.), np.cbrt(8.), np.exp2(3.), np.sinc(0.), np.fmax(1, 2), np.true_divide(1, 2), np.floor_divide(7, 2), np.remainder(7, 3), np.sum([1, 2]), np.prod([2, 3]), np.mean([1, 3])
def f_np_nd(): return np.ndim(A), np.shape(A), np.size(A), np.isscalar(3), np.array_equal([1], [1]), np.allclose([1.], [1.]), np.isclose(1., 1.), np.ndenumerate, np.ndindex
def f_ndindex(): return [i for i in np.ndindex(2, 2)], [(i, x) for i, x in np.ndenumerate(np.array([[1, 2]]))]
def f_nditer(): return [float(x) for x in np.nditer(np.array([1., 2.]))]
def f_vectorize(): return np.vectorize(lambda x: x + 1)([1, 2])
def f_complex(): return (1 + 2j).real, abs(3 + 4j), complex(1, 2).conjugate(), np.real([1 + 2j]), np.imag(np.array([1 + 2j])), np.angle(1j), np.abs(3 + 4j)
def f_re():
    p = re.compile(r'(\w+)_(\d+)'); m = p.match('abc_12'); return m.group(1), m.groups(), m[2], p.sub('x', 'a_1 b_2'), p.findall('a_1 b_2'), bool(p.search('zz')), re.match('a', 'b'), re.fullmatch('a+', 'aa') is not None, re.escape('a'), p.split('q a_1 z'), [m.group() for m in re.finditer('a', 'aba')]
def f_path(): return os.path.join('a', 'b'), os.path.split('/a/b.c'), os.path.splitext('b.c'), os.path.basename('/a/b'), os.path.dirname('/a/b'), os.path.isabs('/a'), os.path.normpath('a/../b'), os.sep
def f_pathlib():
    from pathlib import Path
    p = Path('a') / 'b.txt'; return str(p), p.name, p.suffix, p.stem, str(p.parent), str(p.with_suffix('.md'))
def f_types(): return isinstance(1., float), isinstance([1], (list, tuple)), type(1).__name__, callable(len), isinstance(True, int), isinstance(np.array([1]), np.ndarray), type('a') is str
def f_class():
    class P:
        n = 0
        __slots__ = ()
        def __init__(self): pass
        @property
        def x(self): return 3
        @staticmethod
        def s(a): return a + 1
        @classmethod
        def c(cls): return cls.n
        def __call__(self, y): return self.x + y
        def __len__(self): return 7
        def __getitem__(self, k): return k
        def __contains__(self, k): return k == 1
        def __iter__(self): return iter([1, 2])
        def __eq__(self, o): return True
    p = P(); return p.x, p.s(1), p.c(), p(2), len(p), p['q'], 1 in p, list(p), p == 3, hasattr(p, 'x'), getattr(p, 'zz', 0)
def f_inherit():
    class A:
        def f(self): return 'A'
        def g(self): return self.f() + '!'
    class B(A):
        def f(self): return super().f() + 'B'
    return B().g(), isinstance(B(), A), issubclass(B, A)
def f_dataclass():
    from dataclasses import dataclass
    @dataclass
    class P:
        x: float
        y: float = 2.
        def s(self): return self.x + self.y
    return P(1.).s(), P(x=3., y=4.).y
def f_ctx():
    from contextlib import contextmanager
    out = []
    @contextmanager
    def c():
        out.append('in')
        yield 5
        out.append('out')
    with c() as v: out.append(v)
    return out
def f_lru():
    from functools import lru_cache
    @lru_cache(maxsize=None)
    def f(x): return x * 2
    return f(2) + f(2)
def f_wraps():
    def deco(f):
        @functools.wraps(f)
        def g(*a, **k): return f(*a, **k) + 1
        return g
    @deco
    def h(x): return x
    return h(2)
def f_assert():
    assert len(X) == 5, 'no'
    return 1
def f_setattr():
    class O: pass
    o = O(); setattr(o, 'a', 1); o.__dict__['b'] = 2; vars(o)['c'] = 3; return o.a, o.b, sorted(vars(o))
def f_eval_order():
    d = {}; d['a'], d['b'] = 1, 2; d['a'] += 5; i = 0; i, d[i] = 1, 'z'; return d
def f_slices():
    l = list(range(5)); l[1:3] = ['a']; l[len(l):] = [9]; s = slice(1, None); return l, l[s], l[-2:], l[::-1]
def f_int(): return 7 // 2, -7 // 2, 7 % 3, 2 ** 0.5, 1e3, int('5'), int(3.7), float('1e-3'), 5 & 3, 5 | 3, 1 << 2, ~1, not 0, 3 if X else 4, None is None, hex(10) if False else 0, bool([]), float('nan') != float('nan')
def f_exc():
    class E(ValueError): pass
    try: raise E('x')
    except ValueError as e: return str(e), e.args
def f_with_suppress():
    from contextlib import suppress
    with suppress(KeyError): {}['a']
    return 'ok'
def f_enum():
    import enum
    class C(enum.Enum):
        A = 1
    return C.A.value
def f_sorted2(): return sorted({'b': 1, 'a': 2}.items(), key=lambda kv: kv[1]), sorted('bca', reverse=True), list(dict(sorted({'b': 1, 'a': 2}.items()))), max({'a': 1, 'b': 3}.items(), key=lambda t: t[1]), [*{'k': 1}], [k for k in {'k': 1}], min('ab', 'b')
def f_unpack(): 
    (a, b), c = (1, 2), 3; [d, e] = [4, 5]; return a, b, c, d, e, *[6, 7]
def f_join(): return ','.join(str(x) for x in [1, 2]), '\n'.join(['a', 'b']), 'x' * 3, str([1]), repr('a'), str(1.0), str(None), str(True), '%r' % 'a', 'a' 'b', "{}-{}".format(*[1, 2]), '{x}'.format(**{'x': 1}), '{0[a]}'.format({'a': 1}), format(1.5, '.2f'), '{:,}'.format(1000), '{:+.1e}'.format(12345.)
