"""Abstract values: hash-consed, with conditional values kept as ordered
decision diagrams over atomic branch conditions (joins of control flow)."""
import ring
from ring import RF


class Value(object):
    __slots__ = ('key', '_h', '__weakref__')
    var = 1 << 60        # leaves sort after every condition variable

    def __repr__(self):
        return show(self)


_table = {}


def _intern(cls, key, fill):
    k = (cls.__name__, key)
    v = _table.get(k)
    if v is None:
        v = cls.__new__(cls)
        v.key = key
        fill(v)
        _table[k] = v
    return v


class Num(Value):
    __slots__ = ('rf', 'u', 'k')

    def num_key(self, pt):
        c = complex(pt.rf(self.rf))
        return '%.7g%+.7gj' % (c.real, c.imag)

    def sub_rfs(self):
        return [self.rf]


def num(rf, u=False, k='f'):
    def fill(v):
        v.rf = rf
        v.u = u
        v.k = k
    return _intern(Num, (rf, u, k), fill)


def const(c):
    if isinstance(c, complex):
        return num(ring.const(c.real) + ring.IMAG * ring.const(c.imag), k='c')
    return num(ring.const(c), k='i' if isinstance(c, int) else 'f')


def var(name, u=False, k='f'):
    return num(ring.var(name), u, k)


class Const(Value):
    __slots__ = ('name',)

    def num_key(self, pt):
        return self.name

    def sub_rfs(self):
        return []


def _const(name):
    def fill(v):
        v.name = name
    return _intern(Const, name, fill)


NONE = _const('None')
# terms that stand for objects: never None and never empty
SURE = {'axes', 'figure', 'human', 'configured', 'own', 'measured', 'loaded', 'combined', 'line'}
TRUE = _const('True')
FALSE = _const('False')
ELLIPSIS = _const('Ellipsis')
UNBOUND = _const('<unbound>')
ABSENT = _const('<absent>')
NOTIMPL = _const('NotImplemented')


class Str(Value):
    """Concatenation of literal pieces and values."""
    __slots__ = ('parts',)

    @property
    def lit(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def num_key(self, pt):
        return 's(' + '+'.join(p if isinstance(p, str) else p.num_key(pt)
                               for p in self.parts) + ')'

    def sub_rfs(self):
        r = []
        for p in self.parts:
            if not isinstance(p, str):
                r.append(p)
        return r


def string(*parts):
    out = []
    for p in parts:
        if isinstance(p, Str):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    out = tuple(out)

    def fill(v):
        v.parts = out
    return _intern(Str, out, fill)


class Tup(Value):
    __slots__ = ('items',)

    def num_key(self, pt):
        return '(' + ','.join(i.num_key(pt) for i in self.items) + ')'

    def sub_rfs(self):
        return list(self.items)


def tup(items):
    items = tuple(items)

    def fill(v):
        v.items = items
    return _intern(Tup, items, fill)


class Frozen(Value):
    """A structural snapshot of a heap object: kind is 'list', 'dict', 'set',
    'array', 'inst', 'func'."""
    __slots__ = ('kind', 'meta', 'items')

    def num_key(self, pt):
        return '%s%r[%s]' % (self.kind, self.meta if isinstance(self.meta, (str, tuple, int)) else '', ','.join(
            i.num_key(pt) for i in self.items))

    def sub_rfs(self):
        return list(self.items)


def frozen(kind, meta, items):
    items = tuple(items)

    def fill(v):
        v.kind = kind
        v.meta = meta
        v.items = items
    return _intern(Frozen, (kind, meta, items), fill)


class Ref(Value):
    __slots__ = ('addr',)

    def num_key(self, pt):
        return 'ref%d' % self.addr

    def sub_rfs(self):
        return []


def ref(addr):
    def fill(v):
        v.addr = addr
    return _intern(Ref, addr, fill)


class Arr(Value):
    """A numpy array: a view (flat indices, shape) of a heap buffer."""
    __slots__ = ('buf', 'idx', 'shape', 'dt')

    def num_key(self, pt):
        return 'arr%d%r' % (self.buf, self.shape)

    def sub_rfs(self):
        return []


def arr(buf, idx, shape, dt='f'):
    idx = tuple(idx)
    shape = tuple(shape)

    def fill(v):
        v.buf = buf
        v.idx = idx
        v.shape = shape
        v.dt = dt
    return _intern(Arr, (buf, idx, shape, dt), fill)


class Slice(Value):
    __slots__ = ('a', 'b', 'c')

    def num_key(self, pt):
        return 'slice'

    def sub_rfs(self):
        return [self.a, self.b, self.c]


def slice_(a, b, c):
    def fill(v):
        v.a, v.b, v.c = a, b, c
    return _intern(Slice, (a, b, c), fill)


class Term(Value):
    """An uninterpreted application; equal heads on equal arguments are equal."""
    __slots__ = ('head', 'args')

    def num_key(self, pt):
        return '%s(%s)' % (self.head, ','.join(a.num_key(pt) for a in self.args))

    def sub_rfs(self):
        return list(self.args)


def term(head, *args):
    def fill(v):
        v.head = head
        v.args = args
    return _intern(Term, (head, args), fill)


class Ext(Value):
    """A name from outside the package, by its dotted path."""
    __slots__ = ('path',)

    def num_key(self, pt):
        return self.path

    def sub_rfs(self):
        return []


def ext(path):
    def fill(v):
        v.path = path
    return _intern(Ext, path, fill)


class Obj(Value):
    """Identity-keyed value (function, class, module, bound method)."""
    __slots__ = ('kind', 'data')

    def num_key(self, pt):
        return '%s:%s' % (self.kind, self.data.get('name', self.key))

    def sub_rfs(self):
        return []


_objn = [0]


def obj(kind, **data):
    _objn[0] += 1
    v = Obj.__new__(Obj)
    v.key = _objn[0]
    v.kind = kind
    v.data = data
    _keep.append(v)
    return v


_keep = []
_bm = {}


def bound(func, self_):
    k = (id(func), self_)
    v = _bm.get(k)
    if v is None:
        v = obj('bound', func=func, self=self_, name=func.data.get('name'))
        _bm[k] = v
    return v


# -------------------------------------------------------- decision diagrams
class Ite(Value):
    __slots__ = ('var', 'hi', 'lo')

    def num_key(self, pt):
        return 'if%d(%s,%s)' % (self.var, self.hi.num_key(pt), self.lo.num_key(pt))

    def sub_rfs(self):
        return [self.hi, self.lo]


_ites = {}


def mk(v, hi, lo):
    if hi is lo:
        return hi
    k = (v, id(hi), id(lo))
    r = _ites.get(k)
    if r is None:
        r = Ite.__new__(Ite)
        r.var, r.hi, r.lo = v, hi, lo
        r.key = k
        _ites[k] = r
    return r


_conds = []          # index -> key
_cond_index = {}
_pair = {}           # (i, j) -> constraint diagram, i < j
_bysubj = {}


def cond_key(i):
    return _conds[i]


def cond_atom(key):
    """A decision variable for an atomic condition (key must be hashable)."""
    i = _cond_index.get(key)
    if i is None:
        i = len(_conds)
        _conds.append(key)
        _cond_index[key] = i
        _learn(i, key)
    return mk(i, TRUE, FALSE)


def _excl(i, j):
    _pair.setdefault((min(i, j), max(i, j)), []).append(
        not_(and_(mk(i, TRUE, FALSE), mk(j, TRUE, FALSE))))


def _impl(i, j, ineg=False, jneg=False):
    a = mk(i, TRUE, FALSE)
    b = mk(j, TRUE, FALSE)
    if ineg:
        a = not_(a)
    if jneg:
        b = not_(b)
    _pair.setdefault((min(i, j), max(i, j)), []).append(or_(not_(a), b))


def _learn(i, key):
    kind = key[0]
    if kind == 'is':             # subject equals a known constant
        for j in _bysubj.get(('is', key[1]), []):
            _excl(i, j)
        _bysubj.setdefault(('is', key[1]), []).append(i)
    elif kind == 'truthy':
        for j in _bysubj.get(('is', key[1]), []):
            c = _conds[j][2]
            if c is NONE or c is FALSE or (isinstance(c, Str) and c.lit == ''):
                _excl(i, j)
        _bysubj.setdefault(('truthy', key[1]), []).append(i)
    if kind == 'is':
        c = key[2]
        if c is NONE or c is FALSE or (isinstance(c, Str) and c.lit == ''):
            for j in _bysubj.get(('truthy', key[1]), []):
                _excl(i, j)
    if kind == 'type':
        for j in _bysubj.get(('type', key[1]), []):
            if disjoint_types(key[2], _conds[j][2]):
                _excl(i, j)
        _bysubj.setdefault(('type', key[1]), []).append(i)
    if kind in ('pos', 'zero'):
        rf = key[1]
        for j in _bysubj.get('num', []):
            k2, rf2 = _conds[j]
            d = rf - rf2
            s = rf + rf2
            if d.is_const():
                _rel(i, kind, j, k2, d.const())
            elif s.is_const():
                # rf = s - rf2
                _relneg(i, kind, j, k2, s.const())
        _bysubj.setdefault('num', []).append(i)


def disjoint_types(a, b):
    g = {'str': 's', 'list': 'l', 'dict': 'd', 'tuple': 't', 'numpy.ndarray': 'a',
         'float': 'f', 'int': 'i'}
    return a in g and b in g and a != b


def _rel(i, ki, j, kj, c):
    """x_i = x_j + c."""
    if ki == 'pos' and kj == 'pos':
        if c > 0:
            _impl(j, i)
        elif c < 0:
            _impl(i, j)
    elif ki == 'zero' and kj == 'zero':
        _excl(i, j)
    elif ki == 'zero' and kj == 'pos':
        # x_j = -c
        _impl(i, j, jneg=not (c < 0))
    elif ki == 'pos' and kj == 'zero':
        _impl(j, i, jneg=not (c > 0))


def _relneg(i, ki, j, kj, c):
    """x_i = c - x_j."""
    if ki == 'pos' and kj == 'pos':
        if c <= 0:
            _excl(i, j)
        else:
            _impl(i, j, ineg=True)   # x_i <= 0 -> x_j >= c > 0
    elif ki == 'zero' and kj == 'zero':
        if c != 0:
            _excl(i, j)
    elif ki == 'zero' and kj == 'pos':
        _impl(i, j, jneg=not (c > 0))
    elif ki == 'pos' and kj == 'zero':
        _impl(j, i, jneg=not (c > 0))


def top(*vs):
    return min(v.var for v in vs)


def _cof(v, var):
    if v.var == var:
        return v.hi, v.lo
    return v, v


def apply(f, *vs):
    """Apply a leaf function to decision diagrams."""
    memo = {}

    def go(vs):
        t = min(v.var for v in vs)
        if t == Value.var:
            return f(*vs)
        k = tuple(id(v) for v in vs)
        r = memo.get(k)
        if r is None:
            his, los = [], []
            for v in vs:
                h, l = _cof(v, t)
                his.append(h)
                los.append(l)
            r = mk(t, go(tuple(his)), go(tuple(los)))
            memo[k] = r
        return r
    return go(vs)


_and = {}


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    k = (id(a), id(b))
    r = _and.get(k)
    if r is None:
        t = top(a, b)
        ah, al = _cof(a, t)
        bh, bl = _cof(b, t)
        r = mk(t, and_(ah, bh), and_(al, bl))
        _and[k] = r
    return r


_not = {}


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    r = _not.get(id(a))
    if r is None:
        r = mk(a.var, not_(a.hi), not_(a.lo))
        _not[id(a)] = r
    return r


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


_ite = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (id(c), id(a), id(b))
    r = _ite.get(k)
    if r is None:
        t = top(c, a, b)
        ch, cl = _cof(c, t)
        ah, al = _cof(a, t)
        bh, bl = _cof(b, t)
        r = mk(t, ite(ch, ah, bh), ite(cl, al, bl))
        _ite[k] = r
    return r


_supp = {}


def support(a):
    if a.var == Value.var:
        return frozenset()
    r = _supp.get(id(a))
    if r is None:
        r = support(a.hi) | support(a.lo) | {a.var}
        _supp[id(a)] = r
    return r


_theory = {}


def with_theory(pc):
    """pc conjoined with the known relations between its atomic conditions."""
    if pc is TRUE or pc is FALSE:
        return pc
    s = sorted(support(pc))
    k = (id(pc), tuple(len(_pair.get((a, b), ())) for n, a in enumerate(s) for b in s[n + 1:]) if len(s) < 12 else len(_conds))
    r = _theory.get(k)
    if r is None:
        r = pc
        for n, a in enumerate(s):
            for b in s[n + 1:]:
                for c in _pair.get((a, b), ()):
                    r = and_(r, c)
        _theory[k] = r
    return r


def feasible(pc):
    return with_theory(pc) is not FALSE


_rest = {}


def restrict(f, c):
    """Simplify f given that c holds."""
    if f.var == Value.var or c is TRUE or c is FALSE:
        return f
    sf = support(f)
    sc = support(c)
    both = sf | sc
    if both:
        # relations between the two supports
        for a in sf:
            for b in sc:
                if a != b:
                    for k in _pair.get((min(a, b), max(a, b)), ()):
                        c = and_(c, k)
        if c is FALSE:
            return f
    return _restrict(f, c)


def _restrict(f, c):
    if f.var == Value.var or c is TRUE:
        return f
    k = (id(f), id(c))
    r = _rest.get(k)
    if r is not None:
        return r
    t = min(f.var, c.var)
    if c.var == t:
        if c.hi is FALSE:
            r = _restrict(f.lo if f.var == t else f, c.lo)
        elif c.lo is FALSE:
            r = _restrict(f.hi if f.var == t else f, c.hi)
        elif f.var == t:
            r = mk(t, _restrict(f.hi, c.hi), _restrict(f.lo, c.lo))
        else:
            r = _restrict(f, or_(c.hi, c.lo))
    else:
        r = mk(t, _restrict(f.hi, c), _restrict(f.lo, c))
    _rest[k] = r
    return r


def leaves(v, pc=TRUE):
    """[(condition, leaf)] of a decision diagram."""
    v = restrict(v, pc)
    out = []

    def go(v, c):
        if v.var == Value.var:
            out.append((c, v))
            return
        a = mk(v.var, TRUE, FALSE)
        h = and_(c, a)
        if h is not FALSE and feasible(h):
            go(v.hi, h)
        l = and_(c, not_(a))
        if l is not FALSE and feasible(l):
            go(v.lo, l)
    go(v, pc)
    return out


def boolean(b):
    return TRUE if b else FALSE


# ------------------------------------------------------------------- display
def show(v, depth=6):
    if depth < 0:
        return '...'
    if isinstance(v, Num):
        return ring.show(v.rf)
    if isinstance(v, Const):
        return v.name
    if isinstance(v, Str):
        return ' ++ '.join(repr(p) if isinstance(p, str) else show(p, depth - 1)
                           for p in v.parts) or "''"
    if isinstance(v, Tup):
        return '(%s)' % ', '.join(show(i, depth - 1) for i in v.items)
    if isinstance(v, Frozen):
        if v.kind == 'dict':
            return '{%s}' % ', '.join('%s: %s' % (show(v.items[i], depth - 1), show(v.items[i + 1], depth - 1))
                                      for i in range(0, len(v.items), 2))
        return '%s%s[%s]' % (v.kind, v.meta if v.kind in ('array',) else '',
                             ', '.join(show(i, depth - 1) for i in v.items))
    if isinstance(v, Ref):
        return '<obj %d>' % v.addr
    if isinstance(v, Arr):
        return '<array %r>' % (v.shape,)
    if isinstance(v, Slice):
        return 'slice'
    if isinstance(v, Term):
        return '%s(%s)' % (v.head, ', '.join(show(a, depth - 1) for a in v.args))
    if isinstance(v, Ext):
        return v.path
    if isinstance(v, Obj):
        return '<%s %s>' % (v.kind, v.data.get('name'))
    if isinstance(v, Ite):
        return '[%s ? %s : %s]' % (show_cond_key(_conds[v.var]), show(v.hi, depth - 1),
                                   show(v.lo, depth - 1))
    return object.__repr__(v)


def show_cond_key(k):
    return '%s(%s)' % (k[0], ', '.join(
        ring.show(x) if isinstance(x, RF) else show(x) if isinstance(x, Value) else str(x)
        for x in k[1:]))


def show_pc(pc):
    if pc is TRUE:
        return 'always'
    out = []
    n = 0
    for c, leaf in leaves(pc):
        if leaf is TRUE:
            lits = []
            x = c
            while x.var != Value.var:
                if x.hi is FALSE:
                    lits.append('not ' + show_cond_key(_conds[x.var]))
                    x = x.lo
                elif x.lo is FALSE:
                    lits.append(show_cond_key(_conds[x.var]))
                    x = x.hi
                else:
                    x = x.hi
            out.append(' and '.join(lits))
            n += 1
            if n >= 2:
                out.append('...')
                break
    return ' or '.join(out)
