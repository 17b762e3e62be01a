"""More library contracts: those written in Python (contracts.py, interpreted),
named tuples, dataclasses, counters, regular expressions on known text."""
import ast
import hashlib
import itertools
import os
import re

import values as V
from values import (Num, Str, Tup, Ref, Arr, Term, Ext, Obj, NONE, TRUE, FALSE, const, tup,
                    term, ext, string)

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'contracts.py')
_parsed = []


class Source(object):
    """The contracts, in the shape of a package module."""
    def __init__(self):
        self.name = '@contracts'
        self.path = PATH
        with open(PATH, encoding='utf-8') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, PATH)
        self.digest = hashlib.sha256(self.source.encode()).hexdigest()
        self.names = {n.name: n for n in self.tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}


def contracts():
    if not _parsed:
        _parsed.append(Source())
    return _parsed[0]


INPLACE = {'numpy.' + n for n in '''fill_diagonal copyto put place putmask put_along_axis resize
    random.shuffle random.seed random.rand random.randn random.random nan_to_num gradient'''.split()}
MUTATORS = ('numpy.random.', 'random.', 'heapq.', 'bisect.insort')


def register(lib):
    I = lib.I
    E = lib.ext
    names = contracts().names

    def plain(st, v, depth=0):
        """Arguments a contract can follow: nothing opaque in them."""
        v = V.restrict(v, st.pc)
        for _, x in V.leaves(v, st.pc):
            if isinstance(x, Term) or isinstance(x, Num) and lib.opq(x) is not None:
                return False
            if isinstance(x, Tup) and depth < 3 and not all(plain(st, y, depth + 1) for y in x.items):
                return False
            if isinstance(x, Ref) and depth < 3:
                o = I.obj(st, x.addr)
                if o.kind in ('list', 'set') and not all(plain(st, y, depth + 1) for y in o.items):
                    return False
                if o.kind == 'dict' and o.rest:
                    return False
            if isinstance(x, Arr):
                if not all(plain(st, y, 3) for y in I.arr_items(st, x)):
                    return False
        return True

    def contract(st, name, args, kw, node):
        f = I.module_attr(st, '@contracts', name)
        return I.call(st, f, list(args), dict(kw), node)

    # what goes into the contract whatever its arguments are: they are only
    # passed on, never looked into
    SHALLOW = ('functools', 'operator', 're__compile', 'contextlib')

    def by_contract(st, path, args, kw, node):
        name = path.replace('.', '__')
        if name not in names or not path.split('.')[0] in (
                'numpy', 'math', 'scipy', 'functools', 'operator', 'itertools', 'collections', 're',
                'contextlib', 'builtins'):
            if path in INPLACE or path.startswith(MUTATORS) and args and isinstance(args[0], (Arr, Ref)):
                raise lib.unsupported('%s has no contract' % path)
            return None
        if not name.startswith(SHALLOW) and not all(plain(st, a) for a in list(args) + list(kw.values())):
            if path in INPLACE:
                raise lib.unsupported('%s of something unknown' % path)
            return None
        if path.startswith(('numpy.', 'math.')) and path not in INPLACE:
            from interp import Unsupported
            try:
                return contract(st, name, args, kw, node)
            except Unsupported:
                return None
        return contract(st, name, args, kw, node)
    lib.by_contract = by_contract
    lib.contracts = contracts

    def arr_method(st, o, attr):
        if 'ndarray__' + attr in names:
            return lib.pyfunc(attr, lambda st, a, k, n: contract(st, 'ndarray__' + attr, [o] + list(a), k, n))
    lib.arr_method = arr_method

    def unsupp(st, args, kw, node):
        raise lib.unsupported('contract: %s' % V.show(args[0], 1))
    E['@unsupported'] = unsupp

    def defaulting(st, args, kw, node):
        d = I.new_dict(st, {})
        I.mut(st, d.addr).factory = args[0]
        return d
    E['@defaulting'] = defaulting

    def defaultdict(st, args, kw, node):
        d = E['builtins.dict'](st, list(args[1:]), kw, node)
        if args and args[0] is not NONE:
            I.mut(st, d.addr).factory = args[0]
        return d
    E['collections.defaultdict'] = defaultdict

    # ------------------------------------------------------ named tuples
    def namedtuple(st, args, kw, node):
        nm = lib.force(args[0])
        fs = lib.force(args[1]) if len(args) > 1 else lib.force(kw['field_names'])
        if isinstance(fs, Str):
            fs = fs.lit.replace(',', ' ').split()
        else:
            fs = [x.lit for x in lib.iterate(st, fs, node)]
        cls = V.obj('class', name=nm.lit, bases=[ext('builtins.tuple')], env=None, mod=I.callstack[-1][1],
                    node=None, ns={'_fields': tup([string(f) for f in fs])})
        d = kw.get('defaults')
        ds = list(lib.iterate(st, d, node)) if d is not None else []
        cls.data['defaults'] = dict(zip(fs[len(fs) - len(ds):], ds))
        I.tupfields.append((cls, fs))
        return cls
    E['collections.namedtuple'] = namedtuple

    def make_tuple(st, cls, fields, args, kw, node):
        vals = dict(zip(fields, args))
        if len(args) > len(fields):
            I.raise_(st, 'TypeError', string('too many arguments for %s' % cls.data['name']), node)
        for k, v in kw.items():
            if k not in fields or k in vals:
                I.raise_(st, 'TypeError', string('unexpected keyword %s' % k), node)
            vals[k] = v
        for f in fields:
            if f not in vals:
                d = cls.data.get('defaults', {}).get(f)
                if d is None:
                    I.raise_(st, 'TypeError', string('missing argument %s' % f), node)
                vals[f] = d
        return tup([vals[f] for f in fields])
    lib.make_tuple = make_tuple

    def tuple_attr(st, o, attr, node):
        """A field of a named tuple: those classes of the program with as many
        fields as this tuple has, and this one among them, must agree."""
        at = {fs.index(attr) for c, fs in I.tupfields if len(fs) == len(o.items) and attr in fs}
        if len(at) == 1:
            return o.items[at.pop()]
        if len(at) > 1:
            raise lib.unsupported('several named tuples with a field ' + attr)
        fits = [(c, fs) for c, fs in I.tupfields if len(fs) == len(o.items)]
        if len(fits) == 1:
            c, fs = fits[0]
            if attr == '_replace':
                return lib.pyfunc(attr, lambda st, a, k, n: tup([k.get(f, x) for f, x in zip(fs, o.items)]))
            if attr == '_asdict':
                return lib.pyfunc(attr, lambda st, a, k, n: I.new_dict(st, {string(f): x for f, x in zip(fs, o.items)}))
            if attr == '_fields':
                return c.data['ns'].get('_fields')
            m = I.lookup(c, attr)
            if isinstance(m, Obj) and m.kind == 'func':
                return V.bound(m, o)
            if isinstance(m, Obj) and m.kind == 'property':
                return I.call(st, m.data['func'], [o], {}, node)
        elif fits:
            raise lib.unsupported('several named tuples of this length')
        return None
    lib.tuple_attr = tuple_attr

    # -------------------------------------------------- classes with decorators
    def decorate_class(st, cls, s):
        bases = cls.data['bases']
        anns = [(x.target.id, x.value) for x in s.body
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        if any(isinstance(b, Ext) and b.path in ('typing.NamedTuple', 'collections.NamedTuple') for b in bases):
            fs = [n for n, _ in anns]
            cls.data['defaults'] = {n: cls.data['ns'][n] for n, v in anns if v is not None}
            cls.data['ns']['_fields'] = tup([string(f) for f in fs])
            cls.data['bases'] = [ext('builtins.tuple')]
            I.tupfields.append((cls, fs))
        for d in s.decorator_list:
            fn = d.func if isinstance(d, ast.Call) else d
            v = I.ev(fn, st)
            if isinstance(v, Ext) and v.path in ('dataclasses.dataclass',):
                opts = {k.arg: k.value for k in d.keywords} if isinstance(d, ast.Call) else {}
                dataclass(st, cls, anns, opts)
            elif isinstance(v, Ext) and v.path in ('functools.total_ordering', 'enum.unique'):
                pass
            else:
                raise lib.unsupported('class decorator %s' % V.show(v, 2))
    lib.decorate_class = decorate_class

    def dataclass(st, cls, anns, opts):
        fields = []
        for b in reversed(I.mro(cls)[1:]):
            fields += [f for f in b.data.get('fields', []) if f[0] not in [g[0] for g in fields]]
        for n, v in anns:
            d = None
            if isinstance(v, ast.Call) and (getattr(v.func, 'id', None) == 'field' or getattr(v.func, 'attr', None) == 'field'):
                ks = {k.arg: k.value for k in v.keywords}
                if set(ks) - {'default', 'default_factory', 'repr', 'compare'}:
                    raise lib.unsupported('dataclass field options')
                if 'default' in ks:
                    d = ('value', I.ev(ks['default'], st))
                elif 'default_factory' in ks:
                    d = ('make', I.ev(ks['default_factory'], st))
                cls.data['ns'].pop(n, None)
            elif v is not None:
                d = ('value', cls.data['ns'][n])
            fields = [f for f in fields if f[0] != n] + [(n, d)]
        cls.data['fields'] = fields

        def init(st, args, kw, node):
            me, args = args[0], args[1:]
            kw = dict(kw)
            if len(args) > len(fields):
                I.raise_(st, 'TypeError', string('too many arguments'), node)
            for i, (n, d) in enumerate(fields):
                if i < len(args):
                    v = args[i]
                elif n in kw:
                    v = kw.pop(n)
                elif d is None:
                    I.raise_(st, 'TypeError', string('missing argument %s' % n), node)
                else:
                    v = d[1] if d[0] == 'value' else I.call(st, d[1], [], {}, node)
                I.mut(st, me.addr).attrs[n] = v
            if kw:
                I.raise_(st, 'TypeError', string('unexpected keyword %s' % sorted(kw)[0]), node)
            p = I.lookup(cls, '__post_init__')
            if p is not None:
                I.call(st, V.bound(p, me), [], {}, node)
            return NONE
        if '__init__' not in cls.data['ns']:
            cls.data['ns']['__init__'] = lib.pyfunc('__init__', init)
        if 'order' in opts:
            raise lib.unsupported('ordered dataclass')

    def fields_of(st, v):
        o = I.obj(st, v.addr)
        return [n for n, _ in o.cls.data['fields']], o

    def asdict(st, args, kw, node):
        ns, o = fields_of(st, args[0])
        return I.new_dict(st, {string(n): o.attrs[n] for n in ns})
    E['dataclasses.asdict'] = asdict

    def astuple(st, args, kw, node):
        ns, o = fields_of(st, args[0])
        return tup([o.attrs[n] for n in ns])
    E['dataclasses.astuple'] = astuple

    def replace(st, args, kw, node):
        ns, o = fields_of(st, args[0])
        vals = {n: o.attrs[n] for n in ns}
        vals.update(kw)
        return I.instantiate(st, o.cls, [], vals, node)
    E['dataclasses.replace'] = replace

    # -------------------------------------------------------------- iterators
    class Counter_(Exception):
        pass

    def count(st, args, kw, node):
        a = lib.const_int(args[0]) if args else 0
        b = lib.const_int(args[1]) if len(args) > 1 else 1
        if a is None or b is None:
            raise lib.unsupported('count from an unknown number')
        return term('count', const(a), const(b))
    E['itertools.count'] = count

    def repeat(st, args, kw, node):
        n = args[1] if len(args) > 1 else kw.get('times')
        if n is None:
            return term('repeat', args[0])
        k = lib.const_int(lib.force(n))
        if k is None:
            raise lib.unsupported('repeat an unknown number of times')
        return I.new_list(st, [args[0]] * k)
    E['itertools.repeat'] = repeat

    def endless(v, n):
        """The first n values of an endless iterator, or None."""
        if isinstance(v, Term) and v.head == 'count':
            a, b = lib.const_int(v.args[0]), lib.const_int(v.args[1])
            return [const(a + b * i) for i in range(n)]
        if isinstance(v, Term) and v.head == 'repeat':
            return [v.args[0]] * n
        return None
    lib.endless = endless

    def mk_slice(st, args, kw, node):
        a = list(args)
        if len(a) == 1:
            a = [NONE] + a
        while len(a) < 3:
            a.append(NONE)
        return V.slice_(*a)
    E['builtins.slice'] = mk_slice

    # -------------------------------------------------------- regular expressions
    FLAGS = {'re.' + n: int(getattr(re, n)) for n in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'A', 'ASCII')}
    lib.re_flags = FLAGS

    def re_match(kind):
        def f(st, args, kw, node):
            a = [lib.force(V.restrict(x, st.pc)) for x in args]
            if kw or not all(isinstance(x, Str) and x.lit is not None for x in a[:2]) or \
                    len(a) > 2 and lib.const_int(a[2]) is None:
                return lib.opaque_call(st, 're.' + kind, None, args, kw, node)
            fl = lib.const_int(a[2]) if len(a) > 2 else 0
            if kind == 'finditer':
                return I.new_list(st, [match(st, m, node) for m in re.finditer(a[0].lit, a[1].lit, fl)])
            return match(st, getattr(re, kind)(a[0].lit, a[1].lit, fl), node)
        return f
    for k in ('match', 'search', 'fullmatch', 'finditer'):
        E['re.' + k] = re_match(k)

    def match(st, m, node):
        if m is None:
            return NONE
        s = lambda x: NONE if x is None else string(x)
        gs = [s(m.group(i)) for i in range(m.re.groups + 1)]
        named = I.new_dict(st, {string(k): s(v) for k, v in m.groupdict().items()})
        spans = [tup([const(x) for x in m.span(i)]) for i in range(m.re.groups + 1)]
        return contract(st, 'Match', [string(m.string), tup(gs), named, tup(spans)], {}, node)

    def escape(st, args, kw, node):
        a = lib.force(args[0])
        if isinstance(a, Str) and a.lit is not None:
            return string(re.escape(a.lit))
        return lib.opaque_call(st, 're.escape', None, args, kw, node)
    E['re.escape'] = escape

    # ---------------------------------------------------------------- numpy.r_
    def concat_getitem(st, which, k, node):
        parts = list(k.items) if isinstance(k, Tup) else [k]
        out = []
        for p in parts:
            if isinstance(p, V.Slice):
                s = lib.pyslice(p)
                if s is None or s.stop is None:
                    raise lib.unsupported('numpy.%s of an unknown range' % which)
                out.append(I.new_list(st, [const(i) for i in range(s.start or 0, s.stop, s.step or 1)]))
            else:
                out.append(p)
        if which == 'r_':
            return E['numpy.hstack'](st, [tup(out)], {}, node)
        return E['numpy.column_stack'](st, [tup(out)], {}, node)
    lib.concat_getitem = concat_getitem

    def iscomplexobj(st, args, kw, node):
        its, _ = lib.as_arr(st, args[0])
        if not all(plain(st, x) for x in its):
            return V.cond_atom(('iscomplexobj', I.freeze(st, args[0])))
        return V.boolean(any(isinstance(y, Num) and y.k == 'c' for x in its for _, y in V.leaves(x, st.pc)))
    E['numpy.iscomplexobj'] = iscomplexobj

    # --------------------------------------------------------------------- paths
    for fn in ('normpath', 'isabs'):
        def g(fn):
            def f(st, args, kw, node):
                a = lib.force(V.restrict(args[0], st.pc))
                if isinstance(a, Str) and a.lit is not None:
                    r = getattr(os.path, fn)(a.lit)
                    return V.boolean(r) if isinstance(r, bool) else string(r)
                return lib.opaque_call(st, 'os.path.' + fn, None, args, kw, node)
            return f
        E['os.path.' + fn] = g(fn)

    def logical(op):
        def f(st, args, kw, node):
            if op == 'not':
                return lib.elementwise(st, lambda x: V.not_(I.truth(x, st)), args[0], node=node)
            g = V.and_ if op == 'and' else V.or_
            return lib.elementwise(st, lambda x, y: g(I.truth(x, st), I.truth(y, st)), args[0], args[1], node=node)
        return f
    for n, op in (('logical_and', 'and'), ('logical_or', 'or'), ('logical_not', 'not')):
        E['numpy.' + n] = logical(op)

    def finite(value):
        def f(st, args, kw, node):
            its, sh = lib.as_arr(st, args[0])
            for x in its:
                for _, y in V.leaves(x, st.pc):
                    if not isinstance(y, Num) or lib.opq(y) is not None:
                        return term('call:numpy.isfinite' if value is TRUE else 'call:numpy.isinf', I.freeze(st, args[0]))
            special = [any('inf' in V.show(y, 3) or 'nan' in V.show(y, 3) for _, y in V.leaves(x, st.pc)) for x in its]
            if any(special):
                raise lib.unsupported('isfinite of infinities')
            if not sh:
                return value
            return I.new_arr(st, [value] * len(its), sh, 'b')
        return f
    E['numpy.isfinite'] = finite(TRUE)
    E['numpy.isinf'] = finite(FALSE)

    def count_nonzero(st, args, kw, node):
        if len(args) == 1 and not kw:
            its, _ = lib.as_arr(st, args[0])
            if all(plain(st, x) for x in its):
                cs = [V.restrict(I.truth(x, st), st.pc) for x in its]
                if all(c is TRUE or c is FALSE for c in cs):
                    return const(sum(c is TRUE for c in cs))
        return lib.opaque_call(st, 'numpy.count_nonzero', None, args, kw, node)
    E['numpy.count_nonzero'] = count_nonzero
