"""numpy / math / uncertainties models on arrays of known shape."""
import math
import itertools
from fractions import Fraction

import ring
import values as V
from values import (Num, Str, Tup, Ref, Arr, Slice, Term, Ext, Obj, NONE, TRUE, FALSE,
                    num, const, tup, term, ext, string, ref, arr, Value)

def folded(name, f):
    return lambda x: ring.const(f(x.const())) if x.is_const() else ring.app(name, x)


UNARY = {
    'sin': ring.sin, 'cos': ring.cos, 'tan': ring.tan, 'sqrt': ring.sqrt, 'exp': ring.exp,
    'log': ring.log, 'arcsin': ring.asin, 'arccos': ring.acos, 'arctan': ring.atan,
    'asin': ring.asin, 'acos': ring.acos, 'atan': ring.atan,
    'deg2rad': lambda x: x * ring.PI * ring.const(Fraction(1, 180)),
    'rad2deg': lambda x: x * ring.const(180) / ring.PI,
    'radians': lambda x: x * ring.PI * ring.const(Fraction(1, 180)),
    'degrees': lambda x: x * ring.const(180) / ring.PI,
    'fabs': ring.absolute, 'abs': ring.absolute, 'absolute': ring.absolute,
    'square': lambda x: x * x,
    'negative': lambda x: -x,
    'log10': lambda x: ring.app('log10', x),
    'cosh': lambda x: ring.app('cosh', x), 'sinh': lambda x: ring.app('sinh', x),
    'tanh': lambda x: ring.app('tanh', x),
    'floor': folded('floor', math.floor), 'ceil': folded('ceil', math.ceil),
    'sign': folded('sign', lambda c: (c > 0) - (c < 0)),
    'unwrap': lambda x: ring.app('unwrap', x),
}
BINARY = {'arctan2': ring.atan2, 'atan2': ring.atan2, 'hypot': lambda a, b: ring.sqrt(a * a + b * b)}


def register(lib):
    I = lib.I
    E = lib.ext

    def seqok(st, v):
        return lib.is_seq(st, v)

    def known(st, v):
        """Whether the value is an array-like of known shape (or scalar)."""
        v = V.restrict(v, st.pc)
        if v.var != Value.var:
            return True
        if isinstance(v, (Num, Arr, Tup)):
            return True
        if isinstance(v, Ref):
            return I.obj(st, v.addr).kind in ('list', 'set')
        return v in (TRUE, FALSE) or isinstance(v, Term)

    def unary(path, f, plain):
        """plain: fails on (math) or silently mishandles uncertain values."""
        def one(st, x, node):
            n = lib.tonum(x)
            if n is None:
                return term(path.split('.')[-1], x)
            if plain and n.u:
                I.event(st, 'drop_uncertainty', (path, x), node)
                if path.startswith('math.'):
                    I.raise_(st, 'TypeError', string('%s of an uncertain value' % path), node)
                I.raise_(st, 'TypeError', string('%s of an uncertain value' % path), node)
            return num(f(n.rf), n.u, 'c' if n.k == 'c' and path.split('.')[-1] not in ('abs', 'absolute') else 'f')

        def g(st, args, kw, node):
            v = V.restrict(args[0], st.pc)
            if path.startswith(('math.', 'uncertainties.umath')) and isinstance(v, (Arr, Ref, Tup)):
                its, sh = lib.as_arr(st, v)
                if len(its) != 1:
                    I.raise_(st, 'TypeError', string('only length-1 arrays can be converted to scalars'), node)
                v = its[0]
            return lib.elementwise(st, lambda x: V.apply(lambda y: one(st, y, node), x), v, node=node)
        E[path] = g

    for n, f in UNARY.items():
        unary('numpy.' + n, f, n not in ('negative', 'square', 'abs', 'absolute'))
        unary('math.' + n, f, True)
        unary('uncertainties.umath.' + n, f, False)
        unary('uncertainties.unumpy.' + n, f, False)
        unary('scipy.' + n, f, True)

    def binary(path, f, plain):
        def one(st, x, y, node):
            a, b = lib.tonum(x), lib.tonum(y)
            if a is None or b is None:
                return term(path.split('.')[-1], x, y)
            if plain and (a.u or b.u):
                I.event(st, 'drop_uncertainty', (path, x, y), node)
                I.raise_(st, 'TypeError', string('%s of an uncertain value' % path), node)
            return num(f(a.rf, b.rf), a.u or b.u)

        def g(st, args, kw, node):
            return lib.elementwise(st, lambda x, y: V.apply(lambda p, q: one(st, p, q, node), x, y),
                                   args[0], args[1], node=node)
        E[path] = g

    for n, f in BINARY.items():
        binary('numpy.' + n, f, True)
        binary('math.' + n, f, True)
        binary('uncertainties.umath.' + n, f, False)
        binary('uncertainties.unumpy.' + n, f, False)

    for n, op in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'),
                  ('true_divide', 'Div'), ('power', 'Pow'), ('mod', 'Mod')):
        E['numpy.' + n] = (lambda op: lambda st, a, k, n: lib.elementwise(
            st, lambda x, y: lib.arith(op, x, y), a[0], a[1], node=n))(op)
    E['math.pow'] = lambda st, a, k, n: lib.binop(st, 'Pow', a[0], a[1], n)

    # ------------------------------------------------------- construction
    def np_array(st, args, kw, node):
        v = V.restrict(args[0], st.pc)
        if v.var != Value.var:
            raise lib.NeedSplit(v)
        if isinstance(v, Term):
            return v if v.head == 'call:numpy.array' else term('asarray', v)
        if isinstance(v, Str) or isinstance(v, Ref) and I.obj(st, v.addr).kind in ('dict', 'inst'):
            return term('asarray', I.freeze(st, v))
        its, sh = lib.as_arr(st, v)
        dt = lib.dt_of(its) if its else 'f'
        d = kw.get('dtype', args[1] if len(args) > 1 else NONE)
        if isinstance(d, Ext):
            if d.path.endswith(('float', 'float64', 'double')):
                dt = 'f'
                its = [V.apply(lambda x: num(x.rf, x.u, 'f') if isinstance(x, Num) and x.k == 'i' else x, i) for i in its]
            elif d.path.endswith(('int', 'int64', 'int32')):
                dt = 'i'
            elif d.path.endswith('object'):
                dt = 'O'
        # a float array holds floats
        if dt in 'fd':
            its = [V.apply(lambda x: num(x.rf, x.u, 'f') if isinstance(x, Num) and x.k == 'i' else x, i) for i in its]
        if dt == 'i' and its and any(i in (TRUE, FALSE) or i.var != Value.var for i in its):
            dt = 'b'
        return I.new_arr(st, its, sh, dt)

    def asarray(st, args, kw, node):
        v = V.restrict(args[0], st.pc)
        d = kw.get('dtype', args[1] if len(args) > 1 else NONE)
        if isinstance(v, Arr):
            want = d.path.split('.')[-1] if isinstance(d, Ext) else None
            same = want is None or {'f': 'f', 'd': 'f', 'i': 'i', 'O': 'O'}.get(v.dt) == \
                {'float': 'f', 'float64': 'f', 'double': 'f', 'int': 'i', 'int64': 'i', 'object': 'O'}.get(want, 'other')
            if same:
                return v
        return np_array(st, args, kw, node)

    E['numpy.array'] = np_array
    E['numpy.asarray'] = asarray
    E['numpy.asanyarray'] = asarray
    E['numpy.ascontiguousarray'] = asarray
    E['numpy.matrix'] = np_array
    E['numpy.copy'] = np_array

    def shape_of(st, v):
        v = lib.force(V.restrict(v, st.pc))
        if isinstance(v, Num):
            i = lib.const_int(v)
            return (i,) if i is not None else None
        out = []
        for x in lib.iterate(st, v, None):
            i = lib.const_int(x)
            if i is None:
                return None
            out.append(i)
        return tuple(out)

    def filled(c):
        def f(st, args, kw, node):
            a = args[0] if args else kw['shape']
            try:
                sh = shape_of(st, a)
            except Exception as e:
                from interp import Unsupported
                if isinstance(e, Unsupported):
                    sh = None
                else:
                    raise
            if sh is None:
                return term('filled', string(str(c)), I.freeze(st, a))
            d = kw.get('dtype', args[1] if len(args) > 1 else NONE)
            dt, k = 'f', 'f'
            dn = d.path.split('.')[-1] if isinstance(d, Ext) else d.lit if isinstance(d, Str) else None
            if d is NONE or dn in ('float', 'float64', 'double', 'f8', 'd'):
                dt = 'd'
            if dn in ('int', 'int64', 'int_'):
                dt, k = 'i', 'i'
            if isinstance(d, Ext) and d.path.split('.')[-1] in ('bool', 'bool_'):
                dt = 'b'
                n = 1
                for q in sh:
                    n *= q
                return I.new_arr(st, [V.boolean(c)] * n, sh, dt)
            if dn is not None and 'complex' in dn:
                dt = 'c'
            if isinstance(d, Ext) and d.path.split('.')[-1] == 'object' or isinstance(d, Str) and d.lit in ('object', 'O'):
                dt = 'O'
            n = 1
            for q in sh:
                n *= q
            x = num(ring.const(c), k=k) if c is not None else num(ring.app('empty'))
            return I.new_arr(st, [x] * n, sh, dt)
        return f
    E['numpy.zeros'] = filled(0)
    E['numpy.ones'] = filled(1)
    E['numpy.empty'] = filled(None)

    def full(st, args, kw, node):
        sh = shape_of(st, args[0])
        n = 1
        for q in sh:
            n *= q
        return I.new_arr(st, [args[1]] * n, sh)
    E['numpy.full'] = full

    def like(c):
        def f(st, args, kw, node):
            v = lib.force(V.restrict(args[0], st.pc))
            if isinstance(v, Term):
                return term('like', string(str(c)), v)
            its, sh = lib.as_arr(st, v)
            d = kw.get('dtype', NONE)
            dt = v.dt if isinstance(v, Arr) else lib.dt_of(its)
            if isinstance(d, Ext):
                dt = 'i' if d.path.split('.')[-1] == 'int' else 'f'
            if dt == 'O':
                dt = 'O'
            x = num(ring.const(c), k='i' if dt == 'i' else 'f') if c is not None else num(ring.app('empty'))
            if sh == ():
                return I.new_arr(st, [x], (), dt) if False else x
            return I.new_arr(st, [x] * len(its), sh, dt)
        return f
    E['numpy.zeros_like'] = like(0)
    E['numpy.ones_like'] = like(1)
    E['numpy.empty_like'] = like(None)

    def full_like(st, args, kw, node):
        its, sh = lib.as_arr(st, args[0])
        return lib.from_items(st, [args[1]] * len(its), sh)
    E['numpy.full_like'] = full_like

    def eye(st, args, kw, node):
        n = lib.const_int(lib.force(args[0]))
        m = lib.const_int(args[1]) if len(args) > 1 and args[1] is not NONE else n
        if n is None:
            return term('eye', *args)
        k = lib.const_int(kw['k']) if 'k' in kw else 0
        return I.new_arr(st, [const(1.0 if j - i == k else 0.0) for i in range(n) for j in range(m)], (n, m))
    E['numpy.eye'] = eye
    E['numpy.identity'] = eye

    def arange(st, args, kw, node):
        its = [lib.force(a) for a in args]
        cs = [a.rf.const() if isinstance(a, Num) and a.rf.is_const() else None for a in its]
        if None in cs:
            return term('arange', *its)
        a, b, c = (0, cs[0], 1) if len(cs) == 1 else (cs[0], cs[1], cs[2] if len(cs) > 2 else 1)
        out = []
        x = a
        while (x < b if c > 0 else x > b):
            out.append(num(ring.const(x), k=its[0].k))
            x += c
            if len(out) > 5000:
                return term('arange', *its)
        return I.new_arr(st, out, (len(out),), 'i' if all(i.k == 'i' for i in its) else 'f')
    E['numpy.arange'] = arange

    def linspace(st, args, kw, node):
        n = args[2] if len(args) > 2 else kw.get('num', const(50))
        k = lib.const_int(lib.force(n))
        a, b = lib.force(args[0]), lib.force(args[1])
        if k is not None and k <= 12 and isinstance(a, Num) and isinstance(b, Num):
            if k == 1:
                return I.new_arr(st, [a], (1,))
            step = lib.arith('Div', lib.arith('Sub', b, a), const(k - 1))
            return I.new_arr(st, [lib.arith('Add', a, lib.arith('Mult', step, const(i))) for i in range(k)], (k,))
        return term('linspace', I.freeze(st, a), I.freeze(st, b), n, *[x for kk in sorted(kw) if kk != 'num' for x in (string(kk), kw[kk])])
    E['numpy.linspace'] = linspace

    # -------------------------------------------------------- structure
    def arrval(st, v):
        """(Arr, items, shape); converts lists."""
        its, sh = lib.as_arr(st, v)
        return its, sh

    def opaque(st, v):
        v = V.restrict(v, st.pc)
        return isinstance(v, Term) or isinstance(v, Num) and lib.opq(v) is not None

    def np_shape(st, args, kw, node):
        v = lib.force(V.restrict(args[0], st.pc))
        if opaque(st, v):
            return term('shape', v)
        its, sh = arrval(st, v)
        return tup([const(i) for i in sh])
    E['numpy.shape'] = np_shape

    def np_size(st, args, kw, node):
        v = lib.force(V.restrict(args[0], st.pc))
        if isinstance(v, Term):
            return num(ring.app('size', v), False, 'i')
        its, sh = arrval(st, v)
        if len(args) > 1:
            return const(sh[lib.const_int(args[1])])
        return const(len(its))
    E['numpy.size'] = np_size

    def np_ndim(st, args, kw, node):
        v = lib.force(V.restrict(args[0], st.pc))
        if isinstance(v, Term):
            return num(ring.app('ndim', v), False, 'i')
        return const(len(arrval(st, v)[1]))
    E['numpy.ndim'] = np_ndim

    def isscalar(st, args, kw, node):
        v = V.restrict(args[0], st.pc)
        def f(x):
            if isinstance(x, Num):
                t = lib.opq(x)
                if t is None:
                    return FALSE if x.u else TRUE
                return V.cond_atom(('isscalar', t))
            if isinstance(x, Str) or x in (TRUE, FALSE):
                return TRUE
            if isinstance(x, Term):
                return V.cond_atom(('isscalar', x))
            return FALSE
        return V.apply(f, v)
    E['numpy.isscalar'] = isscalar

    def transpose(st, args, kw, node):
        v = lib.force(V.restrict(args[0], st.pc))
        if opaque(st, v):
            return term('transpose', *[I.freeze(st, a) for a in args])
        if not isinstance(v, Arr):
            its, sh = arrval(st, v)
            if sh == ():
                return v
            v = I.new_arr(st, its, sh)
        axes = args[1] if len(args) > 1 else kw.get('axes')
        n = len(v.shape)
        if axes is None or axes is NONE:
            ax = tuple(range(n))[::-1]
        else:
            ax = tuple(lib.const_int(x) for x in lib.iterate(st, axes, node))
        return permute(v, ax)

    def permute(v, ax):
        n = len(v.shape)
        ax = tuple(a % n for a in ax)
        strides = []
        s = 1
        for d in reversed(v.shape):
            strides.append(s)
            s *= d
        strides.reverse()
        sh = tuple(v.shape[a] for a in ax)
        idx = [v.idx[sum(i * strides[a] for i, a in zip(ix, ax))]
               for ix in itertools.product(*[range(d) for d in sh])]
        return arr(v.buf, idx, sh, v.dt)
    E['numpy.transpose'] = transpose
    lib.transpose = transpose

    def moveaxis(st, args, kw, node):
        v = lib.force(args[0])
        if opaque(st, v):
            return term('moveaxis', *[I.freeze(st, a) for a in args])
        v = asarray(st, [v], {}, node)
        n = len(v.shape)
        s, d = lib.const_int(args[1]) % n, lib.const_int(args[2]) % n
        ax = [i for i in range(n) if i != s]
        ax.insert(d, s)
        return permute(v, ax)
    E['numpy.moveaxis'] = moveaxis
    E['numpy.swapaxes'] = lambda st, a, k, n: swapaxes(st, a, k, n)

    def swapaxes(st, args, kw, node):
        v = lib.force(args[0])
        if opaque(st, v):
            return term('swapaxes', *[I.freeze(st, a) for a in args])
        v = asarray(st, [v], {}, node)
        n = len(v.shape)
        s, d = lib.const_int(args[1]) % n, lib.const_int(args[2]) % n
        ax = list(range(n))
        ax[s], ax[d] = ax[d], ax[s]
        return permute(v, ax)

    def reshape(st, args, kw, node):
        v = lib.force(V.restrict(args[0], st.pc))
        if opaque(st, v):
            return term('reshape', *[I.freeze(st, a) for a in args])
        v = asarray(st, [v], {}, node)
        if len(args) == 2:
            sh = shape_of(st, args[1])
        else:
            sh = tuple(lib.const_int(a) for a in args[1:])
        if sh is None or None in sh:
            return term('reshape', *[I.freeze(st, a) for a in args])
        sh = list(sh)
        if -1 in sh:
            p = 1
            for s in sh:
                if s != -1:
                    p *= s
            sh[sh.index(-1)] = len(v.idx) // p if p else 0
        p = 1
        for s in sh:
            p *= s
        if p != len(v.idx):
            I.raise_(st, 'ValueError', string('cannot reshape'), node)
        return arr(v.buf, v.idx, sh, v.dt)
    E['numpy.reshape'] = reshape

    def ravel(st, args, kw, node):
        v = lib.force(V.restrict(args[0], st.pc))
        if opaque(st, v):
            return term('ravel', v)
        v = asarray(st, [v], {}, node)
        return arr(v.buf, v.idx, (len(v.idx),), v.dt)

    def flatten(st, args, kw, node):
        v = lib.force(V.restrict(args[0], st.pc))
        if opaque(st, v):
            return term('ravel', v)
        v = asarray(st, [v], {}, node)
        return I.new_arr(st, I.arr_items(st, v), (len(v.idx),), v.dt)
    E['numpy.ravel'] = ravel

    def squeeze(st, args, kw, node):
        v = lib.force(V.restrict(args[0], st.pc))
        if opaque(st, v) or isinstance(v, Num):
            return term('squeeze', v) if isinstance(v, Term) else v
        v = asarray(st, [v], {}, node)
        sh = tuple(d for d in v.shape if d != 1)
        return arr(v.buf, v.idx, sh, v.dt)
    E['numpy.squeeze'] = squeeze

    def atleast(n):
        def f(st, args, kw, node):
            v = lib.force(V.restrict(args[0], st.pc))
            if isinstance(v, Term):
                return term('atleast_%dd' % n, v)
            v2 = asarray(st, [v], {}, node)
            sh = v2.shape
            if len(sh) >= n:
                return v2
            if n == 1:
                return arr(v2.buf, v2.idx, (1,), v2.dt)
            if n == 2:
                return arr(v2.buf, v2.idx, (1,) * (2 - len(sh)) + sh, v2.dt)
            if len(sh) == 2:
                return arr(v2.buf, v2.idx, sh + (1,), v2.dt)
            if len(sh) == 1:
                return arr(v2.buf, v2.idx, (1,) + sh + (1,), v2.dt)
            return arr(v2.buf, v2.idx, (1, 1, 1), v2.dt)
        return f
    for n in (1, 2, 3):
        E['numpy.atleast_%dd' % n] = atleast(n)

    def expand_dims(st, args, kw, node):
        v = lib.force(args[0])
        if opaque(st, v):
            return term('expand_dims', *args)
        v = asarray(st, [v], {}, node)
        a = lib.const_int(args[1] if len(args) > 1 else kw['axis'])
        sh = list(v.shape)
        sh.insert(a % (len(sh) + 1), 1)
        return arr(v.buf, v.idx, sh, v.dt)
    E['numpy.expand_dims'] = expand_dims

    def concat_axis(st, parts, axis, node):
        """parts: [(items, shape)]"""
        n = len(parts[0][1])
        axis %= n
        base = [d for i, d in enumerate(parts[0][1]) if i != axis]
        for _, s in parts:
            if len(s) != n or [d for i, d in enumerate(s) if i != axis] != base:
                I.raise_(st, 'ValueError', string('all the input array dimensions must match'), node)
        sh = list(parts[0][1])
        sh[axis] = sum(s[axis] for _, s in parts)
        out = []
        pre = sh[:axis]
        post = sh[axis + 1:]
        np_ = 1
        for d in post:
            np_ *= d
        npre = 1
        for d in pre:
            npre *= d
        for i in range(npre):
            for its, s in parts:
                k = s[axis] * np_
                out += its[i * k:(i + 1) * k]
        return I.new_arr(st, out, tuple(sh), lib.dt_of(out))

    def stacker(kind):
        def f(st, args, kw, node):
            try:
                ls = lib.iterate(st, args[0], node)
            except Exception as e:
                from interp import Unsupported
                if isinstance(e, Unsupported):
                    return term(kind, I.freeze(st, args[0]))
                raise
            if any(opaque(st, l) and isinstance(V.restrict(l, st.pc), Term) for l in ls) and kind != 'stack0':
                return term(kind, *[I.freeze(st, l) for l in ls])
            parts = [arrval(st, l) for l in ls]
            if not parts:
                I.raise_(st, 'ValueError', string('need at least one array'), node)
            if kind == 'hstack':
                parts = [(i, s or (1,)) for i, s in parts]
                return concat_axis(st, parts, 0 if len(parts[0][1]) == 1 else 1, node)
            if kind == 'vstack':
                parts = [(i, (1,) * (2 - len(s)) + s) for i, s in parts]
                return concat_axis(st, parts, 0, node)
            if kind == 'column_stack':
                parts = [(i, (len(i), 1) if len(s) < 2 else s) for i, s in parts]
                return concat_axis(st, parts, 1, node)
            if kind == 'dstack':
                parts = [(i, s + (1,) if len(s) == 2 else (1,) + s + (1,)) for i, s in parts]
                return concat_axis(st, parts, 2, node)
            axis = lib.const_int(kw.get('axis', args[1] if len(args) > 1 else const(0)))
            if kind == 'stack':
                n = len(parts[0][1])
                axis %= n + 1
                parts = [(i, s[:axis] + (1,) + s[axis:]) for i, s in parts]
            return concat_axis(st, parts, axis, node)
        return f
    for k in ('hstack', 'vstack', 'column_stack', 'dstack', 'stack', 'concatenate'):
        E['numpy.' + k] = stacker(k)
    E['numpy.row_stack'] = stacker('vstack')

    def append(st, args, kw, node):
        a, b = args[0], args[1]
        axis = kw.get('axis', args[2] if len(args) > 2 else NONE)
        if opaque(st, a) or opaque(st, b) and isinstance(V.restrict(b, st.pc), Term):
            return term('np.append', I.freeze(st, a), I.freeze(st, b))
        pa, pb = arrval(st, a), arrval(st, b)
        if axis is NONE:
            its = pa[0] + pb[0]
            return I.new_arr(st, its, (len(its),), lib.dt_of(its))
        return concat_axis(st, [pa, pb], lib.const_int(axis), node)
    E['numpy.append'] = append

    def tile(st, args, kw, node):
        v = lib.force(V.restrict(args[0], st.pc))
        its, sh = arrval(st, v)
        reps = shape_of(st, args[1])
        if reps is None:
            return term('tile', I.freeze(st, v), I.freeze(st, args[1]))
        n = max(len(sh), len(reps))
        sh = (1,) * (n - len(sh)) + sh
        reps = (1,) * (n - len(reps)) + reps
        out_sh = tuple(a * b for a, b in zip(sh, reps))
        st_ = []
        s = 1
        for d in reversed(sh):
            st_.append(s)
            s *= d
        st_.reverse()
        out = [its[sum((i % d) * k for i, d, k in zip(ix, sh, st_))]
               for ix in itertools.product(*[range(d) for d in out_sh])]
        return I.new_arr(st, out, out_sh, lib.dt_of(out))
    E['numpy.tile'] = tile

    def repeat(st, args, kw, node):
        its, sh = arrval(st, args[0])
        n = lib.const_int(args[1])
        ax = kw.get('axis', args[2] if len(args) > 2 else NONE)
        if n is None:
            return term('repeat', *[I.freeze(st, a) for a in args])
        if ax is NONE:
            out = [x for x in its for _ in range(n)]
            return I.new_arr(st, out, (len(out),))
        ax = lib.const_int(ax) % len(sh)
        inner = 1
        for d in sh[ax + 1:]:
            inner *= d
        out = []
        for i in range(0, len(its), inner):
            for _ in range(n):
                out += its[i:i + inner]
        return I.new_arr(st, out, sh[:ax] + (sh[ax] * n,) + sh[ax + 1:])
    E['numpy.repeat'] = repeat

    def bcast_to(st, args, kw, node):
        its, sh = arrval(st, args[0])
        out = shape_of(st, args[1])
        return I.new_arr(st, lib.bcast(its, sh, out), out)
    E['numpy.broadcast_to'] = bcast_to

    def diag(st, args, kw, node):
        v = lib.force(args[0])
        if opaque(st, v):
            return term('diag', v)
        its, sh = arrval(st, v)
        if len(sh) == 1:
            n = sh[0]
            return I.new_arr(st, [its[i] if i == j else const(0.0) for i in range(n) for j in range(n)], (n, n))
        n = min(sh)
        return I.new_arr(st, [its[i * sh[1] + i] for i in range(n)], (n,))
    E['numpy.diag'] = diag
    E['numpy.diagonal'] = diag

    def flip(st, args, kw, node):
        v = lib.force(args[0])
        if opaque(st, v):
            return term('flip', v)
        v = asarray(st, [v], {}, node)
        ax = kw.get('axis', args[1] if len(args) > 1 else NONE)
        if ax is NONE:
            return arr(v.buf, v.idx[::-1], v.shape, v.dt)
        return lib.getitem(st, v, tup([V.slice_(NONE, NONE, const(-1)) if i == lib.const_int(ax) % len(v.shape)
                                       else V.slice_(NONE, NONE, NONE) for i in range(len(v.shape))]), node)
    E['numpy.flip'] = flip

    # ------------------------------------------------------- reductions
    def reduce_(name, f, ident=None):
        def g(st, args, kw, node):
            v = V.restrict(args[0], st.pc)
            if v.var != Value.var and not lib.isarraylike(st, v):
                pass
            if isinstance(v, Term):
                return num(ring.app('opq', term(name, v, *[x for k in sorted(kw) for x in (string(k), kw[k])])))
            if isinstance(v, Num) and lib.opq(v) is not None:
                return num(ring.app('opq', term(name, lib.opq(v))))
            its, sh = arrval(st, v)
            ax = kw.get('axis', args[1] if len(args) > 1 else NONE)
            if ax is NONE or len(sh) <= 1:
                return f(st, its)
            if isinstance(ax, Tup):
                raise lib.unsupported('axis tuple')
            a = lib.const_int(ax) % len(sh)
            inner = 1
            for d in sh[a + 1:]:
                inner *= d
            outer = 1
            for d in sh[:a]:
                outer *= d
            n = sh[a]
            out = []
            for o in range(outer):
                for i in range(inner):
                    out.append(f(st, [its[(o * n + k) * inner + i] for k in range(n)]))
            osh = sh[:a] + sh[a + 1:]
            kd = kw.get('keepdims')
            if kd is TRUE:
                osh = sh[:a] + (1,) + sh[a + 1:]
            return I.new_arr(st, out, osh)
        E['numpy.' + name] = g
        return g

    def fsum(st, its):
        return lib.addup(its)

    def fmean(st, its):
        return lib.arith('Div', lib.addup(its), const(len(its)))

    def fprod(st, its):
        r = const(1)
        for i in its:
            r = lib.arith('Mult', r, i)
        return r

    def fstd(st, its):
        m = fmean(st, its)
        s = lib.addup([lib.arith('Pow', lib.arith('Sub', x, m), const(2)) for x in its])
        return lib.arith('Pow', lib.arith('Div', s, const(len(its))), const(0.5))

    def fmax(st, its):
        return lib.minmax(st, its, {}, None, True) if len(its) > 1 else its[0]

    def fmin(st, its):
        return lib.minmax(st, its, {}, None, False) if len(its) > 1 else its[0]

    def argm(ismax):
        def f(st, its):
            best, bi = its[0], const(0)
            for k, x in enumerate(its[1:], 1):
                c = I.truth(lib.cmp1(st, 'Gt' if ismax else 'Lt', x, best, None), st)
                best = V.ite(c, x, best)
                bi = V.ite(c, const(k), bi)
            return bi
        return f

    def fany(st, its):
        r = FALSE
        for x in its:
            r = V.or_(r, I.truth(x, st))
        return r

    def fall(st, its):
        r = TRUE
        for x in its:
            r = V.and_(r, I.truth(x, st))
        return r
    R = {}
    for n, f in (('sum', fsum), ('mean', fmean), ('prod', fprod), ('std', fstd), ('max', fmax),
                 ('min', fmin), ('amax', fmax), ('amin', fmin), ('argmax', argm(True)),
                 ('argmin', argm(False)), ('any', fany), ('all', fall), ('average', fmean),
                 ('nanmax', fmax), ('nanmin', fmin)):
        R[n] = reduce_(n, f)

    def cumsum(st, args, kw, node):
        its, sh = arrval(st, args[0])
        out = []
        r = const(0)
        for x in its:
            r = lib.arith('Add', r, x)
            out.append(r)
        return I.new_arr(st, out, (len(out),))
    E['numpy.cumsum'] = cumsum

    def diff(st, args, kw, node):
        v = lib.force(args[0])
        if opaque(st, v):
            return term('diff', v)
        its, sh = arrval(st, v)
        return I.new_arr(st, [lib.arith('Sub', b, a) for a, b in zip(its, its[1:])], (max(0, len(its) - 1),))
    E['numpy.diff'] = diff

    def isclose(st, args, kw, node):
        a, b = args[0], args[1]
        return lib.elementwise(st, lambda x, y: V.apply(lambda p, q: closecond(p, q), x, y), a, b)

    def closecond(p, q):
        a, b = lib.tonum(p), lib.tonum(q)
        if a is None or b is None:
            return V.cond_atom(('close', p, q))
        d = a.rf - b.rf
        if d.is_const():
            return V.boolean(abs(d.const()) < Fraction(1, 10**8))
        return V.cond_atom(('close', num(a.rf), num(b.rf)))
    E['numpy.isclose'] = isclose
    E['numpy.allclose'] = lambda st, a, k, n: R['all'](st, [isclose(st, a, k, n)], {}, n)

    def isreal(st, args, kw, node):
        return lib.elementwise(st, lambda x: V.apply(lambda y: TRUE if isinstance(y, Num) and lib.opq(y) is None else V.cond_atom(('isreal', y)), x), args[0])
    E['numpy.isreal'] = isreal
    E['numpy.iscomplex'] = lambda st, a, k, n: lib.unop(st, 'Invert', isreal(st, a, k, n), n)

    def opq_part(name, t):
        if t.head == 'conj' and isinstance(t.args[0], Term):
            x = ring.app('opq', term('attr', t.args[0], string(name)))
            return x if name == 'real' else ring.const(0) - x
        return ring.app('opq', term('attr', t, string(name)))

    def linear_part(name, rf):
        """Real coefficients come out of a real or imaginary part."""
        if rf.d or len(rf.n.t) > 64:
            return ring.app(name, rf)
        out = ring.const(0)
        for mono, c in rf.n.t.items():
            re = ring.const(c)
            cx = []
            for i, e in mono:
                at = ring.atom_by_id(i)
                if at.head in ('var', 'pi'):
                    re = re * ring.from_atom(at) ** e
                else:
                    cx.append((at, e))
            if len(cx) == 1 and cx[0][1] == 1 and cx[0][0].head == 'opq':
                t = cx[0][0].args[0]
                out = out + re * opq_part(name, t)
            elif len(cx) == 1 and cx[0][1] == 1 and cx[0][0].head == 'imag':
                out = out + (re if name == 'imag' else ring.const(0))
            elif not cx:
                out = out + (re if name == 'real' else ring.const(0))
            else:
                return ring.app(name, rf)
        return out

    def part(name):
        def f(st, args, kw, node):
            def one(y):
                if isinstance(y, Num):
                    t = lib.opq(y)
                    if t is not None:
                        return num(opq_part(name, t))
                    if y.k != 'c':
                        return y if name == 'real' else const(0)
                    return num(linear_part(name, y.rf))
                if isinstance(y, Term):
                    return term('attr', y, string(name))
                return y
            return lib.elementwise(st, lambda x: V.apply(one, x), args[0])
        return f
    E['numpy.real'] = part('real')
    E['numpy.imag'] = part('imag')

    def angle(st, args, kw, node):
        def one(y):
            n = lib.tonum(y)
            return num(ring.app('angle', n.rf)) if n is not None else term('angle', y)
        r = lib.elementwise(st, lambda x: V.apply(one, x), args[0])
        deg = kw.get('deg', args[1] if len(args) > 1 else FALSE)
        if lib.force(deg) is TRUE or isinstance(deg, Num) and not deg.rf.is_zero():
            r = E['numpy.rad2deg'](st, [r], {}, node)
        return r
    E['numpy.angle'] = angle

    def conj(st, args, kw, node):
        def one(y):
            if isinstance(y, Num):
                if y.k != 'c':
                    return y
                t = lib.opq(y)
                if t is None:
                    return num(ring.app('conj', y.rf), False, 'c')
                return num(ring.app('opq', t.args[0] if t.head == 'conj' else term('conj', t)), False, 'c')
            return term('conj', y)
        return lib.elementwise(st, lambda x: V.apply(one, x), args[0])
    E['numpy.conj'] = conj
    E['numpy.conjugate'] = conj

    def where(st, args, kw, node):
        if len(args) == 3:
            return lib.elementwise(st, lambda c, a, b: V.ite(I.truth(c, st), a, b), *args)
        v = args[0]
        if isinstance(v, Ref) and lib.is_seq(st, v):
            v = E['numpy.array'](st, [v], {}, node)
        if isinstance(v, Arr) and len(v.shape) == 2:
            cs = [V.restrict(I.truth(x, st), st.pc) for x in I.arr_items(st, v)]
            if all(c in (TRUE, FALSE) for c in cs):
                n = v.shape[1]
                at = [(i // n, i % n) for i, c in enumerate(cs) if c is TRUE]
                return tup([I.new_arr(st, [const(p[k]) for p in at], (len(at),), 'i') for k in (0, 1)])
        if isinstance(v, Arr) and len(v.shape) == 1:
            cs = [V.restrict(I.truth(x, st), st.pc) for x in I.arr_items(st, v)]
            if all(c in (TRUE, FALSE) for c in cs):
                sel = [const(i) for i, c in enumerate(cs) if c is TRUE]
                return tup((I.new_arr(st, sel, (len(sel),), 'i'),))
        return term('where', I.freeze(st, v))
    E['numpy.where'] = where
    E['numpy.nonzero'] = where

    def argsort(st, args, kw, node):
        v = lib.force(V.restrict(args[0], st.pc))
        if opaque(st, v):
            return term('argsort', v)
        its, sh = arrval(st, v)
        if len(sh) == 1 and all(isinstance(i, Num) and i.rf.is_const() for i in its):
            o = sorted(range(len(its)), key=lambda i: its[i].rf.const())
            return I.new_arr(st, [const(i) for i in o], (len(o),), 'i')
        if len(sh) == 1 and len(its) <= 4 and not kw and len(args) == 1:
            return I.new_arr(st, [p[1] for p in insertion(st, its)], sh, 'i')
        f = I.freeze(st, v)
        if len(sh) == 1:
            return I.new_arr(st, [num(ring.app('argsort', f, const(i)), False, 'i') for i in range(len(its))], sh, 'i')
        return term('argsort', f)

    def insertion(st, its):
        """Stable insertion sort as decision diagrams: [(value, index)]."""
        out = []
        for k, x in enumerate(its):
            before = [TRUE] * (k + 1)
            for j in range(k - 1, -1, -1):
                c = I.truth(lib.cmp1(st, 'Lt', x, out[j][0], None), st)
                before[j] = V.and_(before[j + 1], c)
            new = []
            for p in range(k + 1):
                v, i = (x, const(k)) if p == k else (V.ite(before[p], x, out[p][0]), V.ite(before[p], const(k), out[p][1]))
                if p:
                    v, i = V.ite(before[p - 1], out[p - 1][0], v), V.ite(before[p - 1], out[p - 1][1], i)
                new.append((v, i))
            out = new
        return out
    E['numpy.argsort'] = argsort

    def sort(st, args, kw, node):
        v = lib.force(V.restrict(args[0], st.pc))
        its, sh = arrval(st, v)
        if len(sh) == 1 and all(isinstance(i, Num) and i.rf.is_const() for i in its):
            o = sorted(its, key=lambda i: i.rf.const())
            return I.new_arr(st, o, sh)
        if len(sh) == 1 and len(its) <= 4 and not kw and len(args) == 1:
            return I.new_arr(st, [p[0] for p in insertion(st, its)], sh)
        return term('sort', I.freeze(st, v))
    E['numpy.sort'] = sort

    def outer(st, args, kw, node):
        a, sa = arrval(st, args[0])
        b, sb = arrval(st, args[1])
        return I.new_arr(st, [lib.arith('Mult', x, y) for x in a for y in b], (len(a), len(b)))
    E['numpy.outer'] = outer

    def dot(st, args, kw, node):
        a, b = V.restrict(args[0], st.pc), V.restrict(args[1], st.pc)
        if lib.is_seq(st, a) and lib.is_seq(st, b) if a.var == Value.var and b.var == Value.var else False:
            ia, sa = lib.as_arr(st, a)
            ib, sb = lib.as_arr(st, b)
            if len(sa) <= 2 and len(sb) <= 2:
                return lib.matmul(st, a, b, node)
            if len(sa) == 1 and len(sb) > 2 or len(sb) > 2:
                # dot over the last axis of a and second last of b
                n, m = sb[-2], sb[-1]
                lead_a = sa[:-1]
                lead_b = sb[:-2]
                pa = 1
                for d in lead_a:
                    pa *= d
                pb = 1
                for d in lead_b:
                    pb *= d
                if sa[-1] != n:
                    I.raise_(st, 'ValueError', string('shapes not aligned'), node)
                out = []
                for i in range(pa):
                    for j in range(pb):
                        for c in range(m):
                            out.append(lib.addup([lib.arith('Mult', ia[i * n + q], ib[j * n * m + q * m + c]) for q in range(n)]))
                return lib.from_items(st, out, lead_a + lead_b + (m,))
            n = sa[-1]
            if len(sb) == 1:
                sb = (sb[0], 1)
                vec = True
            else:
                vec = False
            if n != sb[-2]:
                I.raise_(st, 'ValueError', string('shapes not aligned'), node)
            m = sb[-1]
            pa = len(ia) // n
            out = []
            for i in range(pa):
                for c in range(m):
                    out.append(lib.addup([lib.arith('Mult', ia[i * n + q], ib[q * m + c]) for q in range(n)]))
            return lib.from_items(st, out, sa[:-1] + (() if vec else (m,)))
        if isinstance(a, Num) and lib.opq(a) is None or isinstance(b, Num) and lib.opq(b) is None:
            return lib.binop(st, 'Mult', a, b, node)
        return lib.matmul(st, a, b, node)
    E['numpy.dot'] = dot
    E['numpy.matmul'] = lambda st, a, k, n: lib.matmul(st, a[0], a[1], n)
    E['numpy.inner'] = dot
    def vdot(st, args, kw, node):
        return dot(st, [conj(st, [args[0]], {}, node)] + list(args[1:]), kw, node)
    E['numpy.vdot'] = vdot
    lib.dot = dot

    def einsum(st, args, kw, node):
        spec = lib.force(args[0])
        if not isinstance(spec, Str) or spec.lit is None:
            return term('einsum', *[I.freeze(st, a) for a in args])
        s = spec.lit.replace(' ', '')
        ins, _, out = s.partition('->')
        ins = ins.split(',')
        if '.' in s:
            return term('einsum', *[I.freeze(st, a) for a in args])
        ops = [arrval(st, a) for a in args[1:]]
        dims = {}
        for sub, (its, sh) in zip(ins, ops):
            for c, d in zip(sub, sh):
                dims[c] = d
        if '->' not in s:
            out = ''.join(sorted(c for c in dims if sum(x.count(c) for x in ins) == 1))
        summed = [c for c in dims if c not in out]
        res = []
        for ix in itertools.product(*[range(dims[c]) for c in out]):
            env = dict(zip(out, ix))
            tot = []
            for jx in itertools.product(*[range(dims[c]) for c in summed]):
                env.update(zip(summed, jx))
                p = None
                for sub, (its, sh) in zip(ins, ops):
                    k = 0
                    for c, d in zip(sub, sh):
                        k = k * d + env[c]
                    p = its[k] if p is None else lib.arith('Mult', p, its[k])
                tot.append(p)
            res.append(lib.addup(tot))
        return lib.from_items(st, res, tuple(dims[c] for c in out))
    E['numpy.einsum'] = einsum

    def cross(st, args, kw, node):
        a, sa = arrval(st, args[0])
        b, sb = arrval(st, args[1])
        if len(a) == 2 and len(b) == 2:
            return lib.arith('Sub', lib.arith('Mult', a[0], b[1]), lib.arith('Mult', a[1], b[0]))
        if len(a) == 3 and len(b) == 3:
            o = []
            for i in range(3):
                j, k = (i + 1) % 3, (i + 2) % 3
                o.append(lib.arith('Sub', lib.arith('Mult', a[j], b[k]), lib.arith('Mult', a[k], b[j])))
            return I.new_arr(st, o, (3,))
        return term('cross', I.freeze(st, args[0]), I.freeze(st, args[1]))
    E['numpy.cross'] = cross

    def norm(st, args, kw, node):
        v = lib.force(V.restrict(args[0], st.pc))
        if isinstance(v, Term):
            return num(ring.app('opq', term('norm', v)))
        its, sh = arrval(st, v)
        ax = kw.get('axis', args[2] if len(args) > 2 else NONE)

        def n1(st, xs):
            sq = lib.addup([lib.arith('Pow', absq(x), const(2)) for x in xs])
            return lib.arith('Pow', sq, const(0.5))

        def absq(x):
            return x
        cplx = any(isinstance(i, Term) or isinstance(i, Num) and (i.k == 'c' or lib.opq(i) is not None) for i in its)
        if cplx:
            f = lambda st, xs: num(ring.app('opq', term('norm', *[x for x in xs])))
        else:
            f = n1
        plain = any(isinstance(l, Num) and l.u for i in its for c, l in V.leaves(i, st.pc))
        if plain:
            I.event(st, 'drop_uncertainty', ('numpy.linalg.norm',), node)
            I.raise_(st, 'TypeError', string('norm of uncertain values'), node)
        if ax is NONE or len(sh) <= 1:
            return f(st, its)
        tmp = reduce_('__norm', f)
        return tmp(st, [v], {'axis': ax}, node)
    E['numpy.linalg.norm'] = norm
    E['scipy.linalg.norm'] = norm

    def det_items(its, n):
        if n == 1:
            return its[0]
        if n == 2:
            return lib.arith('Sub', lib.arith('Mult', its[0], its[3]), lib.arith('Mult', its[1], its[2]))
        r = const(0)
        for j in range(n):
            minor = [its[i * n + k] for i in range(1, n) for k in range(n) if k != j]
            t = lib.arith('Mult', its[j], det_items(minor, n - 1))
            r = lib.arith('Add' if j % 2 == 0 else 'Sub', r, t)
        return r

    def inv_items(its, n):
        d = det_items(its, n)
        if n == 1:
            return [lib.arith('Div', const(1.0), its[0])]
        out = []
        for i in range(n):
            for j in range(n):
                minor = [its[p * n + q] for p in range(n) for q in range(n) if p != j and q != i]
                c = det_items(minor, n - 1)
                if (i + j) % 2:
                    c = lib.unop(None, 'USub', c, None)
                out.append(lib.arith('Div', c, d))
        return out

    def unc_check(st, its, path, node):
        if any(isinstance(l, Num) and l.u for i in its for c, l in V.leaves(i, st.pc)):
            I.event(st, 'drop_uncertainty', (path,), node)
            I.raise_(st, 'TypeError', string('%s of uncertain values' % path), node)

    def inv(path, plain):
        def f(st, args, kw, node):
            v = lib.force(V.restrict(args[0], st.pc))
            if opaque(st, v):
                return term('inv', v)
            its, sh = arrval(st, v)
            if len(sh) < 2 or sh[-1] != sh[-2]:
                I.raise_(st, 'LinAlgError', string('square matrix required'), node)
            if plain:
                unc_check(st, its, path, node)
            n = sh[-1]
            if n > 3:
                return term('inv', I.freeze(st, v))
            out = []
            for b in range(len(its) // (n * n)):
                out += inv_items(its[b * n * n:(b + 1) * n * n], n)
            return I.new_arr(st, out, sh)
        E[path] = f
        return f
    inv('numpy.linalg.inv', True)
    inv('scipy.linalg.inv', True)
    inv('uncertainties.unumpy.ulinalg.inv', False)

    def pinv(path, plain):
        """Moore-Penrose inverse of a full-rank matrix."""
        def f(st, args, kw, node):
            v = lib.force(V.restrict(args[0], st.pc))
            if opaque(st, v):
                return term('pinv', v)
            its, sh = arrval(st, v)
            if len(sh) != 2:
                return term('pinv', I.freeze(st, v))
            if plain:
                unc_check(st, its, path, node)
            m, n = sh
            a = I.new_arr(st, its, sh)
            if m == n:
                return E['uncertainties.unumpy.ulinalg.inv'](st, [a], {}, node)
            if min(m, n) > 3:
                return term('pinv', I.freeze(st, v))
            t = permute(a, (1, 0))
            if m > n:
                return lib.matmul(st, E['uncertainties.unumpy.ulinalg.inv'](st, [lib.matmul(st, t, a, node)], {}, node), t, node)
            return lib.matmul(st, t, E['uncertainties.unumpy.ulinalg.inv'](st, [lib.matmul(st, a, t, node)], {}, node), node)
        E[path] = f
        return f
    pinv('numpy.linalg.pinv', True)
    pinv('scipy.linalg.pinv', True)
    pinv('uncertainties.unumpy.ulinalg.pinv', False)

    def det(st, args, kw, node):
        its, sh = arrval(st, args[0])
        n = sh[-1]
        if len(sh) > 2:
            out = [det_items(its[b * n * n:(b + 1) * n * n], n) for b in range(len(its) // (n * n))]
            return I.new_arr(st, out, sh[:-2])
        return det_items(its, n)
    E['numpy.linalg.det'] = det

    def solve(st, args, kw, node):
        a, b = lib.force(V.restrict(args[0], st.pc)), lib.force(V.restrict(args[1], st.pc))
        if opaque(st, a) or opaque(st, b):
            return term('matmul', term('inv', I.freeze(st, a)), I.freeze(st, b))
        its, sh = arrval(st, a)
        unc_check(st, its, 'numpy.linalg.solve', node)
        if sh[-1] > 3:
            return term('matmul', term('inv', I.freeze(st, a)), I.freeze(st, b))
        i = E['numpy.linalg.inv'](st, [a], {}, node)
        return lib.matmul(st, i, b, node)
    E['numpy.linalg.solve'] = solve
    E['scipy.linalg.solve'] = solve

    def eig(path, vecs, kind):
        def f(st, args, kw, node):
            v = lib.force(V.restrict(args[0], st.pc))
            if opaque(st, v) or not lib.is_seq(st, v):
                r = term(kind, I.freeze(st, v), *[x for k in sorted(kw) for x in (string(k), I.freeze(st, kw[k]))])
                return tup((term('evals', r), term('evecs', r))) if vecs else term('evals', r)
            its, sh = arrval(st, v)
            unc_check(st, its, path, node)
            n = sh[-1]
            ev, vec = [], []
            left = kw.get('left', FALSE)
            if lib.force(left) is TRUE:
                raise lib.unsupported('left eig')
            for b in range(len(its) // (n * n)):
                m = V.frozen('array', (n, n), its[b * n * n:(b + 1) * n * n])
                ev += [num(ring.app('opq', term('eigval', string(kind), m, const(i))), False, 'c') for i in range(n)]
                vec += [num(ring.app('opq', term('eigvec', string(kind), m, const(i), const(j))), False, 'c')
                        for i in range(n) for j in range(n)]
            e = I.new_arr(st, ev, sh[:-1], 'c')
            if not vecs:
                return e
            return tup((e, I.new_arr(st, vec, sh, 'c')))
        E[path] = f
    eig('numpy.linalg.eig', True, 'eig')
    eig('scipy.linalg.eig', True, 'eig')
    eig('numpy.linalg.eigh', True, 'eigh')
    eig('numpy.linalg.eigvals', False, 'eig')
    eig('numpy.linalg.eigvalsh', False, 'eigh')

    def lstsq(st, args, kw, node):
        """The normal equations solution, when the shape is known."""
        a, b = lib.force(V.restrict(args[0], st.pc)), lib.force(V.restrict(args[1], st.pc))
        if opaque(st, a) or opaque(st, b):
            x = term('lstsq', I.freeze(st, a), I.freeze(st, b))
            return tup((x, term('res', x), term('rank', x), term('sv', x)))
        its, sh = arrval(st, a)
        unc_check(st, its, 'numpy.linalg.lstsq', node)
        unc_check(st, arrval(st, b)[0], 'numpy.linalg.lstsq', node)
        f = term('lstsq', I.freeze(st, asarray(st, [a], {}, node)), I.freeze(st, asarray(st, [b], {}, node)))
        ib, sb = arrval(st, b)
        n = sh[1]
        if n <= 3 and sh[0] >= n:
            x = lib.matmul(st, E['uncertainties.unumpy.ulinalg.pinv'](st, [I.new_arr(st, its, sh)], {}, node), b, node)
            return tup((x, term('res', f), term('rank', f), term('sv', f)))
        m = sb[1] if len(sb) > 1 else None
        cnt = n * (m or 1)
        x = I.new_arr(st, [num(ring.app('opq', term('item', f, const(i)))) for i in range(cnt)], (n,) if m is None else (n, m))
        return tup((x, term('res', f), term('rank', f), term('sv', f)))
    E['numpy.linalg.lstsq'] = lstsq
    E['uncertainties.unumpy.ulinalg.lstsq'] = lstsq

    def interp_(st, args, kw, node):
        return term('np.interp', *[I.freeze(st, a) for a in args])
    E['numpy.interp'] = interp_

    # ----------------------------------------------------- uncertainties
    def ufloat(st, args, kw, node):
        v = lib.force(args[0])
        if len(args) == 1 and isinstance(v, Tup):
            v = lib.force(v.items[0])
        n = lib.tonum(v)
        if n is not None:
            I.event(st, 'ufloat', tuple(I.freeze(st, a) for a in args), node)
            s = lib.tonum(lib.force(args[1])) if len(args) > 1 else None
            # an uncertainty of zero carries nothing on
            return num(n.rf, not (s is not None and s.rf.is_const() and s.rf.is_zero()))
        if isinstance(v, Term):
            s = lib.tonum(lib.force(args[1])) if len(args) > 1 else None
            return num(ring.app('opq', v), not (s is not None and s.rf.is_const() and s.rf.is_zero()))
        return term('ufloat', *[I.freeze(st, a) for a in args])
    E['uncertainties.ufloat'] = ufloat
    def nominal_value(st, args, kw, node):
        def one(y):
            n = lib.tonum(y)
            if n is None:
                return y
            return num(n.rf, False, n.k)
        return lib.elementwise(st, lambda x: V.apply(one, x), args[0])
    E['uncertainties.unumpy.nominal_values'] = nominal_value
    E['uncertainties.nominal_value'] = nominal_value
    E['uncertainties.core.nominal_value'] = nominal_value

    def std_dev(st, args, kw, node):
        def one(y):
            n = lib.tonum(y)
            if n is not None and lib.opq(n) is None and not n.u:
                return const(0.0)
            if n is not None:
                return num(ring.app('opq', term('std', num(n.rf))))
            return term('std', y)
        return lib.elementwise(st, lambda x: V.apply(one, x), args[0])
    E['uncertainties.unumpy.std_devs'] = std_dev
    E['uncertainties.std_dev'] = std_dev
    E['uncertainties.core.std_dev'] = std_dev

    def uarray(st, args, kw, node):
        a = args[0]
        if isinstance(a, Tup) and len(args) == 1:
            a = a.items[0]
        its, sh = arrval(st, a)
        return I.new_arr(st, [V.apply(lambda x: num(x.rf, True) if isinstance(x, Num) else x, i) for i in its], sh, 'O')
    E['uncertainties.unumpy.uarray'] = uarray
    E['uncertainties.unumpy.matrix'] = np_array

    E['numpy.vectorize'] = lambda st, a, k, n: lib.pyfunc('vectorized', lambda st, args, kw, node: lib.elementwise(
        st, lambda *xs: I.call(st, a[0], list(xs), {}, node), *args))

    def npfloat(st, args, kw, node):
        return E['builtins.float'](st, args, kw, node)
    for n in ('numpy.float64', 'numpy.float32', 'numpy.double'):
        E[n] = npfloat

    def isnan(st, args, kw, node):
        def one(y):
            n = lib.tonum(y)
            if n is not None and n.rf.is_const():
                return FALSE
            return V.cond_atom(('isnan', y))
        return lib.elementwise(st, lambda x: V.apply(one, x), args[0])
    E['numpy.isnan'] = isnan

    def array_equal(st, args, kw, node):
        return R['all'](st, [lib.compare(st, 'Eq', args[0], args[1], node)], {}, node)
    E['numpy.array_equal'] = array_equal

    def block(st, args, kw, node):
        rows = lib.iterate(st, args[0], node)
        rr = []
        for r in rows:
            cols = [arrval(st, c) for c in lib.iterate(st, r, node)]
            rr.append(concat_axis(st, cols, 1, node))
        return concat_axis(st, [arrval(st, r) for r in rr], 0, node)
    E['numpy.block'] = block

    def ix_(st, args, kw, node):
        ls = [arrval(st, a)[0] for a in args]
        return tup([I.new_arr(st, l, tuple(len(l) if i == j else 1 for j in range(len(ls))), 'i') for i, l in enumerate(ls)])
    E['numpy.ix_'] = ix_

    def delete(st, args, kw, node):
        its, sh = arrval(st, args[0])
        ax = kw.get('axis', args[2] if len(args) > 2 else NONE)
        ds = arrval(st, args[1])[0]
        ds = [lib.const_int(d) for d in ds]
        v = asarray(st, [args[0]], {}, node)
        if ax is NONE:
            keep = [i for i in range(len(its)) if i not in [d % len(its) for d in ds]]
            return I.new_arr(st, [its[i] for i in keep], (len(keep),))
        a = lib.const_int(ax) % len(sh)
        keep = [const(i) for i in range(sh[a]) if i not in [d % sh[a] for d in ds]]
        k = [V.slice_(NONE, NONE, NONE)] * len(sh)
        k[a] = I.new_list(st, keep)
        return lib.getitem(st, v, tup(k), node)
    E['numpy.delete'] = delete

    # -------------------------------------------------- array attributes
    def arr_attr(st, o, attr, node):
        if attr == 'T':
            return permute(o, tuple(range(len(o.shape)))[::-1])
        if attr == 'shape':
            return tup([const(i) for i in o.shape])
        if attr == 'size':
            return const(len(o.idx))
        if attr == 'ndim':
            return const(len(o.shape))
        if attr == 'dtype':
            return ext('numpy.dtype.' + ('f' if o.dt == 'd' else o.dt))
        if attr in ('real', 'imag'):
            return part(attr)(st, [o], {}, node)
        if attr in ('I',):
            return E['uncertainties.unumpy.ulinalg.pinv'](st, [o], {}, node)
        if attr == 'flat':
            return ravel(st, [o], {}, node)
        M = {'transpose': None, 'reshape': reshape, 'ravel': ravel, 'flatten': flatten, 'squeeze': squeeze,
             'dot': dot, 'copy': lambda st, a, k, n: I.new_arr(st, I.arr_items(st, a[0]), a[0].shape, a[0].dt),
             'tolist': None, 'astype': None, 'item': None, 'conj': conj, 'conjugate': conj,
             'repeat': repeat, 'cumsum': cumsum, 'swapaxes': swapaxes, 'argsort': argsort,
             'diagonal': diag, 'fill': None, 'sort': None}
        if attr in R:
            f = E.get('numpy.' + attr, R[attr])
        elif attr in M:
            f = M[attr]
        elif lib.arr_method(st, o, attr) is not None:
            return lib.arr_method(st, o, attr)
        elif attr in ('nominal_value', 'std_dev', 'append', 'keys', 'items', 'values'):
            I.raise_(st, 'AttributeError', string('array has no attribute ' + attr), node)
        else:
            raise lib.unsupported('array attribute ' + attr)
        if attr == 'transpose':
            def f(st, a, k, n):
                if len(a) > 2:
                    return transpose(st, [a[0], tup(a[1:])], k, n)
                return transpose(st, a, k, n)
        if attr == 'tolist':
            def f(st, a, k, n):
                def go(x):
                    if isinstance(x, Arr):
                        return I.new_list(st, [go(y) for y in lib.iterate(st, x, n)])
                    return x
                return go(a[0])
        if attr == 'item':
            def f(st, a, k, n):
                its = I.arr_items(st, a[0])
                return its[lib.const_int(a[1]) if len(a) > 1 else 0]
        if attr == 'fill':
            def f(st, a, k, n):
                lib.setitem(st, a[0], V.ELLIPSIS, a[1], n)
                return NONE
        if attr == 'astype':
            def f(st, a, k, n):
                d = a[1] if len(a) > 1 else k.get('dtype')
                its = I.arr_items(st, a[0])
                if isinstance(d, Ext) and d.path.split('.')[-1] in ('int', 'int64'):
                    return I.new_arr(st, [E['builtins.int'](st, [x], {}, n) for x in its], a[0].shape, 'i')
                if isinstance(d, Ext) and d.path.split('.')[-1] in ('float', 'float64'):
                    return I.new_arr(st, [V.apply(lambda y: num(y.rf, y.u, 'f') if isinstance(y, Num) else y, x) for x in its], a[0].shape, 'f')
                return I.new_arr(st, its, a[0].shape, a[0].dt)
        if attr == 'sort':
            raise lib.unsupported('in-place array sort')
        if f is None:
            raise lib.unsupported('array method ' + attr)
        return lib.pyfunc(attr, lambda st, a, k, n: f(st, [o] + list(a), k, n))
    lib.arr_attr = arr_attr

    # exceptions
    import libmodel
    for n in libmodel.BUILTINS:
        if n.endswith(('Error', 'Exception', 'Warning')) or n in ('StopIteration', 'KeyboardInterrupt'):
            E['builtins.' + n] = lib.exc_ctor(n)
    E['numpy.linalg.LinAlgError'] = lib.exc_ctor('LinAlgError')

    def subplots(st, args, kw, node):
        a = list(args)
        n = lib.const_int(lib.force(kw.get('nrows', a[0] if a else const(1))))
        m = lib.const_int(lib.force(kw.get('ncols', a[1] if len(a) > 1 else const(1))))
        s = next(I.serial)
        fig = term('figure', const(s))
        I.event(st, 'call', ('matplotlib.pyplot.subplots', None, tuple(I.freeze(st, x) for x in args),
                             {k: I.freeze(st, v) for k, v in kw.items()}, fig), node)
        if n is None or m is None:
            return tup((fig, term('axes', const(s))))
        if n == 1 and m == 1 and kw.get('squeeze') is not FALSE:
            return tup((fig, term('axes', const(s), string('only'))))
        if n < 1 or m < 1:
            I.raise_(st, 'ValueError', string('Number of %s must be a positive integer' % ('rows' if n < 1 else 'columns')), node)
        both = kw.get('squeeze') is FALSE
        its = [term('axes', const(s), *([const(i)] * (both or n != 1) + [const(j)] * (both or m != 1)))
               for i in range(n) for j in range(m)]
        sh = (n, m)
        if not both:
            sh = tuple(d for d in sh if d != 1)
        return tup((fig, I.new_arr(st, its, sh, 'O')))
    E['matplotlib.pyplot.subplots'] = subplots
