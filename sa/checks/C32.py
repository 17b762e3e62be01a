"""Value-graph dataflow over the modal controllability routine with symbolic input
matrices and opaque left eigenvectors: every entry is compared with the arc cosine of
the normalised product of the eigenvector and the input column that its position names,
for scalar and array parameters, acute or not. The eigenvectors must be the left ones of
the same overrides; for arrays they must come from the mode-tracked ordering."""
import an
import values as V
from common import *
TECHNIQUE = 'value-graph dataflow (abstract interpretation) with exact algebraic comparison'
ASSUMPTIONS = ['calc_eigen (C27) and sort_eigenmodes (C28) are opaque here', 'input matrices are real']


def opq(*a):
    return num(ring.app('opq', V.term(*a)), False, 'c')


def shape(n, *s):
    return ((n,) if n else ()) + s


def sym(a, st, n, sh, f, k='f'):
    import itertools
    full = shape(n, *sh)
    return a.I.new_arr(st, [f(*ix) for ix in itertools.product(*map(range, full))], full, k)


def run(ctx, cls, n, acute, w):
    a = ctx.analysis()
    st = a.state()
    st, ps, d = (meijaard if cls == 'Meijaard2007Model' else feedback)(a, st)
    st, m = model(a, st, cls, ps)
    seen = {'fss': [], 'eig': [], 'sort': []}

    def keyed(st, kw):
        return {k: a.I.freeze(st, v) for k, v in kw.items()}

    def fss(st, args, kw, node):
        seen['fss'].append(keyed(st, kw))
        return tup([sym(a, st, n, (4, 4), lambda *i: V.var('A_' + '_'.join(map(str, i)))),
                    sym(a, st, n, (4, 2), lambda *i: V.var('B_' + '_'.join(map(str, i))))])

    def vecs(tag):
        def f(st):
            return [sym(a, st, n, (4,), lambda *i: opq('in', string(tag + 'val'), *map(const, i)), 'c'),
                    sym(a, st, n, (4, 4), lambda *i: opq('in', string(tag), *map(const, i)), 'c')]
        return f

    def eig(st, args, kw, node):
        k = dict(kw)
        left = k.pop('left', args[1] if len(args) > 1 else FALSE)
        seen['eig'].append((left, keyed(st, k)))
        r = vecs('left' if left is TRUE else 'right')(st)
        seen['raw'] = [a.I.freeze(st, x) for x in r]
        return tup(r)

    def sort(st, args, kw, node):
        fz = [a.I.freeze(st, x) for x in args]
        ok = fz == seen.get('raw')
        seen['sort'].append(ok)
        return tup(vecs('sorted' if ok else 'unrelated')(st))
    for c in ('Meijaard2007Model', 'Meijaard2007WithFeedbackModel'):
        a.I.stubs[('models', c + '.form_state_space_matrices')] = fss
        a.I.stubs[('models', c + '.calc_eigen')] = eig
    a.I.stubs[('models', '_Model.calc_eigen')] = eig
    a.I.stubs[('bicycle', 'sort_eigenmodes')] = sort
    kw = {}
    if n:
        kw['v'] = symarray(a, st, 'v', n)
        kw['g'] = V.var('grav')
    else:
        kw['v'] = V.var('speed')
    want = {k: a.I.freeze(st, x) for k, x in kw.items()}
    if acute is not None:
        kw['acute'] = V.boolean(acute)
    r = a.method(m, '_calc_modal_controllability', [], kw, st)
    return a, r, seen, want


def angle(a, r, tag, i, j, k, acute):
    st = r.st
    pre = (k,) if k is not None else ()
    q = a.I.new_arr(st, [opq('in', string(tag), *map(const, pre + (c, i))) for c in range(4)], (4,), 'c')
    b = a.I.new_arr(st, [V.var('B_' + '_'.join(map(str, pre + (c, j)))) for c in range(4)], (4,))
    call = lambda f, *x: a.I.lib.call(st, V.ext(f), list(x), {}, None)
    top = call('numpy.real', call('numpy.vdot', q, b))
    den = a.I.lib.binop(st, 'Mult', call('numpy.linalg.norm', q), call('numpy.linalg.norm', b), None)
    c = a.I.lib.binop(st, 'Div', top, den, None)
    if acute:
        c = call('numpy.abs', c)
    return call('numpy.arccos', c)


def check(ctx):
    for cls in ('Meijaard2007Model', 'Meijaard2007WithFeedbackModel'):
        w = ctx.where('models', 'Meijaard2007Model._calc_modal_controllability')
        for n in (0, 1, 2, 3):
            for acute in (None, True, False):
                t = '%s %s%s' % (cls, 'array of %d' % n if n else 'scalar', '' if acute is None else ' acute' if acute else ' signed')
                with ctx.group('angle', t, w):
                    a, r, seen, want = run(ctx, cls, n, acute, w)
                    if not ctx.no_raise('completes', t, r, w):
                        continue
                    f = r.frozen()
                    ok = f.meta == shape(n, 4, 2)
                    ctx.ob('shape', t, ok, str(f.meta), w)
                    ctx.ob('same overrides', t, all(x == want for x in seen['fss']) and all(x == want for _, x in seen['eig']) and
                           bool(seen['fss']) and bool(seen['eig']), '%s %s' % (seen['fss'], seen['eig']), w)
                    ctx.ob('left eigenvectors', t, all(l is TRUE for l, _ in seen['eig']), '', w)
                    ctx.ob('mode tracked', t, (seen['sort'] == [True]) if n else all(seen['sort']), str(seen['sort']), w)
                    if not ok:
                        continue
                    for k in (range(n) if n else [None]):
                        for i in range(4):
                            for j in range(2):
                                at = ((k or 0) * 4 + i) * 2 + j
                                ctx.equal('angle', '%s mode %d input %d%s' % (t, i, j, '' if k is None else ' at %d' % k), f.items[at],
                                          angle(a, r, 'sorted' if n else 'left', i, j, k, acute is not False), w)
