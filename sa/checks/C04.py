"""Relational value-graph analysis: the abstract result of a query with one or
more parameters given as arrays of distinct symbols is compared, slice by slice,
with the abstract results of the scalar queries at the k-th symbols. Both come
from the current source, so the rule is the stacking law itself and not a
formula. Covered: every parameter of every model as a single array, groups of
parameters, mixed array and scalar overrides, lengths 1..5 and the lengths equal
to state and input dimension, arrays, lists and tuples as containers, and every
public matrix or eigen query of the models."""
import an
import values as V
from common import *
ASSUMPTIONS = ['array lengths 1-5, 12 and 13 are enumerated; entries are symbolic',
               'the generated leaning-rider equations are an opaque function of their arguments here (C40 analyses them)',
               'eigen-decomposition is an opaque function of the matrix it is given']


def container(a, st, kind, name, n):
    its = [V.var('%s_%d' % (name, i)) for i in range(n)]
    if kind == 'array':
        return a.I.new_arr(st, its, (n,))
    if kind == 'list':
        return a.I.new_list(st, its)
    return tup(its)


def stacked(items):
    f = items[0]
    if isinstance(f, Frozen) and f.kind == 'array':
        return V.frozen('array', (len(items),) + f.meta, [x for i in items for x in i.items])
    return V.frozen('array', (len(items),), items)


def law(ctx, rule, a, st0, m, meth, arrs, scal, n, w, kind='array', kw=None, cache={}):
    tag = '%s arrays %s%s length %d%s%s' % (
        meth, '+'.join(arrs), ' scalars ' + '+'.join(scal) if scal else '', n,
        '' if kind == 'array' else ' as ' + kind, ' ' + str(sorted(kw)) if kw else '')
    with ctx.group(rule, tag, w):
        st = st0.fork()
        k = dict(kw or {})
        k.update({x: container(a, st, kind, x, n) for x in arrs})
        k.update({x: V.var(x + '_new') for x in scal})
        r = a.method(m, meth, kw=k, st=st)
        if not ctx.no_raise(rule + ' completes', tag, r, w):
            return
        got = r.frozen()
        want = []
        for i in range(n):
            key = (id(a), id(m), meth, tuple(arrs), tuple(scal), i, tuple(sorted(kw or {})))
            if key not in cache:
                k = dict(kw or {})
                k.update({x: V.var('%s_%d' % (x, i)) for x in arrs})
                k.update({x: V.var(x + '_new') for x in scal})
                cache[key] = a.method(m, meth, kw=k, st=st0.fork()).frozen()
            want.append(cache[key])
        for j in range(len(want[0].items)):
            ctx.equal(rule, '%s result %d' % (tag, j), got.items[j], stacked([x.items[j] for x in want]), w)


def check(ctx):
    for cls, mk, keys in (('Meijaard2007Model', meijaard, M07),
                          ('Meijaard2007WithFeedbackModel', feedback, M07FB)):
        a = ctx.analysis()
        st0, ps, d = mk(a, a.state())
        st0, m = model(a, st0, cls, ps)
        wc = ctx.where('models', 'Meijaard2007Model.form_reduced_canonical_matrices')
        w = ctx.where('models', cls + '.form_state_space_matrices')
        rule = cls + ' stack'
        for k in keys:
            law(ctx, rule, a, st0, m, 'form_state_space_matrices', [k], [], 2, w)
            if k in M07 and k not in ('v', 'g'):
                law(ctx, rule, a, st0, m, 'form_reduced_canonical_matrices', [k], [], 3, wc)
        for n in (1, 3, 4, 5) if not ctx.thorough else (1, 3, 4, 5, 6, 8):
            for arrs in (['v'], ['g'], ['mB'], ['v', 'zB'], ['g', 'v']):
                law(ctx, rule, a, st0, m, 'form_state_space_matrices', arrs, [], n, w)
            law(ctx, rule, a, st0, m, 'form_reduced_canonical_matrices', ['w', 'lam'], [], n, wc)
        for arrs, scal in ((['g', 'IFxx', 'v'], []), (['v'], ['mH']), (['mH'], ['v', 'g']), (['rF', 'rR'], ['lam']),
                           (['v'], ['g']), (['g'], ['v'])):
            law(ctx, rule, a, st0, m, 'form_state_space_matrices', arrs, scal, 2, w)
        for kind in ('list', 'tuple'):
            for arrs in (['v'], ['c'], ['v', 'xB', 'g']):
                law(ctx, rule, a, st0, m, 'form_state_space_matrices', arrs, [], 3, w, kind)
        for arrs, n in ((['v'], 2), (['mB'], 4), (['g', 'zH'], 3), (['v'], 1)):
            for left in (None, TRUE):
                law(ctx, cls + ' eigen stack', a, st0, m, 'calc_eigen', arrs, [], n,
                    ctx.where('models', '_Model.calc_eigen'), kw={'left': left} if left else None)
        if mk is feedback:
            for arrs, n in ((GAINS, 2), (['kTphi_phi', 'kTdel_deld', 'v'], 3), (['kTdel_phi'], 4), (['kTphi_del'], 1)):
                law(ctx, rule, a, st0, m, 'form_state_space_matrices', list(arrs), [], n, w)
            law(ctx, rule, a, st0, m, 'form_state_space_matrices', ['kTphi_del'], ['kTdel_phi', 'v'], 3, w)
            law(ctx, rule, a, st0, m, 'form_state_space_matrices', ['kTphi_deld', 'c'], [], 3, w, 'list')
    w = ctx.where('models', 'MooreRiderLean2012Model.form_state_space_matrices')
    a, st0, m, d = lean_model(ctx)
    rule = 'MooreRiderLean2012Model stack'
    for k in LEAN:
        law(ctx, rule, a, st0, m, 'form_state_space_matrices', [k], [], 2, w)
    for n in (1, 3, 12, 13):
        for arrs in (['v'], ['rr', 'v'], ['mc', 'd1']):
            law(ctx, rule, a, st0, m, 'form_state_space_matrices', arrs, [], n, w)
    law(ctx, rule, a, st0, m, 'form_state_space_matrices', ['v'], ['rr', 'd2'], 3, w)
    law(ctx, rule, a, st0, m, 'form_state_space_matrices', ['l1', 'rf'], ['v'], 3, w, 'list')
    law(ctx, rule, a, st0, m, 'form_state_space_matrices', ['v', 'g', 'k9'], [], 3, w, 'tuple')
    for arrs in (['v'], ['mc', 'v']):
        law(ctx, 'MooreRiderLean2012Model eigen stack', a, st0, m, 'calc_eigen', arrs, [], 2,
            ctx.where('models', '_Model.calc_eigen'))
