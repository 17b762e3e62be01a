"""Value-graph dataflow with algebraic normal forms over inertia.py and
conversions.py: each transformation's abstract result is compared with the
textbook expression over fully symbolic tensors (9 independent entries), masses,
offsets and angles; congruence invariants (trace, symmetric part) are compared
too. principal_axes is decided by following the eigenpair tags: entry k of the
moments and row k of the axes must be the same eigenpair, taken through the sort
permutation of the moments themselves."""
import an
import values as V
from specs import mech
from common import *
ASSUMPTIONS = ['real arithmetic', 'eigen-decomposition returns matching pairs (library contract)']


def symt(a, st, nm, u=False, n=3):
    return a.I.new_arr(st, [V.var('%s%d%d' % (nm, i, j), u) for i in range(n) for j in range(n)], (n, n))


def sm(nm):
    return mech.mat(lambda i, j: ring.var('%s%d%d' % (nm, i, j)))


def check(ctx):
    for u in (False, True):
        tag = ' (uncertain)' if u else ''
        # parallel axis
        for mod in ('inertia',):
            a = ctx.analysis()
            w = ctx.where('inertia', 'parallel_axis')
            with ctx.group('parallel axis', 'parallel_axis' + tag, w):
                st = a.state()
                d = a.I.new_arr(st, [V.var('d%d' % i, u) for i in range(3)], (3,))
                r = a.call(a.get(mod, 'parallel_axis'), [symt(a, st, 'I', u), V.var('m', u), d], {}, st)
                want = mech.shift(sm('I'), ring.var('m'), [ring.var('d%d' % i) for i in range(3)])
                if ctx.no_raise('completes', 'parallel_axis' + tag, r, w):
                    ctx.equal('parallel axis', 'parallel_axis' + tag, r.frozen(), an.matrix(want), w)
        for mod, fn in (('inertia', 'rotate_inertia_tensor'), ('conversions', '_rotate_inertia_about_y')):
            if u and mod == 'conversions':
                continue
            a = ctx.analysis()
            w = ctx.where(mod, fn)
            with ctx.group('rotation', fn + tag, w):
                st = a.state()
                r = a.call(a.get(mod, fn), [symt(a, st, 'I', u), V.var('angle', u)], {}, st)
                C = mech.roty(ring.var('angle'))
                if ctx.no_raise('completes', fn + tag, r, w):
                    f = r.frozen()
                    ctx.equal('rotation', fn + tag, f, an.matrix(mech.congr(C, sm('I'))), w)
                    tr = f.items[0].rf + f.items[4].rf + f.items[8].rf
                    ctx.equal('trace invariant', fn + tag, num(tr),
                              num(ring.var('I00') + ring.var('I11') + ring.var('I22')), w)
        scal(ctx, u, tag)
    two_bodies(ctx)
    parts(ctx)
    principal(ctx)


def scal(ctx, u, tag):
    v = ring.var
    a = ctx.analysis()
    w = ctx.where('inertia', 'tube_inertia')
    with ctx.group('tube', 'tube_inertia' + tag, w):
        r = a.call(a.get('inertia', 'tube_inertia'), [V.var(x, u) for x in ('l', 'm', 'ro', 'ri')])
        m, l, ro, ri = v('m'), v('l'), v('ro'), v('ri')
        ax = m * (ro * ro + ri * ri) / 2
        tr = m * (3 * (ro * ro + ri * ri) + l * l) / 12
        if ctx.no_raise('completes', 'tube_inertia' + tag, r, w):
            ctx.equal('tube', 'tube_inertia' + tag, r.frozen(), an.vector([ax, tr, tr]), w)
    with ctx.group('tube', 'solid rod' + tag, w):
        r = a.call(a.get('inertia', 'tube_inertia'), [V.var('l', u), V.var('m', u), V.var('ro', u), const(0.0)])
        ax = m * ro * ro / 2
        tr = m * (3 * ro * ro + l * l) / 12
        ctx.equal('tube', 'solid rod' + tag, r.frozen(), an.vector([ax, tr, tr]), w)
    pi = ring.PI
    w = ctx.where('inertia', 'torsional_pendulum_stiffness')
    with ctx.group('torsional stiffness', 'stiffness' + tag, w):
        r = a.call(a.get('inertia', 'torsional_pendulum_stiffness'), [V.var('I', u), V.var('T', u)])
        ctx.equal('torsional stiffness', 'torsional_pendulum_stiffness' + tag, r.frozen(),
                  num(v('I') * (2 * pi / v('T')) ** 2), w)
    w = ctx.where('inertia', 'tor_inertia')
    with ctx.group('torsional stiffness', 'inverse' + tag, w):
        # a body's inertia recovered from the stiffness it was calibrated with
        k = a.call(a.get('inertia', 'torsional_pendulum_stiffness'), [V.var('I', u), V.var('T', u)])
        r = a.call(a.get('inertia', 'tor_inertia'), [k.value, V.var('T', u)])
        ctx.equal('stiffness and inertia are inverse', 'tor_inertia(stiffness(I, T), T)' + tag, r.frozen(),
                  V.var('I'), w)


def two_bodies(ctx):
    a = ctx.analysis()
    w = ctx.where('conversions', '_sum_central_inertias')
    with ctx.group('union', '_sum_central_inertias', w):
        st = a.state()
        vec = lambda nm: a.I.new_arr(st, [V.var('%s%d' % (nm, i)) for i in range(3)], (3,))
        r = a.call(a.get('conversions', '_sum_central_inertias'),
                   [V.var('m1'), vec('a'), symt(a, st, 'I'), V.var('m2'), vec('b'), symt(a, st, 'J')], {}, st)
        sv = lambda nm: [ring.var('%s%d' % (nm, i)) for i in range(3)]
        m, c, I = mech.union([(ring.var('m1'), sv('a'), sm('I')), (ring.var('m2'), sv('b'), sm('J'))])
        ctx.equal('union', '_sum_central_inertias', r.frozen(), an.matrix(I), w)


def parts(ctx):
    w = ctx.where('inertia', 'part_inertia_tensor')
    keys = M07 + ['I%s%s' % (p, x) for p in 'GSD' for x in ('xx', 'xz', 'yy', 'zz')]
    for u in (False, True):
        a = ctx.analysis()
        for part in 'BHGSFRD':
            tag = part + (' (uncertain)' if u else '')
            with ctx.group('part tensor', tag, w):
                st = a.state()
                d = an.sdict(a, st, keys, u=u)
                r = a.call(a.get('inertia', 'part_inertia_tensor'), [d, string(part)], {}, st)
                p = lambda x: ring.var('I%s%s' % (part, x))
                if part in 'FRD':
                    want = mech.planar(p('xx'), ring.const(0), p('yy'), p('xx'))
                else:
                    want = mech.planar(p('xx'), p('xz'), p('yy'), p('zz'))
                if ctx.no_raise('completes', 'part_inertia_tensor ' + tag, r, w):
                    ctx.equal('part tensor', tag, r.frozen(), an.matrix(want), w)


def tuples(vs, pc):
    """Every joint valuation of the decision diagrams vs."""
    out = [(pc, ())]
    for v in vs:
        nxt = []
        for c, t in out:
            for c2, x in V.leaves(v, c):
                if V.feasible(c2):
                    nxt.append((c2, t + (x,)))
        out = nxt
    return out


def eigref(a, v):
    """('eigval', i) or ('eigvec', row, column) of a decomposition entry."""
    if not isinstance(v, Num):
        return None
    t = a.I.lib.opq(v)
    if not isinstance(t, V.Term):
        return None
    if t.head == 'attr' and t.args[1] is string('real'):
        t = t.args[0]
    if t.head not in ('eigval', 'eigvec'):
        return None
    return (t.head,) + tuple(int(x.rf.const()) for x in t.args[2:])


def less(a, x, y):
    return a.I.truth(a.I.lib.cmp1(a.st, 'Lt', x, y, None), a.st)


def joint(mo, ax, pc):
    """Joint valuations as (condition, 3 moments + 9 axis entries)."""
    for c, (m, x) in tuples([mo, ax], pc):
        if not (isinstance(m, Frozen) and m.meta == (3,) and isinstance(x, Frozen) and x.meta == (3, 3)):
            yield c, None
            continue
        for r in tuples(list(m.items) + list(x.items), c):
            yield r


def principal(ctx):
    w = ctx.where('inertia', 'principal_axes')
    a = ctx.analysis()
    with ctx.group('principal axes', 'pairing', w):
        st = a.state()
        r = a.call(a.get('inertia', 'principal_axes'), [symt(a, st, 'I')], {}, st)
        if not ctx.no_raise('completes', 'principal_axes', r, w):
            return
        f = r.frozen()
        for pc, x in V.leaves(f):
            if not isinstance(x, V.Tup):
                ctx.ob('principal axes', 'shape of the result', False, V.show(x), w)
                continue
            moments(ctx, a, x, pc, w)


def moments(ctx, a, f, pc0, w):
    """On every ordering of the eigenvalues the k-th moment and k-th row share
    one eigenpair and the moments ascend."""
    mo, ax = f.items
    n = 0
    for pc, t in joint(mo, ax, pc0):
        n += 1
        if t is None:
            ctx.ob('principal axes', 'shape of the result', False, V.show(f), w)
            return
        idx = []
        for k in range(3):
            e = eigref(a, t[k])
            if e is None or e[0] != 'eigval':
                ctx.ob('principal axes', 'moment %d' % k, an.UNK, V.show(t[k]), w)
                return
            idx.append(e[1])
        if sorted(idx) != [0, 1, 2]:
            ctx.ob('principal axes', 'every moment exactly once', False, 'moments %s when %s' % (idx, V.show_pc(pc)), w)
            return
        for k in range(3):
            for c in range(3):
                e = eigref(a, t[3 + 3 * k + c])
                if e is None or e[0] != 'eigvec':
                    ctx.ob('principal axes', 'axis %d' % k, an.UNK, V.show(t[3 + 3 * k + c]), w)
                    return
                if e[1:] != (c, idx[k]):
                    ctx.ob('principal axes', 'row %d belongs to moment %d' % (k, k), False,
                           'component %d is eigenvector entry %s of eigenvalue %s when %s' % (c, e[1], e[2], V.show_pc(pc)), w)
                    return
        for k in range(2):
            bad = V.and_(pc, less(a, t[k + 1], t[k]))
            if V.feasible(bad):
                ctx.ob('principal axes', 'ascending order', False, 'moment %d may exceed moment %d when %s' % (
                    k, k + 1, V.show_pc(bad)), w)
                return
    ctx.ob('principal axes', 'ascending moments, each with its own axis', True, '%d orderings' % n, w)
