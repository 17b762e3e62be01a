"""Value-graph dataflow over the pendulum relations of inertia.py with symbolic
mass, gravity, lengths and periods, exact or uncertain. The planar components are
decided through the normal equations: for symbolic measured inertias J and
orientation angles, A^T (A x - J) = 0 with rows (cos^2 b, -2 sin b cos b, sin^2 b),
which characterises the least-squares solution for any number of orientations
(3 in quick, 3 and 4 in thorough), and by recovering Ixx, Ixz, Izz exactly from
J built out of them."""
import an
import values as V
from specs import mech
from common import *
ASSUMPTIONS = ['pseudo-inverse of a full column rank matrix is (A^T A)^-1 A^T', 'real arithmetic']


def v(n):
    return ring.var(n)


def check(ctx):
    pi = ring.PI
    for u in (False, True):
        tag = ' (uncertain)' if u else ''
        a = ctx.analysis()
        S = lambda *n: [V.var(x, u) for x in n]
        w = ctx.where('inertia', 'compound_pendulum_inertia')
        with ctx.group('compound pendulum', 'inertia about the mass centre' + tag, w):
            r = a.call(a.get('inertia', 'compound_pendulum_inertia'), S('m', 'g', 'l', 'T'))
            m, g, l, T = v('m'), v('g'), v('l'), v('T')
            want = (T / (2 * pi)) ** 2 * m * g * l - m * l ** 2
            if ctx.no_raise('completes', 'compound_pendulum_inertia' + tag, r, w):
                ctx.equal('compound pendulum', 'inertia about the mass centre' + tag, r.frozen(), num(want, u), w, ignore_u=False)
                # period of a physical pendulum with that inertia: T = 2 pi sqrt((I + m l^2)/(m g l))
                I = r.frozen().rf
                ctx.equal('compound pendulum', 'its period is the measured one' + tag,
                          num((I + m * l ** 2) * (2 * pi) ** 2 / (m * g * l)), num(T ** 2), w)
        w = ctx.where('inertia', 'tor_inertia')
        with ctx.group('torsional pendulum', 'inertia' + tag, w):
            r = a.call(a.get('inertia', 'tor_inertia'), S('k', 'T'))
            if ctx.no_raise('completes', 'tor_inertia' + tag, r, w):
                ctx.equal('torsional pendulum', 'inertia' + tag, r.frozen(), num(v('k') * v('T') ** 2 / (4 * pi * pi), u), w, ignore_u=False)
        w = ctx.where('inertia', 'torsional_pendulum_stiffness')
        with ctx.group('torsional pendulum', 'stiffness' + tag, w):
            r = a.call(a.get('inertia', 'torsional_pendulum_stiffness'), S('I', 'T'))
            if ctx.no_raise('completes', 'torsional_pendulum_stiffness' + tag, r, w):
                ctx.equal('torsional pendulum', 'stiffness' + tag, r.frozen(), num(v('I') * (2 * pi / v('T')) ** 2, u), w, ignore_u=False)
    w = ctx.where('inertia', 'inertia_components')
    for n in (3, 4) if ctx.thorough else (3,):
        for u in (False, True):
            tag = '%d orientations%s' % (n, ' (uncertain)' if u else '')
            a = ctx.analysis()
            with ctx.group('planar components', tag, w):
                st = a.state()
                dt = 'O' if u else 'f'
                J = a.I.new_arr(st, [V.var('J%d' % i, u) for i in range(n)], (n,), dt)
                B = a.I.new_arr(st, [V.var('b%d' % i, u) for i in range(n)], (n,), dt)
                r = a.call(a.get('inertia', 'inertia_components'), [J, B], {}, st)
                if not ctx.no_raise('completes', 'inertia_components, ' + tag, r, w):
                    continue
                f = r.frozen()
                ok = isinstance(f, Frozen) and f.meta == (3,)
                ctx.ob('planar components', tag + ': three components', ok, V.show(f)[:200] if not ok else '(3,)', w)
                if not ok:
                    continue
                x = [i.rf for i in f.items]
                A = [[ring.cos(v('b%d' % i)) ** 2, -2 * ring.sin(v('b%d' % i)) * ring.cos(v('b%d' % i)),
                      ring.sin(v('b%d' % i)) ** 2] for i in range(n)]
                res = [sum((A[i][k] * x[k] for k in range(3)), mech.Z) - v('J%d' % i) for i in range(n)]
                for k, nm in enumerate(('Ixx', 'Ixz', 'Izz')):
                    ne = sum((A[i][k] * res[i] for i in range(n)), mech.Z)
                    ctx.equal('normal equations', '%s: %s' % (tag, nm), num(ne), const(0), w)
                if n == 3:
                    recover(ctx, a, u, tag, w)


def recover(ctx, a, u, tag, w):
    """Exact components come back from consistent data."""
    st = a.state()
    js, bs = [], []
    for i in range(3):
        b = v('b%d' % i)
        js.append(num(v('Ixx') * ring.cos(b) ** 2 - 2 * v('Ixz') * ring.sin(b) * ring.cos(b) + v('Izz') * ring.sin(b) ** 2, u))
        bs.append(num(b, u))
    J = a.I.new_arr(st, js, (3,))
    B = a.I.new_arr(st, bs, (3,))
    r = a.call(a.get('inertia', 'inertia_components'), [J, B], {}, st)
    ctx.equal('components recovered', tag, r.frozen(), an.vector([v('Ixx'), v('Ixz'), v('Izz')]), w)
    pipeline(ctx)


def pipeline(ctx):
    """The relations applied to the measurements of a whole bicycle."""
    import C18
    sub = Only(ctx, lambda rule, con: rule in ('pendulum inertia', 'orientation angle') or
               rule == 'measured to benchmark' and con.split(': ')[-1].startswith('I'))
    for split in (False, True):
        C18.one(sub, split, True, (3, 4, 3))
