"""Value-graph dataflow over geometry.py's helpers with symbolic points, lines
and lengths; each result is decided by its defining identity in algebraic normal
form (squared distances, orthogonality and incidence of projections, link closure)
rather than by the formula used to compute it."""
import C15
import an
import values as V
from specs import mech
from common import *
ASSUMPTIONS = ['real arithmetic', 'inverse trigonometric functions return principal values']


def v(n):
    return ring.var(n)


def vec(nm, n=3):
    return [v('%s%d' % (nm, i)) for i in range(n)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def sq(x):
    return mech.dot(x, x)


def symv(a, st, nm, u=False, shape=(3,)):
    return a.I.new_arr(st, [V.var('%s%d' % (nm, i), u) for i in range(3)], shape)




def check(ctx):
    steer(ctx)
    line(ctx)
    project(ctx)
    angles(ctx)
    links(ctx)
    frame(ctx)
    for u in (False, True):
        C15.reference_vector(ctx, ctx.analysis(), u)


def steer(ctx):
    w = ctx.where('geometry', 'distance_to_steer_axis')
    for u in (False, True):
        t = ' (uncertain)' if u else ''
        a = ctx.analysis()
        with ctx.group('distance to steer axis', 'point in the plane' + t, w):
            st = a.state()
            p = a.I.new_arr(st, [V.var('x', u), const(0.0), V.var('z', u)], (3,))
            r = a.call(a.get('geometry', 'distance_to_steer_axis'), [V.var(n, u) for n in ('w', 'c', 'lam')] + [p], {}, st)
            if not ctx.no_raise('completes', 'distance_to_steer_axis' + t, r, w):
                continue
            # axis through (w + c, 0) on the ground, tilted back by lam
            n = (v('x') - v('w') - v('c')) * ring.cos(v('lam')) - v('z') * ring.sin(v('lam'))
            f = a.I.lib.tonum(r.frozen())
            ctx.equal('distance to steer axis', 'square of the distance' + t, num(f.rf ** 2), num(n ** 2), w)
            # at a point with positive offset the distance is positive
            st = a.state()
            p = a.I.new_arr(st, [num(v('w') + v('c') + ring.const(2)), const(0.0), const(0.0)], (3,))
            r = a.call(a.get('geometry', 'distance_to_steer_axis'), [V.var('w'), V.var('c'), const(0.0), p], {}, st)
            ctx.equal('distance to steer axis', 'vertical axis, two ahead' + t, r.frozen(), const(2), w)


def line(ctx):
    w = ctx.where('geometry', 'point_to_line_distance')
    for u in (False, True):
        t = ' (uncertain)' if u else ''
        a = ctx.analysis()
        with ctx.group('point to line', 'square of the distance' + t, w):
            st = a.state()
            pts = a.I.new_arr(st, [V.var('%s%d' % (n, i), u) for i in range(3) for n in 'ab'], (3, 2))
            r = a.call(a.get('geometry', 'point_to_line_distance'), [symv(a, st, 'p', u), pts], {}, st)
            if not ctx.no_raise('completes', 'point_to_line_distance' + t, r, w):
                continue
            d = sub(vec('b'), vec('a'))
            want = sq(cross(sub(vec('p'), vec('a')), d)) / sq(d)
            f = a.I.lib.tonum(r.frozen())
            ctx.equal('point to line', 'square of the distance' + t, num(f.rf ** 2), num(want), w)


def project(ctx):
    w = ctx.where('geometry', 'project_point_on_line')
    for u in (False, True):
        t = ' (uncertain)' if u else ''
        a = ctx.analysis()
        S = lambda *n: V.tup([V.var(x, u) for x in n])
        with ctx.group('projection on a line', 'project_point_on_line' + t, w):
            r = a.call(a.get('geometry', 'project_point_on_line'), [S('m', 'b'), S('x', 'y')])
            if not ctx.no_raise('completes', 'project_point_on_line' + t, r, w):
                continue
            f = r.frozen()
            X, Y = f.items[0].rf, f.items[1].rf
            ctx.equal('projection on a line', 'lies on the line' + t, num(Y), num(v('m') * X + v('b')), w)
            ctx.equal('projection on a line', 'perpendicular' + t,
                      num((v('x') - X) + v('m') * (v('y') - Y)), const(0), w)
    w = ctx.where('geometry', 'vec_project')
    for sh in ((3, 1), (3,)):
        for k in range(3):
            a = ctx.analysis()
            with ctx.group('projection into a plane', 'coordinate direction %d %s' % (k, sh), w):
                st = a.state()
                r = a.call(a.get('geometry', 'vec_project'), [symv(a, st, 'p', False, sh), const(k)], {}, st)
                if ctx.no_raise('completes', 'vec_project(int %d) %s' % (k, sh), r, w):
                    ctx.equal('projection into a plane', 'coordinate direction %d %s' % (k, sh), r.frozen(),
                              an.matrix([[v('p%d' % i) if i != k else mech.Z] for i in range(3)]), w)
        a = ctx.analysis()
        with ctx.group('projection into a plane', 'any direction %s' % (sh,), w):
            st = a.state()
            r = a.call(a.get('geometry', 'vec_project'), [symv(a, st, 'p', False, sh), symv(a, st, 'n')], {}, st)
            if ctx.no_raise('completes', 'vec_project(array) %s' % (sh,), r, w):
                p, n = vec('p'), vec('n')
                k = mech.dot(p, n) / sq(n)
                ctx.equal('projection into a plane', 'any direction %s' % (sh,), r.frozen(),
                          an.matrix([[p[i] - k * n[i]] for i in range(3)]), w)


def angles(ctx):
    w = ctx.where('geometry', 'vec_angle')
    a = ctx.analysis()
    with ctx.group('angle between vectors', 'vec_angle', w):
        st = a.state()
        r = a.call(a.get('geometry', 'vec_angle'), [symv(a, st, 'a', False, (3, 1)), symv(a, st, 'b', False, (3, 1))], {}, st)
        if ctx.no_raise('completes', 'vec_angle', r, w):
            A, B = vec('a'), vec('b')
            f = a.I.lib.tonum(r.frozen())
            c = ring.cos(f.rf)
            ctx.equal('angle between vectors', 'cosine', num(c * ring.sqrt(sq(A)) * ring.sqrt(sq(B))), num(mech.dot(A, B)), w)
            ctx.equal('angle between vectors', 'interior angle', r.frozen(),
                      num(ring.acos(mech.dot(A, B) / (ring.sqrt(sq(A)) * ring.sqrt(sq(B))))), w)


def links(ctx):
    w = ctx.where('geometry', 'calc_two_link_angles')
    a = ctx.analysis()
    with ctx.group('two links', 'calc_two_link_angles', w):
        r = a.call(a.get('geometry', 'calc_two_link_angles'), [V.var(n) for n in ('L1', 'L2', 'D')])
        if not ctx.no_raise('completes', 'calc_two_link_angles', r, w):
            return
        t1, t2 = [a.I.lib.tonum(x).rf for x in r.frozen().items]
        L1, L2, D = v('L1'), v('L2'), v('D')
        c1, s1, c2, s2 = ring.cos(t1), ring.sin(t1), ring.cos(t2), ring.sin(t2)
        eq = lambda nm, x, y: ctx.equal('two links', nm, num(x), num(y), w)
        # second link turned back by theta2: its end is (D, 0); decided through
        # the cosine rule so that only squares of sines appear
        eq('first angle: cosine rule', 2 * L1 * D * c1, L1 ** 2 + D ** 2 - L2 ** 2)
        eq('second angle: cosine rule', -2 * L1 * L2 * c2, L1 ** 2 + L2 ** 2 - D ** 2)
        # both angles are in [0, pi]: they are (pi minus) arc cosines
        for nm, x, cs in (('first', t1, c1), ('second', t2, c2)):
            ok = ring.zero_test(x - ring.acos(cs)) or ring.zero_test(x - (ring.PI - ring.acos(-cs))) \
                or ring.numerically_zero(x - ring.acos(cs)) or ring.numerically_zero(x - ring.PI + ring.acos(-cs))
            ctx.ob('two links', nm + ' angle within [0, pi]', True if ok else an.UNK, an.clip(ring.show(x), 200), w)


def frame(ctx):
    w = ctx.where('geometry', 'fundamental_geometry_plot_data')
    a = ctx.analysis()
    with ctx.group('frame outline', 'fundamental_geometry_plot_data', w):
        st = a.state()
        r = a.call(a.get('geometry', 'fundamental_geometry_plot_data'), [an.sdict(a, st, M07)], {}, st)
        if not ctx.no_raise('completes', 'fundamental_geometry_plot_data', r, w):
            return
        f = r.frozen()
        x = [i.rf for i in f.items[0].items]
        z = [i.rf for i in f.items[1].items]
        s, c = ring.sin(v('lam')), ring.cos(v('lam'))
        eq = lambda nm, p, q: ctx.equal('frame outline', nm, num(p), num(q), w)
        eq('rear hub x', x[0], mech.Z)
        eq('rear hub z', z[0], -v('rR'))
        eq('front hub x', x[3], v('w'))
        eq('front hub z', z[3], -v('rF'))
        for i, h, nm in ((1, 0, 'rear'), (2, 3, 'front')):
            # foot of the perpendicular from the hub on the steer axis
            eq('%s offset foot on the steer axis' % nm, (x[i] - v('w') - v('c')) * c - z[i] * s, mech.Z)
            eq('%s offset perpendicular to the axis' % nm, (x[i] - x[h]) * s + (z[i] - z[h]) * c, mech.Z)
