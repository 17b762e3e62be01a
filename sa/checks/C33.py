"""Effect-trace interpretation of the plotting functions: every line, patch, text, title
and label that reaches an axes object is collected with its symbolic data, and compared
with what it stands for: circles at the wheels, the frame through the feet of the
perpendiculars on the steer axis, mass centres, radii of gyration, ellipsoids of the
computed full size, one curve per eigenvalue part, component, state, input or gain, on the
axes whose label names it."""
import an
import ring
import values as V
from common import *
import draw
import plots
from draw import shapes, find, line_is, match, same, calls, unopq
TECHNIQUE = 'effect-trace interpretation of the plotting functions, symbolic comparison of drawn data'
ASSUMPTIONS = ['matplotlib and plotly draw what they are given', 'real arithmetic']


def v(x):
    return ring.var(x)


def N(rf):
    return num(rf)


def steer_frame(zs=1):
    """The four points of the frame line; zs is the sign of the vertical coordinate."""
    w, c, lam, rR, rF = v('w'), v('c'), v('lam'), v('rR'), v('rF')
    s, co = ring.sin(lam), ring.cos(lam)
    g = (w + c, ring.RZERO if hasattr(ring, 'RZERO') else ring.const(0))
    d = (-s, -co)            # up along the steer axis, z down

    def foot(px, pz):
        k = (px - g[0]) * d[0] + (pz - g[1]) * d[1]
        return g[0] + k * d[0], g[1] + k * d[1]
    r = (ring.const(0), -rR)
    f = (w, -rF)
    return [r, foot(*r), foot(*f), f], (g[0], g[1])


def pts(ps, zs=1):
    return [(N(x), N(z * ring.const(zs))) for x, z in ps]


def given(ctx, kind, u=False):
    a = ctx.analysis()
    st = a.state()
    r, d = make_set(a, st, kind)
    return a, r.st, r.value, d


def on(ctx, tag, ss, ax, w):
    ctx.ob('target axes', tag, all(s.ax is ax for s in ss), '%d shapes' % len(ss), w)


def down(ctx, tag, r, w):
    """z points down: the vertical axis ends up inverted exactly once."""
    inv = [e for e in calls(r, 'invert_yaxis')]
    if not inv:
        ctx.ob('z points down', tag, False, 'the vertical axis is never inverted', w)
        return
    asked = [e for e in calls(r, 'yaxis_inverted')]
    ctx.ob('z points down', tag, bool(asked) or len(inv) == 1, '', w)


def geometry(ctx, kind):
    w = ctx.where('parameter_sets', kind + 'ParameterSet.plot_geometry')
    for axis in (True, False, None):
        tag = '%s geometry %s' % (kind, {True: 'with steer axis', False: 'without steer axis', None: 'default'}[axis])
        with ctx.group('geometry', tag, w):
            a, st, ps, _ = given(ctx, kind)
            ax = V.term('axes', string('given'))
            kw = {'ax': ax}
            if axis is not None:
                kw['show_steer_axis'] = V.boolean(axis)
            r = a.method(ps, 'plot_geometry', [], kw, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            ss = shapes(a, r)
            on(ctx, tag, ss, ax, w)
            cir = [s for s in ss if s.kind == 'circle']
            wheels(ctx, tag, cir, -1, w)
            fr, gr = steer_frame()
            lines = [s for s in ss if s.kind == 'line']
            find(ctx, 'geometry', tag + ' frame', [s for s in lines if len(draw.seq(s.data['x']) or []) != 2], lambda s: line_is(s, pts(fr)), 'wheel centres and perpendiculars to the steer axis', w)
            two = [s for s in lines if len(draw.seq(s.data['x']) or [0, 0]) == 2]
            if axis is not False:
                find(ctx, 'geometry', tag + ' steer axis', two, lambda s: line_is(s, pts([fr[2], gr])), 'steer axis down to the ground at w + c', w)
            else:
                ctx.ob('geometry', tag + ' steer axis', not two, '%d lines' % len(two), w)
            ctx.ob('returned', tag, unopq(a, r.value) is ax, V.show(r.value, 2), w)
            down(ctx, tag, r, w)


def wheels(ctx, tag, cir, zs, w):
    for nm, x, rad in (('rear', ring.const(0), v('rR')), ('front', v('w'), v('rF'))):
        find(ctx, 'wheels', '%s %s wheel' % (tag, nm), cir,
             lambda s: match(s.data, {'center': tup([N(x), N(rad * ring.const(zs))]), 'radius': N(rad)}),
             'circle at the wheel centre touching the ground', w)
    ctx.ob('wheels', tag, len(cir) == 2, '%d circles' % len(cir), w)


def center_of(kind, a, st, ps, body):
    r = a.method(ps, 'form_mass_center_vector', [string(body)], {}, st.fork())
    c = r.frozen().items
    return c[0], c[2]


def labels(ctx, a, st, ps):
    return [x.lit for x in a.I.freeze(st, a.I.lib.getattr(st, ps, 'body_labels', None)).items]


def color_of(a, st, ps, body):
    return a.I.freeze(st, a.I.lib.getitem(st, a.I.lib.getattr(st, ps, 'body_colors', None), string(body), None))


def symbol(ctx, a, st, tag, ss, c, col, body, w):
    """One mass centre symbol: circle and two opposite quarter wedges, and its letter."""
    ctr = tup(list(c))
    cir = find(ctx, 'mass centre', tag + ' circle', [s for s in ss if s.kind == 'circle'], lambda s: match(s.data, {'center': ctr}), V.show(ctr, 3)[:80], w)
    wd = [s for s in ss if s.kind == 'wedge']
    for t1, t2 in ((0, 90), (180, 270)):
        s = find(ctx, 'mass centre', '%s wedge %d' % (tag, t1), wd, lambda s: match(s.data, {'center': ctr, 'theta1': const(t1), 'theta2': const(t2)}), 'quarter filled', w)
        if s is not None:
            ctx.equal('mass centre', '%s wedge %d colour' % (tag, t1), s.style.get('color', NONE), col, w)
            if cir is not None:
                ctx.equal('mass centre', '%s wedge %d radius' % (tag, t1), s.data['radius'], cir.data['radius'], w)
    tx = [s for s in ss if s.kind == 'text' and same(s.data['s'], string(body)) == an.EQ]
    ctx.ob('mass centre', tag + ' letter', len(tx) == 1, '%d texts %s' % (len(tx), body), w)
    if tx and cir is not None:
        # the letter stands beside its own symbol: off by a multiple of the symbol's radius
        for k, c0 in (('x', c[0]), ('y', c[1])):
            q = a.I.lib.binop(st, 'Div', a.I.lib.binop(st, 'Sub', tx[0].data[k], c0, None), cir.data['radius'], None)
            lv = [x for _, x in V.leaves(q)]
            ok = all(isinstance(x, V.Num) and x.rf.is_const() for x in lv)
            ctx.ob('mass centre', '%s letter %s' % (tag, k), ok, V.show(q, 3)[:100], w)


def centres(ctx, kind):
    w = ctx.where('parameter_sets', kind + 'ParameterSet.plot_mass_centers')
    a, st, ps, _ = given(ctx, kind)
    labs = labels(ctx, a, st, ps)
    for bodies in (None, [labs[1]], [labs[2], labs[0]]):
        tag = '%s mass centres %s' % (kind, 'all' if bodies is None else '+'.join(bodies))
        with ctx.group('mass centre', tag, w):
            ax = V.term('axes', string('given'))
            s2 = st.fork()
            kw = {'ax': ax}
            if bodies:
                kw['bodies'] = a.I.new_list(s2, strs(*bodies))
            r = a.method(ps, 'plot_mass_centers', [], kw, s2)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            ss = shapes(a, r)
            on(ctx, tag, ss, ax, w)
            want = bodies or labs
            ctx.ob('mass centre', tag + ' count', len([s for s in ss if s.kind == 'circle']) == len(want), '%d symbols for %s' % (len([s for s in ss if s.kind == 'circle']), want), w)
            for b in want:
                symbol(ctx, a, st, '%s %s' % (tag, b), ss, center_of(kind, a, st, ps, b), color_of(a, st, ps, b), b, w)
            ctx.ob('returned', tag, unopq(a, r.value) is ax, V.show(r.value, 2), w)
            down(ctx, tag, r, w)


def stub_radii(ctx, a):
    """Radii of gyration of the Meijaard sets as symbols (decided separately)."""
    q = 'Meijaard2007ParameterSet._planar_principal_radii_of_gyration'
    if q not in ctx.project.module('parameter_sets').functions:
        return False

    def f(st, args, kw, node):
        _, body = ordered(ctx, 'parameter_sets', q, args, kw)
        b = a.I.freeze(st, body).lit
        return tup([V.var('k%saa' % b), V.var('k%sbb' % b), V.var('k%syy' % b), V.var('alpha%s' % b)])
    a.I.stubs[('parameter_sets', q)] = f
    return True


def gyration(ctx, kind):
    w = ctx.where('parameter_sets', kind + 'ParameterSet.plot_principal_radii_of_gyration')
    we = ctx.where('parameter_sets', kind + 'ParameterSet.plot_principal_inertia_ellipsoids')
    a, st, ps, _ = given(ctx, kind)
    if kind != 'Moore2019' and not stub_radii(ctx, a):
        ctx.ob('radii of gyration', kind, an.UNK, 'no function for the radii', w)
        return
    labs = labels(ctx, a, st, ps)

    def radii(b):
        if kind == 'Moore2019':
            p = a.I.lib.getattr(st, ps, 'parameters', None)
            f = a.I.freeze(st, p)
            d = {f.items[i].lit: f.items[i + 1] for i in range(0, len(f.items), 2)}
            r = a.method(ps, '_calc_derived_params', [], {}, st.fork())
            f = r.frozen()
            d.update({f.items[i].lit: f.items[i + 1] for i in range(0, len(f.items), 2)})
            return [a.I.lib.tonum(d[x % b]).rf for x in ('k%saa', 'k%sbb', 'k%syy', 'alpha%s')]
        return [v(x % b) for x in ('k%saa', 'k%sbb', 'k%syy', 'alpha%s')]
    for bodies in (None, [labs[-1]], [labs[2], labs[0]]):
        tag = '%s radii %s' % (kind, 'all' if bodies is None else '+'.join(bodies))
        with ctx.group('radii of gyration', tag, w):
            ax = V.term('axes', string('given'))
            s2 = st.fork()
            kw = {'ax': ax}
            if bodies:
                kw['bodies'] = a.I.new_list(s2, strs(*bodies))
            r = a.method(ps, 'plot_principal_radii_of_gyration', [], dict(kw), s2)
            if ctx.no_raise('completes', tag, r, w):
                ss = shapes(a, r)
                on(ctx, tag, ss, ax, w)
                down(ctx, tag, r, w)
                want = bodies or labs
                ctx.ob('radii of gyration', tag + ' count', len(ss) == 3 * len(want), '%d shapes for %s' % (len(ss), want), w)
                for b in want:
                    kaa, kbb, kyy, al = radii(b)
                    col = color_of(a, st, ps, b)
                    mine = [s for s in ss if same(s.style.get('color', NONE), col) == an.EQ]
                    ctx.ob('radii of gyration', '%s %s colour' % (tag, b), len(mine) == 3, '%d shapes in the colour of the body' % len(mine), w)
                    x, z = [q.rf for q in center_of(kind, a, st, ps, b)]
                    find(ctx, 'radii of gyration', '%s %s about y' % (tag, b), [s for s in mine if s.kind == 'circle'],
                         lambda s: match(s.data, {'center': tup([N(x), N(z)]), 'radius': N(kyy)}), 'circle of radius kyy', w)
                    # a radius about one axis is laid off along the other
                    ca, sa = ring.cos(al), -ring.sin(al)          # direction of the aa axis (x, z)
                    for nm, k, dx, dz in (('bb', kbb, ca, sa), ('aa', kaa, -sa, ca)):
                        find(ctx, 'radii of gyration', '%s %s about %s' % (tag, b, nm), [s for s in mine if s.kind == 'line'],
                             lambda s: line_is(s, pts([(x - k * dx, z - k * dz), (x + k * dx, z + k * dz)])), 'line of half length k' + nm, w)
        tag = '%s ellipsoids %s' % (kind, 'all' if bodies is None else '+'.join(bodies))
        with ctx.group('ellipsoid', tag, we):
            s2 = st.fork()
            kw = {'ax': ax}
            if bodies:
                kw['bodies'] = a.I.new_list(s2, strs(*bodies))
            r = a.method(ps, 'plot_principal_inertia_ellipsoids', [], kw, s2)
            if ctx.no_raise('completes', tag, r, we):
                ss = shapes(a, r)
                on(ctx, tag, ss, ax, we)
                down(ctx, tag, r, we)
                want = bodies or labs
                ctx.ob('ellipsoid', tag + ' count', len(ss) == len(want), '%d shapes for %s' % (len(ss), want), we)
                for b in want:
                    kaa, kbb, kyy, al = radii(b)
                    x, z = [q.rf for q in center_of(kind, a, st, ps, b)]
                    s = find(ctx, 'ellipsoid', '%s %s centre' % (tag, b), [s for s in ss if s.kind == 'ellipse'],
                             lambda s: match(s.data, {'center': tup([N(x), N(z)])}) if same(s.style.get('color', NONE), color_of(a, st, ps, b)) == an.EQ else an.DIFF, 'ellipse at the mass centre', we)
                    if s is None:
                        continue
                    # uniform ellipsoid: k^2 about an axis is a fifth of the sum of the
                    # other two semi-axes squared
                    for nm, sq in (('width', kyy * kyy + kbb * kbb - kaa * kaa), ('height', kyy * kyy + kaa * kaa - kbb * kbb)):
                        full = a.I.lib.tonum(s.data[nm]).rf
                        ctx.equal('ellipsoid', '%s %s %s' % (tag, b, nm), N(full), N(ring.const(2) * ring.sqrt(sq * ring.const(5) / ring.const(2))), s.where)
                    ctx.equal('ellipsoid', '%s %s angle' % (tag, b), s.data.get('angle', const(0)), N(-al * ring.const(180) / ring.PI), s.where)


def scaled_eigenvalue(q):
    """Whether q is one eigenvalue times a factor that depends on parameters."""
    t = list(q.rf.n.t)
    if len(t) != 1:
        return False
    at = [ring.atom_by_id(i) for i in q.rf.atoms()]
    e = [x for x in at if x.head == 'opq' and getattr(x.args[0], 'head', None) == 'eigval']
    return len(e) == 1 and len(at) > 1 and all(x in e or x.head == 'var' for x in at)


def planar(ctx):
    q = 'Meijaard2007ParameterSet._planar_principal_radii_of_gyration'
    if q not in ctx.project.module('parameter_sets').functions:
        ctx.ob('planar radii', 'Meijaard2007', an.UNK, 'no such function', 'parameter_sets.py')
        return
    w = ctx.where('parameter_sets', q)
    a, st, ps, _ = given(ctx, 'Meijaard2007')
    for b in 'BFHR':
        with ctx.group('planar radii', b, w):
            r = a.method(ps, '_planar_principal_radii_of_gyration', [string(b)], {}, st.fork())
            if not ctx.no_raise('completes', b, r, w):
                continue
            I = a.method(ps, 'form_inertia_tensor', [string(b)], {}, st.fork()).frozen().items
            m = v('m' + b)
            f = r.frozen().items
            ctx.equal('planar radii', b + ' kyy', a.I.lib.binop(st, 'Mult', a.I.lib.binop(st, 'Mult', f[2], f[2], None), N(m), None), I[4], w)
            n = 0
            for pc, x in V.leaves(f[0]):
                kmin, al = V.restrict(f[1], pc), V.restrict(f[3], pc)
                for pc2, y in V.leaves(tup([kmin, al])):
                    n += 1
                    tag = '%s case %d' % (b, n)
                    kmin, al = [V.restrict(q, V.and_(pc, pc2)) for q in y.items]
                    if not all(isinstance(q, V.Num) for q in (x, kmin, al)):
                        ctx.ob('planar radii', tag, an.UNK, V.show(y, 3)[:200], w)
                        continue
                    hi2, lo2 = N(x.rf * x.rf * m), N(kmin.rf * kmin.rf * m)
                    eh, el = eig_part(a, hi2), eig_part(a, lo2)
                    if eh is None or el is None:
                        off = [q for q, e in ((hi2, eh), (lo2, el)) if e is None and scaled_eigenvalue(q)]
                        if off:
                            ctx.ob('planar radii', tag, False, 'the squared radius times the mass is %s' % V.show(off[0], 4)[:200], w)
                            continue
                        ctx.ob('planar radii', tag, an.UNK, 'no eigenvalues over the mass: %s' % V.show(hi2, 4)[:200], w)
                        continue
                    for i, (g, q2) in enumerate(zip(eh[2].items, [I[0], I[2], I[6], I[8]])):
                        ctx.equal('planar radii', '%s tensor in the plane %d' % (tag, i), g, q2, w)
                    ctx.ob('planar radii', tag + ' pair', eh[3] != el[3] and eh[2] is el[2], 'eigenvalues %d and %d' % (eh[3], el[3]), w)
                    wrong = a.I.lib.compare(st, 'Lt', hi2, lo2, None)
                    wrong = V.and_(V.and_(pc, pc2), a.I.truth(wrong, st))
                    ctx.ob('planar radii', tag + ' largest first', not V.feasible(wrong), 'first radius belongs to the larger moment', w)
                    vx, vz = [num(ring.app('opq', V.term('eigvec', string(eh[1]), eh[2], const(k), const(eh[3])))) for k in (0, 1)]
                    at = lambda p, q: a.I.lib.call(st, V.ext('numpy.arctan2'), [num(p), num(q)], {}, None)
                    one, two = at(-vz.rf, vx.rf), at(vz.rf, -vx.rf)
                    u = an.worst(same(al, one), an.EQ)
                    if u != an.EQ and same(al, two) == an.EQ:
                        u = an.EQ
                    ctx.ob('planar radii', tag + ' angle', u, '%s, wanted the direction of the larger moment %s' % (V.show(al, 5)[:150], V.show(one, 5)[:150]), w)


def diamond(ctx):
    kind = 'Moore2019'
    w = ctx.where('parameter_sets', kind + 'ParameterSet.plot_person_diamond')
    for cross in (False, True):
        tag = 'person diamond' + (' with cross' if cross else '')
        with ctx.group('diamond', tag, w):
            a, st, ps, _ = given(ctx, kind)
            ax = V.term('axes', string('given'))
            r = a.method(ps, 'plot_person_diamond', [], {'ax': ax, 'show_cross': V.boolean(cross)}, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            ss = shapes(a, r)
            on(ctx, tag, ss, ax, w)
            down(ctx, tag, r, w)
            p = a.I.freeze(r.st, a.I.lib.getattr(r.st, ps, 'parameters', None))
            d = {p.items[i].lit: p.items[i + 1].rf for i in range(0, len(p.items), 2)}
            x, z, al, W, L = d['xP'], d['zP'], d['alphaP'], d['wP'], d['lP']
            c, s = ring.cos(al), ring.sin(al)
            h = ring.const(2)
            A = (x + W / h * c, z - W / h * s)
            B = (x - L / h * s, z - L / h * c)
            C = (x - W / h * c, z + W / h * s)
            D = (x + L / h * s, z + L / h * c)
            loop = [A, B, C, D]

            def is_loop(sh):
                best = an.DIFF
                q = draw.points(sh)
                if q is None:
                    return an.UNK
                if len(q) != 5:
                    return an.DIFF
                for k in range(4):
                    rot = loop[k:] + loop[:k]
                    u = line_is(sh, pts(rot + rot[:1]))
                    if u == an.EQ:
                        return u
                    if u == an.UNK:
                        best = u
                return best
            find(ctx, 'diamond', tag + ' outline', [q for q in ss if q.kind == 'line' and len(draw.seq(q.data['x']) or []) > 2], is_loop, 'closed through the ends of width and length', w)
            two = [q for q in ss if q.kind == 'line' and len(draw.seq(q.data['x']) or []) == 2]
            ctx.ob('diamond', tag + ' cross', len(two) == (2 if cross else 0), '%d lines' % len(two), w)
            if cross:
                find(ctx, 'diamond', tag + ' width', two, lambda q: line_is(q, pts([A, C])), 'width', w)
                find(ctx, 'diamond', tag + ' length', two, lambda q: line_is(q, pts([B, D])), 'length', w)


def everything(ctx, kind):
    """plot_all draws the union of the single plots."""
    w = ctx.where('parameter_sets', kind + 'ParameterSet.plot_all')
    with ctx.group('plot_all', kind, w):
        a, st, ps, _ = given(ctx, kind)
        if kind != 'Moore2019':
            stub_radii(ctx, a)
        ax = V.term('axes', string('given'))
        r = a.method(ps, 'plot_all', [], {'ax': ax}, st.fork())
        if not ctx.no_raise('completes', kind + ' plot_all', r, w):
            return
        ss = shapes(a, r)
        on(ctx, kind + ' plot_all', ss, ax, w)
        down(ctx, kind + ' plot_all', r, w)
        parts = ['plot_principal_radii_of_gyration', 'plot_principal_inertia_ellipsoids', 'plot_geometry', 'plot_mass_centers']
        if kind == 'Moore2019':
            parts.append('plot_person_diamond')
        n = 0
        for p in parts:
            one = shapes(a, a.method(ps, p, [], {'ax': ax}, st.fork()))
            n += len(one)
            miss = [s for s in one if not any(s.kind == q.kind and match(q.data, s.data) == an.EQ for q in ss)]
            ctx.ob('plot_all', '%s %s' % (kind, p), not miss, '%d of %d shapes missing' % (len(miss), len(one)), w)
        ctx.ob('plot_all', kind + ' nothing else', len(ss) == n, '%d shapes, %d expected' % (len(ss), n), w)


def fresh(ctx, kind):
    """Without an axes a new one is made, drawn on and returned."""
    for m, ar in (('plot_geometry', []), ('plot_mass_centers', []), ('plot_body_mass_center', ['F']), ('plot_principal_radii_of_gyration', []),
                  ('plot_body_principal_radii_of_gyration', ['H']), ('plot_principal_inertia_ellipsoids', []),
                  ('plot_body_principal_inertia_ellipsoid', ['R']), ('plot_all', [])) + ((('plot_person_diamond', []),) if kind == 'Moore2019' else ()):
        w = ctx.where('parameter_sets', '%sParameterSet.%s' % (kind, m))
        tag = '%s %s' % (kind, m)
        with ctx.group('new axes', tag, w):
            a, st, ps, _ = given(ctx, kind)
            if kind != 'Moore2019':
                stub_radii(ctx, a)
            r = a.method(ps, m, strs(*ar), {}, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            ss = shapes(a, r)
            new = calls(r, 'subplots')
            axs = {s.ax for s in ss}
            ctx.ob('new axes', tag, len(new) == 1 and len(axs) == 1 and unopq(a, r.value) in axs, '%d figures, %d axes' % (len(new), len(axs)), w)


def check(ctx):
    for kind in ('Meijaard2007', 'Moore2019'):
        geometry(ctx, kind)
        centres(ctx, kind)
        gyration(ctx, kind)
        everything(ctx, kind)
        fresh(ctx, kind)
    planar(ctx)
    diamond(ctx)
    plots.check(ctx)
