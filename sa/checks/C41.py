"""Dimension inference on the value graph: every input carries the physical dimension
its name is documented to have (mass, length, time; angles are pure numbers), every
sum, comparison and function argument formed while a formula is interpreted must be
homogeneous, and each result must have the dimension of the quantity it is stored or
returned as. An ill-dimensioned operation is reported at the operation itself. In
trigonometric arguments, measurements in degrees must carry the factor pi/180."""
import re
import an
import dims as DM
import values as V
from dims import D, D0, ANY, MASS, LENGTH, TIME, SIGNAL, INERTIA, TORQUE, SPEED, ACCEL
from common import *
import C13
import C15
import C18
import C20
TECHNIQUE = 'dimension inference over value-graph dataflow (type-and-effect analysis on expressions in normal form)'
ASSUMPTIONS = ['symbols have the dimensions documented for their names; angles are pure numbers',
               'the roots found by scipy.optimize.newton and fsolve have the dimension of their first guess']
DEG = re.compile(r'(gamma$|alpha[A-Z]\d+$|alpha$)')


def v(n):
    return ring.var(n)


def analyse(ctx, tab=None, **cfg):
    a = ctx.analysis(**cfg)
    w = DM.Watch(a, DM.Dims(DM.table(tab)))
    a.watch = w
    return a


def leaf(ctx, rule, tag, dims, x, want, w):
    """x has dimension want."""
    xs = [x] if isinstance(x, Num) else [y for _, y in V.leaves(x)]
    for y in xs:
        if isinstance(y, V.Term) or y is V.NONE:
            ctx.ob(rule, tag, an.UNK, 'result is %s' % V.show(y)[:80], w)
            continue
        if not isinstance(y, Num):
            ctx.ob(rule, tag, an.UNK, 'result is %s' % V.show(y)[:80], w)
            continue
        try:
            d = dims.value(y)
        except DM.Ill as e:
            ctx.ob(rule, tag, False, str(e), w)
            continue
        if d is None:
            ctx.ob(rule, tag, an.UNK, 'dimension unknown: %s' % an.clip(ring.show(y.rf), 200), w)
        elif d == ANY:
            ctx.ob(rule, tag, True, 'zero', w)
        else:
            ctx.ob(rule, tag, tuple(d) == tuple(want), 'has %s, is documented as %s' % (DM.show(d), DM.show(want)), w)


def degrees(ctx, tag, fz, w):
    """Within trigonometric arguments degrees are scaled by pi."""
    bad = []
    for x in fz:
        for at in ring.all_atoms(x.rf).values():
            if at.head in ('sin', 'cos', 'tan'):
                arg = at.args[0]
                if arg.d:
                    continue
                for m, c in arg.n.t.items():
                    heads = {ring.atom_by_id(i): e for i, e in m}
                    deg = sum(e for k, e in heads.items() if k.head == 'var' and DEG.match(str(k.args[0])))
                    pi = sum(e for k, e in heads.items() if k.head == 'pi')
                    if deg != pi and deg:
                        bad.append(ring.show(arg)[:100])
    ctx.ob('degrees become radians', tag, not bad, 'argument %s' % bad[0] if bad else 'all trigonometric arguments', w)


def flat(f):
    out = []
    for x in f.items if isinstance(f, (V.Frozen, V.Tup)) else [f]:
        if isinstance(x, (V.Frozen, V.Tup)):
            out += flat(x)
        else:
            for _, y in V.leaves(x):
                if isinstance(y, (V.Frozen, V.Tup)):
                    out += flat(y)
                elif isinstance(y, Num):
                    out.append(y)
    return out


def report(ctx, a, tag, w):
    bad = a.watch.bad
    for msg, at in sorted(bad.items()):
        ctx.ob('terms and arguments are homogeneous', tag, False, msg, at)
    if not bad:
        ctx.ob('terms and arguments are homogeneous', tag, True, '%d values at %d operations' % (a.watch.n, len(a.watch.sites)), w)


def run(ctx, mod, qual, build, wants, tab=None, tag=None, cfg=None, prep=None):
    """Interpret one function and compare the dimensions of its results."""
    w = ctx.where(mod, qual)
    tag = tag or qual
    a = analyse(ctx, tab, **(cfg or {}))
    with ctx.group('formula', tag, w):
        st = a.state()
        if prep:
            prep(a)
        args, kw = build(a, st)
        r = a.call(a.get(mod, qual), args, kw, st)
        finish(ctx, a, r, tag, w, wants)
    return a


def finish(ctx, a, r, tag, w, wants):
    report(ctx, a, tag, w)
    if not ctx.no_raise('completes', tag, r, w):
        return
    f = r.frozen()
    for nm, x, d in (wants(f) if callable(wants) else zip_dims(f, wants)):
        leaf(ctx, 'result dimension', '%s: %s' % (tag, nm), a.watch.dims, x, d, w)
    degrees(ctx, tag, flat(f), w)


def zip_dims(f, wants):
    if isinstance(wants, tuple) and len(wants) == 4 and not isinstance(wants[0], tuple):
        xs = f.items if isinstance(f, (V.Frozen, V.Tup)) else [f]
        xs = flat(f) if isinstance(f, (V.Frozen, V.Tup)) else [f]
        for i, x in enumerate(xs):
            yield ('result' if len(xs) == 1 else 'entry %d' % i), x, wants
        return
    xs = f.items
    for i, (x, d) in enumerate(zip(xs, wants)):
        if isinstance(x, (V.Frozen, V.Tup)):
            for j, y in enumerate(flat(x)):
                yield 'result %d entry %d' % (i, j), y, d
        else:
            yield 'result %d' % i, x, d


def entries(f):
    return {f.items[i].lit: f.items[i + 1] for i in range(0, len(f.items), 2)}


def by_name(f):
    for k, x in sorted(entries(f).items()):
        d = DM.std(k)
        if d is not None and not isinstance(x, Str):
            yield k, x, d


def S(*names):
    return [V.var(n) for n in names]


def inertia_(ctx):
    run(ctx, 'inertia', 'compound_pendulum_inertia', lambda a, st: (S('m', 'g', 'l', 'T'), {}), INERTIA)
    run(ctx, 'inertia', 'tor_inertia', lambda a, st: (S('k', 'T'), {}), INERTIA, {'k': TORQUE})
    run(ctx, 'inertia', 'torsional_pendulum_stiffness', lambda a, st: (S('I', 'T'), {}), TORQUE, {'I': INERTIA})
    run(ctx, 'inertia', 'tube_inertia', lambda a, st: (S('l', 'm', 'ro', 'ri'), {}), INERTIA, {'ro': LENGTH, 'ri': LENGTH, 'l': LENGTH})
    for n in (3, 4):
        run(ctx, 'inertia', 'inertia_components',
            lambda a, st: ([symarray(a, st, 'jay', n), symarray(a, st, 'beta', n)], {}), INERTIA, {'jay': INERTIA}, 'inertia_components of %d' % n)
    mat = lambda a, st, nm: a.I.new_arr(st, [V.var('%s_%d' % (nm, 3 * min(i, j) + max(i, j))) for i in range(3) for j in range(3)], (3, 3))
    run(ctx, 'inertia', 'parallel_axis', lambda a, st: ([mat(a, st, 'Ic'), V.var('m'), symarray(a, st, 'dist', 3)], {}),
        INERTIA, {'Ic': INERTIA, 'dist': LENGTH})
    run(ctx, 'inertia', 'rotate_inertia_tensor', lambda a, st: ([mat(a, st, 'Ic'), V.var('lam')], {}), INERTIA, {'Ic': INERTIA})
    for p in 'BHFR':
        run(ctx, 'inertia', 'part_inertia_tensor', lambda a, st: ([an.sdict(a, st, M07), string(p)], {}), INERTIA, None, 'part_inertia_tensor of ' + p)
    rider = 'IBxx IBxz IByy IBzz mB xB yB zB'.split()
    run(ctx, 'inertia', 'combine_bike_rider', lambda a, st: ([an.sdict(a, st, M07), an.sdict(a, st, rider, 'r_')], {}), by_name)


def geometry_(ctx):
    for tag, ks in (('direct', C15.DIRECT), ('frame', C15.FRAME)):
        def prep(a):
            a.I.stubs[('bicycle', 'lambda_from_abc')] = lambda st, args, kw, node: tilt(a, ctx, st, args, kw)
        run(ctx, 'geometry', 'calculate_benchmark_geometry', lambda a, st: ([an.sdict(a, st, ks), a.I.new_dict(st, {})], {}),
            by_name, None, 'calculate_benchmark_geometry (%s)' % tag, None, prep)
    run(ctx, 'geometry', 'calculate_abc_geometry', lambda a, st: ([tup(S('h1', 'h2', 'h3', 'h4', 'h5')), tup(S('d1', 'd2', 'd3', 'd4', 'd'))], {}), LENGTH)
    run(ctx, 'geometry', 'calculate_l1_l2', lambda a, st: (S('h6', 'h7', 'd5', 'd6', 'l'), {}), LENGTH)
    run(ctx, 'geometry', 'calc_two_link_angles', lambda a, st: (S('L1', 'L2', 'Dist'), {}), D0, {'L1': LENGTH, 'L2': LENGTH, 'Dist': LENGTH})
    run(ctx, 'geometry', 'fwheel_to_handlebar_ref', lambda a, st: (S('lam', 'l1', 'l2'), {}), LENGTH)
    run(ctx, 'geometry', 'fundamental_geometry_plot_data', lambda a, st: ([an.sdict(a, st, M07)], {}), LENGTH)
    run(ctx, 'geometry', 'distance_to_steer_axis', lambda a, st: (S('w', 'c', 'lam') + [symarray(a, st, 'pnt', 3)], {}), LENGTH, {'pnt': LENGTH})
    run(ctx, 'geometry', 'point_to_line_distance', lambda a, st: ([symarray(a, st, 'pnt', 3), a.I.new_arr(
        st, [V.var('pnt_%d' % (i + 7)) for i in range(6)], (3, 2))], {}), LENGTH, {'pnt': LENGTH})
    run(ctx, 'geometry', 'project_point_on_line', lambda a, st: ([tup(S('slope', 'b')), tup(S('px', 'pz'))], {}), LENGTH,
        {'slope': D0, 'px': LENGTH, 'pz': LENGTH})
    col = lambda a, st, nm: a.I.new_arr(st, [V.var('%s_%d' % (nm, i)) for i in range(3)], (3, 1))
    run(ctx, 'geometry', 'vec_angle', lambda a, st: ([col(a, st, 'pnt'), col(a, st, 'qnt')], {}), D0, {'pnt': LENGTH, 'qnt': FORCE})
    run(ctx, 'geometry', 'vec_project', lambda a, st: ([symarray(a, st, 'pnt', 3), symarray(a, st, 'qnt', 3)], {}), LENGTH, {'pnt': LENGTH, 'qnt': FORCE})


FORCE = DM.FORCE


def tilt(a, ctx, st, args, kw):
    fz = [a.I.freeze(st, x) for x in ordered(ctx, 'bicycle', 'lambda_from_abc', args, kw) if x is not None]
    w = ctx.where('bicycle', 'lambda_from_abc')
    for n, x in zip(('rF', 'rR', 'a', 'b', 'c'), fz):
        leaf(ctx, 'argument dimension', 'lambda_from_abc: %s' % n, a.watch.dims, x, LENGTH, w)
    return V.var('lam')


def com_(ctx):
    for part in 'BHSG':
        def wants(f):
            yield 'slope', f.items[0], D0
            yield 'intercept', f.items[1], LENGTH
            for i, x in enumerate(f.items[2:]):
                if isinstance(x, Num):
                    yield 'angle %d' % i, x, D0
        run(ctx, 'com', 'com_line', lambda a, st: ([V.var('alpha'), V.var('a'), an.sdict(a, st, M07), string(part), V.var('l1'), V.var('l2')], {}),
            wants, None, 'com_line of ' + part)
    for n in (2, 3):
        run(ctx, 'com', 'center_of_mass', lambda a, st: ([symlist(a, st, 'slope', n), symlist(a, st, 'icept', n)], {}), LENGTH,
            {'slope': D0, 'icept': LENGTH}, 'center_of_mass of %d lines' % n)
        run(ctx, 'com', 'total_com', lambda a, st: ([a.I.new_arr(st, [V.var('pos_%d' % i) for i in range(3 * n)], (3, n)),
                                                     symarray(a, st, 'mass', n)], {}), [MASS, LENGTH], {'pos': LENGTH, 'mass': MASS},
            'total_com of %d bodies' % n)


def rates(M, iso=INERTIA):
    """State matrix and input matrix of [angles, rates] with torques."""
    def wants(f):
        A, B = f.items[0], f.items[1]
        n = A.meta[0]
        h = n // 2
        for i in range(n):
            for j in range(n):
                # d(state i)/dt over state j
                di = scale_t(-1 if i >= h else 0)
                dj = scale_t(-1 if j >= h else 0)
                yield 'A[%d, %d]' % (i, j), A.items[n * i + j], tuple(x - y - z for x, y, z in zip(di, dj, TIME))
        m = B.meta[1]
        for i in range(n):
            for j in range(m):
                di = scale_t(-1 if i >= h else 0)
                yield 'B[%d, %d]' % (i, j), B.items[m * i + j], tuple(x - y - z for x, y, z in zip(di, TORQUE, TIME))
    return wants


def scale_t(k):
    return D(0, 0, k)


def canonical(f):
    for nm, x, d in zip(('M', 'C1', 'K0', 'K2'), f.items, (INERTIA, D(1, 1), D(1, 1), D(1, 0))):
        for i, y in enumerate(flat(x)):
            yield '%s entry %d' % (nm, i), y, d


def models_(ctx):
    run(ctx, 'bicycle', 'benchmark_par_to_canonical', lambda a, st: ([an.sdict(a, st, M07)], {}), lambda f: canonical(f))
    run(ctx, 'bicycle', 'trail', lambda a, st: (S('rF', 'lam', 'fo'), {}), LENGTH, {'fo': LENGTH})
    mats = lambda a, st: [a.I.new_arr(st, [V.var('%s_%d' % (n, i)) for i in range(4)], (2, 2)) for n in ('M', 'C', 'K0', 'K2')]
    run(ctx, 'bicycle', 'ab_matrix', lambda a, st: (mats(a, st) + S('v', 'g'), {}), rates(0),
        {'M': INERTIA, 'C': D(1, 1), 'K0': D(1, 1), 'K2': D(1, 0)})
    w = ctx.where('bicycle', 'lambda_from_abc')
    a = analyse(ctx, {'lam': D0})
    with ctx.group('formula', 'lambda_from_abc', w):
        r = a.call(a.get('bicycle', 'lambda_from_abc'), S('rF', 'rR', 'a', 'b', 'c'))
        ctx.no_raise('completes', 'lambda_from_abc', r, w)
        ev = list(r.calls('scipy.optimize.newton'))
        if ev:
            d = ev[0].data
            kw = dict(d[3])
            x0 = d[2][1] if len(d[2]) > 1 else kw.get('x0')
            args = kw.get('args', d[2][3] if len(d[2]) > 3 else V.tup([]))
            leaf(ctx, 'result dimension', 'lambda_from_abc: first guess', a.watch.dims, x0, D0, w)
            a.call(d[2][0], [V.var('lam')] + list(args.items), {}, r.st.fork())
        else:
            ctx.ob('formula', 'lambda_from_abc', an.UNK, 'no call of newton', w)
        report(ctx, a, 'lambda_from_abc', w)
    for cls, build in (('Meijaard2007Model', meijaard), ('Meijaard2007WithFeedbackModel', feedback)):
        mod_meth = [('form_state_space_matrices', rates(0))]
        if cls == 'Meijaard2007Model':
            mod_meth.append(('form_reduced_canonical_matrices', canonical))
        for meth, wants in mod_meth:
            w = ctx.where('models', cls + '.' + meth)
            tag = '%s.%s' % (cls, meth)
            a = analyse(ctx)
            with ctx.group('formula', tag, w):
                st, ps, d = build(a, a.state())
                st, m = model(a, st, cls, ps)
                r = a.method(m, meth, [], {}, st)
                finish(ctx, a, r, tag, w, wants)
    for meth, args, wants in (('canonical', [], canonical), ('state_space', [V.var('speed')], rates(0))):
        w = ctx.where('main', 'Bicycle.' + meth)
        a = analyse(ctx)
        with ctx.group('formula', 'Bicycle.' + meth, w):
            st = a.state()
            b = bicycle(a, st)
            r = a.method(b, meth, args, {}, st)
            finish(ctx, a, r, 'Bicycle.' + meth, w, wants)
    for src in ('Moore2019',):
        w = ctx.where('parameter_sets', src + 'ParameterSet.to_parameterization')
        a = analyse(ctx)
        with ctx.group('formula', src + ' to Meijaard2007', w):
            st = a.state()
            r, d = make_set(a, st, src)
            r = a.method(r.value, 'to_parameterization', [string('Meijaard2007')], {}, r.st)
            report(ctx, a, src + ' to Meijaard2007', w)
            if ctx.no_raise('completes', src + ' to Meijaard2007', r, w):
                p = a.I.freeze(r.st, a.I.lib.getattr(r.st, r.value, 'parameters', None))
                for nm, x, dd in by_name(p):
                    leaf(ctx, 'result dimension', '%s to Meijaard2007: %s' % (src, nm), a.watch.dims, x, dd, w)
    for meth, args, want in (('mass_center_of', ['B', 'H'], LENGTH), ('form_mass_center_vector', ['H'], LENGTH), ('form_mass_center_vector', ['R'], LENGTH),
                             ('form_inertia_tensor', ['B'], INERTIA), ('form_inertia_tensor', ['F'], INERTIA), ('_planar_principal_radii_of_gyration', ['H'], None)):
        w = ctx.where('parameter_sets', 'Meijaard2007ParameterSet.' + meth)
        tag = 'Meijaard2007ParameterSet.%s of %s' % (meth, ' '.join(args))
        a = analyse(ctx)
        with ctx.group('formula', tag, w):
            st, ps, d = meijaard(a, a.state())
            r = a.method(ps, meth, [string(x) for x in args], {}, st)
            if want is None:
                report(ctx, a, tag, w)
            else:
                finish(ctx, a, r, tag, w, want)


def measured(ctx):
    for split in (False, True):
        for fly in (False, True):
            measured_one(ctx, split, fly)


def measured_one(ctx, split, fly):
    w = ctx.where('main', 'calculate_benchmark_from_measured')
    tag = 'calculate_benchmark_from_measured%s%s' % (' (split fork)' if split else '', ' (flywheel)' if fly else '')
    parts, counts = ('BSG', (2, 3, 2)) if split else ('BH', (3, 2))
    a = analyse(ctx)
    dm = a.watch.dims
    n = [0]

    def free(st, base, dim, shape=None):
        n[0] += 1
        return V.var('%s%s%d' % (base, 'stub', n[0]))
    tab = dm.table

    def table(name):
        m = re.match(r'(com|inertia)stub\d+$', name)
        return {'com': LENGTH, 'inertia': INERTIA}[m.group(1)] if m else tab(name)
    dm.table = table

    def com_stub(st, args, kw, node):
        got = [a.I.freeze(st, x) for x in ordered(ctx, 'com', 'center_of_mass', args, kw)]
        for nm, f, d in zip(('slopes', 'intercepts'), got, (D0, LENGTH)):
            for i, x in enumerate(flat(f)):
                leaf(ctx, 'argument dimension', '%s: center_of_mass %s %d' % (tag, nm, i), dm, x, d, a.I.where(node))
        return tup([free(st, 'com', LENGTH), free(st, 'com', LENGTH)])

    def comp_stub(st, args, kw, node):
        got = [a.I.freeze(st, x) for x in ordered(ctx, 'inertia', 'inertia_components', args, kw)]
        for nm, f, d in zip(('inertias', 'angles'), got, (INERTIA, D0)):
            for i, x in enumerate(flat(f)):
                leaf(ctx, 'argument dimension', '%s: inertia_components %s %d' % (tag, nm, i), dm, x, d, a.I.where(node))
        degrees(ctx, tag + ': inertia_components', flat(got[1]), a.I.where(node))
        return a.I.new_arr(st, [free(st, 'inertia', INERTIA) for _ in range(3)], (3,), 'O')
    a.I.stubs[('com', 'center_of_mass')] = com_stub
    a.I.stubs[('inertia', 'inertia_components')] = comp_stub
    with ctx.group('formula', tag, w):
        st = a.state()
        mp = an.sdict(a, st, C18.keys(parts, counts, split, fly))
        r = a.call(a.get('main', 'calculate_benchmark_from_measured'), [mp], {}, st)

        def wants(f):
            for k, x, d in by_name(f.items[0]):
                yield k, x, d
            ex = f.items[1]
            if isinstance(ex, V.Frozen) and ex.kind == 'dict':
                for k, x in entries(ex).items():
                    if isinstance(x, V.Frozen):
                        continue
        finish(ctx, a, r, tag, w, wants)
    for h, fk, wh, ab in ((1, 1, 1, 1), (1, 1, 0, 1), (1, 1, 1, 0), (0, 1, 1, 1), (1, 0, 0, 0), (0, 0, 1, 1)) if not split and not fly else ():
        t = 'steer_assembly_moment_of_inertia%s' % ((h, fk, wh, ab),)
        w = ctx.where('main', 'Bicycle.steer_assembly_moment_of_inertia')
        a = analyse(ctx)
        with ctx.group('formula', t, w):
            st = a.state()
            ks = M07 + [x % p for p in 'SG' for x in ('I%sxx', 'I%sxz', 'I%syy', 'I%szz', 'm%s', 'x%s', 'z%s')]
            b = bicycle(a, st, keys=ks)
            r = a.method(b, 'steer_assembly_moment_of_inertia', [], {
                k: V.boolean(bool(x)) for k, x in zip(('handlebar', 'fork', 'wheel', 'aboutSteerAxis'), (h, fk, wh, ab))}, st)
            finish(ctx, a, r, t, w, INERTIA)


def rider_(ctx):
    run(ctx, 'rider', 'yeadon_vec_to_bicycle_vec', lambda a, st: ([a.I.new_arr(st, [V.var('pos_%d' % i) for i in range(3)], (3, 1)),
                                                                    an.sdict(a, st, C13.MP), an.sdict(a, st, M07)], {}),
        LENGTH, {'pos': LENGTH})
    w = ctx.where('rider', 'rider_on_bike')
    box = {}

    def hook(st, o, attr):
        if isinstance(o, V.Term) and o.head.startswith('call:yeadon') and attr in ('CFG', 'meas'):
            return box[attr]
        return None
    tab = {'cfg': D0}
    a = analyse(ctx, tab, attr_hook=hook)
    for k in ('somersault', 'tilt') + tuple(C13.JOINTS) + tuple(C13.MIRROR):
        tab['cfg_' + k] = D0
    with ctx.group('formula', 'rider_on_bike', w):
        st = a.state()
        box['CFG'] = an.sdict(a, st, ['somersault', 'tilt'] + C13.JOINTS + sorted(C13.MIRROR), 'cfg_')
        box['meas'] = an.sdict(a, st, C13.MEAS)
        mp, bp = an.sdict(a, st, C13.MP), an.sdict(a, st, M07)
        r = a.call(a.get('rider', 'rider_on_bike'), [bp, mp, string('meas'), string('cfg'), FALSE], {}, st)
        if not ctx.no_raise('completes', 'rider_on_bike', r, w):
            return
        solve = list(r.calls('scipy.optimize.fsolve'))
        given = list(r.calls('.set_CFG_dict'))
        if len(solve) != 1 or len(given) != 1:
            ctx.ob('formula', 'rider_on_bike', an.UNK, '%d solves' % len(solve), w)
            return
        # unknowns stored as joint angles are angles, the others are grip positions
        cfg = entries(given[0].data[2][0])
        joint = set()
        for x in cfg.values():
            t = a.I.lib.opq(x) if isinstance(x, Num) else x
            if isinstance(t, V.Term) and t.head == 'getitem' and isinstance(t.args[1], Num):
                joint.add(int(t.args[1].rf.const()))
        for i in range(10):
            tab['q%d' % i] = D0 if i in joint else LENGTH
        guess = solve[0].data[2][1]
        for i, x in enumerate(flat(guess)):
            if not x.rf.is_const():
                leaf(ctx, 'argument dimension', 'rider_on_bike: first guess %d' % i, a.watch.dims, x, tab['q%d' % i], w)
        st = r.st.fork()
        x = a.I.new_arr(st, [V.var('q%d' % i) for i in range(10)], (10,))
        g = a.call(solve[0].data[2][0], [x], {}, st)
        if ctx.no_raise('completes', 'posture residuals', g, w):
            for i, y in enumerate(flat(g.frozen())):
                try:
                    d = a.watch.dims.value(y)
                except DM.Ill as e:
                    ctx.ob('result dimension', 'posture residual %d' % i, False, str(e), w)
                    continue
                ctx.ob('result dimension', 'posture residual %d' % i, an.UNK if d is None else d == ANY or tuple(d) in (D0, LENGTH),
                       'has %s' % DM.show(d), w)
        report(ctx, a, 'rider_on_bike', w)


def period_(ctx):
    tab = {'p0': SIGNAL, 'p1': SIGNAL, 'p2': SIGNAL, 'p3': D0, 'p4': D(0, 0, -1)}
    tab.update({'t%d' % i: TIME for i in range(4)})
    tab['t'] = TIME
    tab.update({'d%d' % i: SIGNAL for i in range(4)})
    P = lambda a, st: a.I.new_arr(st, [V.var('p%d' % i) for i in range(5)], (5,))
    T = lambda a, st: a.I.new_arr(st, [V.var('t%d' % i) for i in range(2)], (2,))

    def jac(f):
        for i, x in enumerate(f.items):
            d = tab['p%d' % (i % 5)]
            yield 'd f / d p[%d] at %d' % (i % 5, i // 5), x, tuple(s - y for s, y in zip(SIGNAL, d))
    run(ctx, 'period', 'jac_fitfunc', lambda a, st: ([P(a, st), T(a, st)], {}), jac, tab)
    run(ctx, 'period', 'fit_goodness', lambda a, st: ([symarray(a, st, 'm', 3), symarray(a, st, 'q', 3)], {}),
        [D0, D(0, 0, 0, 2), D(0, 0, 0, 2), D(0, 0, 0, 2)], {'m': SIGNAL, 'q': SIGNAL})
    w = ctx.where('period', 'get_period')
    with ctx.group('formula', 'get_period', w):
        a, r, rec = C20.fit(ctx, times=True)
        tab2 = dict(tab)
        tab2.update({'y_%d' % i: SIGNAL for i in range(C20.N)})
        tab2.update({'t_%d' % i: TIME for i in range(C20.N)})
        wt = DM.Watch(a, DM.Dims(DM.table(tab2)))
        if rec['leastsq']:
            args, kw, st = rec['leastsq'][0]
            q = C20.model(a, args[0], st.fork(), 5, [V.var('t0'), V.var('t1')], w)
            a.watch = wt
            report(ctx, a, 'get_period: fitted function', w)
            if ctx.no_raise('completes', 'get_period: fitted function', q, w):
                for i, x in enumerate(flat(q.frozen())):
                    leaf(ctx, 'result dimension', 'get_period: residual %d' % i, wt.dims, x, SIGNAL, w)
        if ctx.no_raise('completes', 'get_period', r, w):
            x = r.frozen()
            x = x if isinstance(x, Num) else None
            if x is not None:
                leaf(ctx, 'result dimension', 'get_period', wt.dims, x, TIME, w)


def check(ctx):
    inertia_(ctx)
    geometry_(ctx)
    com_(ctx)
    models_(ctx)
    measured(ctx)
    rider_(ctx)
    period_(ctx)
