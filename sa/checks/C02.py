"""Value-graph dataflow with algebraic normal forms: the abstract values of A
and B returned by ab_matrix, by the model method and by Bicycle.state_space are
reduced to rational functions of the matrix entries (or parameters), speed and
gravity and compared with [0 I; -M^-1 K, -M^-1 C] and [0; M^-1]. The unreduced
identity M q'' + v C1 q' + (g K0 + v^2 K2) q = f is checked as well by
multiplying the returned lower blocks by M."""
import an
import values as V
from specs import whipple
from common import *
ASSUMPTIONS = ['real arithmetic: rounding is not modelled', 'the mass matrix is invertible']


def entries(nm, u=False):
    return [V.var('%s%d%d' % (nm, i, j), u) for i in range(2) for j in range(2)]


def sym(nm):
    return [[ring.var('%s%d%d' % (nm, i, j)) for j in range(2)] for i in range(2)]


def compare(ctx, rule, tag, f, A, B, w, pc=TRUE):
    ok = ctx.equal(rule, 'A ' + tag, f.items[0], an.matrix(A), w, pc=pc)
    ctx.equal(rule, 'B ' + tag, f.items[1], an.matrix(B), w, pc=pc)
    return ok


def residual(ctx, tag, f, M, C1, K0, K2, v, g, w):
    """M a21 + (g K0 + v^2 K2) = 0, M a22 + v C1 = 0, M b2 = I."""
    A = [[x.rf for x in f.items[0].items[4 * i:4 * i + 4]] for i in range(4)]
    B = [[x.rf for x in f.items[1].items[2 * i:2 * i + 2]] for i in range(4)]
    low = whipple.mul(M, [A[2], A[3]])
    lob = whipple.mul(M, [B[2], B[3]])
    z = ring.const(0)
    for i in range(2):
        for j in range(2):
            r1 = low[i][j] + g * K0[i][j] + v * v * K2[i][j]
            r2 = low[i][j + 2] + v * C1[i][j]
            r3 = lob[i][j] - ring.const(1 if i == j else 0)
            for nm, r in (('stiffness', r1), ('damping', r2), ('input', r3)):
                ctx.equal('second-order residual', '%s %s[%d,%d]' % (tag, nm, i, j), num(r), num(z), w)


def check(ctx):
    w = ctx.where('bicycle', 'ab_matrix')
    v, g = ring.var('v'), ring.var('g')
    mats = [sym(n) for n in ('M', 'C', 'K', 'L')]
    for u in (False, True):
        a = ctx.analysis()
        tag = 'uncertain' if u else 'plain'
        with ctx.group('state space', 'ab_matrix (%s)' % tag, w):
            st = a.state()
            arrs = [a.I.new_arr(st, entries(n, u), (2, 2), 'O' if u else 'f') for n in ('M', 'C', 'K', 'L')]
            r = a.call(a.get('bicycle', 'ab_matrix'), arrs + [V.var('v'), V.var('g', u)], {}, st)
            ctx.no_raise('completes', 'ab_matrix (%s)' % tag, r, w)
            f = r.frozen()
            A, B = whipple.state_space(*(mats + [v, g]))
            compare(ctx, 'state space', '(%s)' % tag, f, A, B, w)
            residual(ctx, tag, f, *(mats + [v, g, w]))
    # speeds and gravity at their exact special values
    for vv, gg in ((0, 1), (1, 0), (-1, 1), (0, 0)):
        a = ctx.analysis()
        with ctx.group('state space', 'ab_matrix v=%d g=%d' % (vv, gg), w):
            st = a.state()
            arrs = [a.I.new_arr(st, entries(n), (2, 2)) for n in ('M', 'C', 'K', 'L')]
            r = a.call(a.get('bicycle', 'ab_matrix'), arrs + [const(float(vv)), const(float(gg))], {}, st)
            A, B = whipple.state_space(*(mats + [ring.const(vv), ring.const(gg)]))
            compare(ctx, 'state space', 'v=%d g=%d' % (vv, gg), r.frozen(), A, B, w)
    models_(ctx)
    bike(ctx)
    decomposed(ctx)


def full(p=ring.var):
    return whipple.state_space(*(list(whipple.canonical(p)) + [p('v'), p('g')]))


def models_(ctx):
    w = ctx.where('models', 'Meijaard2007Model.form_state_space_matrices')
    a = ctx.analysis()
    with ctx.group('model', 'Meijaard2007Model', w):
        st, ps, d = meijaard(a, a.state())
        st, m = model(a, st, 'Meijaard2007Model', ps)
        r = a.method(m, 'form_state_space_matrices', st=st)
        ctx.no_raise('model completes', 'stored parameters', r, w)
        compare(ctx, 'model', 'stored parameters', r.frozen(), *full(), w)
        for ks in [(k,) for k in M07] + [('v', 'g'), ('v', 'rF'), ('mB', 'zB', 'g')]:
            p = lambda x: ring.var(x + '_new') if x in ks else ring.var(x)
            r2 = a.method(m, 'form_state_space_matrices', kw={k: V.var(k + '_new') for k in ks}, st=r.st.fork())
            compare(ctx, 'model with override', ','.join(ks), r2.frozen(), *full(p), w)


def bike(ctx):
    w = ctx.where('main', 'Bicycle.state_space')
    for nominal in (False, True):
        a = ctx.analysis()
        tag = 'state_space(speed, nominal=%s)' % nominal
        with ctx.group('bicycle object', tag, w):
            st = a.state()
            b = bicycle(a, st, u=True)
            r = a.method(b, 'state_space', [V.var('speed')], {'nominal': TRUE if nominal else FALSE}, st)
            ctx.no_raise('bicycle object completes', tag, r, w)
            p = lambda x: ring.var('speed') if x == 'v' else ring.var(x)
            compare(ctx, 'bicycle object', tag, r.frozen(), *full(p), w)
            # a second speed on the same object
            r = a.method(b, 'state_space', [V.var('speed2')], {'nominal': TRUE if nominal else FALSE}, r.st)
            p = lambda x: ring.var('speed2') if x == 'v' else ring.var(x)
            compare(ctx, 'bicycle object', tag + ' second speed', r.frozen(), *full(p), w)


def decomposed(ctx):
    """The matrices the bicycle object decomposes are those of the given speeds."""
    w = ctx.where('main', 'Bicycle.eig')
    for names in (('speed',), ('speed1', 'speed2', 'speed3')):
        tag = 'Bicycle.eig at %d speeds' % len(names)
        with ctx.group('bicycle object', tag, w):
            a = ctx.analysis()
            st = a.state()
            b = bicycle(a, st, u=True)
            s = V.var('speed') if len(names) == 1 else a.I.new_list(st, [V.var(n) for n in names])
            r = a.method(b, 'eig', [s], {}, st)
            if not ctx.no_raise('bicycle object completes', tag, r, w):
                continue
            ev, vec = r.frozen().items
            if ev.meta != (len(names), 4) or vec.meta != (len(names), 4, 4):
                ctx.ob('bicycle object', tag, False, 'shapes %s %s' % (ev.meta, vec.meta), w)
                continue
            for i, n in enumerate(names):
                p = lambda x: ring.var(n) if x == 'v' else ring.var(x)
                A = V.frozen('array', (4, 4), tuple(num(x) for row in full(p)[0] for x in row))
                paired(ctx, a, 'bicycle object', '%s row %d' % (tag, i), ev.items[4 * i:4 * i + 4], vec.items[16 * i:16 * i + 16], A, w)
