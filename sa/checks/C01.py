"""Value-graph dataflow with algebraic normal forms: the abstract value every
entry of M, C1, K0, K2 reaches the return statement with is reduced to an exact
rational function of the 25 parameters (sin/cos of the tilt as generators,
sin^2+cos^2=1) and compared with the published coefficients. The same values
are followed through the model method and through Bicycle.canonical; all
branches of each routine are covered."""
import sys
import an
import values as V
from specs import whipple
from common import *
ASSUMPTIONS = ['real arithmetic: rounding is not modelled',
               'axisymmetric wheels (IRzz = IRxx, IFzz = IFxx), as in the benchmark']

NAMES = ('M', 'C1', 'K0', 'K2')


def check(ctx):
    want = [an.matrix(m) for m in whipple.canonical()]
    for u in (False, True):
        a = ctx.analysis()
        w = ctx.where('bicycle', 'benchmark_par_to_canonical')
        tag = 'uncertain' if u else 'plain'
        with ctx.group('canonical coefficients', 'benchmark_par_to_canonical (%s)' % tag, w):
            st = a.state()
            d = an.sdict(a, st, M07, u=u)
            r = a.call(a.get('bicycle', 'benchmark_par_to_canonical'), [d], {}, st)
            ctx.no_raise('canonical conversion completes', tag, r, w)
            if r.returns:
                f = r.frozen()
                for i, nm in enumerate(NAMES):
                    ctx.equal('canonical coefficients', '%s (%s)' % (nm, tag), f.items[i], want[i], w)
                for i in (0, 2):
                    m = f.items[i].items
                    ctx.equal('symmetry', '%s (%s)' % (NAMES[i], tag), m[1], m[2], w)
    # extra (derived) entries of the dictionary do not change the answer
    a = ctx.analysis()
    with ctx.group('canonical coefficients', 'extra entries', ''):
        st = a.state()
        d = an.sdict(a, st, M07, extra={'IRzz': V.var('other1'), 'IFzz': V.var('other2'),
                                        'yB': V.var('other3'), 'IHyz': V.var('other4')})
        r = a.call(a.get('bicycle', 'benchmark_par_to_canonical'), [d], {}, st)
        f = r.frozen()
        for i, nm in enumerate(NAMES):
            ctx.equal('canonical coefficients', '%s with extra dictionary entries' % nm, f.items[i], want[i],
                      ctx.where('bicycle', 'benchmark_par_to_canonical'))
    for cls, mk in (('Meijaard2007Model', meijaard), ('Meijaard2007WithFeedbackModel', feedback)):
        a = ctx.analysis()
        w = ctx.where('models', 'Meijaard2007Model.form_reduced_canonical_matrices')
        with ctx.group('model interface', cls, w):
            st, ps, d = mk(a, a.state())
            st, m = model(a, st, cls, ps)
            r = a.method(m, 'form_reduced_canonical_matrices', st=st)
            ctx.no_raise('model interface completes', cls, r, w)
            f = r.frozen()
            for i, nm in enumerate(NAMES):
                ctx.equal('model interface', '%s.%s' % (cls, nm), f.items[i], want[i], w)
            # a second query, and one with an override, on the same model
            r2 = a.method(m, 'form_reduced_canonical_matrices', st=r.st)
            f = r2.frozen()
            for i, nm in enumerate(NAMES):
                ctx.equal('model interface', '%s.%s, second query' % (cls, nm), f.items[i], want[i], w)
            for k in M07:
                if k in ('v', 'g'):
                    continue
                p = lambda x: ring.var(x + '_new') if x == k else ring.var(x)
                wk = [an.matrix(mm) for mm in whipple.canonical(p)]
                r3 = a.method(m, 'form_reduced_canonical_matrices', kw={k: V.var(k + '_new')}, st=r.st.fork())
                f = r3.frozen()
                for i, nm in enumerate(NAMES):
                    ctx.equal('model interface with override', '%s.%s(%s=...)' % (cls, nm, k), f.items[i], wk[i], w)
    bike(ctx, want)


def bike(ctx, want):
    w = ctx.where('main', 'Bicycle.canonical')
    for nominal in (False, True):
        a = ctx.analysis()
        with ctx.group('bicycle object', 'Bicycle.canonical(nominal=%s)' % nominal, w):
            st = a.state()
            b = bicycle(a, st, u=True)
            r = a.method(b, 'canonical', kw={'nominal': TRUE if nominal else FALSE}, st=st)
            ctx.no_raise('bicycle object completes', 'canonical(nominal=%s)' % nominal, r, w)
            f = r.frozen()
            for i, nm in enumerate(NAMES):
                got = f.items[i]
                ctx.equal('bicycle object', '%s (nominal=%s)' % (nm, nominal), got,
                          nominal_of(want[i]) if nominal else want[i], w)
