"""Path-sensitive effect analysis of the override handling: for each model and
each public query the abstract execution is followed along every branch of the
override parser. Rules: (1) an unknown name leaves a warning event naming it on
every path, never raises, and the abstract result equals the result without it;
(2) arrays of unequal length have no normal exit, only a ValueError; (3) scalar
overrides of every scalar kind reach the result in place of the stored value;
(4) simulation queries with an array override have no normal exit, only a
ValueError, before any integration call; (5) gain plots without a swept
non-gain parameter are refused the same way."""
import an
import values as V
from common import *
ASSUMPTIONS = ['the generated leaning-rider equations are an opaque function of their arguments here']

QUERIES = {'Meijaard2007Model': ('form_reduced_canonical_matrices', 'form_state_space_matrices', 'calc_eigen',
                                 '_calc_modal_controllability'),
           'Meijaard2007WithFeedbackModel': ('form_reduced_canonical_matrices', 'form_state_space_matrices',
                                             'calc_eigen'),
           'MooreRiderLean2012Model': ('form_state_space_matrices', 'calc_eigen')}


def only_raises(ctx, rule, tag, r, w, exc='ValueError', before=()):
    """No normal exit; every abnormal exit is exc."""
    if r.returns:
        ctx.ob(rule, tag, False, 'the call can return normally instead of raising %s' % exc, w)
        return
    bad = [x for x in r.raised if x.exc[0] != exc and V.feasible(x.st.pc)]
    if bad:
        ctx.ob(rule, tag, False, 'raises %s instead of %s' % (an.describe(bad[0]), exc), w)
        return
    early = [e for e in r.calls() if e.data[0] in before]
    if early:
        ctx.ob(rule, tag, False, '%s is called before the refusal' % early[0].data[0], w)
        return
    ctx.ob(rule, tag, bool(r.raised), 'only exit: %s' % exc, w)


def setup(ctx, cls):
    if cls == 'MooreRiderLean2012Model':
        a, st, m, d = lean_model(ctx)
        return a, st, m, LEAN
    a = ctx.analysis()
    mk = meijaard if cls == 'Meijaard2007Model' else feedback
    st, ps, d = mk(a, a.state())
    st, m = model(a, st, cls, ps)
    return a, st, m, M07 if mk is meijaard else M07FB


def mentions(args, name):
    for x in args:
        if isinstance(x, Str) and any(isinstance(p, str) and name in p for p in x.parts):
            return True
    return False


def unknown(ctx, cls, a, st0, m, q, w):
    with ctx.group('unknown override', '%s.%s' % (cls, q), w):
        base = None
        base = a.method(m, q, st=st0.fork())
    if base is None:
        return
    for tag, val in (('scalar', lambda st: V.var('stray')), ('array', lambda st: symarray(a, st, 'stray', 3)),
                     ('text', lambda st: string('x'))):
        with ctx.group('unknown override', '%s.%s %s' % (cls, q, tag), w):
            st = st0.fork()
            r = a.method(m, q, kw={'nosuchpar': val(st)}, st=st)
            t = '%s.%s(nosuchpar=<%s>)' % (cls, q, tag)
            if not ctx.no_raise('unknown override never fails', t, r, w):
                continue
            ctx.equal('unknown override ignored', t, r.frozen(), base.frozen(), w)
            ws = [e for e in r.events if e.kind == 'warn' and mentions(e.data, 'nosuchpar')]
            pc = V.FALSE
            for e in ws:
                pc = V.or_(pc, e.pc)
            missing = V.and_(r.st.pc, V.not_(pc))
            ctx.ob('unknown override warned', t, bool(ws) and not V.feasible(missing),
                   '%d warning events naming the parameter' % len(ws), w)


def check(ctx):
    for cls, queries in QUERIES.items():
        a, st0, m, keys = setup(ctx, cls)
        for q in queries:
            w = ctx.where('models', (cls if q == 'form_state_space_matrices' else
                                     '_Model' if q == 'calc_eigen' else 'Meijaard2007Model') + '.' + q)
            unknown(ctx, cls, a, st0, m, q, w)
            # a valid override next to an unknown one still acts
            with ctx.group('unknown override', '%s.%s with a valid one' % (cls, q), w):
                x = 'g'
                r1 = a.method(m, q, kw={'nosuchpar': V.var('stray'), x: V.var('g_new')}, st=st0.fork())
                r2 = a.method(m, q, kw={x: V.var('g_new')}, st=st0.fork())
                ctx.equal('unknown override ignored', '%s.%s with a valid override' % (cls, q), r1.frozen(),
                          r2.frozen(), w)
            # unequal lengths
            for ks, ns in ((('v', 'g'), (2, 3)), (('g', 'v'), (3, 2)), ((keys[0], keys[5], 'v'), (2, 2, 3)),
                           (('v', keys[3]), (1, 2)), (('v', keys[3]), (4, 1))):
                with ctx.group('unequal lengths', '%s.%s %s' % (cls, q, ks), w):
                    st = st0.fork()
                    kw = {k: symarray(a, st, k, n) for k, n in zip(ks, ns)}
                    r = a.method(m, q, kw=kw, st=st)
                    only_raises(ctx, 'unequal lengths refused', '%s.%s(%s)' % (
                        cls, q, ', '.join('%s: %d' % x for x in zip(ks, ns))), r, w)
        scalars(ctx, cls, a, st0, m, keys)
        sims(ctx, cls, a, st0, m, keys)
    gains(ctx)


def scalars(ctx, cls, a, st0, m, keys):
    """The parsed dictionary itself: every key, every kind of scalar."""
    w = ctx.where('models', '_Model._parse_parameter_overrides')
    f = a.I.lib.getattr(st0, m, '_parse_parameter_overrides', None)
    for k in keys:
        with ctx.group('scalar override', '%s %s' % (cls, k), w):
            for kind, val in (('float', V.var('new')), ('int', const(3)), ('int symbol', V.var('new', False, 'i'))):
                r = a.call(f, [], {k: val}, st0.fork())
                if not ctx.no_raise('scalar override accepted', '%s.%s %s' % (cls, k, kind), r, w):
                    continue
                fz = r.frozen()
                want = {x: V.var(x) for x in keys}
                want[k] = V.var('new') if kind != 'int' else const(3.0)
                got = fz.items[0]
                wf = V.frozen('dict', (), sum([[string(x), want[x]] for x in want], []))
                ctx.equal('scalar override replaces the value', '%s.%s %s' % (cls, k, kind), got, wf, w)
                ctx.ob('scalar override adds no array', '%s.%s %s' % (cls, k, kind),
                       isinstance(fz.items[1], Frozen) and not fz.items[1].items and fz.items[2] is NONE,
                       'array keys %s, length %s' % (V.show(fz.items[1]), V.show(fz.items[2])), w)


def sims(ctx, cls, a, st0, m, keys):
    n = 12 if 'Lean' in cls else 4
    for q in ('simulate', 'simulate_modes', 'plot_simulation', 'plot_mode_simulations'):
        w = ctx.where('models', (cls if 'Lean' in cls and q in ('simulate', 'plot_simulation') else
                                 'Meijaard2007Model' if q == 'plot_simulation' else '_Model') + '.' + q)
        for ks in ((keys[0],), ('v',), ('rr' if 'Lean' in cls else 'rR',), ('v', 'g')):
            for ln in (1, 2) if len(ks) == 1 else (2,):
                tag = '%s.%s(%s array of %d)' % (cls, q, '+'.join(ks), ln)
                with ctx.group('simulation refused', tag, w):
                    st = st0.fork()
                    args = [symarray(a, st, 't', 5)]
                    if 'mode' not in q:
                        args.append(symarray(a, st, 'x0', n))
                    r = a.method(m, q, args, {k: symarray(a, st, k, ln) for k in ks}, st)
                    only_raises(ctx, 'simulation with array override refused', tag, r, w,
                                before=('scipy.integrate.solve_ivp',))


def gains(ctx):
    w = ctx.where('models', 'Meijaard2007WithFeedbackModel.plot_gains')
    for ks in ((), ('kTphi_phi',), ('kTdel_phid', 'kTdel_phi')):
        a, st0, m, keys = setup(ctx, 'Meijaard2007WithFeedbackModel')
        with ctx.group('gain plot refused', '+'.join(ks), w):
            st = st0.fork()
            r = a.method(m, 'plot_gains', kw={k: symarray(a, st, k, 3) for k in ks}, st=st)
            only_raises(ctx, 'gain plot without a swept parameter refused', 'plot_gains(%s)' % ', '.join(ks), r, w)
