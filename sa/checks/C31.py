"""Value-graph dataflow over simulate and simulate_modes with an opaque integrator:
the right-hand side handed to it is itself analysed at a symbolic time and state and
compared entry by entry with A x + B u, where A and B are the model's own matrices at
the same overrides and u the supplied input function at that time and state. Span,
sample times, initial state, returned trajectories and reported inputs are compared, as
are the caller's arrays before and after."""
import itertools
import an
import values as V
from common import *
TECHNIQUE = 'value-graph dataflow (abstract interpretation) including the right-hand side passed to the integrator'
ASSUMPTIONS = ['scipy.integrate.solve_ivp integrates the function it is given', 'rounding is not modelled']
CLS = ['Meijaard2007Model', 'Meijaard2007WithFeedbackModel', 'MooreRiderLean2012Model']
NT = 3


def opq(*x):
    return num(ring.app('opq', V.term(*x)))


def copq(*x):
    return num(ring.app('opq', V.term(*x)), False, 'c')


def uin(j, t, xs):
    return opq('input', const(j), t, tup(xs))


def prepare(ctx, cls, returns='array'):
    a = ctx.analysis()
    st = a.state()
    if cls.startswith('Moore'):
        stub_eval_linear(a)
        st, ps, d = lean(a, st)
    else:
        st, ps, d = (meijaard if cls == CLS[0] else feedback)(a, st)
    st, m = model(a, st, cls, ps)
    n, k = (12, 3) if cls.startswith('Moore') else (4, 2)
    seen = {'over': [], 'solve': [], 'inputs': []}

    def fss(st, args, kw, node):
        seen['over'].append({x: a.I.freeze(st, y) for x, y in kw.items()})
        return tup([a.I.new_arr(st, [V.var('A_%d_%d' % ij) for ij in itertools.product(range(n), range(n))], (n, n)),
                    a.I.new_arr(st, [V.var('B_%d_%d' % ij) for ij in itertools.product(range(n), range(k))], (n, k))])

    def eig(st, args, kw, node):
        seen['over'].append({x: a.I.freeze(st, y) for x, y in kw.items() if x != 'left'})
        seen['left'] = kw.get('left', args[1] if len(args) > 1 else FALSE)
        return tup([a.I.new_arr(st, [copq('eval', const(i)) for i in range(n)], (n,), 'c'),
                    a.I.new_arr(st, [copq('evec', const(i), const(j)) for i in range(n) for j in range(n)], (n, n), 'c')])
    for c in CLS:
        a.I.stubs[('models', c + '.form_state_space_matrices')] = fss
    a.I.stubs[('models', '_Model.calc_eigen')] = eig

    def given(st, args, kw, node):
        t, x = args[0], a.I.freeze(st, args[1])
        its = [uin(j, t, list(x.items)) for j in range(k)]
        seen['inputs'].append((t, x))
        if returns == 'list':
            return a.I.new_list(st, its)
        if returns == 'tuple':
            return tup(its)
        return a.I.new_arr(st, its, (k,))
    a.I.lib.ext['user.input'] = given

    def solve(st, args, kw, node):
        names = ['fun', 't_span', 'y0', 'method', 't_eval', 'dense_output', 'events', 'vectorized', 'args']
        g = dict(zip(names, args))
        g.update(kw)
        s = len(seen['solve'])
        t = V.var('time%d' % s)
        xs = [V.var('x%d_%d' % (s, i)) for i in range(n)]
        extra = []
        if 'args' in g:
            extra = list(a.I.freeze(st, g['args']).items)
        rhs = a.I.call(st, g['fun'], [t, a.I.new_arr(st, list(xs), (n,))] + extra, {}, node)
        te = a.I.freeze(st, g['t_eval']) if 't_eval' in g else None
        seen['solve'].append({'t': t, 'x': xs, 'rhs': a.I.freeze(st, rhs), 'span': a.I.freeze(st, g['t_span']),
                              'y0': a.I.freeze(st, g['y0']), 'te': te})
        m_ = len(te.items) if te is not None and hasattr(te, 'items') else 0
        y = a.I.new_arr(st, [V.var('y%d_%d_%d' % (s, i, j)) for i in range(n) for j in range(m_)], (n, m_))
        return instance(a, st, 'main', 'Bicycle', {'y': y, 't': g.get('t_eval', NONE), 'success': TRUE, 'status': const(0)})
    a.I.lib.ext['scipy.integrate.solve_ivp'] = solve
    return a, st, m, n, k, seen


def rhs(n, k, t, xs, forced):
    out = []
    for i in range(n):
        r = ring.const(0)
        for j in range(n):
            r = r + ring.var('A_%d_%d' % (i, j)) * xs[j].rf
        if forced:
            for j in range(k):
                r = r + ring.var('B_%d_%d' % (i, j)) * uin(j, t, xs).rf
        out.append(num(r))
    return out


def times(a, st, kind):
    ts = [V.var('t%d' % i) for i in range(NT)]
    if kind == 'list':
        return a.I.new_list(st, ts), ts
    return a.I.new_arr(st, ts, (NT,)), ts


def simulate(ctx, cls):
    q = ('MooreRiderLean2012Model' if cls.startswith('Moore') else '_Model') + '.simulate'
    w = ctx.where('models', q)
    for forced, tk, xk, ov in (('array', 'array', 'array', 's'), ('list', 'list', 'list', ''), ('tuple', 'array', 'list', 's'),
                               (None, 'array', 'array', 's'), (None, 'list', 'list', ''), ('array', 'array', 'ints', 's'),
                               ('array', 'array', 'array', '')):
        t = '%s: input %s, times %s, initial state %s%s' % (cls, forced, tk, xk, ', overrides' if ov else '')
        with ctx.group('simulation', t, w):
            a, st, m, n, k, seen = prepare(ctx, cls, forced or 'array')
            tm, ts = times(a, st, tk)
            x0 = [const(i + 1) if xk == 'ints' else V.var('init%d' % i) for i in range(n)]
            ic = a.I.new_list(st, list(x0)) if xk == 'list' else a.I.new_arr(st, list(x0), (n,), 'i' if xk == 'ints' else 'f')
            kw = {'v': V.var('speed'), 'g': V.var('grav')} if ov else {}
            over = {x: a.I.freeze(st, y) for x, y in kw.items()}
            before = [a.I.freeze(st, ic), a.I.freeze(st, tm)]
            if forced:
                kw['input_func'] = V.ext('user.input')
            r = a.method(m, 'simulate', [tm, ic], kw, st)
            if not ctx.no_raise('completes', t, r, w):
                continue
            ctx.ob('same overrides', t, bool(seen['over']) and all(x == over for x in seen['over']), str(seen['over'])[:200], w)
            ctx.ob('one integration', t, len(seen['solve']) == 1, '%d' % len(seen['solve']), w)
            s = seen['solve'][0]
            ctx.equal('right-hand side', t, tup(list(s['rhs'].items)), tup(rhs(n, k, s['t'], s['x'], bool(forced))), w)
            ctx.equal('time span', t, tup(list(s['span'].items)), tup([ts[0], ts[-1]]), w)
            ctx.equal('sample times', t, tup(list(s['te'].items)) if s['te'] is not None else NONE, tup(ts), w)
            want = list(x0)
            if cls.startswith('Moore'):
                sp = V.var('speed') if ov else V.var('v')
                want[9] = num(ring.const(0) - sp.rf / ring.var('rr'))
            ctx.equal('initial state', t, tup(list(s['y0'].items)), tup(want), w)
            f = r.frozen()
            states, inputs = f.items
            ctx.ob('shapes', t, states.meta == (NT, n) and inputs.meta == (NT, k), '%s %s' % (states.meta, inputs.meta), w)
            y = [[V.var('y0_%d_%d' % (i, j)) for i in range(n)] for j in range(NT)]
            ctx.equal('trajectory', t, tup(list(states.items)), tup([x for row in y for x in row]), w)
            u = [uin(j, ts[i], y[i]) if forced else const(0) for i in range(NT) for j in range(k)]
            ctx.equal('reported inputs', t, tup(list(inputs.items)), tup(u), w)
            ctx.equal('arguments unchanged', t, tup([r.freeze(ic), r.freeze(tm)]), tup(before), w)


def modes(ctx, cls):
    w = ctx.where('models', '_Model.simulate_modes')
    for tk, ov in (('array', True), ('list', False)):
        t = '%s: times %s%s' % (cls, tk, ', overrides' if ov else '')
        with ctx.group('modes', t, w):
            a, st, m, n, k, seen = prepare(ctx, cls)
            tm, ts = times(a, st, tk)
            kw = {'v': V.var('speed')} if ov else {}
            over = {x: a.I.freeze(st, y) for x, y in kw.items()}
            r = a.method(m, 'simulate_modes', [tm], kw, st)
            if not ctx.no_raise('completes', t, r, w):
                continue
            ctx.ob('same overrides', t, bool(seen['over']) and all(x == over for x in seen['over']), str(seen['over'])[:200], w)
            ctx.ob('right eigenvectors', t, seen.get('left', FALSE) is FALSE, '', w)
            f = r.frozen()
            ctx.ob('shapes', t, f.meta == (n, NT, n), str(f.meta), w)
            ctx.ob('one integration per mode', t, len(seen['solve']) == n, '%d' % len(seen['solve']), w)
            if f.meta != (n, NT, n) or len(seen['solve']) != n:
                continue
            re = lambda x: a.I.lib.call(r.st, V.ext('numpy.real'), [x], {}, None)
            for i in range(n):
                slab = list(f.items[i * NT * n:(i + 1) * NT * n])
                # which integration fills this mode
                s0 = [s for s in range(n) if slab[0] == V.var('y%d_0_0' % s)]
                if len(s0) != 1:
                    ctx.ob('modes', '%s mode %d' % (t, i), an.UNK if slab[0].var != V.Value.var else False, V.show(slab[0])[:100], w)
                    continue
                s = s0[0]
                ctx.equal('modes', '%s mode %d trajectory' % (t, i), tup(slab),
                          tup([V.var('y%d_%d_%d' % (s, c, j)) for j in range(NT) for c in range(n)]), w)
                S = seen['solve'][s]
                ctx.equal('modes', '%s mode %d right-hand side' % (t, i), tup(list(S['rhs'].items)), tup(rhs(n, k, S['t'], S['x'], False)), w)
                ctx.equal('modes', '%s mode %d initial state' % (t, i), tup(list(S['y0'].items)),
                          tup([re(copq('evec', const(c), const(i))) for c in range(n)]), w)
                ctx.equal('modes', '%s mode %d times' % (t, i), tup(list(S['span'].items) + list(S['te'].items)), tup([ts[0], ts[-1]] + ts), w)


def check(ctx):
    for cls in CLS:
        simulate(ctx, cls)
        modes(ctx, cls)
