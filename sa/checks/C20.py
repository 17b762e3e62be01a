"""Symbolic differentiation of the interpreted oscillation model against its interpreted
Jacobian, coefficient by coefficient, and value-graph dataflow through the fit: what is
minimised, at which times, how the covariance is formed from residuals and Jacobian, and
which coefficients with which of their standard deviations make up the period."""
import itertools
import an
import values as V
from common import *
from specs import calc
import draw
import texmath
TECHNIQUE = 'value-graph dataflow with exact symbolic differentiation'
ASSUMPTIONS = ['real arithmetic', 'scipy.optimize.leastsq minimises the sum of squares of the function it is given; at '
               'its minimum the error, regression and total sums of squares add up because the model contains a constant']
N = 6


def P(k, u=False):
    return V.var('p%d' % k, u)


def fit(ctx, rate=None, times=None):
    """Interpret get_period with the optimiser replaced by its result p0..p4."""
    a = ctx.analysis()
    I = a.I
    st = a.state()
    rec = {'leastsq': [], 'jac': [], 'inv': [], 'ufloat': [], 'goodness': [], 'guess': [], 'plot': []}

    def leastsq(st, args, kw, node):
        rec['leastsq'].append((args, kw, st))
        return tup([I.new_arr(st, [P(k) for k in range(5)], (5,)), const(1)])
    for n in ('scipy.optimize.leastsq', 'scipy.optimize._minpack_py.leastsq'):
        I.lib.ext[n] = leastsq
    I.stubs[('period', 'make_guess')] = lambda st, args, kw, node: (
        rec['guess'].append([I.freeze(st, x) for x in ordered(ctx, 'period', 'make_guess', args, kw)]) or
        I.new_arr(st, [V.var('g%d' % k) for k in range(5)], (5,)))

    def jac(st, args, kw, node):
        rec['jac'].append([I.freeze(st, x) for x in ordered(ctx, 'period', 'jac_fitfunc', args, kw)])
        return I.new_arr(st, [V.var('L%d_%d' % (i, k)) for i in range(N) for k in range(5)], (N, 5))
    I.stubs[('period', 'jac_fitfunc')] = jac

    def good(st, args, kw, node):
        rec['goodness'].append([I.freeze(st, x) for x in ordered(ctx, 'period', 'fit_goodness', args, kw)])
        return tup([V.var(x) for x in ('rsq', 'SSE', 'SST', 'SSR')])
    I.stubs[('period', 'fit_goodness')] = good
    I.stubs[('period', 'plot_osfit')] = lambda st, args, kw, node: (
        rec['plot'].append([None if x is None else I.freeze(st, x) for x in ordered(ctx, 'period', 'plot_osfit', args, kw)]) or NONE)

    def inv(st, args, kw, node):
        rec['inv'].append(I.freeze(st, args[0]))
        return I.new_arr(st, [V.var('V%d%d' % (min(i, k), max(i, k))) for i in range(5) for k in range(5)], (5, 5))
    for n in ('inv', 'pinv'):
        I.lib.ext['numpy.linalg.' + n] = inv
        I.lib.ext['scipy.linalg.' + n] = inv
    data = symarray(a, st, 'y', N)
    x = const(200) if times is None else symarray(a, st, 't', N)
    r = a.call(a.get('period', 'get_period'), [data, x, string('/d/p.png')], {}, st)
    return a, r, rec


def model(a, f, st, k, ts, w):
    """The residual function at symbolic coefficients, times ts and data d."""
    z = a.I.new_arr(st, [P(i) for i in range(5)], (5,))
    t = a.I.new_arr(st, ts, (len(ts),))
    y = a.I.new_arr(st, [V.var('d%d' % i) for i in range(len(ts))], (len(ts),))
    return a.call(f, [z, t, y], {}, st)


def jacobian(ctx):
    w = ctx.where('period', 'jac_fitfunc')
    wf = ctx.where('period', 'get_period')
    a, r, rec = fit(ctx, times=True)
    if not rec['leastsq']:
        ctx.ob('jacobian', 'model', an.UNK, 'no call of leastsq', wf)
        return
    args, kw, st = rec['leastsq'][0]
    for m in (1, 2, 3):
        ts = [V.var('t%d' % i) for i in range(m)]
        q = model(a, args[0], st.fork(), 5, ts, w)
        if not ctx.no_raise('jacobian', 'residual at %d times' % m, q, wf):
            continue
        fv = q.frozen()
        st2 = a.state()
        b = ctx.analysis()
        st2 = b.state()
        j = b.call(b.get('period', 'jac_fitfunc'), [b.I.new_arr(st2, [P(i) for i in range(5)], (5,)),
                                                     b.I.new_arr(st2, ts, (m,))], {}, st2)
        if not ctx.no_raise('jacobian', 'at %d times' % m, j, w):
            continue
        jv = j.frozen()
        ctx.ob('jacobian', 'shape at %d times' % m, tuple(jv.meta) == (m, 5), 'shape %s' % (tuple(jv.meta),), w)
        if tuple(jv.meta) != (m, 5):
            continue
        for i in range(m):
            res = a.I.lib.tonum(fv.items[i])
            if res is None:
                ctx.ob('jacobian', 'residual', an.UNK, V.show(fv.items[i])[:100], w)
                continue
            for k in range(5):
                t = 'd f(t%d of %d) / d p[%d]' % (i, m, k)
                try:
                    want = calc.diff(res.rf, 'p%d' % k)
                except ValueError as e:
                    ctx.ob('jacobian', t, an.UNK, str(e), w)
                    continue
                ctx.equal('jacobian', t, jv.items[i * 5 + k], num(want), w)


def residual(ctx):
    """The residual is model minus data, the model the documented decaying oscillation."""
    w = ctx.where('period', 'get_period')
    a, r, rec = fit(ctx, times=True)
    if not rec['leastsq']:
        return
    args, kw, st = rec['leastsq'][0]
    ts = [V.var('t0'), V.var('t1')]
    q = model(a, args[0], st.fork(), 5, ts, w)
    if ctx.no_raise('model', 'residual', q, w):
        p = [ring.var('p%d' % i) for i in range(5)]
        for i, x in enumerate(q.frozen().items):
            t = ring.var('t%d' % i)
            wd = p[4] * ring.sqrt(1 - p[3] * p[3])
            want = p[0] + ring.exp(-p[3] * p[4] * t) * (p[1] * ring.sin(wd * t) + p[2] * ring.cos(wd * t)) - ring.var('d%d' % i)
            n = a.I.lib.tonum(x)
            if n is not None and ring.equal(n.rf, -want):
                x = num(want)
            ctx.equal('model', 'residual %d' % i, x, num(want), w)


def oscillation(p, t):
    wd = p[4] * ring.sqrt(1 - p[3] * p[3])
    return p[0] + ring.exp(-p[3] * p[4] * t) * (p[1] * ring.sin(wd * t) + p[2] * ring.cos(wd * t))


def want_fit(wx):
    p = [ring.var('p%d' % i) for i in range(5)]
    return [num(oscillation(p, x.rf)) for x in wx.items]


def picture(ctx):
    """The plot of the fit: both curves, their names, the printed formula and figures."""
    w = ctx.where('period', 'plot_osfit')
    for lim, own in itertools.product((False, True), repeat=2):
        tag = '%s, %s figure' % ('limited' if lim else 'whole', 'given' if own else 'new')
        with ctx.group('plotted', tag, w):
            a = ctx.analysis()
            f = a.get('period', 'plot_osfit')
            st = a.state()
            T, Y, Q = (symarray(a, st, n, 3) for n in 'tyq')
            p = a.I.new_arr(st, [P(k) for k in range(5)], (5,))
            kw = {'m': V.var('m')} if lim else {}
            if own:
                res = a.I.lib.call(st, V.ext('matplotlib.pyplot.subplots'), [], {}, None)
                kw['fig'] = res.items[0]
            r = a.call(f, [T, Y, Q, p, V.var('rsq'), V.var('T', True)], kw, st)
            if not ctx.no_raise('plotted', tag + ' completes', r, w):
                continue
            ft, fy, fq = (a.I.freeze(st, x) for x in (T, Y, Q))
            curves = [e for e in draw.calls(r, 'plot')]
            which = []
            for e in curves:
                x, y = e.data[2][0], e.data[2][1]
                which.append('Measured' if draw.same(y, fy) == an.EQ else 'Fit' if draw.same(y, fq) == an.EQ else '?')
                ctx.equal('plotted', '%s curve %d against time' % (tag, len(which)), x, ft, w)
            ctx.ob('plotted', tag + ': both curves', sorted(which) == ['Fit', 'Measured'], str(which), w)
            leg = draw.calls(r, 'legend')
            own_labels = [getattr(draw.kws(e).get('label'), 'lit', None) for e in curves]
            if leg and leg[-1].data[2] and isinstance(leg[-1].data[2][0], (Frozen, V.Tup)):
                names = [getattr(x, 'lit', None) for x in leg[-1].data[2][0].items]
            else:
                names = own_labels if leg else []
            ctx.ob('plotted', tag + ': curves named', names == which, 'drawn %s, named %s' % (which, names), w)
            lim_calls = [e for n in ('xlim', 'set_xlim') for e in draw.calls(r, n)]
            if lim:
                for e in lim_calls[-1:]:
                    its = e.data[2][0].items if isinstance(e.data[2][0], (Frozen, V.Tup)) else e.data[2]
                    ctx.equal('plotted', tag + ': limit', its[-1], V.var('m'), w)
            titles = [e for n in ('title', 'set_title', 'suptitle') for e in draw.calls(r, n)]
            if not titles:
                ctx.ob('plotted', tag + ': formula', an.UNK, 'no title', w)
                continue
            title(ctx, a, tag, titles[-1].data[2][0], w)


def title(ctx, a, tag, s, w):
    parts = []
    for x in s.parts:
        if isinstance(x, V.Term) and x.head == 'fmt':
            n = a.I.lib.tonum(x.args[-1])
            parts.append(n.rf if n is not None else x)
        else:
            parts.append(x)
    text = ''.join(x if isinstance(x, str) else '\0' for x in parts)
    it = iter([x for x in parts if not isinstance(x, str)])
    seen = 0
    for line in text.split('$'):
        mine = []
        for k, piece in enumerate(line.split('\0')):
            if k:
                mine.append(next(it))
            mine.append(piece)
        for start, what, want in (('f(t)=', 'formula', None), ('r^2=', 'r squared', ring.var('rsq')), ('T=', 'period', ring.var('T'))):
            if not mine[0].startswith(start):
                continue
            seen += 1
            body = [mine[0][len(start):].replace(' s', '') if len(mine) == 1 else mine[0][len(start):]] + [
                x.replace(' s', '') if isinstance(x, str) and what == 'period' else x for x in mine[1:]]
            try:
                got = texmath.formula(body, {'t': ring.var('t')})
            except texmath.TexError as e:
                ctx.ob('plotted', '%s: %s' % (tag, what), an.UNK, str(e), w)
                continue
            if want is None:
                want = oscillation([ring.var('p%d' % i) for i in range(5)], ring.var('t'))
            ctx.equal('plotted', '%s: %s' % (tag, what), num(got), num(want), w)
    if seen < 3:
        ctx.ob('plotted', tag + ': title', an.UNK, '%d of 3 figures recognised' % seen, w)


def fitting(ctx):
    w = ctx.where('period', 'get_period')
    for kind in ('rate', 'time'):
        with ctx.group('fit', kind, w):
            a, r, rec = fit(ctx, times=kind == 'time' or None)
            if not ctx.no_raise('fit', kind, r, w):
                continue
            if not rec['leastsq']:
                ctx.ob('fit', kind, an.UNK, 'no call of leastsq', w)
                continue
            args, kw, st = rec['leastsq'][0]
            extra = kw.get('args', args[2] if len(args) > 2 else None)
            ex = a.I.freeze(st, extra).items if extra is not None else []
            xs = [V.var('t_%d' % i) if kind == 'time' else const(i) for i in range(N)]
            wx = V.frozen('array', (N,), tuple(num(V_rf(a, x) / (1 if kind == 'time' else 200)) for x in xs))
            wy = V.frozen('array', (N,), tuple(V.var('y_%d' % i) for i in range(N)))
            if len(ex) == 2:
                ctx.equal('fit', kind + ' times', ex[0], wx, w)
                ctx.equal('fit', kind + ' data', ex[1], wy, w)
            else:
                ctx.ob('fit', kind + ' times', an.UNK, '%d extra arguments' % len(ex), w)
            g = [c for c in rec['guess']]
            ctx.ob('fit', kind + ' guess', len(g) == 1, '%d guesses' % len(g), w)
            if g:
                ctx.equal('fit', kind + ' guess data', g[0][0], wy, w)
                if kind == 'rate':
                    ctx.equal('fit', kind + ' guess rate', g[0][1], const(200), w)
            for c in rec['jac'][:1]:
                ctx.equal('covariance', kind + ' Jacobian coefficients', c[0], V.frozen('array', (5,), tuple(P(k) for k in range(5))), w)
                ctx.equal('covariance', kind + ' Jacobian times', c[1], wx, w)
            # the fitted curve is the model at the fitted coefficients
            for c in rec['goodness'][:1]:
                ctx.equal('covariance', kind + ' measured', c[0], wy, w)
                want = want_fit(wx)
                ctx.equal('covariance', kind + ' predicted', c[1], V.frozen('array', (N,), tuple(want)), w)
            L = lambda i, k: ring.var('L%d_%d' % (i, k))
            H = V.frozen('array', (5, 5), tuple(num(sum((L(m, i) * L(m, k) for m in range(1, N)), L(0, i) * L(0, k)))
                                                for i in range(5) for k in range(5)))
            for h in rec['inv'][:1]:
                ctx.equal('covariance', kind + ' Hessian', h, H, w)
            uf = [e.data for e in r.events if e.kind == 'ufloat']
            for i in (3, 4):
                mine = [d for d in uf if isinstance(d[0], V.Num) and ring.equal(d[0].rf, ring.var('p%d' % i))]
                ctx.ob('uncertainty', '%s p[%d]' % (kind, i), len(mine) == 1 and len(mine[0]) > 1, '%d uncertain values' % len(mine), w)
                if len(mine) == 1 and len(mine[0]) > 1:
                    sd = mine[0][1]
                    want = ring.var('SSE') / (N - 5) * ring.var('V%d%d' % (i, i))
                    n = a.I.lib.tonum(sd)
                    if n is None:
                        ctx.ob('uncertainty', '%s p[%d] deviation' % (kind, i), an.UNK, V.show(sd), w)
                    else:
                        ctx.equal('uncertainty', '%s p[%d] variance' % (kind, i), num(n.rf * n.rf), num(want), w)
            for c in rec['plot'][:1]:
                wants = (('times', wx), ('measured', wy), ('fitted', V.frozen('array', (N,), tuple(want_fit(wx)))),
                         ('coefficients', V.frozen('array', (5,), tuple(P(k) for k in range(5)))), ('r squared', V.var('rsq')), ('period', r.value))
                for (nm, x), got in zip(wants, c):
                    ctx.equal('plotted', '%s %s' % (kind, nm), got, x, w)
            sv = draw.calls(r, 'savefig')
            ctx.ob('plotted', kind + ' saved', len(sv) == 1 and getattr(sv[0].data[2][0], 'lit', None) == '/d/p.png', '%d saves' % len(sv), w)
            T = 2 * ring.PI / (ring.var('p4') * ring.sqrt(1 - ring.var('p3') * ring.var('p3')))
            ctx.equal('period', kind, r.value, num(T, True), w)
            ctx.ob('period', kind + ' uncertain', isinstance(r.value, V.Num) and r.value.u, 'period carries its uncertainty', w)


def V_rf(a, x):
    return a.I.lib.tonum(x).rf


def goodness(ctx):
    w = ctx.where('period', 'fit_goodness')
    for n in (2, 3, 5):
        a = ctx.analysis()
        st = a.state()
        r = a.call(a.get('period', 'fit_goodness'), [symarray(a, st, 'm', n), symarray(a, st, 'q', n)], {}, st)
        if not ctx.no_raise('goodness', '%d points' % n, r, w):
            continue
        m = [ring.var('m_%d' % i) for i in range(n)]
        q = [ring.var('q_%d' % i) for i in range(n)]
        tot = lambda xs: sum(xs[1:], xs[0])
        mean = tot(m) / n
        SSR = tot([(x - mean) * (x - mean) for x in q])
        SST = tot([(x - mean) * (x - mean) for x in m])
        ERR = tot([(x - y) * (x - y) for x, y in zip(m, q)])
        its = r.frozen().items
        alt = {'rsq': [SSR / SST, 1 - ERR / SST], 'SSE': [SST - SSR, ERR], 'SST': [SST], 'SSR': [SSR, SST - ERR]}
        for k, x in zip(('rsq', 'SSE', 'SST', 'SSR'), its):
            want = alt[k][0]
            for y in alt[k]:
                z = a.I.lib.tonum(x)
                if z is not None and ring.equal(z.rf, y):
                    want = y
            ctx.equal('goodness', '%s of %d points' % (k, n), x, num(want), w)


def truncated(ctx):
    """Sampled recordings are cut, recordings with their own times are fitted whole."""
    w = ctx.where('period', 'get_period_from_truncated')
    for kind in ('rate', 'time'):
        with ctx.group('cut', kind, w):
            a = ctx.analysis()
            st = a.state()
            rec = []
            a.I.stubs[('period', 'get_period')] = lambda st, args, kw, node: (
                rec.append([a.I.freeze(st, x) for x in ordered(ctx, 'period', 'get_period', args, kw)]) or V.var('T', True))
            a.I.stubs[('period', 'select_good_data')] = lambda st, args, kw, node: V.term('good', a.I.freeze(st, args[0]), a.I.freeze(st, args[1]))
            d = symarray(a, st, 'y', N)
            x = symarray(a, st, 't', N) if kind == 'time' else const(100)
            r = a.call(a.get('period', 'get_period_from_truncated'), [d, x, string('/p.png')], {}, st)
            if ctx.no_raise('cut', kind, r, w):
                fd, fx = a.I.freeze(st, d), a.I.freeze(st, x)
                ctx.ob('cut', kind + ' once', len(rec) == 1, '%d fits' % len(rec), w)
                for c in rec:
                    if kind == 'time':
                        ctx.equal('cut', 'times given: data', c[0], fd, w)
                        ctx.equal('cut', 'times given: times', c[1], fx, w)
                    else:
                        ok = getattr(c[0], 'head', None) == 'good' and c[0].args[0] is fd
                        ctx.ob('cut', 'sampled: data', ok or (an.UNK if getattr(c[0], 'head', None) != 'good' else False), V.show(c[0])[:100], w)
                        ctx.equal('cut', 'sampled: rate', c[1], fx, w)
                    ctx.ob('cut', kind + ' plot file', getattr(c[2], 'lit', None) == '/p.png', '', w)
                ctx.equal('cut', kind + ' result', r.value, V.var('T', True), w)


def check(ctx):
    jacobian(ctx)
    residual(ctx)
    fitting(ctx)
    goodness(ctx)
    truncated(ctx)
    picture(ctx)
