"""Second half of C33: plots of the models, of the bicycle and of several bicycles."""
import an
import ring
import values as V
from common import *
import draw
from draw import shapes, calls, find, match, same, unopq, kws, seq


def sym(nm, *ix, **k):
    return num(ring.app('opq', V.term('in', string(nm), *[const(i) for i in ix])), False, k.get('dt', 'c'))


def carr(a, st, nm, *shape):
    import itertools
    return a.I.new_arr(st, [sym(nm, *ix) for ix in itertools.product(*[range(n) for n in shape])], tuple(shape), 'c')


def np_(a, st, name, *args, **kw):
    return a.I.lib.call(st, V.ext('numpy.' + name), list(args), dict(kw), None)


def fz(a, st, v):
    return a.I.freeze(st, v)


def opaque(a, *names):
    """Reductions whose value only sets limits stay uninterpreted."""
    for n in names:
        a.I.lib.ext['numpy.' + n] = lambda st, args, kw, node, n=n: num(ring.app('opq', V.term(n, a.I.freeze(st, args[0]))))


def col(a, st, arr, *ix):
    return a.I.lib.getitem(st, arr, tup(list(ix)) if len(ix) > 1 else ix[0], None)


def lines_of(ss):
    return [s for s in ss if s.kind == 'line']


def data_is(a, s, x, y):
    """Line s shows y against x."""
    return an.worst(same(s.data['x'], x), same(s.data['y'], y))


def style(s, *names):
    for n in names:
        if n in s.style:
            return s.style[n]
    return NONE


ALL = V.slice_(NONE, NONE, NONE)
LS = ('linestyle', 'ls')
CO = ('color', 'c')


def setters(r, name, ax=None):
    return [e for e in calls(r, name) if ax is None or e.data[1] is ax or same(e.data[1], ax) == an.EQ]


def last_arg(es):
    return es[-1].data[2][0] if es and es[-1].data[2] else None


# -- models ---------------------------------------------------------------------------

def eigen_model(ctx, cls='Meijaard2007Model', n=4, given=()):
    """A model whose eigenvalues are unknowns; asked for with other overrides
    than the given ones it answers other unknowns."""
    a = ctx.analysis()
    st = a.state()
    if cls == 'MooreRiderLean2012Model':
        st, ps, d = lean(a, st)
        st, m = model(a, st, cls, ps)
    else:
        st, ps, d = meijaard(a, st)
        st, m = model(a, st, cls, ps)

    def eig(nm0):
        def f(st, args, kw, node):
            k = 3
            nm = nm0 if set(kw) - {'left'} == set(given) else nm0 + 'other'
            if all(isinstance(x, V.Num) for q, x in kw.items() if q != 'left'):
                return tup([carr(a, st, nm, n), carr(a, st, nm + 'vec', n, n)])
            return tup([carr(a, st, nm, k, n), carr(a, st, nm + 'vec', k, n, n)])
        return f
    a.I.stubs[('models', '_Model.calc_eigen')] = eig('ev')

    def sort(st, args, kw, node):
        return tup([carr(a, st, 'S', 3, n), carr(a, st, 'Svec', 3, n, n)])
    a.I.stubs[('bicycle', 'sort_eigenmodes')] = sort
    opaque(a, 'min', 'max', 'amin', 'amax')
    return a, st, m


def eigenvalue_parts(ctx):
    q = '_Model.plot_eigenvalue_parts'
    w = ctx.where('models', q)
    given = strs('red', 'lime', 'navy', 'gold')
    for tag, opts in (('default', {}), ('given colours', {'colors': given}), ('unsorted', {'sort_modes': V.FALSE}),
                      ('no region', {'show_stable_regions': V.FALSE}), ('hidden zeros', {'hide_zeros': V.TRUE}),
                      ('hidden below', {'hide_zeros': num(ring.const(1) / ring.const(1000))}), ('own axes', {'ax': None}),
                      ('wheelbase varied', {'vary': ('w',)}), ('two varied', {'vary': ('v', 'w')}), ('two varied, swapped', {'vary': ('w', 'v')}),
                      ('another held', {'hold': 'c'}), ('rider lean', {'cls': 'MooreRiderLean2012Model', 'vary': ('d1',)})):
        tag = 'eigenvalue parts, ' + tag
        opts = dict(opts)
        vary = opts.pop('vary', ('v',))
        hold = opts.pop('hold', None)
        cls = opts.pop('cls', 'Meijaard2007Model')
        n = 12 if cls[1] == 'o' else 4
        with ctx.group('eigenvalue parts', tag, w):
            a, st, m = eigen_model(ctx, cls, n, vary + ((hold,) if hold else ()))
            kw = dict(opts)
            if hold:
                kw[hold] = V.var('held')
            ax = V.term('axes', string('given'))
            if 'ax' in kw:
                kw.pop('ax')
            else:
                kw['ax'] = ax
            if 'colors' in kw:
                kw['colors'] = a.I.new_list(st, kw['colors'])
            for k in vary:
                kw[k] = symarray(a, st, k, 3)
            r = a.method(m, 'plot_eigenvalue_parts', [], kw, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            ss = lines_of(shapes(a, r))
            axs = {s.ax for s in ss}
            xl = last_arg(setters(r, 'set_xlabel', list(axs)[0] if axs else ax))
            named = [k for k in vary if xl is not None and same(xl, string('$%s$' % {'d1': 'd_1'}.get(k, k))) == an.EQ]
            ctx.ob('labels', tag + ' x', len(named) == 1, V.show(xl, 2), w)
            vs = fz(a, st, kw[(named or vary)[0]])
            ctx.ob('target axes', tag, len(axs) == 1 and unopq(a, r.value) in axs and ('ax' not in kw or ax in axs), '%d axes' % len(axs), w)
            ctx.ob('eigenvalue parts', tag + ' curves', len(ss) == 2 * n, '%d curves for %d modes' % (len(ss), n), w)
            nm = 'ev' if tag.endswith('unsorted') else 'S'
            S = carr(a, st, nm, 3, n)
            cols = []
            for k in range(n):
                ek = col(a, st, S, ALL, const(k))
                parts = {}
                for part, want in (('imaginary', np_(a, st, 'abs', np_(a, st, 'imag', ek))), ('real', np_(a, st, 'real', ek))):
                    want = fz(a, st, want)
                    hz = opts.get('hide_zeros')
                    if hz is not None:
                        tol = num(ring.const(1) / ring.const(10**14)) if hz is V.TRUE else hz
                        out = []
                        for x in want.items:
                            small = a.I.truth(a.I.lib.compare(st, 'Lt', np_(a, st, 'abs', x), tol, None), st)
                            out.append(V.ite(small, a.I.lib.getattr(st, V.ext('numpy'), 'nan', None), x))
                        want = V.frozen('array', want.meta, tuple(out))
                    p = find(ctx, 'eigenvalue parts', '%s %s part of mode %d' % (tag, part, k + 1), ss, lambda s: data_is(a, s, vs, want), 'against the varied parameter', w)
                    if p is None:
                        continue
                    parts[part] = p
                    ctx.ob('labels', '%s %s label %d' % (tag, part, k + 1), same(style(p, 'label'), string('M%d' % (k + 1))), V.show(style(p, 'label')), p.where)
                    if nm == 'S':
                        ctx.ob('styles', '%s %s style %d' % (tag, part, k + 1), same(style(p, *LS), string('--' if part == 'imaginary' else '-')), V.show(style(p, *LS)), p.where)
                if len(parts) == 2:
                    c1, c2 = [style(parts[p], *CO) for p in ('imaginary', 'real')]
                    if nm == 'S':
                        ctx.ob('styles', '%s colour %d' % (tag, k + 1), same(c1, c2), '%s and %s' % (V.show(c1, 2), V.show(c2, 2)), parts['real'].where)
                        cols.append(c2)
                        if 'colors' in opts:
                            ctx.ob('styles', '%s given colour %d' % (tag, k + 1), same(c2, given[k]), V.show(c2, 2), parts['real'].where)
                    else:
                        ctx.ob('styles', '%s colour %d' % (tag, k + 1), same(c1, c2) == an.DIFF, 'parts told apart by colour', parts['real'].where)
            if cols and n <= 10:
                ctx.ob('styles', tag + ' colours of modes differ', all(same(x, y) == an.DIFF for i, x in enumerate(cols) for y in cols[:i]), '', w)
            the = list(axs)[0] if axs else ax
            lim = setters(r, 'set_xlim', the)
            got = [x for e in lim for x in (e.data[2][0].items if len(e.data[2]) == 1 and seq(e.data[2][0]) else e.data[2])]
            ctx.ob('limits', tag, len(got) == 2 and an.worst(same(got[0], vs.items[0]), same(got[1], vs.items[-1])), 'first to last parameter value', w)
            yl = last_arg(setters(r, 'set_ylabel', the))
            ctx.ob('labels', tag + ' y', yl is not None and isinstance(yl, V.Str) and all(x in (yl.lit or '') for x in ('Real', 'Imaginary', 'Eigenvalue')), V.show(yl, 2), w)
            fb = setters(r, 'fill_between', the)
            if tag.endswith('no region'):
                ctx.ob('stable region', tag, not fb, '%d regions' % len(fb), w)
                continue
            ctx.ob('stable region', tag, len(fb) == 1, '%d regions' % len(fb), w)
            if len(fb) == 1:
                e = fb[0]
                ctx.ob('stable region', tag + ' x', same(e.data[2][0], vs), '', e.where)
                wh = kws(e).get('where')
                if wh is None and len(e.data[2]) > 3:
                    wh = e.data[2][3]
                want = np_(a, st, 'all', a.I.lib.compare(st, 'LtE', np_(a, st, 'real', S), const(0), None), axis=const(1))
                strict = np_(a, st, 'all', a.I.lib.compare(st, 'Lt', np_(a, st, 'real', S), const(0), None), axis=const(1))
                u = an.DIFF if wh is None else same(wh, fz(a, st, want))
                ctx.ob('stable region', tag + ' where', u, 'all real parts at or below zero', e.where)


def cell(a, ax):
    """(row, column) of an axes taken out of a grid of axes."""
    t = unopq(a, ax)
    if isinstance(t, V.Term) and t.head == 'getitem':
        ix = t.args[1]
        ix = ix.items if isinstance(ix, (V.Tup, V.Frozen)) else [ix]
        ks = [a.I.lib.const_int(x) for x in ix]
        if all(k is not None for k in ks):
            return tuple(ks)
    if isinstance(t, V.Term) and t.head == 'axes' and len(t.args) > 1:
        ks = [a.I.lib.const_int(x) for x in t.args[1:]]
        if all(k is not None for k in ks):
            return tuple(ks)
    return t


def cells(a, ss):
    out = {}
    for s in ss:
        out.setdefault(cell(a, s.ax), []).append(s)
    return out


def at(a, r, name, ix):
    return [e for e in calls(r, name) if e.data[1] is not None and cell(a, e.data[1]) == ix]


def mentions(v, *xs):
    """A formatted string shows each of these values."""
    if isinstance(v, V.Str) and v.lit is not None:
        return False
    stack, seen = [v], set()
    found = [False] * len(xs)
    while stack:
        q = stack.pop()
        if id(q) in seen:
            continue
        seen.add(id(q))
        for i, x in enumerate(xs):
            if q is x or (isinstance(q, V.Value) and isinstance(x, V.Value) and same(q, x) == an.EQ):
                found[i] = True
        if partial(q):
            continue
        for n in ('args', 'items', 'parts'):
            p = getattr(q, n, None)
            if isinstance(p, (tuple, list)):
                stack.extend(y for y in p if isinstance(y, V.Value))
                stack.extend(y for z in p if isinstance(z, (tuple, list)) for y in z if isinstance(y, V.Value))
        if isinstance(q, V.Num):
            t = V_opq(q)
            if t is not None:
                stack.append(t)
    return all(found)


PARTS = ('real', 'imag', 'abs', 'absolute', 'angle', 'conj', 'conjugate')


def partial(q):
    """A quantity that is not the whole of its argument."""
    if not isinstance(q, V.Term):
        return False
    return q.head in PARTS or (q.head == 'attr' and getattr(q.args[-1], 'lit', q.args[-1]) in PARTS)


def shows(a, st, v, e):
    """A title that shows a complex number, whole or both its parts."""
    return mentions(v, fz(a, st, e)) or mentions(v, fz(a, st, np_(a, st, 'real', e)), fz(a, st, np_(a, st, 'imag', e)))


def names(v, word):
    import re
    return isinstance(v, V.Str) and re.search(r'(?<![A-Za-z_])%s(?![A-Za-z_])' % re.escape(word), V.show(v, 6)) is not None


def V_opq(q):
    for at_ in ring.all_atoms(q.rf):
        t = ring.atom_by_id(at_)
        if getattr(t, 'name', None) == 'opq' and len(getattr(t, 'args', ())) == 1:
            return t.args[0] if isinstance(t.args[0], V.Value) else None
    return None


def state_labels(a, st, m, attr='state_vars_latex'):
    return [x.lit for x in fz(a, st, a.I.lib.getattr(st, m, attr, None)).items]


def eigenvectors(ctx):
    w = ctx.where('models', '_Model.plot_eigenvectors')
    for varied, held in ((('v',), ()), ((), ()), (('v', 'w'), ()), (('c', 'v'), ('w',)), ((), ('v', 'c'))):
        tag = 'eigenvectors, ' + ('three values' if varied else 'one value') + ('' if varied in (('v',), ()) else ' of ' + ' and '.join(varied)) + ''.join(', %s given' % k for k in held)
        with ctx.group('eigenvectors', tag, w):
            a, st, m = eigen_model(ctx, given=varied + held)
            kw = {k: symarray(a, st, k, 3) for k in varied}
            kw.update({k: V.var('held' + k) for k in held})
            vs = {k: fz(a, st, kw[k]) for k in varied}
            n = 3 if varied else 1
            r = a.method(m, 'plot_eigenvectors', [], kw, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            ss = lines_of(shapes(a, r))
            cs = cells(a, ss)
            E = carr(a, st, 'ev', 3, 4) if varied else carr(a, st, 'ev', 4)
            W = carr(a, st, 'evvec', 3, 4, 4) if varied else carr(a, st, 'evvec', 4, 4)
            ctx.ob('eigenvectors', tag + ' panels', set(cs) == {(k, i) for k in range(n) for i in range(4)}, str(sorted(map(str, cs)))[:200], w)
            labs = ['$%s$' % x for x in state_labels(a, st, m)]
            for k in range(n):
                for i in range(4):
                    pre = [const(k)] if varied else []
                    vec = fz(a, st, col(a, st, W, *(pre + [ALL, const(i)])))
                    ev = col(a, st, E, *(pre + [const(i)]))
                    mine = cs.get((k, i), [])
                    t = '%s %d mode %d' % (tag, k, i)
                    ctx.ob('eigenvectors', t + ' arrows', len(mine) == 4, '%d' % len(mine), w)
                    for j, s in enumerate(mine[:4]):
                        th = fz(a, st, np_(a, st, 'angle', vec.items[j]))
                        x, y = seq(s.data['x']), seq(s.data['y'])
                        u = an.UNK
                        if x and y and len(x) == len(y) == 2:
                            u = an.worst(same(x[1], th), an.worst(same(y[0], const(0)), an.EQ))
                        ctx.ob('eigenvectors', '%s component %d direction' % (t, j), u, V.show(s.data['x'], 3)[:200], s.where)
                        mod = fz(a, st, np_(a, st, 'abs', vec.items[j]))
                        # a common factor scales all of the arrows of one panel
                        if x and y and len(y) == 2:
                            q = a.I.lib.binop(st, 'Div', y[1], mod, None)
                            if j == 0:
                                q0 = q
                            else:
                                ctx.ob('eigenvectors', '%s component %d size' % (t, j), same(q, q0), V.show(y, 3)[:200] if False else V.show(s.data['y'], 3)[:200], s.where)
                    ti = at(a, r, 'set_title', (k, i))
                    ctx.ob('labels', t + ' title', len(ti) == 1 and shows(a, st, ti[0].data[2][0], ev), V.show(ti[0].data[2][0], 4)[:200] if ti else 'none', w)
                    if len(ti) == 1:
                        unstable(ctx, a, st, t, ti[0], ev)
                if varied:
                    yl = at(a, r, 'set_ylabel', (k, 0))
                    ctx.ob('labels', '%s row %d' % (tag, k), len(yl) == 1 and any(names(yl[0].data[2][0], q) and mentions(yl[0].data[2][0], vs[q].items[k]) for q in varied), V.show(yl[0].data[2][0], 4)[:200] if yl else 'none', w)
            legend(ctx, a, r, tag, (0, 0), labs, w)


GAUSS = ((3, 4), (-5, 12), (0, 8), (15, -8))


def gauss(re, im=0):
    x = ring.const(re)
    return num(x + ring.IMAG * ring.const(im), False, 'c') if im else num(x, False, 'c')


def eigenvector_numbers(ctx):
    """Given eigenvectors with known moduli: which modes are shown and how long
    the arrows are drawn."""
    w = ctx.where('models', '_Model.plot_eigenvectors')
    import itertools
    from fractions import Fraction
    tiny = Fraction(1, 10**17)
    shift = lambda k: [GAUSS[(k + j) % 4] for j in range(4)]
    for tag, vals, hide, kept in (('all', ((-2, 0), (0, 3), (4, 0), (3, -4)), None, [0, 1, 2, 3]),
                                  ('nothing to hide', ((-2, 0), (-4, 3), (4, 0), (3, -4)), V.TRUE, [0, 1, 2, 3]),
                                  ('first hidden', ((tiny, 0), (-4, 3), (4, 0), (-3, -4)), V.TRUE, [1, 2, 3]),
                                  ('imaginary kept', ((0, 3), (0, 0), (4, 0), (-3, -4)), V.TRUE, [0, 2, 3]),
                                  ('two hidden below', ((4, 0), (Fraction(1, 50), 0), (-4, 0), (0, Fraction(1, 40))), num(ring.const(Fraction(1, 10))), [0, 2])):
        tag = 'given eigenvectors, ' + tag
        with ctx.group('eigenvectors', tag, w):
            a = ctx.analysis()
            st = a.state()
            st, ps, d = meijaard(a, st)
            st, m = model(a, st, 'Meijaard2007Model', ps)

            def eig(st, args, kw, node):
                ev = [gauss(*vals[i]) for k in range(2) for i in range(4)]
                # column i of the eigenvectors belongs to eigenvalue i
                vec = [gauss(*shift(i + k)[j]) for k in range(2) for j in range(4) for i in range(4)]
                return tup([a.I.new_arr(st, ev, (2, 4), 'c'), a.I.new_arr(st, vec, (2, 4, 4), 'c')])
            a.I.stubs[('models', '_Model.calc_eigen')] = eig
            kw = {'v': symarray(a, st, 'v', 2)}
            if hide is not None:
                kw['hide_zeros'] = hide
            r = a.method(m, 'plot_eigenvectors', [], kw, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            cs = cells(a, lines_of(shapes(a, r)))
            ctx.ob('eigenvectors', tag + ' panels', set(cs) == {(k, i) for k in range(2) for i in range(len(kept))}, str(sorted(map(str, cs)))[:200], w)
            for k in range(2):
                for i, mode in enumerate(kept):
                    t = '%s %d panel %d' % (tag, k, i)
                    mine = cs.get((k, i), [])
                    rm = at(a, r, 'set_rmax', (k, i))
                    ti = at(a, r, 'set_title', (k, i))
                    if len(ti) == 1:
                        re = vals[mode][0]
                        fd = kws(ti[0]).get('fontdict')
                        c = kws(ti[0]).get('color')
                        if c is None and isinstance(fd, V.Frozen):
                            c = {fd.items[n].lit: fd.items[n + 1] for n in range(0, len(fd.items), 2)}.get('color')
                        c = getattr(c, 'lit', None)
                        if re:
                            ctx.ob('stability colour', t, c is not None and (c == 'red') == (re > 0) if c is not None else an.UNK, '%s for eigenvalue %s' % (c, vals[mode]), ti[0].where)
                    for j, s in enumerate(mine[:4]):
                        y = seq(s.data['y'])
                        if not y or len(y) != 2 or not rm or not rm[0].data[2]:
                            ctx.ob('eigenvectors', '%s component %d length' % (t, j), an.UNK, V.show(s.data['y'], 3)[:200], s.where)
                            continue
                        mod = {(3, 4): 5, (-5, 12): 13, (0, 8): 8, (15, -8): 17}[shift(mode + k)[j]]
                        want = a.I.lib.binop(st, 'Mult', rm[0].data[2][0], num(ring.const(Fraction(mod, 17))), None)
                        ctx.equal('eigenvectors', '%s component %d length' % (t, j), y[1], want, s.where)


def unstable(ctx, a, st, t, e, ev):
    """Unstable modes carry another title colour than stable ones."""
    fd = kws(e).get('fontdict')
    c = kws(e).get('color')
    if c is None and isinstance(fd, V.Frozen):
        d = {fd.items[i].lit: fd.items[i + 1] for i in range(0, len(fd.items), 2)}
        c = d.get('color')
    if c is None:
        ctx.ob('stability colour', t, an.UNK, 'no colour', e.where)
        return
    re = np_(a, st, 'real', ev)
    pos = a.I.truth(a.I.lib.compare(st, 'Gt', re, const(0), None), st)
    neg = a.I.truth(a.I.lib.compare(st, 'Lt', re, const(0), None), st)
    pc = getattr(e, 'pc', V.TRUE)
    ok = {nm: {x.lit for p, x in V.leaves(V.restrict(c, q)) if V.feasible(V.and_(p, q)) and isinstance(x, V.Str)} for nm, q in (('unstable', pos), ('stable', neg))}
    ctx.ob('stability colour', t, len(ok['unstable']) == 1 and len(ok['stable']) == 1 and ok['unstable'] != ok['stable'] and ok['unstable'] == {'red'}, str(ok), e.where)


def legend(ctx, a, r, tag, ix, labs, w):
    es = at(a, r, 'legend', ix)
    got = None
    if es and es[-1].data[2]:
        got = [getattr(x, 'lit', None) for x in (seq(es[-1].data[2][-1]) or [])]
    ctx.ob('labels', '%s legend %s' % (tag, ix), got == labs, '%s, wanted %s' % (got, labs), es[-1].where if es else w)


def mode_simulations(ctx):
    w = ctx.where('models', '_Model.plot_mode_simulations')
    for held in ((), ('v', 'w')):
        mode_simulation(ctx, 'mode simulations' + ''.join(', %s given' % k for k in held), held, w)


def mode_simulation(ctx, tag, held, w):
    with ctx.group('mode simulations', tag, w):
        a, st, m = eigen_model(ctx, given=held)
        a.I.stubs[('models', '_Model.simulate_modes')] = lambda st, args, kw, node: carr_r(a, st, 'X' if set(kw) - {'times'} == set(held) else 'Xother', 4, 2, 4)
        times = symarray(a, st, 't', 2)
        tz = fz(a, st, times)
        r = a.method(m, 'plot_mode_simulations', [times], {k: V.var('held' + k) for k in held}, st)
        if not ctx.no_raise('completes', tag, r, w):
            return
        cs = cells(a, lines_of(shapes(a, r)))
        labs = state_labels(a, st, m)
        units = state_labels(a, st, m, 'state_units')
        E = carr(a, st, 'ev', 4)
        X = carr_r(a, st, 'X', 4, 2, 4)
        used = sorted({c[1] for c in cs if isinstance(c, tuple) and len(c) == 2})
        ctx.ob('mode simulations', tag + ' panels', {c[0] for c in cs if isinstance(c, tuple)} == set(range(4)) and len(used) == len(set(units)), str(list(cs))[:200], w)
        for i in range(4):
            for j, (nm, un) in enumerate(zip(labs, units)):
                y = col(a, st, X, const(i), ALL, const(j))
                y = fz(a, st, np_(a, st, 'rad2deg', y)) if 'rad' in un else fz(a, st, y)
                allc = [(c, s) for c, v in cs.items() if isinstance(c, tuple) and c[0] == i for s in v]
                s = find(ctx, 'mode simulations', '%s mode %d state %s' % (tag, i, nm), [s for _, s in allc], lambda s: data_is(a, s, tz, y), 'state against time, in degrees', w)
                if s is None:
                    continue
                c = [c for c, q in allc if q is s][0]
                ctx.ob('labels', '%s mode %d state %s label' % (tag, i, nm), same(style(s, 'label'), string('$%s$' % nm)), V.show(style(s, 'label')), s.where)
                yl = at(a, r, 'set_ylabel', c)
                ctx.ob('labels', '%s mode %d state %s unit' % (tag, i, nm), bool(yl) and same(yl[-1].data[2][0], string('[%s]' % un.replace('rad', 'deg'))), V.show(yl[-1].data[2][0], 2) if yl else 'no label', w)
            for c in used:
                ti = at(a, r, 'set_title', (i, c))
                ev = col(a, st, E, const(i))
                ctx.ob('labels', '%s mode %d panel %d title' % (tag, i, c), len(ti) == 1 and shows(a, st, ti[0].data[2][0], ev), '', w)
                if len(ti) == 1:
                    unstable(ctx, a, st, '%s mode %d panel %d' % (tag, i, c), ti[0], ev)


def hidden_mode_simulations(ctx):
    """Given eigenvalues: which modes are shown, each with its own simulation."""
    from fractions import Fraction
    tiny = Fraction(1, 10**17)
    w = ctx.where('models', '_Model.plot_mode_simulations')
    for tag, vals, hide, kept in (('kept', ((0, 0), (-4, 3), (4, 0), (0, 0)), None, [0, 1, 2, 3]),
                                  ('nothing to hide', ((-2, 0), (-4, 3), (4, 0), (0, 1)), V.TRUE, [0, 1, 2, 3]),
                                  ('first hidden', ((tiny, 0), (-4, 3), (4, 0), (-3, -4)), V.TRUE, [1, 2, 3]),
                                  ('second hidden', ((0, 3), (0, 0), (4, 0), (-3, -4)), V.TRUE, [0, 2, 3]),
                                  ('two hidden below', ((4, 0), (Fraction(1, 50), 0), (-4, 0), (0, Fraction(1, 40))), num(ring.const(Fraction(1, 10))), [0, 2])):
        tag = 'mode simulations, ' + tag
        with ctx.group('mode simulations', tag, w):
            a, st, m = eigen_model(ctx)

            def eig(st, args, kw, node):
                return tup([a.I.new_arr(st, [gauss(*v) for v in vals], (4,), 'c'), carr(a, st, 'evvec', 4, 4)])
            a.I.stubs[('models', '_Model.calc_eigen')] = eig
            a.I.stubs[('models', '_Model.simulate_modes')] = lambda st, args, kw, node: carr_r(a, st, 'X', 4, 2, 4)
            times = symarray(a, st, 't', 2)
            tz = fz(a, st, times)
            r = a.method(m, 'plot_mode_simulations', [times], {} if hide is None else {'hide_zeros': hide}, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            cs = cells(a, lines_of(shapes(a, r)))
            units = state_labels(a, st, m, 'state_units')
            X = carr_r(a, st, 'X', 4, 2, 4)
            ctx.ob('mode simulations', tag + ' panels', {c[0] for c in cs if isinstance(c, tuple)} == set(range(len(kept))), str(list(cs))[:200], w)
            for i, mode in enumerate(kept):
                row = [s for c, v in cs.items() if isinstance(c, tuple) and c[0] == i for s in v]
                ctx.ob('mode simulations', '%s row %d curves' % (tag, i), len(row) == 4, '%d' % len(row), w)
                for j, un in enumerate(units):
                    y = col(a, st, X, const(mode), ALL, const(j))
                    y = fz(a, st, np_(a, st, 'rad2deg', y)) if 'rad' in un else fz(a, st, y)
                    find(ctx, 'mode simulations', '%s row %d state %d' % (tag, i, j), row, lambda s: data_is(a, s, tz, y), 'the simulation of that mode', w)
                for c in {c[1] for c in cs if isinstance(c, tuple)}:
                    ti = at(a, r, 'set_title', (i, c))
                    ctx.ob('labels', '%s row %d panel %d title' % (tag, i, c), len(ti) == 1 and title_is(a, st, ti[0].data[2][0], gauss(*vals[mode])), V.show(ti[0].data[2][0], 3)[:100] if ti else '', w)


def title_is(a, st, got, e):
    """A title that is not the text of another mode's number."""
    if isinstance(got, V.Str) and got.lit is not None:
        return True
    return shows(a, st, got, e)


def carr_r(a, st, nm, *shape):
    import itertools
    return a.I.new_arr(st, [V.var(nm + '_' + '_'.join(map(str, ix))) for ix in itertools.product(*[range(n) for n in shape])], tuple(shape), 'f')


def simulations(ctx):
    """plot_simulation: each panel shows the columns its legend names, angles in degrees."""
    for cls, mk, nx, nu in (('Meijaard2007Model', meijaard, 4, 2), ('MooreRiderLean2012Model', lean, 12, 3)):
        w = ctx.where('models', cls + '.plot_simulation')
        tag = cls + ' simulation'
        with ctx.group('simulation', tag, w):
            a = ctx.analysis()
            st = a.state()
            st, ps, d = mk(a, st)
            st, m = model(a, st, cls, ps)
            R = lambda s: carr_r(a, s, 'X', 2, nx)
            U = lambda s: carr_r(a, s, 'U', 2, nu)
            sim = {}

            def stub(st, args, kw, node):
                sim['args'] = (args, kw)
                return tup([R(st), U(st)])
            for c in (cls, '_Model'):
                if cls + '.simulate' in ctx.project.module('models').functions or c == '_Model':
                    a.I.stubs[('models', c + '.simulate')] = stub
            times = symarray(a, st, 't', 2)
            tz = fz(a, st, times)
            r = a.method(m, 'plot_simulation', [times, symarray(a, st, 'x0', nx)], {'v': V.var('vel')}, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            names = state_labels(a, st, m)
            ins = state_labels(a, st, m, 'input_vars_latex') if nu == 3 else ['T_\\phi', 'T_\\delta']
            units = state_labels(a, st, m, 'state_units')
            X, U_ = R(st), U(st)
            want = {}
            for j, nm in enumerate(names):
                y = col(a, st, X, ALL, const(j))
                want['$%s$' % nm] = (fz(a, st, np_(a, st, 'rad2deg', y)) if 'rad' in units[j] else fz(a, st, y), units[j].replace('rad', 'deg'))
            for j, nm in enumerate(ins):
                want['$%s$' % nm] = (fz(a, st, col(a, st, U_, ALL, const(j))), 'Nm')
            seen = []
            for s in lines_of(shapes(a, r)):
                c = cell(a, s.ax)
                leg = at(a, r, 'legend', c)
                yl = at(a, r, 'set_ylabel', c)
                ylab = ''.join(x.lit or '' for x in [yl[-1].data[2][0]] if isinstance(x, V.Str)) if yl else ''
                y = s.data['y']
                cols = columns(a, st, y)
                u = same(s.data['x'], tz)
                ctx.ob('simulation', '%s panel %s x' % (tag, shown(c)), u, 'against time', s.where)
                if leg and leg[-1].data[2] and 'twinx' not in shown(c):
                    labs = [x.lit for x in seq(leg[-1].data[2][-1])]
                else:
                    labs = [l for l in want if l in ylab]
                ctx.ob('labels', '%s panel %s legend' % (tag, shown(c)), cols is None and an.UNK or len(labs) == len(cols), '%d curves, legend %s' % (len(cols or []), labs), s.where)
                for l, got in zip(labs, cols or []):
                    if l not in want:
                        ctx.ob('labels', '%s legend entry %s' % (tag, l), False, 'names nothing', s.where)
                        continue
                    seen.append(l)
                    ctx.equal('simulation', '%s curve %s' % (tag, l), got, want[l][0], s.where)
                    ctx.ob('labels', '%s unit of %s' % (tag, l), '[%s]' % want[l][1] in ylab, '%r for %s' % (ylab, want[l][1]), s.where)
            rest = [l for l in want if l not in seen]
            ctx.ob('simulation', tag + ' drawn once', len(seen) == len(set(seen)), str(seen), w)
            ctx.ob('simulation', tag + ' complete', not rest, 'missing %s' % rest, w)
            if 'args' in sim:
                ar, kw = sim['args']
                ctx.ob('simulation', tag + ' overrides', 'v' in kw and same(kw['v'], V.var('vel')), str(list(kw)), w)


def shown(c):
    return V.show(c, 3)[:60] if isinstance(c, V.Value) else str(c)


def columns(a, st, y):
    """Columns of a two-dimensional drawn array; one for a one-dimensional."""
    if not isinstance(y, V.Frozen):
        return None
    sh = y.meta
    if not isinstance(sh, tuple):
        return [y]
    sh = [x if isinstance(x, int) else a.I.lib.const_int(x) for x in sh]
    if len(sh) == 1:
        return [y]
    if len(sh) != 2:
        return None
    n, k = sh
    return [V.frozen('array', (n,), tuple(y.items[i * k + j] for i in range(n))) for j in range(k)]


GAIN_NAMES = ['kTphi_phi', 'kTphi_del', 'kTphi_phid', 'kTphi_deld', 'kTdel_phi', 'kTdel_del', 'kTdel_phid', 'kTdel_deld']


def gains(ctx):
    w = ctx.where('models', 'Meijaard2007WithFeedbackModel.plot_gains')
    for tag, arr, fixed, *first in (('speed only', (), ()), ('gain named first', ('kTphi_del',), (), 'kTphi_del'), ('wheelbase varied', ('kTdel_phid',), ('kTphi_phi',), 'kTdel_phid', 'w'), ('one gain varied', ('kTdel_phid',), ()), ('two gains varied', ('kTphi_phi', 'kTdel_deld'), ()),
                            ('one gain set', (), ('kTdel_del',)), ('one set, one varied', ('kTdel_phi',), ('kTphi_phid',))):
        tag = 'gains, ' + tag
        with ctx.group('gains', tag, w):
            a = ctx.analysis()
            st = a.state()
            st, ps, d = feedback(a, st)
            st, m = model(a, st, 'Meijaard2007WithFeedbackModel', ps)
            vary = first[1] if len(first) > 1 else 'v'
            kw = {g: symarray(a, st, g, 2) for g in first[:1]}
            kw[vary] = symarray(a, st, vary, 2)
            vs = fz(a, st, kw[vary])
            for g in arr:
                if g not in kw:
                    kw[g] = symarray(a, st, g, 2)
            kz = {g: fz(a, st, kw[g]) for g in arr}
            for g in fixed:
                kw[g] = V.var('set_' + g)
                kz[g] = V.frozen('array', (2,), (kw[g],) * 2)
            r = a.method(m, 'plot_gains', [], kw, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            cs = cells(a, lines_of(shapes(a, r)))
            labs = a.I.lib.getattr(st, ps, 'par_strings', None)
            ctx.ob('gains', tag + ' panels', len(cs) == 8 and all(len(v) == 1 for v in cs.values()), str(list(map(shown, cs)))[:300], w)
            for g in GAIN_NAMES:
                lab = fz(a, st, a.I.lib.getitem(st, labs, string(g), None))
                lab = '$%s$' % lab.lit
                mine = [c for c in cs if any(same(e.data[2][0], string(lab)) == an.EQ for e in at(a, r, 'set_title', c))]
                ctx.ob('labels', '%s %s' % (tag, g), len(mine) == 1, '%d panels titled %s' % (len(mine), lab), w)
                if len(mine) != 1:
                    continue
                s = cs[mine[0]][0]
                y = kz[g] if g in kz else V.frozen('array', (2,), (V.var(g),) * 2)
                ctx.equal('gains', '%s %s curve' % (tag, g), s.data['y'], y, s.where)
                ctx.equal('gains', '%s %s x' % (tag, g), s.data['x'], vs, s.where)


def controllability(ctx):
    q = 'Meijaard2007Model._plot_modal_controllability'
    w = ctx.where('models', q)
    if q not in ctx.project.module('models').functions:
        ctx.ob('modal controllability', q, an.UNK, 'no such function', w)
        return
    for opts in ({}, {'acute': V.FALSE}, {'acute': V.TRUE, 'c': V.var('held')}):
        tag = 'plot' + ''.join(', %s %s' % (k, V.show(x)) for k, x in sorted(opts.items()))
        with ctx.group('modal controllability', tag, w):
            a, st, m = eigen_model(ctx)

            def angles(st, args, kw, node):
                acute = args[1] if len(args) > 1 else kw.get('acute', V.TRUE)
                right = set(kw) - {'acute'} == ({'v'} | set(opts)) - {'acute'}
                return carr_r(a, st, ('b' if acute is V.TRUE else 's') + ('' if right else 'other'), 3, 4, 2)
            a.I.stubs[('models', 'Meijaard2007Model._calc_modal_controllability')] = angles
            kw = dict(opts, v=symarray(a, st, 'v', 3))
            vs = fz(a, st, kw['v'])
            grid = a.I.new_arr(st, [V.term('axes', string('%d%d' % (i, j))) for i in range(4) for j in range(2)], (4, 2), 'O')
            kw['axes'] = grid
            r = a.method(m, '_plot_modal_controllability', [], kw, st)
            if not ctx.no_raise('completes', 'modal controllability', r, w):
                continue
            B = carr_r(a, st, 's' if opts.get('acute') is V.FALSE else 'b', 3, 4, 2)
            ss = lines_of(shapes(a, r))
            ctx.ob('modal controllability', tag + ' curves', len(ss) == 8, '%d' % len(ss), w)
            for i in range(4):
                for j in range(2):
                    mine = [s for s in ss if s.ax is V.term('axes', string('%d%d' % (i, j)))]
                    y = fz(a, st, np_(a, st, 'rad2deg', col(a, st, B, ALL, const(i), const(j))))
                    find(ctx, 'modal controllability', '%s mode %d input %d' % (tag, i + 1, j), mine, lambda s: data_is(a, s, vs, y), 'angle of this mode and input in degrees', w)


# -- bicycles -------------------------------------------------------------------------

NV = 3


def bike_eig(ctx, a):
    got = {}

    def eig(st, args, kw, node):
        _, sp = ordered(ctx, 'main', 'Bicycle.eig', args, kw)
        got['speeds'] = a.I.freeze(st, sp)
        return tup([carr(a, st, 'E', NV, 4), carr(a, st, 'W', NV, 4, 4)])
    a.I.stubs[('main', 'Bicycle.eig')] = eig

    def modes(st, args, kw, node):
        e, v = ordered(ctx, 'bicycle', 'sort_modes', args, kw)
        got['sorted'] = (a.I.freeze(st, e), a.I.freeze(st, v))
        return tup([a.I.new_dict(st, {string('evals'): carr(a, st, n, *sh), string('evecs'): carr(a, st, n + 'v', *(sh[:1] + (4,) + sh[1:]))})
                    for n, sh in (('wea', (NV, 2)), ('cap', (NV,)), ('cas', (NV,)))])
    a.I.stubs[('bicycle', 'sort_modes')] = modes
    return got


def mode_data(a, st):
    wea = carr(a, st, 'wea', NV, 2)
    return {'weave 1': col(a, st, wea, ALL, const(0)), 'weave 2': col(a, st, wea, ALL, const(1)),
            'capsize': carr(a, st, 'cap', NV), 'caster': carr(a, st, 'cas', NV)}


def split_columns(a, st, ss):
    """Each column of a drawn two-dimensional array as a curve of its own."""
    out = []
    for s in ss:
        cs = columns(a, st, s.data['y'])
        if cs is None or len(cs) == 1:
            out.append(s)
        else:
            out += [draw.Shape('line', s.ax, {'x': s.data['x'], 'y': c}, s.style, s.pc, s.where) for c in cs]
    return out


def increasing(a, st):
    """Speeds given in increasing order."""
    return a.I.new_arr(st, [const(1), const(3), const(8)], (3,), 'f')


def speed_curves(ctx):
    w = ctx.where('main', 'Bicycle.plot_eigenvalues_vs_speed')
    for tag, kw in (('default', {}), ('generic', {'generic': TRUE, 'color': string('teal')}), ('largest', {'largest': TRUE, 'color': string('teal'), 'linestyle': string('-.')}),
                    ('on a figure', {'fig': None}), ('grid, no legend', {'grid': TRUE, 'show_legend': V.FALSE})):
        tag = 'speed plot, ' + tag
        with ctx.group('speed plot', tag, w):
            a = ctx.analysis()
            st = a.state()
            b = bicycle(a, st)
            got = bike_eig(ctx, a)
            opaque(a, 'amin', 'amax', 'min')
            kw = dict(kw)
            if 'fig' in kw:
                kw['fig'] = V.term('figure', string('given'))
            sp = a.I.new_arr(st, [const(8), const(1), const(3)], (3,), 'f')
            sz = fz(a, st, increasing(a, st))
            r = a.method(b, 'plot_eigenvalues_vs_speed', [sp], kw, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            ctx.equal('speed plot', tag + ' speeds of the eigenvalues', got.get('speeds', NONE), sz, w)
            ss = split_columns(a, st, lines_of(shapes(a, r)))
            axs = {s.ax for s in ss}
            ctx.ob('target axes', tag, len(axs) == 1, '%d axes' % len(axs), w)
            if 'fig' in kw:
                ctx.ob('returned', tag, unopq(a, r.value) is kw['fig'] and all(within(x, kw['fig']) for x in axs), V.show(r.value, 3)[:100], w)
            zero = V.frozen('array', (3,), (const(0),) * 3)
            find(ctx, 'speed plot', tag + ' zero line', ss, lambda s: data_is(a, s, sz, zero), 'x axis', w)
            if 'largest' in kw:
                want = fz(a, st, np_(a, st, 'max', np_(a, st, 'real', carr(a, st, 'E', NV, 4)), axis=const(1)))
                s = find(ctx, 'speed plot', tag + ' curve', ss, lambda s: data_is(a, s, sz, want), 'largest real part at each speed', w)
                if s is not None:
                    ctx.ob('styles', tag, an.worst(same(style(s, *CO), string('teal')), same(style(s, *LS), string('-.'))), '', s.where)
                    ctx.ob('labels', tag, same(style(s, 'label'), string('Bikename')), V.show(style(s, 'label')), s.where)
                ctx.ob('speed plot', tag + ' curves', len(ss) == 2, '%d' % len(ss), w)
                continue
            ctx.ob('speed plot', tag + ' sorted', 'sorted' in got and an.worst(same(got['sorted'][0], fz(a, st, carr(a, st, 'E', NV, 4))), same(got['sorted'][1], fz(a, st, carr(a, st, 'W', NV, 4, 4)))), '', w)
            ctx.ob('speed plot', tag + ' curves', len(ss) == 9, '%d' % len(ss), w)
            colors = {}
            for nm, e in mode_data(a, st).items():
                for part, y in (('imaginary', np_(a, st, 'abs', np_(a, st, 'imag', e))), ('real', np_(a, st, 'real', e))):
                    y = fz(a, st, y)
                    s = find(ctx, 'speed plot', '%s %s %s' % (tag, part, nm), ss, lambda s: data_is(a, s, sz, y), 'against speed', w)
                    if s is None:
                        continue
                    lab = style(s, 'label')
                    if 'generic' not in kw:
                        ctx.ob('labels', '%s %s %s' % (tag, part, nm), (lab.lit or '').lower().split() == [part, nm.split()[0]] if isinstance(lab, V.Str) else an.UNK, V.show(lab), s.where)
                    colors.setdefault(nm.split()[0], []).append(style(s, *CO))
                    ls = style(s, *LS)
                    ctx.ob('styles', '%s %s %s' % (tag, part, nm), same(ls, string('--')) if part == 'imaginary' else ls is NONE or same(ls, string('-')), V.show(ls), s.where)
            for nm, cc in colors.items():
                ctx.ob('styles', '%s colour of %s' % (tag, nm), all(same(c, cc[0]) == an.EQ for c in cc), str([V.show(c) for c in cc]), w)
                if 'generic' in kw:
                    ctx.ob('styles', '%s given colour of %s' % (tag, nm), same(cc[0], string('teal')), V.show(cc[0]), w)
            if 'generic' not in kw and len(colors) == 3:
                ctx.ob('styles', tag + ' modes differ', len({getattr(c[0], 'lit', id(c[0])) for c in colors.values()}) == 3, '', w)
            if 'generic' in kw:
                named = [s for s in ss if isinstance(style(s, 'label'), V.Str) and not (style(s, 'label').lit or '_').startswith('_')]
                ctx.ob('labels', tag + ' bicycle named', len(named) == 1 and same(style(named[0], 'label'), string('Bikename')), '%d named curves' % len(named), w)
            for e in calls(r, 'set_xlim'):
                x = e.data[2][0].items if len(e.data[2]) == 1 else e.data[2]
                ctx.ob('limits', tag, an.worst(same(x[0], const(1)), same(x[-1], const(8))), 'first to last speed', e.where)


def within(t, x):
    if t is x:
        return True
    return isinstance(t, V.Value) and any(within(y, x) for y in getattr(t, 'args', ()) if isinstance(y, V.Value)) or (
        isinstance(t, V.Num) and V_opq(t) is not None and within(V_opq(t), x))


def traces(a, r):
    """(kind 'line') shapes of the scatter traces of a plotly figure."""
    out, made = [], {}
    for e in r.events:
        if e.kind != 'call':
            continue
        last = str(e.data[0]).rsplit('.', 1)[-1]
        if last == 'Scatter':
            made[unopq(a, e.data[4])] = e
        s = None
        if last == 'add_scatter':
            s = e
        elif last == 'add_trace':
            s = made.get(unopq(a, e.data[2][0])) if e.data[2] else made.get(unopq(a, kws(e).get('trace')))
        elif last == 'add_traces':
            for x in seq(e.data[2][0]) or []:
                t = made.get(unopq(a, x))
                if t is not None:
                    out.append(trace(a, t, e))
            continue
        if s is not None:
            out.append(trace(a, s, e))
    return out


def trace(a, s, e):
    kw = kws(s)
    stl = {}
    for k, v in kw.items():
        if k == 'line' and isinstance(v, V.Frozen):
            d = {v.items[i].lit: v.items[i + 1] for i in range(0, len(v.items), 2)}
            stl.update({'color': d.get('color', NONE), 'dash': d.get('dash', NONE)})
        elif k == 'line_color':
            stl['color'] = v
        elif k == 'line_dash':
            stl['dash'] = v
        elif k not in ('x', 'y'):
            stl[k] = v
    return draw.Shape('line', e.data[1], {'x': kw.get('x'), 'y': kw.get('y')}, stl, getattr(e, 'pc', V.TRUE), s.where)


def speed_curves_plotly(ctx):
    q = 'Bicycle._plot_eigenvalues_vs_speed_plotly'
    w = ctx.where('main', q)
    if q not in ctx.project.module('main').functions:
        ctx.ob('interactive speed plot', q, an.UNK, 'no such function', w)
        return
    for tag, kw in (('default', {}), ('largest', {'largest': TRUE}), ('no region', {'stability_region': V.FALSE})):
        tag = 'interactive speed plot, ' + tag
        with ctx.group('interactive speed plot', tag, w):
            a = ctx.analysis()
            st = a.state()
            b = bicycle(a, st)
            got = bike_eig(ctx, a)
            kw = dict(kw, show=V.FALSE)
            if 'stability_region' not in kw and 'largest' not in kw:
                kw['stability_region'] = V.FALSE
            sp = a.I.new_arr(st, [const(8), const(1), const(3)], (3,), 'f')
            sz = fz(a, st, increasing(a, st))
            r = a.method(b, '_plot_eigenvalues_vs_speed_plotly', [sp], kw, st)
            if not ctx.no_raise('completes', tag, r, w, allow=('ImportError',)):
                continue
            ctx.equal('interactive speed plot', tag + ' speeds of the eigenvalues', got.get('speeds', NONE), sz, w)
            ss = traces(a, r)
            if 'largest' in kw:
                want = fz(a, st, np_(a, st, 'max', np_(a, st, 'real', carr(a, st, 'E', NV, 4)), axis=const(1)))
                find(ctx, 'interactive speed plot', tag + ' curve', ss, lambda s: data_is(a, s, sz, want), 'largest real part at each speed', w)
                ctx.ob('interactive speed plot', tag + ' curves', len(ss) == 1, '%d' % len(ss), w)
                continue
            ctx.ob('interactive speed plot', tag + ' curves', len(ss) == 8, '%d' % len(ss), w)
            cols = []
            for nm, e in mode_data(a, st).items():
                pair = []
                for part, y in (('im', np_(a, st, 'abs', np_(a, st, 'imag', e))), ('re', np_(a, st, 'real', e))):
                    y = fz(a, st, y)
                    s = find(ctx, 'interactive speed plot', '%s %s %s' % (tag, part, nm), ss, lambda s: data_is(a, s, sz, y), 'against speed', w)
                    if s is None:
                        continue
                    pair.append(style(s, 'color'))
                    lab = style(s, 'name')
                    words = (lab.lit or '').lower().split() if isinstance(lab, V.Str) else None
                    ctx.ob('labels', '%s %s %s' % (tag, part, nm), an.UNK if words is None else len(words) == 2 and words[0] == part and words[1].startswith(nm.split()[0]), V.show(lab), s.where)
                    tx = style(s, 'text')
                    ctx.ob('labels', '%s %s %s text' % (tag, part, nm), tx is NONE or isinstance(tx, V.Str) and (tx.lit or '').lower() == part, V.show(tx), s.where)
                    d = style(s, 'dash')
                    ctx.ob('styles', '%s %s %s' % (tag, part, nm), same(d, string('dash')) if part == 'im' else d is NONE, V.show(d), s.where)
                if len(pair) == 2:
                    ctx.ob('styles', '%s colour of %s' % (tag, nm), same(*pair), '%s and %s' % tuple(V.show(x, 3)[:60] for x in pair), w)
                    cols.append(pair[0])
            ctx.ob('styles', tag + ' modes differ', all(same(x, y) != an.EQ for i, x in enumerate(cols) for y in cols[:i]), '', w)


def stable_region(ctx):
    """Sign patterns of the mode growth rates against the marked speed range."""
    q = 'Bicycle._plot_eigenvalues_vs_speed_plotly'
    w = ctx.where('main', q)
    if q not in ctx.project.module('main').functions:
        return
    speeds = [1, 2, 4, 7, 11]
    for tag, w1, w2, cap, cas in (('weave then capsize', '++---', '++---', '----+', '-----'), ('weave to the end', '+----', '+----', '-----', '-----'),
                                  ('one weave root late', '++---', '+----', '----+', '-----'), ('other weave root late', '+----', '+++--', '-----', '-----'),
                                  ('caster limits', '+----', '+----', '-----', '++---'), ('caster ends', '+----', '+----', '-----', '---++'),
                                  ('capsize starts', '-----', '-----', '+++--', '-----'), ('capsize never', '+----', '+----', '+++++', '-----'),
                                  ('disjoint', '++++-', '++++-', '--+++', '-----'), ('weave never', '+++++', '+++++', '-----', '-----'),
                                  ('caster never', '+----', '+----', '-----', '+++++'), ('marginal', '0----', '0----', '-----', '-----')):
        tag = 'stable speeds, ' + tag
        with ctx.group('stable speeds', tag, w):
            a = ctx.analysis()
            st = a.state()
            b = bicycle(a, st)
            n = len(speeds)
            a.I.stubs[('main', 'Bicycle.eig')] = lambda st, args, kw, node: tup([carr(a, st, 'E', n, 4), carr(a, st, 'W', n, 4, 4)])
            val = lambda p, k: [const({'+': 1, '-': -1, '0': 0}[c] * (i + k)) for i, c in enumerate(p)]

            def modes(st, args, kw, node):
                wv = [x for pr in zip(val(w1, 2), val(w2, 3)) for x in pr]
                A = lambda its, sh: a.I.new_dict(st, {string('evals'): a.I.new_arr(st, its, sh, 'f'), string('evecs'): NONE})
                return tup([A(wv, (n, 2)), A(val(cap, 1), (n,)), A(val(cas, 4), (n,))])
            a.I.stubs[('bicycle', 'sort_modes')] = modes
            ok = [s for s, c in zip(speeds, zip(w1, w2, cap, cas)) if all(x == '-' for x in c)]
            sp = a.I.new_arr(st, [const(s) for s in speeds], (n,), 'f')
            r = a.method(b, '_plot_eigenvalues_vs_speed_plotly', [sp], {'show': V.FALSE}, st)
            if not ctx.no_raise('completes', tag, r, w, allow=('ImportError',)):
                continue
            es = calls(r, 'add_vrect')
            if not ok:
                ctx.ob('stable speeds', tag, not es, '%d regions, none stable' % len(es), w)
                continue
            ctx.ob('stable speeds', tag, len(es) == 1, '%d regions' % len(es), w)
            for e in es[:1]:
                k = kws(e)
                lo, hi = k.get('x0', e.data[2][0] if e.data[2] else NONE), k.get('x1', e.data[2][1] if len(e.data[2]) > 1 else NONE)
                ctx.ob('stable speeds', tag + ' range', an.worst(same(lo, const(ok[0])), same(hi, const(ok[-1]))), '%s to %s, stable from %s to %s' % (V.show(lo, 3), V.show(hi, 3), ok[0], ok[-1]), e.where)


def several(ctx):
    """plot.plot_eigenvalues: every bicycle on one figure with its own colour and style."""
    w = ctx.where('plot', 'plot_eigenvalues')
    for tag, kw in (('given styles', {'colors': ('red', 'lime'), 'linestyles': ('-', ':')}), ('largest', {'largest': TRUE}), ('default', {})):
        tag = 'several bicycles, ' + tag
        with ctx.group('several bicycles', tag, w):
            a = ctx.analysis()
            st = a.state()
            seen = []

            def stub(st, args, kws_, node):
                ar = dict(zip(('self', 'speeds', 'fig', 'generic', 'color', 'show', 'largest', 'linestyle'), args))
                ar.update(kws_)
                seen.append(ar)
                return V.term('figure', string('made')) if ar.get('fig') in (None, NONE) else ar['fig']
            a.I.stubs[('main', 'Bicycle.plot_eigenvalues_vs_speed')] = stub
            b = [bicycle(a, st, prefix=p, attrs={'bicycleName': string(p)}) for p in ('one', 'two')]
            kw = dict(kw)
            given = {}
            for k in ('colors', 'linestyles'):
                if k in kw:
                    given[k] = kw[k]
                    kw[k] = a.I.new_list(st, strs(*kw[k]))
            sp = symarray(a, st, 'v', 3)
            r = a.call(a.get('plot', 'plot_eigenvalues'), [a.I.new_list(st, b), sp], kw, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            ctx.ob('several bicycles', tag, len(seen) == 2 and all(s['self'] is x for s, x in zip(seen, b)), '%d plots' % len(seen), w)
            if len(seen) != 2:
                continue
            ctx.ob('several bicycles', tag + ' one figure', seen[0].get('fig') in (None, NONE) and seen[1].get('fig') is V.term('figure', string('made')), '', w)
            for i, s in enumerate(seen):
                ctx.ob('several bicycles', '%s speeds %d' % (tag, i), s['speeds'] is sp, '', w)
                ctx.ob('several bicycles', '%s largest %d' % (tag, i), (s.get('largest', V.FALSE) is TRUE) == ('largest' in kw), '', w)
                ctx.ob('several bicycles', '%s one colour each %d' % (tag, i), s.get('generic', V.FALSE) is TRUE, '', w)
                for k, n in (('colors', 'color'), ('linestyles', 'linestyle')):
                    if k in given:
                        ctx.ob('styles', '%s %s %d' % (tag, n, i), same(s.get(n, NONE), string(given[k][i])), V.show(s.get(n, NONE), 2), w)
            ctx.ob('styles', tag + ' colours differ', same(seen[0].get('color', NONE), seen[1].get('color', NONE)) != an.EQ, V.show(seen[0].get('color', NONE), 3)[:80], w)
            ctx.ob('returned', tag, unopq(a, r.value) is V.term('figure', string('made')), V.show(r.value, 2), w)


def ellipse_data(ctx):
    """Points of a parametrised ellipse."""
    q = '_generate_ellipse_plot_data'
    w = ctx.where('plot', q)
    if q not in ctx.project.module('plot').functions:
        ctx.ob('ellipse points', q, an.UNK, 'no such function', w)
        return
    with ctx.group('ellipse points', q, w):
        a = ctx.analysis()
        st = a.state()
        v = V.var
        kw = {'x_center': v('cx'), 'y_center': v('cy'), 'ax1': a.I.new_list(st, [v('ux'), v('uy')]), 'ax2': a.I.new_list(st, [v('vx'), v('vy')]),
              'a': v('a'), 'b': v('b'), 'N': const(5)}
        r = a.call(a.get('plot', q), [], kw, st)
        if not ctx.no_raise('completes', q, r, w):
            return
        x, y = r.frozen().items
        t = fz(a, st, np_(a, st, 'linspace', const(0), num(ring.const(2) * ring.PI), const(5)))
        R = {k: ring.var(k) for k in ('cx', 'cy', 'ux', 'uy', 'vx', 'vy', 'a', 'b')}
        for i, ti in enumerate(t.items):
            c, s = R['a'] * ring.cos(ti.rf), R['b'] * ring.sin(ti.rf)
            ctx.equal('ellipse points', 'x %d' % i, x.items[i], num(R['cx'] + c * R['ux'] + s * R['vx']), w)
            ctx.equal('ellipse points', 'y %d' % i, y.items[i], num(R['cy'] + c * R['uy'] + s * R['vy']), w)


def principal(ctx, a, yrow):
    """Principal axes with the lateral axis in a chosen row."""
    seen = {}

    def stub(st, args, kw, node):
        t = a.I.freeze(st, args[0])
        n = len(seen)
        for k, x in seen.items():
            if x is t:
                n = k
        seen[n] = t
        c, s = V.var('C%d' % n), V.var('S%d' % n)
        neg = num(-s.rf)
        rows = [[c, const(0), s], [neg, const(0), c]]
        rows.insert(yrow, [const(0), const(1), const(0)])
        return tup([a.I.new_arr(st, [V.var('Ip%d_%d' % (n, k)) for k in range(3)], (3,), 'f'),
                    a.I.new_arr(st, [x for r in rows for x in r], (3, 3), 'f')])
    a.I.stubs[('inertia', 'principal_axes')] = stub
    return seen


SPLIT = ['H', 'G', 'S']


def part_keys(flywheel, split):
    ks = [k for k in M07 if k != 'v']
    if split:
        for p in 'GS':
            ks += ['m' + p, 'x' + p, 'z' + p] + ['I%s%s' % (p, x) for x in ('xx', 'xz', 'yy', 'zz')]
    if flywheel:
        ks += ['mD', 'IDxx', 'IDyy']
    return ks


def center(part):
    v = ring.var
    if part == 'R':
        return ring.const(0), v('rR')
    if part in 'FD':
        return v('w'), v('rF')
    return v('x' + part), -v('z' + part)


def joints(a, st):
    def seg(n, *pts):
        return instance(a, st, 'main', 'Bicycle', {p: V.term('joint', string(n), string(p)) for p in pts})
    h = instance(a, st, 'main', 'Bicycle', {n: seg(n, 'pos', 'end_pos') for n in ('K2', 'K1', 'B1', 'B2', 'C', 'J1', 'J2', 'A1', 'A2')})

    def to_bike(st, args, kw, node):
        t = args[0]
        nm = '%s_%s' % (t.args[0].lit, t.args[1].lit)
        return a.I.new_arr(st, [V.var('%s_%s' % (nm, x)) for x in 'xyz'], (3, 1), 'f')
    a.I.stubs[('rider', 'yeadon_vec_to_bicycle_vec')] = to_bike
    return h


STICK = [('K2_end_pos', 'K2_pos'), ('K2_pos', 'K1_pos'), ('K1_pos', 'B1_pos'), ('B1_pos', 'B2_pos'), ('B2_pos', 'B2_end_pos'), ('B1_pos', 'C_end_pos')]


def bike_geometry(ctx, plotly=False):
    import C33
    q = 'Bicycle._plot_bicycle_geometry_plotly' if plotly else 'Bicycle.plot_bicycle_geometry'
    w = ctx.where('main', q)
    if q not in ctx.project.module('main').functions:
        ctx.ob('bicycle geometry', q, an.UNK, 'no such function', w)
        return
    v = ring.var
    rule = 'interactive bicycle geometry' if plotly else 'bicycle geometry'
    for tag, kw, split, fly, pend, human, yrow in (
            ('plain', {}, False, False, False, False, 1), ('split fork and flywheel', {}, True, True, False, False, 0),
            ('pendulum axes', {}, False, False, True, False, 2), ('nothing extra', {'centerOfMass': V.FALSE, 'inertiaEllipse': V.FALSE}, False, False, False, False, 1),
            ('pendulum off', {'pendulum': V.FALSE}, False, False, True, False, 2), ('rider', {}, False, False, True, True, 1)):
        tag = '%s, %s' % (rule, tag)
        with ctx.group(rule, tag, w):
            a = ctx.analysis()
            st = a.state()
            ks = part_keys(fly, split)
            at_ = {}
            measured = None
            sl = {}
            if pend:
                parts = 'BH'
                D = lambda n, k: a.I.new_dict(st, {string(p): a.I.new_list(st, [V.var('%s%s%d' % (n, p, i), True) for i in range(k)]) for p in parts})
                at_['extras'] = a.I.new_dict(st, {string('slopes'): D('m_', 2), string('intercepts'): D('b_', 2), string('pendulumInertias'): D('pI_', 2)})
            if human:
                at_['human'] = joints(a, st)
                at_['hasRider'] = TRUE
                measured = a.I.new_dict(st, {})
            b = bicycle(a, st, attrs=at_, keys=ks, measured=measured)
            tens = principal(ctx, a, yrow)
            opaque(a, 'max', 'min', 'ceil')
            if plotly:
                sampled(a)
            r = a.method(b, q.split('.')[1], [], dict(kw, show=V.FALSE), st)
            if not ctx.no_raise('completes', tag, r, w, allow=('ImportError',)):
                continue
            parts = [k[1] for k in ks if k.startswith('m')]
            ss = traces(a, r) if plotly else shapes(a, r)
            axs = {s.ax for s in ss}
            ctx.ob('target axes', tag, len(axs) == 1, '%d axes' % len(axs), w)
            ls = [s for s in ss if s.kind == 'line']
            P = lambda ps: [(num(x), num(z)) for x, z in ps]
            frame, ground = C33.steer_frame()
            up = [(x, -z) for x, z in frame]
            gr = (ground[0], -ground[1])
            find(ctx, rule, tag + ' frame', [s for s in ls if len(seq(s.data['x']) or []) == 4], lambda s: draw.line_is(s, P(up)), 'wheel centres and perpendiculars to the steer axis', w)
            two = [s for s in ls if len(seq(s.data['x']) or []) == 2]
            find(ctx, rule, tag + ' steer axis', two, lambda s: draw.line_is(s, P([up[2], gr])), 'steer axis down to the ground at w + c', w)
            zero = ring.const(0)
            find(ctx, rule, tag + ' ground', two, lambda s: draw.line_is(s, P([(-v('rR'), zero), (v('w') + v('rF'), zero)])), 'ground under both wheels', w)
            for nm, x, rad in (('rear', zero, v('rR')), ('front', v('w'), v('rF'))):
                if plotly:
                    named = [s for s in ls if isinstance(style(s, 'name'), V.Str) and (style(s, 'name').lit or '').lower() == nm + ' wheel']
                    circle_points(ctx, a, rule, '%s %s wheel' % (tag, nm), named, num(x), num(rad), num(rad), w)
                else:
                    find(ctx, rule, '%s %s wheel' % (tag, nm), [s for s in ss if s.kind == 'circle'], lambda s: match(s.data, {'center': tup([num(x), num(rad)]), 'radius': num(rad)}), 'touching the ground', w)
            nsym = 0 if 'centerOfMass' in kw else len([p for p in parts if p != 'D'])
            if not plotly:
                ctx.ob(rule, tag + ' circles', len([s for s in ss if s.kind == 'circle']) == 2 + nsym, '%d circles' % len([s for s in ss if s.kind == 'circle']), w)
            colors = {}
            if 'inertiaEllipse' not in kw:
                for p in parts:
                    t = a.call(a.get('inertia', 'part_inertia_tensor'), [fz_par(a, st, b), string(p)], {}, st.fork())
                    want = t.frozen()
                    ns = [n for n, x in tens.items() if same(x, want) == an.EQ]
                    ctx.ob(rule, '%s tensor of %s' % (tag, p), len(ns) >= 1, '%d of %d tensors' % (len(ns), len(tens)), w)
                    if not ns:
                        continue
                    n = ns[0]
                    c = ring.var('C%d' % n), ring.var('S%d' % n)
                    ip = [ring.var('Ip%d_%d' % (n, k)) for k in range(3) if k != yrow]
                    if plotly:
                        colors[p] = ellipse_trace(ctx, a, st, rule, '%s ellipse of %s' % (tag, p), ls, p, c, ip, w)
                    else:
                        colors[p] = ellipse_patch(ctx, a, st, rule, '%s ellipse of %s' % (tag, p), [s for s in ss if s.kind == 'ellipse'], p, c, ip, w)
                if not plotly:
                    ctx.ob(rule, tag + ' ellipses', len([s for s in ss if s.kind == 'ellipse']) == len(parts), '', w)
            elif not plotly:
                ctx.ob(rule, tag + ' ellipses', not [s for s in ss if s.kind == 'ellipse'], '', w)
            if 'centerOfMass' not in kw:
                for p in parts:
                    if p != 'D':
                        (symbol_trace if plotly else symbol_patch)(ctx, a, st, rule, '%s centre of %s' % (tag, p), r, ss, p, colors.get(p), w)
            npend = 0
            if pend and not human and 'pendulum' not in kw:
                for p in 'BH':
                    for i in range(2):
                        npend += 1
                        m, bb, ln = v('m_%s%d' % (p, i)), v('b_%s%d' % (p, i)), v('pI_%s%d' % (p, i))
                        xp, zp = v('x' + p), v('z' + p)
                        x0 = (xp + m * (zp - bb)) / (ring.const(1) + m * m)
                        hl = a.I.lib.binop(st, 'Mult', num(ln / ring.const(2)), np_(a, st, 'cos', np_(a, st, 'arctan', num(m))), None)
                        h = a.I.lib.tonum(hl).rf
                        pts = [(x0 + s * h, -m * (x0 + s * h) - bb) for s in (ring.const(-1), ring.const(1))]
                        s = find(ctx, rule, '%s pendulum axis %s %d' % (tag, p, i + 1), two, lambda s: draw.line_is(s, P(pts)), 'along the measured line, centred at the foot of the mass centre', w)
                        if s is not None and not plotly:
                            if colors.get(p) is not None:
                                ctx.ob('styles', '%s pendulum axis %s %d colour' % (tag, p, i + 1), same(style(s, *CO), colors[p]), '', s.where)
                            tx = [q for q in ss if q.kind == 'text' and an.worst(same(q.data['x'], s.data['x'].items[0]), same(q.data['y'], s.data['y'].items[0])) == an.EQ]
                            ctx.ob('labels', '%s pendulum axis %s %d number' % (tag, p, i + 1), len(tx) == 1 and same(tx[0].data['s'], string(str(i + 1))) == an.EQ, '%d labels' % len(tx), s.where)
            stick = 0
            if human:
                segs = STICK[:1] if plotly else STICK
                for x, y in segs:
                    stick += 1
                    ps = [(ring.var(n + '_x'), -ring.var(n + '_z')) for n in (x, y)]
                    find(ctx, rule, '%s segment %s to %s' % (tag, x, y), two, lambda s: draw.line_is(s, P(ps)), 'between the joints', w)
            if not plotly:
                ctx.ob(rule, tag + ' nothing else', len(ls) == 3 + npend + stick, '%d lines for %d' % (len(ls), 3 + npend + stick), w)


def sampled(a):
    """Evenly spaced parameters of a curve: both ends and symbols for the rest."""
    def f(st, args, kw, node):
        lo, hi = [a.I.lib.force(x) for x in args[:2]]
        mid = [V.var('t_%s_%s_%d' % (V.show(lo, 4), V.show(hi, 4), k)) for k in range(1, 6)]
        return a.I.new_arr(st, [lo] + mid + [hi], (7,), 'f')
    a.I.lib.ext['numpy.linspace'] = f


def fz_par(a, st, b):
    return a.I.lib.getitem(st, a.I.lib.getattr(st, b, 'parameters', None), string('Benchmark'), None)


def ratio_const(a, st, x, y):
    """x/y is a positive constant."""
    q = a.I.lib.tonum(x).rf / y
    return q.is_const()


def ellipse_patch(ctx, a, st, rule, tag, ss, p, c, ip, w):
    x, z = center(p)
    deg = lambda e: a.I.lib.tonum(np_(a, st, 'degrees', e)).rf
    # directions of the two principal axes in the plane, drawn with z up
    t0 = -deg(np_(a, st, 'arctan2', num(c[1]), num(c[0])))

    def is_it(s):
        u = match(s.data, {'center': tup([num(x), num(z)]), 'angle': num(t0)})
        if u == an.DIFF:
            return u
        # long axis along the smaller moment, sizes as 1/sqrt of the moments
        r = a.I.lib.binop(st, 'Div', s.data['width'], s.data['height'], None)
        r2 = a.I.lib.binop(st, 'Mult', r, r, None)
        u = an.worst(u, same(r2, num(ip[1] / ip[0])))
        if u == an.EQ and not ratio_const(a, st, s.data['width'], ip[1]):
            return an.DIFF
        return u
    s = find(ctx, rule, tag, ss, is_it, 'at the mass centre, along the principal axes, long axis for the small moment', w)
    return style(s, *CO) if s is not None else None


def circle_points(ctx, a, rule, tag, named, x, z, rad, w):
    """A closed curve whose points all lie on the circle, all the way round."""
    ctx.ob(rule, tag, len(named) == 1, '%d curves' % len(named), w)
    for s in named[:1]:
        p = draw.points(s)
        if p is None or len(p) < 7:
            ctx.ob(rule, tag + ' points', an.UNK, 'no points', s.where)
            return
        bad, ang = an.EQ, []
        for px, pz in p:
            dx, dz = a.I.lib.tonum(px).rf - x.rf, a.I.lib.tonum(pz).rf - z.rf
            bad = an.worst(bad, same(num(dx * dx + dz * dz), num(rad.rf * rad.rf)))
            if bad != an.EQ:
                break
        ctx.ob(rule, tag + ' points', bad, '%d points on the circle' % len(p), s.where)
        ctx.ob(rule, tag + ' closed', an.worst(same(p[0][0], p[-1][0]), same(p[0][1], p[-1][1])), '', s.where)
        k = len(p) // 2
        ctx.ob(rule, tag + ' round', same(p[k][0], p[0][0]) == an.DIFF, '', s.where)


def ellipse_trace(ctx, a, st, rule, tag, ls, p, c, ip, w):
    named = [s for s in ls if isinstance(style(s, 'name'), V.Str) and (style(s, 'name').lit or '').split()[-1:] == [p] and 'nertia' in style(s, 'name').lit]
    ctx.ob(rule, tag, len(named) == 1, '%d curves' % len(named), w)
    if len(named) != 1:
        return None
    s = named[0]
    x, z = center(p)
    pts = draw.points(s)
    if pts is None or len(pts) < 7:
        ctx.ob(rule, tag + ' points', an.UNK, 'no points', s.where)
        return None
    ang = -a.I.lib.tonum(np_(a, st, 'arctan2', num(c[1]), num(c[0]))).rf
    ca, sa = ring.cos(ang), ring.sin(ang)
    u = an.EQ
    scale = None
    for px, pz in pts[:25]:
        dx, dz = a.I.lib.tonum(px).rf - x, a.I.lib.tonum(pz).rf - z
        e1, e2 = dx * ca + dz * sa, -dx * sa + dz * ca
        # e1^2 Imin + e2^2 Imax is the same at every point
        k = e1 * e1 * ip[0] + e2 * e2 * ip[1]
        if scale is None:
            scale = k
        u = an.worst(u, same(num(k), num(scale)))
        if u != an.EQ:
            break
    ctx.ob(rule, tag + ' points', u, 'along the principal axes, long axis for the small moment', s.where)
    ctx.ob(rule, tag + ' scale', same(num(scale), num(ip[0] * ip[1] * ip[1] / ring.const(4))), 'long axis as long as the larger moment', s.where)
    return style(s, 'color')


def symbol_patch(ctx, a, st, rule, tag, r, ss, p, col_, w):
    x, z = center(p)
    ctr = tup([num(x), num(z)])
    cir = [s for s in ss if s.kind == 'circle' and match(s.data, {'center': ctr}) == an.EQ and match(s.data, {'radius': num(z)}) != an.EQ]
    ctx.ob(rule, tag + ' circle', len(cir) == 1, '%d circles' % len(cir), w)
    for t1, t2 in ((0, 90), (180, 270)):
        s = find(ctx, rule, '%s wedge %d' % (tag, t1), [s for s in ss if s.kind == 'wedge'], lambda s: match(s.data, {'center': ctr, 'theta1': const(t1), 'theta2': const(t2)}), 'quarter filled', w)
        if s is not None:
            if col_ is not None:
                ctx.ob('styles', '%s wedge %d colour' % (tag, t1), same(style(s, *CO), col_), 'colour of the part', s.where)
            if cir:
                ctx.equal(rule, '%s wedge %d radius' % (tag, t1), s.data['radius'], cir[0].data['radius'], s.where)
    tx = [s for s in ss if s.kind == 'text' and same(s.data['s'], string(p)) == an.EQ]
    ctx.ob('labels', tag + ' letter', len(tx) == 1, '%d texts' % len(tx), w)
    for s in tx[:1]:
        for k, c0 in (('x', x), ('y', z)):
            ctx.ob('labels', '%s letter %s' % (tag, k), (a.I.lib.tonum(s.data[k]).rf - c0).is_const(), 'beside the symbol', s.where)


def symbol_trace(ctx, a, st, rule, tag, r, ss, p, col_, w):
    x, z = center(p)
    dots = [s for s in ss if style(s, 'name') is not NONE and same(style(s, 'name'), string('COM')) == an.EQ]
    s = find(ctx, rule, tag + ' point', dots, lambda s: an.worst(same(s.data['x'].items[0], num(x)), same(s.data['y'].items[0], num(z))), 'at the mass centre', w)
    if s is not None and col_ is not None:
        ctx.ob('styles', tag + ' colour', same(style(s, 'color'), col_), 'colour of the part', s.where)
    tx = [e for e in calls(r, 'add_annotation') if same(kws(e).get('text', NONE), string(p)) == an.EQ]
    ctx.ob('labels', tag + ' letter', len(tx) == 1, '%d annotations' % len(tx), w)
    for e in tx[:1]:
        for k, c0 in (('x', x), ('y', z)):
            ctx.ob('labels', '%s letter %s' % (tag, k), (a.I.lib.tonum(kws(e)[k]).rf - c0).is_const(), 'beside the symbol', e.where)
    # arcs of the symbol lie around this centre
    arcs = []
    for s in ss:
        pp = draw.points(s)
        if pp is None or len(pp) < 7:
            continue
        q = [(a.I.lib.tonum(px).rf - x, a.I.lib.tonum(pz).rf - z) for px, pz in (pp[0], pp[3], pp[-1])]
        d2 = [i * i + j * j for i, j in q]
        if all(d.is_const() for d in d2):
            arcs.append((s, q))
    ctx.ob(rule, tag + ' arcs', len(arcs) == 4, '%d quarter circles around the mass centre' % len(arcs), w)
    if col_ is not None:
        ctx.ob('styles', tag + ' arcs colour', all(same(style(s, 'color'), col_) == an.EQ for s, _ in arcs), '', w)


def bike_plots(ctx):
    bike_geometry(ctx)


def bike_plotly(ctx):
    bike_geometry(ctx, True)


def check(ctx):
    bike_plots(ctx)
    bike_plotly(ctx)
    speed_curves(ctx)
    speed_curves_plotly(ctx)
    stable_region(ctx)
    several(ctx)
    ellipse_data(ctx)
    eigenvalue_parts(ctx)
    eigenvectors(ctx)
    eigenvector_numbers(ctx)
    mode_simulations(ctx)
    hidden_mode_simulations(ctx)
    simulations(ctx)
    gains(ctx)
    controllability(ctx)
