"""Value-graph dataflow over geometry.py and bicycle.py with symbolic
measurements (exact and uncertain), both measurement styles: every geometric
parameter is compared in algebraic normal form with the planar construction. For
the frame-distance style the equation handed to the root finder is analysed: it
must be the height closure of the wheel hubs, be given the right arguments, and
its root be what is stored as the tilt. Closure identities (hub offsets from the
steer axis, trail point on the steer axis) are checked independently."""
import an
import values as V
from specs import mech
from common import *
ASSUMPTIONS = ['scipy.optimize.newton returns a root of its function', 'real arithmetic']


def v(n):
    return ring.var(n)


def entries(f):
    return {f.items[i].lit: f.items[i + 1] for i in range(0, len(f.items), 2)}


DIRECT = 'dF nF dR nR w gamma f'.split()
FRAME = 'dF nF dR nR h1 h2 h3 h4 h5 d1 d2 d3 d4 d'.split()


def abc():
    a = v('h1') + v('h2') - v('h3') + (v('d1') - v('d2')) / 2
    b = v('h4') - v('h5') + (v('d4') - v('d3')) / 2
    c = ring.sqrt((v('d') + (v('d2') + v('d3')) / 2) ** 2 - (a - b) ** 2)
    return a, b, c


def check(ctx):
    w = ctx.where('geometry', 'calculate_benchmark_geometry')
    pi = ring.PI
    for u in (False, True):
        for extra in ((), ('xcl', 'zcl')):
            tag = 'direct%s%s' % (' (uncertain)' if u else '', ' with lateral force point' if extra else '')
            a = ctx.analysis()
            with ctx.group('direct measurements', tag, w):
                st = a.state()
                mp = an.sdict(a, st, DIRECT + list(extra), u=u)
                before = a.I.freeze(st, mp)
                r = a.call(a.get('geometry', 'calculate_benchmark_geometry'), [mp, a.I.new_dict(st, {})], {}, st)
                if not ctx.no_raise('completes', tag, r, w):
                    continue
                lam = pi / 180 * (90 - v('gamma'))
                rF = v('dF') / (2 * pi * v('nF'))
                want = {'rF': rF, 'rR': v('dR') / (2 * pi * v('nR')), 'lam': lam, 'w': v('w'),
                        'c': (rF * ring.sin(lam) - v('f')) / ring.cos(lam)}
                for k in extra:
                    want[k] = v(k)
                cmp(ctx, entries(r.frozen()), want, tag, w, u)
                ctx.equal('measurements unchanged', tag, r.freeze(mp), before, w)
        frame(ctx, u, w)
    root(ctx)
    pieces(ctx)


def cmp(ctx, e, want, tag, w, u):
    ctx.ob('parameters produced', tag, set(e) == set(want), 'got %s' % sorted(e), w)
    for k in sorted(want):
        if k in e:
            ctx.equal('geometry', '%s: %s' % (tag, k), e[k], num(want[k], u), w, ignore_u=False)


def frame(ctx, u, w):
    tag = 'frame distances' + (' (uncertain)' if u else '')
    a = ctx.analysis()
    seen = []

    def lam_of(st, args, kw, node):
        names = ('rF', 'rR', 'a', 'b', 'c')
        d = dict(zip(names, args))
        d.update(kw)
        seen.append([a.I.freeze(st, d[n]) for n in names])
        return V.var('lam', u)
    a.I.stubs[('bicycle', 'lambda_from_abc')] = lam_of
    with ctx.group('frame distances', tag, w):
        st = a.state()
        mp = an.sdict(a, st, FRAME, u=u)
        r = a.call(a.get('geometry', 'calculate_benchmark_geometry'), [mp, a.I.new_dict(st, {})], {}, st)
        if not ctx.no_raise('completes', tag, r, w):
            return
        A, B, C = abc()
        rF = v('dF') / (2 * ring.PI * v('nF'))
        rR = v('dR') / (2 * ring.PI * v('nR'))
        lam = v('lam')
        W = (A + B) * ring.cos(lam) + C * ring.sin(lam)
        want = {'rF': rF, 'rR': rR, 'lam': lam, 'w': W, 'c': (rF * ring.sin(lam) - B) / ring.cos(lam)}
        e = entries(r.frozen())
        cmp(ctx, e, want, tag, w, u)
        if len(seen) != 1:
            ctx.ob('tilt', tag, an.UNK, '%d calls of lambda_from_abc' % len(seen), w)
            return
        for n, got, x in zip(('rF', 'rR', 'a', 'b', 'c'), seen[0], (rF, rR, A, B, C)):
            ctx.equal('tilt is found from', '%s: %s' % (tag, n), got, num(x), w)
        # the front hub is at distance b from the steer axis through (w + c, 0)
        g = lambda k: e[k].rf
        dist = lambda px, pz: (px - g('w') - g('c')) * ring.cos(lam) - pz * ring.sin(lam)
        ctx.equal('hub offsets', tag + ': front hub to steer axis', num(dist(g('w'), -g('rF'))), num(B), w)


def root(ctx):
    w = ctx.where('bicycle', 'lambda_from_abc')
    for u in (False, True):
        tag = 'uncertain' if u else 'plain'
        a = ctx.analysis()
        with ctx.group('tilt equation', tag, w):
            st = a.state()
            names = ('rF', 'rR', 'a', 'b', 'c')
            r = a.call(a.get('bicycle', 'lambda_from_abc'), [V.var(n, u) for n in names], {}, st)
            if not ctx.no_raise('completes', 'lambda_from_abc, ' + tag, r, w):
                continue
            ev = list(r.calls('scipy.optimize.newton'))
            if len(ev) != 1:
                ctx.ob('tilt equation', tag + ': one root search', an.UNK, '%d' % len(ev), w)
                continue
            d = ev[0].data
            fn = d[2][0]
            kw = dict(d[3])
            x0 = d[2][1] if len(d[2]) > 1 else kw.get('x0')
            args = kw.get('args', d[2][3] if len(d[2]) > 3 else V.tup([]))
            g = a.call(fn, [V.var('lam')] + list(args.items), {}, r.st.fork())
            if not g.returns:
                ctx.no_raise('tilt equation', 'residual completes', g, w)
                continue
            f = a.I.lib.tonum(g.value).rf
            lam = v('lam')
            spec = (v('a') + v('b')) * ring.sin(lam) - v('c') * ring.cos(lam) - v('rF') + v('rR')
            ok = any(ring.zero_test(f * k - spec) or ring.zero_test(f * k + spec) or
                     ring.numerically_zero(f * k - spec) or ring.numerically_zero(f * k + spec) for k in (
                         mech.ONE, v('a') + v('b'), ring.const(2)))
            opaque = an.opaque_heads(f)
            ctx.ob('tilt equation', tag + ': hub heights close', True if ok else (an.UNK if opaque else False),
                   'residual %s' % an.clip(ring.show(f), 300), w)
            ctx.equal('tilt equation', tag + ': first guess for equal wheels', x0,
                      num(ring.atan(v('c') / (v('a') + v('b')))), w)
        a = ctx.analysis()
        with ctx.group('tilt is the root', tag, w):
            # a root is found: whatever is done with it, it stays the root
            f = a.get('bicycle', 'lambda_from_abc')
            a.I.lib.ext['scipy.optimize.newton'] = lambda st, args, kw, node: V.var('lam')
            lam = v('lam')
            rF = v('rR') - v('c') * ring.cos(lam) + (v('a') + v('b')) * ring.sin(lam)
            r = a.call(f, [num(rF, u)] + [V.var(n, u) for n in ('rR', 'a', 'b', 'c')], {}, a.state())
            if ctx.no_raise('completes', 'lambda_from_abc at a root, ' + tag, r, w):
                ctx.equal('tilt is the root', tag, r.frozen(), V.var('lam', u), w, ignore_u=False)


def pieces(ctx):
    for u in (False, True):
        t = ' (uncertain)' if u else ''
        a = ctx.analysis()
        S = lambda *n: [V.var(x, u) for x in n]
        w = ctx.where('bicycle', 'trail')
        with ctx.group('trail', 'trail' + t, w):
            r = a.call(a.get('bicycle', 'trail'), S('rF', 'lam', 'fo'))
            c = (v('rF') * ring.sin(v('lam')) - v('fo')) / ring.cos(v('lam'))
            if ctx.no_raise('completes', 'trail' + t, r, w):
                ctx.equal('trail', 'trail' + t, r.frozen(), an.vector([c, c * ring.cos(v('lam'))]), w)
        w = ctx.where('geometry', 'calculate_abc_geometry')
        with ctx.group('offsets', 'calculate_abc_geometry' + t, w):
            r = a.call(a.get('geometry', 'calculate_abc_geometry'),
                       [V.tup(S('h1', 'h2', 'h3', 'h4', 'h5')), V.tup(S('d1', 'd2', 'd3', 'd4', 'd'))])
            if ctx.no_raise('completes', 'calculate_abc_geometry' + t, r, w):
                ctx.equal('offsets', 'calculate_abc_geometry' + t, r.frozen(), an.vector(list(abc())), w)
        w = ctx.where('geometry', 'calculate_l1_l2')
        with ctx.group('handlebar reference', 'calculate_l1_l2' + t, w):
            r = a.call(a.get('geometry', 'calculate_l1_l2'), S('h6', 'h7', 'd5', 'd6', 'l'))
            if ctx.no_raise('completes', 'calculate_l1_l2' + t, r, w):
                l1 = v('h7') - v('h6') + (v('d5') - v('d6')) / 2
                l0 = v('l') - (v('d5') + v('d6')) / 2
                f = r.frozen()
                ctx.equal('handlebar reference', 'perpendicular distance' + t, f.items[0], num(l1), w)
                ctx.equal('handlebar reference', 'right triangle' + t,
                          num(f.items[0].rf ** 2 + f.items[1].rf ** 2), num(l0 ** 2), w)
                # its sign: level axle and reference circle of no diameter
                r = a.call(a.get('geometry', 'calculate_l1_l2'),
                           [V.var('h', u), V.var('h', u), const(0.0), const(0.0), V.var('l', u)])
                ctx.equal('handlebar reference', 'positive along the steer axis' + t, r.frozen(),
                          an.vector([mech.Z, v('l')]), w)
        reference_vector(ctx, a, u)


def reference_vector(ctx, a, u):
    t = ' (uncertain)' if u else ''
    w = ctx.where('geometry', 'fwheel_to_handlebar_ref')
    with ctx.group('handlebar reference', 'fwheel_to_handlebar_ref' + t, w):
        r = a.call(a.get('geometry', 'fwheel_to_handlebar_ref'), [V.var(n, u) for n in ('lam', 'l1', 'l2')])
        if ctx.no_raise('completes', 'fwheel_to_handlebar_ref' + t, r, w):
            s, c = ring.sin(v('lam')), ring.cos(v('lam'))
            ctx.equal('handlebar reference', 'fwheel_to_handlebar_ref' + t, r.frozen(),
                      an.vector([v('l2') * s - v('l1') * c, v('l2') * c + v('l1') * s]), w)
