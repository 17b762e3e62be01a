"""Value-graph dataflow over com.py with symbolic angles, distances, masses and
geometry: each part's pendulum line is compared with the line at the measured
angle whose perpendicular distance from that part's reference point is the
measured one (decided by the incidence/distance identity); the ordering of lines
by orientation number, the mean of pairwise intersections and the mass-weighted
mean are compared exactly, for split and combined forks and up to eleven
orientations."""
import itertools
import an
import values as V
from specs import mech
from common import *
ASSUMPTIONS = ['real arithmetic', 'inverse of a regular 2x2 matrix is exact']


def v(n):
    return ring.var(n)


def refpoint(part):
    """Reference point of the pendulum distance (x, z)."""
    s, c = ring.sin(v('lam')), ring.cos(v('lam'))
    if part == 'B':
        return mech.Z, -v('rR')
    if part in 'SH':
        return v('w'), -v('rF')
    u1 = v('l2') * s - v('l1') * c
    u2 = v('l2') * c + v('l1') * s
    return v('w') - u1, -v('rF') - u2


def line_identities(ctx, m, b, beta, part, alpha, a_, tag, w, rp=None):
    """The line z = m x + b at angle beta, at distance a from the reference."""
    bt = v('lam') - alpha * ring.PI / 180
    x0, z0 = rp or refpoint(part)
    ctx.equal('pendulum line', tag + ': angle to the bicycle frame', num(beta), num(bt), w)
    ctx.equal('pendulum line', tag + ': slope', num(m * ring.cos(bt)), num(-ring.sin(bt)), w)
    # signed distance of the reference point from the line along its normal
    ctx.equal('pendulum line', tag + ': distance to the reference point',
              num((m * x0 + b - z0) * ring.cos(bt)), num(-a_), w)


def check(ctx):
    w = ctx.where('com', 'com_line')
    for u in (False, True):
        for part in 'BHSG':
            tag = part + (' (uncertain)' if u else '')
            a = ctx.analysis()
            with ctx.group('pendulum line', tag, w):
                st = a.state()
                par = an.sdict(a, st, ['lam', 'rR', 'rF', 'w'], u=u)
                S = lambda n: V.var(n, u)
                r = a.call(a.get('com', 'com_line'), [S('alpha'), S('a'), par, string(part), S('l1'), S('l2')], {}, st)
                if not ctx.no_raise('completes', 'com_line %s' % tag, r, w):
                    continue
                m, b, beta = [a.I.lib.tonum(x).rf for x in r.frozen().items]
                line_identities(ctx, m, b, beta, part, v('alpha'), v('a'), tag, w)
    a = ctx.analysis()
    with ctx.group('unknown part', 'com_line', w):
        st = a.state()
        par = an.sdict(a, st, ['lam', 'rR', 'rF', 'w'])
        r = a.call(a.get('com', 'com_line'), [V.var('alpha'), V.var('a'), par, string('F'), V.var('l1'), V.var('l2')], {}, st)
        ctx.ob('unknown part', 'com_line refuses a wheel', not r.returns, 'raises' if not r.returns else 'returns', w)
    lines(ctx)
    centre(ctx)
    total(ctx)


def lines(ctx):
    w = ctx.where('com', 'part_com_lines')
    for split in (False, True):
        parts = 'BGS' if split else 'BH'
        for counts in ((3, 3, 3), (4, 2, 3), (11, 3, 3)):
            tag = '%s fork, %s orientations' % ('split' if split else 'whole', counts[:len(parts)])
            a = ctx.analysis()
            with ctx.group('lines by part', tag, w):
                st = a.state()
                ks = []
                for p, n in zip(parts, counts):
                    for i in range(n, 0, -1):
                        ks += ['alpha%s%d' % (p, i), 'a%s%d' % (p, i), 'Tt%s%d' % (p, i)]
                mp = an.sdict(a, st, ks + (['h6', 'h7', 'd5', 'd6', 'l'] if split else []), u=True)
                par = an.sdict(a, st, ['lam', 'rR', 'rF', 'w'], u=True)
                seen = []
                if split:
                    def l12(st, args, kw, node):
                        seen.append([a.I.freeze(st, x) for x in args])
                        return V.tup([V.var('l1', True), V.var('l2', True)])
                    a.I.stubs[('geometry', 'calculate_l1_l2')] = l12
                before = a.I.freeze(st, mp)
                r = a.call(a.get('com', 'part_com_lines'), [mp, par, V.boolean(split)], {}, st)
                if not ctx.no_raise('completes', 'part_com_lines ' + tag, r, w):
                    continue
                ctx.equal('measurements unchanged', tag, r.freeze(mp), before, w)
                if split:
                    for i, n in enumerate('h6 h7 d5 d6 l'.split()):
                        ctx.equal('handlebar reference from', '%s: %s' % (tag, n), seen[0][i], V.var(n), w)
                f = r.frozen()
                D = []
                for d in f.items:
                    D.append({d.items[i].lit: d.items[i + 1] for i in range(0, len(d.items), 2)})
                ctx.ob('lines by part', tag + ': parts', all(sorted(d) == sorted(parts) for d in D),
                       str([sorted(d) for d in D]), w)
                for p, n in zip(parts, counts):
                    if any(p not in d or not isinstance(d[p], Frozen) or len(d[p].items) != n for d in D):
                        ctx.ob('lines by part', '%s %s: one line per orientation' % (tag, p), False,
                               str([V.show(d.get(p, V.NONE))[:100] for d in D]), w)
                        continue
                    for i in range(n):
                        m, b, beta = [a.I.lib.tonum(d[p].items[i]).rf for d in D]
                        line_identities(ctx, m, b, beta, p, v('alpha%s%d' % (p, i + 1)), v('a%s%d' % (p, i + 1)),
                                        '%s %s%d' % (tag, p, i + 1), w)


def centre(ctx):
    w = ctx.where('com', 'center_of_mass')
    for n in (2, 3, 4) if ctx.thorough else (2, 3):
        for u in (False, True):
            tag = '%d lines%s' % (n, ' (uncertain)' if u else '')
            a = ctx.analysis()
            with ctx.group('intersection', tag, w):
                st = a.state()
                r = a.call(a.get('com', 'center_of_mass'), [symlist(a, st, 'm', n, u), symlist(a, st, 'b', n, u)], {}, st)
                if not ctx.no_raise('completes', 'center_of_mass ' + tag, r, w):
                    continue
                f = r.frozen()
                M = [v('m_%d' % i) for i in range(n)]
                B = [v('b_%d' % i) for i in range(n)]
                pts = []
                for i, j in itertools.combinations(range(n), 2):
                    x = (B[j] - B[i]) / (M[i] - M[j])
                    pts.append((x, M[i] * x + B[i]))
                k = len(pts)
                ctx.equal('intersection', tag + ': x', f.items[0], num(sum((p[0] for p in pts), mech.Z) / k), w)
                ctx.equal('intersection', tag + ': z', f.items[1], num(sum((p[1] for p in pts), mech.Z) / k), w)


def total(ctx):
    w = ctx.where('com', 'total_com')
    for n in (1, 2, 3, 5):
        for aslist in (False, True):
            tag = '%d bodies%s' % (n, ' (lists)' if aslist else '')
            a = ctx.analysis()
            with ctx.group('total mass centre', tag, w):
                st = a.state()
                if aslist:
                    xs = a.I.new_list(st, [a.I.new_list(st, [V.var('c%d%d' % (i, j)) for j in range(n)]) for i in range(3)])
                    ms = symlist(a, st, 'm', n)
                else:
                    xs = a.I.new_arr(st, [V.var('c%d%d' % (i, j)) for i in range(3) for j in range(n)], (3, n))
                    ms = symarray(a, st, 'm', n)
                r = a.call(a.get('com', 'total_com'), [xs, ms], {}, st)
                if not ctx.no_raise('completes', 'total_com ' + tag, r, w):
                    continue
                f = r.frozen()
                m = sum((v('m_%d' % j) for j in range(n)), mech.Z)
                ctx.equal('total mass centre', tag + ': mass', f.items[0], num(m), w)
                ctx.equal('total mass centre', tag + ': centre', f.items[1], an.vector(
                    [sum((v('m_%d' % j) * v('c%d%d' % (i, j)) for j in range(n)), mech.Z) / m for i in range(3)]), w)
