"""Value-graph dataflow over main.calculate_benchmark_from_measured with every
measurement symbolic and uncertain: pendulum lines, mass centres and planar
components are tracked through the functions C17 and C14 decide (their arguments
are compared, their results are symbols), and each benchmark parameter is compared
exactly with the expression over the measurements of its own body and axis, for
whole and split forks, with and without flywheel, up to eleven orientations."""
import an
import values as V
from specs import mech
from common import *
from C17 import line_identities
ASSUMPTIONS = ['real arithmetic', 'center_of_mass, inertia_components and calculate_l1_l2 are decided in C17, C14 and C15']


def v(n):
    return ring.var(n)


def entries(f):
    return {f.items[i].lit: f.items[i + 1] for i in range(0, len(f.items), 2)}


def comp(m, l, T):
    return (T / (2 * ring.PI)) ** 2 * m * v('g') * l - m * l ** 2


def keys(parts, counts, split, fly):
    ks = 'dF nF dR nR w gamma f g mB mF mR lF lR lP mP dP TcF1 TcR1 TcB1 TtP1 TtF1 TtR1'.split()
    for p, n in zip(parts, counts):
        for i in range(1, n + 1):
            ks += ['alpha%s%d' % (p, i), 'a%s%d' % (p, i), 'Tt%s%d' % (p, i)]
    ks += 'mS mG TcS1 TcG1 h6 h7 d5 d6 l'.split() if split else 'mH TcH1'.split()
    if fly:
        ks += ['mD', 'TcD1', 'TtD1']
    return ks


def expected(split, fly, parts):
    rF = v('dF') / (2 * ring.PI * v('nF'))
    rR = v('dR') / (2 * ring.PI * v('nR'))
    lam = ring.PI / 180 * (90 - v('gamma'))
    e = {'rF': rF, 'rR': rR, 'lam': lam, 'w': v('w'), 'c': (rF * ring.sin(lam) - v('f')) / ring.cos(lam)}
    for k in ('mB', 'mF', 'mR', 'g') + (('mS', 'mG') if split else ('mH',)):
        e[k] = v(k)
    X = {p: v('x' + p) for p in parts}
    Z = {p: v('z' + p) for p in parts}
    for p in parts:
        e['x' + p], e['z' + p] = X[p], Z[p]
        for ax in ('xx', 'xz', 'zz'):
            e['I' + p + ax] = v('I' + p + ax)
    e['IFyy'] = comp(v('mF'), v('lF'), v('TcF1'))
    e['IRyy'] = comp(v('mR'), v('lR'), v('TcR1'))
    hyp = lambda a, b: ring.sqrt(a * a + b * b)
    e['IByy'] = comp(v('mB'), hyp(X['B'], Z['B'] + rR), v('TcB1'))
    IP = v('mP') * (3 * (v('dP') / 2) ** 2 + v('lP') ** 2) / 12
    k = IP * (2 * ring.PI / v('TtP1')) ** 2
    tor = lambda T: k * T ** 2 / (2 * ring.PI) ** 2
    e['IFxx'], e['IRxx'] = tor(v('TtF1')), tor(v('TtR1'))
    if fly:
        e['mD'] = v('mD') - v('mF')
        e['IDyy'] = comp(v('mD'), v('lF'), v('TcD1')) - e['IFyy']
        e['IDxx'] = tor(v('TtD1')) - e['IFxx']
    if split:
        s, c = ring.sin(lam), ring.cos(lam)
        u1 = v('l2') * s - v('l1') * c
        u2 = v('l2') * c + v('l1') * s
        e['ISyy'] = comp(v('mS'), hyp(X['S'] - v('w'), Z['S'] + rF), v('TcS1'))
        e['IGyy'] = comp(v('mG'), hyp(X['G'] - v('w') + u1, Z['G'] + rF + u2), v('TcG1'))
        ten = lambda p: mech.planar(v('I%sxx' % p), v('I%sxz' % p), e['I%syy' % p], v('I%szz' % p))
        m, cc, I = mech.union([(v('m' + p), [X[p], mech.Z, Z[p]], ten(p)) for p in 'GS'])
        e['mH'], e['xH'], e['zH'] = m, cc[0], cc[2]
        e['IHxx'], e['IHxz'], e['IHyy'], e['IHzz'] = I[0][0], I[0][2], I[1][1], I[2][2]
    else:
        e['IHyy'] = comp(v('mH'), hyp(X['H'] - v('w'), Z['H'] + rF), v('TcH1'))
    return e, tor


def check(ctx):
    cases = []
    for split in (False, True):
        for fly in (False, True):
            cases.append((split, fly, (3, 3, 3)))
        cases.append((split, False, (4, 3, 5)))
        cases.append((split, False, (11, 3, 3)))
    for split, fly, counts in cases:
        one(ctx, split, fly, counts)
    fork(ctx)


def one(ctx, split, fly, counts):
    w = ctx.where('main', 'calculate_benchmark_from_measured')
    parts = 'BGS' if split else 'BH'
    counts = counts[:len(parts)]
    tag = '%s fork%s%s' % ('split' if split else 'whole', ' with flywheel' if fly else '',
                           '' if set(counts) == {3} else ' %s orientations' % (counts,))
    a = ctx.analysis()
    rec = {'com': {}, 'comp': {}, 'l12': []}

    def part_of(*fz):
        names = set()
        for f in fz:
            for x in f.items:
                n = a.I.lib.tonum(x)
                for at in ring.all_atoms(n.rf).values():
                    if at.head == 'var' and str(at.args[0]).startswith('alpha'):
                        names.add(str(at.args[0])[5])
        return names.pop() if len(names) == 1 else None

    def com_stub(st, args, kw, node):
        fz = [a.I.freeze(st, x) for x in args]
        p = part_of(*fz)
        if p is None:
            raise an.Unsupported('lines of several parts in one intersection')
        rec['com'][p] = fz
        return V.tup([V.var('x' + p, True), V.var('z' + p, True)])

    def comp_stub(st, args, kw, node):
        fz = [a.I.freeze(st, x) for x in args]
        p = part_of(fz[1])
        rec['comp'][p] = fz
        return a.I.new_arr(st, [V.var('I%s%s' % (p, ax), True) for ax in ('xx', 'xz', 'zz')], (3,), 'O')

    def l12(st, args, kw, node):
        rec['l12'].append([a.I.freeze(st, x) for x in args])
        return V.tup([V.var('l1', True), V.var('l2', True)])
    a.I.stubs[('com', 'center_of_mass')] = com_stub
    a.I.stubs[('inertia', 'inertia_components')] = comp_stub
    a.I.stubs[('geometry', 'calculate_l1_l2')] = l12
    with ctx.group('measured to benchmark', tag, w):
        st = a.state()
        mp = an.sdict(a, st, keys(parts, counts, split, fly), u=True)
        before = a.I.freeze(st, mp)
        r = a.call(a.get('main', 'calculate_benchmark_from_measured'), [mp], {}, st)
        if not ctx.no_raise('completes', tag, r, w):
            return
        f = r.frozen()
        got, extras = entries(f.items[0]), entries(f.items[1])
        want, tor = expected(split, fly, parts)
        ctx.equal('measurements unchanged', tag, r.freeze(mp), before, w)
        missing = sorted(set(want) - set(got))
        extra = sorted(set(got) - set(want) - {'xcl', 'zcl'})
        ctx.ob('parameters produced', tag, not missing and not extra, 'missing %s extra %s' % (missing, extra), w)
        complete = sorted(rec['com']) == sorted(parts) and sorted(rec['comp']) == sorted(parts)
        if not complete:
            ctx.ob('measured to benchmark', tag + ': tracked calls', an.UNK, '%s %s' % (sorted(rec['com']), sorted(rec['comp'])), w)
            return
        for k in sorted(want):
            if k in got:
                ctx.equal('measured to benchmark', '%s: %s' % (tag, k), got[k], num(want[k], True), w)
                n = a.I.lib.tonum(got[k])
                ctx.ob('stays uncertain', '%s: %s' % (tag, k), bool(n is not None and n.u), V.show(got[k])[:100], w)
        if split:
            for call in rec['l12']:
                for n, x in zip('h6 h7 d5 d6 l'.split(), call):
                    ctx.equal('handlebar reference from', '%s: %s' % (tag, n), x, V.var(n), w)
        rF, rR, lam = want['rF'], want['rR'], want['lam']
        for p, n in zip(parts, counts):
            sl, ic = rec['com'][p]
            J, be = rec['comp'][p]
            if not all(len(q.items) == n for q in (sl, ic, J, be)):
                ctx.ob('lines of', '%s %s' % (tag, p), False, 'lengths %s' % [len(q.items) for q in (sl, ic, J, be)], w)
                continue
            for i in range(n):
                T = v('Tt%s%d' % (p, i + 1))
                ctx.equal('pendulum inertia', '%s: %s orientation %d' % (tag, p, i + 1), J.items[i], num(tor(T)), w)
                bt = lam - v('alpha%s%d' % (p, i + 1)) * ring.PI / 180
                ctx.equal('orientation angle', '%s: %s orientation %d' % (tag, p, i + 1), be.items[i], num(bt), w)
                if n == 3 and not ctx.thorough and i:
                    continue
                num_ = lambda x: a.I.lib.tonum(x).rf
                m, b = num_(sl.items[i]), num_(ic.items[i])
                al, aa = v('alpha%s%d' % (p, i + 1)), v('a%s%d' % (p, i + 1))
                slope(ctx, m, b, p, bt, aa, lam, rF, rR, '%s %s%d' % (tag, p, i + 1), w)
        for nm, i in (('slopes', 0), ('intercepts', 1)):
            if nm in extras:
                e = entries(extras[nm])
                for p in parts:
                    ctx.equal('extra data', '%s: %s %s' % (tag, nm, p), e[p], rec['com'][p][i], w)
        for nm, i in (('betas', 1), ('pendulumInertias', 0)):
            if nm in extras:
                e = entries(extras[nm])
                for p in parts:
                    ctx.equal('extra data', '%s: %s %s' % (tag, nm, p), e[p], rec['comp'][p][i], w)


def slope(ctx, m, b, p, bt, aa, lam, rF, rR, tag, w):
    s, c = ring.sin(lam), ring.cos(lam)
    if p == 'B':
        x0, z0 = mech.Z, -rR
    elif p in 'HS':
        x0, z0 = v('w'), -rF
    else:
        x0 = v('w') - (v('l2') * s - v('l1') * c)
        z0 = -rF - (v('l2') * c + v('l1') * s)
    ctx.equal('line of', tag + ': slope', num(m * ring.cos(bt)), num(-ring.sin(bt)), w)
    ctx.equal('line of', tag + ': distance', num((m * x0 + b - z0) * ring.cos(bt)), num(-aa), w)


def fork(ctx):
    w = ctx.where('main', 'is_fork_split')
    a = ctx.analysis()
    for split in (False, True):
        parts = 'BGS' if split else 'BH'
        ks = keys(parts, (3, 3, 3), split, False)
        with ctx.group('fork is split', str(split), w):
            st = a.state()
            r = a.call(a.get('main', 'is_fork_split'), [an.sdict(a, st, ks)], {}, st)
            if ctx.no_raise('completes', 'is_fork_split %s' % split, r, w):
                ctx.equal('fork is split', 'measurements with%s S' % ('' if split else 'out'), r.frozen(), V.boolean(split), w)
    w = ctx.where('main', 'get_parts_in_parameters')
    for ks, want in ((M07, 'BFHR'), (M07 + ['mS', 'mG', 'mD'], 'BDFGHRS')):
        with ctx.group('parts', want, w):
            st = a.state()
            r = a.call(a.get('main', 'get_parts_in_parameters'), [an.sdict(a, st, ks)], {}, st)
            if ctx.no_raise('completes', 'get_parts_in_parameters', r, w):
                got = sorted(x.lit for x in r.frozen().items)
                ctx.ob('parts', want, got == sorted(want), str(got), w)
