"""Value-graph dataflow over Moore2019ParameterSet.to_parameterization and
conversions.py: from a dictionary of the required parameters alone (all
symbolic), every entry of the produced benchmark set is compared, as an exact
trigonometric rational function, with the rigid union of person and rear frame
built from principal inertias m k^2 turned by the principal-axis angle about y.
Mass-centre and conservation identities (mass, first moment, total inertia about
the origin) are compared independently of the union formula."""
import an
import values as V
from specs import mech
from common import *
ASSUMPTIONS = ['real arithmetic']



def v(n):
    return ring.var(n)


def principal_tensor(b):
    """sum over principal axes of m k^2 e e^T, a-axis at angle alpha about +y."""
    al, m = v('alpha' + b), v('m' + b)
    ea = [ring.cos(al), mech.Z, -ring.sin(al)]
    ey = [mech.Z, mech.ONE, mech.Z]
    eb = [ring.sin(al), mech.Z, ring.cos(al)]
    I = mech.mat(lambda i, j: mech.Z)
    for k, e in (('aa', ea), ('yy', ey), ('bb', eb)):
        kk = v('k%s%s' % (b, k))
        I = mech.add(I, mech.mat(lambda i, j: m * kk * kk * e[i] * e[j]))
    return I


def benchmark_of():
    com = lambda b: [v('x' + b), mech.Z, v('z' + b)]
    m, c, I = mech.union([(v('mD'), com('D'), principal_tensor('D')),
                          (v('mP'), com('P'), principal_tensor('P'))])
    H = principal_tensor('H')
    out = {k: v(k) for k in 'w c lam g v mH xH zH rR mR rF mF'.split()}
    out.update(mB=m, xB=c[0], zB=c[2], IBxx=I[0][0], IBxz=I[0][2], IByy=I[1][1], IBzz=I[2][2],
               IHxx=H[0][0], IHxz=H[0][2], IHyy=H[1][1], IHzz=H[2][2])
    for b in 'RF':
        out['I%sxx' % b] = v('m' + b) * v('k%saa' % b) * v('k%saa' % b)
        out['I%syy' % b] = v('m' + b) * v('k%syy' % b) * v('k%syy' % b)
    return out


def check(ctx):
    want = benchmark_of()
    assert set(want) == set(M07)
    w = ctx.where('conversions', '_convert_principal_to_benchmark')
    for target in ('Meijaard2007', 'Meijaard2007WithFeedback'):
        a = ctx.analysis()
        with ctx.group('conversion', target, w):
            st = a.state()
            d = an.sdict(a, st, M19)
            r = pset(a, st, 'Moore2019ParameterSet', d)
            if not ctx.no_raise('completes', 'Moore2019ParameterSet(required parameters)', r, w):
                continue
            r = a.method(r.value, 'to_parameterization', [string(target)], {}, r.st)
            if not ctx.no_raise('completes', 'to_parameterization(%s)' % target, r, w):
                continue
            par = a.I.lib.getattr(r.st, r.value, 'parameters', None)
            got = r.freeze(par)
            entries = {got.items[i].lit: got.items[i + 1] for i in range(0, len(got.items), 2)}
            for k in sorted(want):
                if k not in entries:
                    ctx.ob('conversion', '%s: %s' % (target, k), False, 'parameter missing', w)
                    continue
                ctx.equal('conversion', '%s: %s' % (target, k), entries[k], num(want[k]), w)
            for k in sorted(set(entries) - set(want)):
                if k in GAINS:
                    ctx.equal('gains are zero', '%s: %s' % (target, k), entries[k], const(0), w)
                elif k in ('yB', 'yH', 'yF', 'yR'):
                    ctx.equal('extra entries are consistent', '%s: %s' % (target, k), entries[k], const(0), w)
                elif k in ('IRzz', 'IFzz'):
                    ctx.equal('extra entries are consistent', '%s: %s' % (target, k), entries[k],
                              num(want[k.replace('zz', 'xx')]), w)
            if target == 'Meijaard2007':
                conserve(ctx, a, entries, w)
                kinds(ctx, a, r, w)


def conserve(ctx, a, e, w):
    """Independent of the union formula: totals about the origin are conserved."""
    g = lambda k: e[k].rf
    m, x, z = g('mB'), g('xB'), g('zB')
    sm = lambda f: f('D') + f('P')
    ctx.equal('mass conserved', 'rear body', num(m), num(sm(lambda b: v('m' + b))), w)
    ctx.equal('first moment conserved', 'x', num(m * x), num(sm(lambda b: v('m' + b) * v('x' + b))), w)
    ctx.equal('first moment conserved', 'z', num(m * z), num(sm(lambda b: v('m' + b) * v('z' + b))), w)
    ten = {b: principal_tensor(b) for b in 'DP'}
    ctx.equal('inertia about origin conserved', 'yy', num(g('IByy') + m * (x * x + z * z)),
              num(sm(lambda b: ten[b][1][1] + v('m' + b) * (v('x' + b) * v('x' + b) + v('z' + b) * v('z' + b)))), w)
    ctx.equal('inertia about origin conserved', 'xz', num(g('IBxz') - m * x * z),
              num(sm(lambda b: ten[b][0][2] - v('m' + b) * v('x' + b) * v('z' + b))), w)
    ctx.equal('inertia about origin conserved', 'xx', num(g('IBxx') + m * z * z),
              num(sm(lambda b: ten[b][0][0] + v('m' + b) * v('z' + b) * v('z' + b))), w)
    ctx.equal('inertia about origin conserved', 'zz', num(g('IBzz') + m * x * x),
              num(sm(lambda b: ten[b][2][2] + v('m' + b) * v('x' + b) * v('x' + b))), w)


def kinds(ctx, a, r, w):
    inc = a.I.lib.getattr(r.st, r.value, 'includes_rider', None)
    ctx.equal('conversion', 'includes_rider', r.freeze(inc), TRUE, w)
