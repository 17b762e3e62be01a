"""Value-graph dataflow over form_mass_center_vector, form_inertia_tensor and
mass_center_of of both spatial parameterizations: for every body label the
vector or tensor is compared entry by entry with the one its symbolic parameters
define, for every subset of bodies the group centre with the mass-weighted mean,
and an unknown body must raise on every path."""
import itertools
import an
import values as V
from specs import mech
from common import *
from C09 import M19
ASSUMPTIONS = ['real arithmetic']


def v(n):
    return ring.var(n)


def com(b):
    if b == 'R':
        return [mech.Z, mech.Z, -v('rR')]
    if b == 'F':
        return [v('w'), mech.Z, -v('rF')]
    return [v('x' + b), mech.Z, v('z' + b)]


SETS = {'Meijaard2007ParameterSet': ('BFHR', M07, True),
        'Meijaard2007WithFeedbackParameterSet': ('BFHR', M07FB, True),
        'Moore2019ParameterSet': ('DFHPR', M19, False)}


def labels(a, st, o):
    """The advertised body labels."""
    fz = a.I.freeze(st, a.I.lib.getattr(st, o, 'body_labels', None))
    return [x.lit for x in fz.items]


def check(ctx):
    for cls, (bodies, keys, tensors) in SETS.items():
        wv = ctx.where('parameter_sets', cls + '.form_mass_center_vector')
        wm = ctx.where('parameter_sets', cls + '.mass_center_of')
        wi = ctx.where('parameter_sets', cls + '.form_inertia_tensor')
        a = ctx.analysis()
        with ctx.group('set', cls, wv):
            st = a.state()
            d = an.sdict(a, st, keys)
            r = pset(a, st, cls, d, *([TRUE] if tensors else []))
            st0, o = r.st, r.value
            ctx.ob('body labels', cls, sorted(labels(a, st0, o)) == sorted(bodies), str(labels(a, st0, o)), wv)
        for b in bodies:
            with ctx.group('mass centre', '%s %s' % (cls, b), wv):
                r = a.method(o, 'form_mass_center_vector', [string(b)], {}, st0.fork())
                if ctx.no_raise('completes', 'form_mass_center_vector(%s) %s' % (b, cls), r, wv):
                    ctx.equal('mass centre', '%s %s' % (cls, b), r.frozen(), an.vector(com(b)), wv)
            if tensors:
                with ctx.group('inertia tensor', '%s %s' % (cls, b), wi):
                    r = a.method(o, 'form_inertia_tensor', [string(b)], {}, st0.fork())
                    p = lambda x: v('I%s%s' % (b, x))
                    want = mech.planar(p('xx'), mech.Z, p('yy'), p('xx')) if b in 'FR' else \
                        mech.planar(p('xx'), p('xz'), p('yy'), p('zz'))
                    if ctx.no_raise('completes', 'form_inertia_tensor(%s) %s' % (b, cls), r, wi):
                        ctx.equal('inertia tensor', '%s %s' % (cls, b), r.frozen(), an.matrix(want), wi)
        for n in range(1, len(bodies) + 1):
            for grp in itertools.combinations(bodies, n):
                if n > 1 and not ctx.thorough and grp[0] != bodies[0] and n != 2:
                    continue
                for order in ((grp,) if n == 1 else (grp, grp[::-1])):
                    c = '%s %s' % (cls, ''.join(order))
                    with ctx.group('group mass centre', c, wm):
                        r = a.method(o, 'mass_center_of', strs(*order), {}, st0.fork())
                        m = sum((v('m' + b) for b in order), mech.Z)
                        want = [sum((v('m' + b) * com(b)[k] for b in order), mech.Z) / m for k in range(3)]
                        if ctx.no_raise('completes', c, r, wm):
                            ctx.equal('group mass centre', c, r.frozen(), an.vector(want), wm)
        for meth in ('form_mass_center_vector', 'mass_center_of') + (('form_inertia_tensor',) if tensors else ()):
            for bad in (['X'], ['']):
                with ctx.group('unknown body refused', '%s %s(%r)' % (cls, meth, bad), wv):
                    r = a.method(o, meth, strs(*bad), {}, st0.fork())
                    ctx.ob('unknown body refused', '%s.%s(%r)' % (cls, meth, bad[0]),
                           not r.returns and bool(r.raised), 'raises' if not r.returns else 'returns a value', wv)
            with ctx.group('query leaves the set unchanged', '%s.%s' % (cls, meth), wv):
                r = a.method(o, meth, strs(bodies[0]), {}, st0.fork())
                before = a.I.freeze(st0, d)
                ctx.equal('query leaves the set unchanged', '%s.%s' % (cls, meth), r.freeze(d), before, wv)
