"""Value-graph dataflow over Bicycle.steer_assembly_moment_of_inertia for all 32
combinations of its options, with whole and split forks, with and without a
flywheel entry, every parameter symbolic and uncertain: each entry of the returned
tensor is compared exactly with the rigid union of the selected bodies expressed
in axes turned by the steer tilt, shifted by the perpendicular distance when taken
about the axis. Unmeasured parts have no normal exit, only a ValueError, and the
stored parameters are unchanged."""
import itertools
import an
import values as V
from specs import mech
from common import *
TECHNIQUE = 'value-graph dataflow (abstract interpretation) with exact algebraic comparison of tensor entries'
ASSUMPTIONS = ['real arithmetic']


def v(n):
    return ring.var(n)


WHOLE = [k for k in M07 if k != 'v']
PART = 'm{0} x{0} z{0} I{0}xx I{0}xz I{0}yy I{0}zz'
SPLIT = WHOLE + PART.format('G').split() + PART.format('S').split()
FLY = SPLIT + 'mD IDxx IDyy'.split()


def body(p):
    t = lambda ax: v('I%s%s' % (p, ax))
    if p == 'F':
        return v('mF'), [v('w'), mech.Z, -v('rF')], mech.planar(t('xx'), mech.Z, t('yy'), t('xx'))
    return v('m' + p), [v('x' + p), mech.Z, v('z' + p)], mech.planar(t('xx'), t('xz'), t('yy'), t('zz'))


def selected(handlebar, fork, wheel):
    ps = 'H' if handlebar and fork else 'G' if handlebar else 'S' if fork else ''
    return ps + ('F' if wheel else '')


def expected(parts, axis):
    if not parts:
        return mech.mat(lambda i, j: mech.Z)
    m, c, I = mech.union([body(p) for p in parts])
    I = mech.congr(mech.roty(v('lam')), I)
    if axis:
        # the axis meets the ground at w + c and leans back by lam
        d = (c[0] - v('w') - v('c')) * ring.cos(v('lam')) - c[2] * ring.sin(v('lam'))
        I = mech.shift(I, m, [d, mech.Z, mech.Z])
    return I


def check(ctx):
    w = ctx.where('main', 'Bicycle.steer_assembly_moment_of_inertia')
    for nm, keys in (('whole fork', WHOLE), ('split fork', SPLIT), ('split fork and flywheel', FLY)):
        for hb, fk, wh, ax, nom in itertools.product((True, False), repeat=5):
            if nom and nm != 'whole fork':
                continue
            t = '%s: handlebar %d fork %d wheel %d about axis %d%s' % (nm, hb, fk, wh, ax, ' nominal' if nom else '')
            with ctx.group('steer inertia', t, w):
                a = ctx.analysis()
                st = a.state()
                b = bicycle(a, st, u=True, keys=keys)
                par = a.I.lib.getattr(st, b, 'parameters', None)
                before = a.I.freeze(st, par)
                kw = {k: V.boolean(x) for k, x in (('handlebar', hb), ('fork', fk), ('wheel', wh),
                                                  ('aboutSteerAxis', ax), ('nominal', nom))}
                r = a.method(b, 'steer_assembly_moment_of_inertia', [], kw, st)
                if hb != fk and nm == 'whole fork':
                    bad = [x for x in r.raised if x.exc[0] != 'ValueError' and V.feasible(x.st.pc)]
                    ctx.ob('unmeasured part refused', t, not r.returns and not bad,
                           'ValueError only' if not r.returns and not bad else 'returns or raises something else', w)
                    continue
                if not ctx.no_raise('completes', t, r, w):
                    continue
                parts = selected(hb, fk, wh)
                f = r.frozen()
                ctx.equal('steer inertia', t, f, an.matrix(expected(parts, ax)), w)
                ctx.equal('parameters unchanged', t, r.freeze(par), before, w)
                if parts:
                    us = [bool(a.I.lib.tonum(x).u) for x in (f.items[0], f.items[8])]
                    ctx.ob('uncertainty' if not nom else 'nominal', t, all(u != nom for u in us), 'flags %s' % us, w)
    with ctx.group('defaults', 'no options', w):
        a = ctx.analysis()
        st = a.state()
        b = bicycle(a, st, u=True, keys=WHOLE)
        r = a.method(b, 'steer_assembly_moment_of_inertia', [], {}, st)
        if ctx.no_raise('completes', 'defaults', r, w):
            ctx.equal('defaults', 'handlebar, fork and wheel about the mass centre', r.frozen(), an.matrix(expected('HF', False)), w)
