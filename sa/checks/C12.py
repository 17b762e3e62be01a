"""Value-graph dataflow over inertia.combine_bike_rider (and the functions it
reaches) with fully symbolic bicycle and rider: the returned dictionary is
compared entry by entry with the rigid union of the two bodies, with conservation
identities checked independently; keys other than the rear body's are compared
with the input by identity of their symbols. Bicycle.add_rider is analysed on its
load-from-file branch and must store exactly that combination, with every other
parameter set and entry unchanged."""
import an
import values as V
from specs import mech
from common import *
ASSUMPTIONS = ['real arithmetic', 'rider parameters as stored by the package: mB xB yB zB IBxx IBxz IByy IBzz']

RIDER = 'IBxx IBxz IByy IBzz mB xB yB zB'.split()
REAR = ('xB', 'yB', 'zB', 'mB', 'IBxx', 'IBxz', 'IByy', 'IBzz')


def v(n):
    return ring.var(n)


def union(y=True):
    rb = [v('xB'), mech.Z, v('zB')]
    rr = [v('r_xB'), v('r_yB') if y else mech.Z, v('r_zB')]
    t = lambda p: mech.planar(v(p + 'IBxx'), v(p + 'IBxz'), v(p + 'IByy'), v(p + 'IBzz'))
    return mech.union([(v('mB'), rb, t('')), (v('r_mB'), rr, t('r_'))])


def rear(y=True):
    m, c, I = union(y)
    return {'mB': m, 'xB': c[0], 'zB': c[2], 'IBxx': I[0][0], 'IBxz': I[0][2], 'IByy': I[1][1], 'IBzz': I[2][2]}


def entries(f):
    return {f.items[i].lit: f.items[i + 1] for i in range(0, len(f.items), 2)}


def compare(ctx, got, base, tag, w, y=True):
    e = entries(got)
    want = rear(y)
    for k in base:
        if k not in e:
            ctx.ob('combined set', '%s: %s' % (tag, k), False, 'parameter lost', w)
        elif k in want:
            ctx.equal('rigid union', '%s: %s' % (tag, k), e[k], num(want[k]), w)
        else:
            ctx.equal('passed through', '%s: %s' % (tag, k), e[k], V.var(k), w)
    extra = sorted(set(e) - set(base) - {'yB'})
    ctx.ob('combined set', '%s: no new parameters' % tag, not extra, 'extra %s' % extra, w)
    if 'yB' in e:
        ctx.equal('rigid union', '%s: yB' % tag, e['yB'], const(0), w)
    return e


FLY = ('mD', 'IDxx', 'IDyy')
PARTS = tuple(x % p for p in 'SG' for x in ('m%s', 'x%s', 'z%s', 'I%sxx', 'I%sxz', 'I%syy', 'I%szz'))


def check(ctx):
    w = ctx.where('inertia', 'combine_bike_rider')
    for u in (False, True):
        for y, more in ((True, ()), (False, ()), (False, FLY + ('xcl', 'zcl')), (False, PARTS)):
            if u and y:
                continue
            keys = [k for k in M07 if k != 'v'] + list(more)
            tag = 'combine_bike_rider' + (' with ' + more[0] if more else '') + (' (uncertain bicycle)' if u else '') + ('' if y else ' (rider in the plane)')
            a = ctx.analysis()
            with ctx.group('rigid union', tag, w):
                st = a.state()
                bp = an.sdict(a, st, keys, u=u)
                rp = an.sdict(a, st, [k for k in RIDER if y or k != 'yB'], 'r_', extra={} if y else {'yB': const(0.0)})
                before = (a.I.freeze(st, bp), a.I.freeze(st, rp))
                r = a.call(a.get('inertia', 'combine_bike_rider'), [bp, rp], {}, st)
                if not ctx.no_raise('completes', tag, r, w):
                    continue
                e = compare(ctx, r.frozen(), keys, tag, w, y)
                ctx.equal('inputs unchanged', tag + ': bicycle', r.freeze(bp), before[0], w)
                ctx.equal('inputs unchanged', tag + ': rider', r.freeze(rp), before[1], w)
                if not u and not y:
                    conserve(ctx, e, w)
    add_rider(ctx)


def conserve(ctx, e, w):
    """Totals about the ground contact origin are sums, whatever the formula."""
    g = lambda k: e[k].rf
    two = lambda f: f('') + f('r_')
    m, x, z = g('mB'), g('xB'), g('zB')
    eq = lambda nm, got, want: ctx.equal('conserved', nm, num(got), num(want), w)
    eq('mass', m, two(lambda p: v(p + 'mB')))
    eq('first moment x', m * x, two(lambda p: v(p + 'mB') * v(p + 'xB')))
    eq('first moment z', m * z, two(lambda p: v(p + 'mB') * v(p + 'zB')))
    eq('inertia xx', g('IBxx') + m * z * z, two(lambda p: v(p + 'IBxx') + v(p + 'mB') * v(p + 'zB') * v(p + 'zB')))
    eq('inertia zz', g('IBzz') + m * x * x, two(lambda p: v(p + 'IBzz') + v(p + 'mB') * v(p + 'xB') * v(p + 'xB')))
    eq('inertia xz', g('IBxz') - m * x * z, two(lambda p: v(p + 'IBxz') - v(p + 'mB') * v(p + 'xB') * v(p + 'zB')))
    eq('inertia yy', g('IByy') + m * (x * x + z * z), two(
        lambda p: v(p + 'IByy') + v(p + 'mB') * (v(p + 'xB') * v(p + 'xB') + v(p + 'zB') * v(p + 'zB'))))


def add_rider(ctx):
    w = ctx.where('main', 'Bicycle.add_rider')
    a = ctx.analysis()
    with ctx.group('add_rider', 'load branch', w):
        st = a.state()
        o = bicycle(a, st, u=True, extra={'xcl': V.var('xcl')})

        def load(st, args, kw, node):
            return an.sdict(a, st, RIDER, 'r_')
        a.I.stubs[('io', 'load_parameter_text_file')] = load
        r = a.method(o, 'add_rider', [string('Rider')], {}, st)
        if not ctx.no_raise('completes', 'add_rider', r, w):
            return
        par = a.I.lib.getattr(r.st, o, 'parameters', None)
        f = entries(r.freeze(par))
        ctx.ob('add_rider', 'only the benchmark set is replaced', sorted(f) == ['Benchmark'], str(sorted(f)), w)
        compare(ctx, f['Benchmark'], [k for k in M07 if k != 'v'] + ['xcl'], 'add_rider', w)
        ctx.equal('add_rider', 'hasRider', r.freeze(a.I.lib.getattr(r.st, o, 'hasRider', None)), TRUE, w)
        ctx.equal('add_rider', 'riderName', r.freeze(a.I.lib.getattr(r.st, o, 'riderName', None)), string('Rider'), w)
        rp = entries(r.freeze(a.I.lib.getattr(r.st, o, 'riderPar', None)))
        re_ = entries(rp['Benchmark'])
        for k in RIDER:
            ctx.equal('add_rider', 'stored rider %s' % k, re_[k], V.var('r_' + k), w)
        # a second rider is not added on top of the first
        again = a.method(o, 'add_rider', [string('Second')], {}, r.st)
        if ctx.no_raise('completes', 'add_rider twice', again, w):
            ctx.equal('add_rider', 'a second rider is refused', again.freeze(par), r.freeze(par), w)
