"""Value-graph dataflow over to_parameterization of every parameter set class,
for every ordered pair (class, target name) and unknown names: the result on every
path is either the same object (own name), a complete set of exactly the requested
kind whose entries are compared as symbolic expressions, or a ValueError and
nothing else; the source set's dictionary is compared before and after."""
import an
import values as V
from common import *
from C09 import benchmark_of
TECHNIQUE = 'value-graph dataflow (abstract interpretation) with exact symbolic comparison of the converted entries'
ASSUMPTIONS = ['real arithmetic', 'the dependency dtk.bicycle.benchmark_to_moore computes the published Moore 2012 relations']

MUST = {('Meijaard2007', 'Meijaard2007WithFeedback'), ('Meijaard2007', 'Moore2012'),
        ('Moore2019', 'Meijaard2007'), ('Moore2019', 'Meijaard2007WithFeedback')}
NAMES = sorted(SETS) + ['Nope', '', 'meijaard2007', 'Meijaard2007ParameterSet', 'Moore']


def expected(kind, target):
    own = {k: ring.var(k) for k in set_keys(kind)}
    if kind == 'Moore2019':
        own = benchmark_of()
    out = dict(own)
    if target == 'Meijaard2007WithFeedback':
        for g in GAINS:
            out.setdefault(g, ring.const(0))
    if target == 'Moore2012':
        out = moore2012_of(own)
        out['v'] = own['v']
    return out


def table(f):
    return {f.items[i].lit: f.items[i + 1] for i in range(0, len(f.items), 2)}


def check(ctx):
    for kind in SETS:
        w = ctx.where('parameter_sets', kind + 'ParameterSet')
        a = ctx.analysis()
        benchmark_to_moore_model(a)
        for rider in ((TRUE, FALSE) if SETS[kind][0] else (None,)):
            with ctx.group('set', kind, w):
                r, d = make_set(a, a.state(), kind, rider=rider)
                if not ctx.no_raise('constructs', kind, r, w):
                    continue
                st0, o = r.st, r.value
                before = a.I.freeze(st0, d)
                targets(ctx, a, st0, o, d, before, kind, rider, w)


def targets(ctx, a, st0, o, d, before, kind, rider, w):
    for name in NAMES:
        t = '%s to %r%s' % (kind, name, '' if rider is not FALSE else ' without rider')
        with ctx.group('conversion', t, w):
            r = a.method(o, 'to_parameterization', [string(name)], {}, st0.fork())
            if name == kind:
                ctx.no_raise('own name', t, r, w)
                ctx.ob('own name returns the same set', t, r.value is o or r.value == o, V.show(r.value)[:80], w)
                continue
            others = [x for x in r.raised if x.exc[0] != 'ValueError' and V.feasible(x.st.pc)]
            ctx.ob('only ValueError', t, not others, an.describe(others[0]) if others else 'no other exception', w)
            refused = not r.returns
            if (kind, name) in MUST:
                ctx.no_raise('advertised target succeeds', t, r, w)
            if name not in SETS:
                ctx.ob('unknown target refused', t, refused, 'raises' if refused else 'returns a value', w)
            if refused:
                continue
            ctx.equal('source set unchanged', t, r.freeze(d), before, w)
            par = a.I.lib.getattr(r.st, r.value, 'parameterization', None)
            ctx.equal('result kind', t, par, string(name), w)
            got = table(r.freeze(a.I.lib.getattr(r.st, r.value, 'parameters', None)))
            want = expected(kind, name)
            miss = sorted(set(set_keys(name)) - set(got))
            ctx.ob('result complete', t, not miss, 'missing %s' % miss, w)
            for k in sorted(want):
                if k in got:
                    ctx.equal('converted value', '%s: %s' % (t, k), got[k], num(want[k]), w)
            if SETS[name][0]:
                inc = r.freeze(a.I.lib.getattr(r.st, r.value, 'includes_rider', None))
                ctx.equal('rider flag', t, inc, TRUE if rider is None else rider, w)
            again = a.method(r.value, 'to_parameterization', [string(name)], {}, r.st)
            if ctx.no_raise('own name', t + ' again', again, w):
                ctx.ob('own name returns the same set', t + ' again', again.value == r.value, V.show(again.value)[:80], w)
