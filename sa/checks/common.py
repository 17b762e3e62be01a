"""Builders shared by the checks."""
import ring
import values as V
from values import Ref, Frozen, Str, Num, string, num, const, tup, TRUE, FALSE, NONE
import an

M07 = ('IBxx IBxz IByy IBzz IFxx IFyy IHxx IHxz IHyy IHzz IRxx IRyy c g lam mB mF mH mR '
       'rF rR v w xB xH zB zH').split()
GAINS = ['kTphi_phi', 'kTphi_del', 'kTphi_phid', 'kTphi_deld',
         'kTdel_phi', 'kTdel_del', 'kTdel_phid', 'kTdel_deld']
M07FB = M07 + GAINS
LEAN = ('c9 d1 d2 d3 d4 g ic11 ic22 ic31 ic33 id11 id22 ie11 ie22 ie31 ie33 if11 if22 ig11 '
        'ig22 ig31 ig33 k9 l1 l2 l3 l4 l5 l6 mc md me mf mg rf rr v').split()


def pset(a, st, cls, d, *extra):
    """Analyse the construction of a parameter set from dictionary d."""
    f = a.get('parameter_sets', cls)
    r = a.call(f, [d] + list(extra), {}, st)
    return r


def meijaard(a, st, prefix='', extra=None):
    d = an.sdict(a, st, M07, prefix, extra=extra)
    r = pset(a, st, 'Meijaard2007ParameterSet', d, TRUE)
    return r.st, r.value, d


def feedback(a, st, prefix=''):
    d = an.sdict(a, st, M07FB, prefix)
    r = pset(a, st, 'Meijaard2007WithFeedbackParameterSet', d, TRUE)
    return r.st, r.value, d


def lean_keys(ctx):
    return LEAN


def lean(a, st, prefix=''):
    d = an.sdict(a, st, LEAN, prefix)
    r = pset(a, st, 'MooreRiderLean2012ParameterSet', d)
    return r.st, r.value, d


def model(a, st, cls, ps):
    r = a.call(a.get('models', cls), [ps], {}, st)
    return r.st, r.value


def symarray(a, st, name, n, u=False):
    """An n-array of symbols name_0 .. name_{n-1} (as a new ndarray)."""
    return a.I.new_arr(st, [V.var('%s_%d' % (name, i), u) for i in range(n)], (n,))


def symlist(a, st, name, n, u=False):
    return a.I.new_list(st, [V.var('%s_%d' % (name, i), u) for i in range(n)])


def strs(*xs):
    return [string(x) for x in xs]


from interp import HInst, HDict, HList


def instance(a, st, mod, cls, attrs):
    return V.ref(a.I.alloc(st, HInst(a.get(mod, cls), attrs)))


def bicycle(a, st, u=False, prefix='', extra=None, attrs=None, keys=None, measured=None):
    """A loaded Bicycle holding a symbolic benchmark set."""
    par = an.sdict(a, st, [k for k in (keys or M07) if k != 'v'], prefix, u=u, extra=extra)
    params = {string('Benchmark'): par}
    if measured is not None:
        params[string('Measured')] = measured
    at = {'bicycleName': string('Bikename'), 'directory': string('/data/bicycles/Bikename'),
          'hasRider': FALSE, 'riderPar': a.I.new_dict(st, {}), 'human': NONE,
          'parameters': a.I.new_dict(st, params)}
    at.update(attrs or {})
    return instance(a, st, 'main', 'Bicycle', at)


def nominal_of(v):
    """The same frozen value; the comparator ignores the uncertainty flag."""
    return v


def lin_entry(which, i, j, q, u, r, p):
    return num(ring.app(which, const(i), const(j), q, u, r, p))


def stub_eval_linear(a):
    """The generated equations as opaque functions of their four arguments."""
    def stub(st, args, kw, node):
        fz = [a.I.freeze(st, x) for x in args]
        out = []
        for which, sh in (('Alin', (13, 13)), ('Blin', (13, 4)), ('Clin', (18, 13)), ('Dlin', (18, 4))):
            its = [lin_entry(which, i, j, *fz) for i in range(sh[0]) for j in range(sh[1])]
            out.append(a.I.new_arr(st, its, sh))
        a.eval_linear_args.append(fz)
        return tup(out)
    a.eval_linear_args = []
    a.I.stubs[('_mooreriderlean2012', 'eval_linear')] = stub
    return a


def lean_model(ctx, prefix='', **cfg):
    a = ctx.analysis(**cfg)
    stub_eval_linear(a)
    st, ps, d = lean(a, a.state(), prefix)
    st, m = model(a, st, 'MooreRiderLean2012Model', ps)
    return a, st, m, d


def benchmark_to_moore_model(a):
    """dtk.bicycle.benchmark_to_moore (a dependency) by its published relations."""
    def f(st, args, kw, node):
        d = a.I.freeze(st, args[0])
        e = {d.items[i].lit: d.items[i + 1] for i in range(0, len(d.items), 2)}
        used = 'rF rR lam c w xB zB xH zH mB mR mH mF IRxx IRyy IFxx IFyy g IBxx IByy IBzz IBxz IHxx IHyy IHzz IHxz'
        for k in used.split():
            if k not in e:
                a.I.raise_(st, 'KeyError', string(k), node)
        p = {k: a.I.lib.tonum(e[k]).rf for k in used.split()}
        return a.I.new_dict(st, {string(k): num(x) for k, x in moore2012_of(p).items()})
    a.I.lib.ext['dtk.bicycle.benchmark_to_moore'] = f


def moore2012_of(p):
    s, c = ring.sin(p['lam']), ring.cos(p['lam'])
    t = s / c
    o = {'rf': p['rF'], 'rr': p['rR'], 'mc': p['mB'], 'md': p['mR'], 'me': p['mH'], 'mf': p['mF'], 'g': p['g']}
    o['d1'] = c * (p['c'] + p['w'] - p['rR'] * t)
    o['d3'] = -c * (p['c'] - p['rF'] * t)
    o['d2'] = (p['rR'] + o['d1'] * s - p['rF'] + o['d3'] * s) / c
    o['l1'] = p['xB'] * c - p['zB'] * s - p['rR'] * s
    o['l2'] = p['xB'] * s + p['zB'] * c + p['rR'] * c
    o['l4'] = (p['zH'] + p['rF']) * c + (p['xH'] - p['w']) * s
    o['l3'] = (p['xH'] - p['w'] - o['l4'] * s) / c
    for k, b in (('d', 'R'), ('f', 'F')):
        o['i%s11' % k] = o['i%s33' % k] = p['I%sxx' % b]
        o['i%s22' % k] = p['I%syy' % b]
    zero = ring.const(0)
    for k, b in (('c', 'B'), ('e', 'H')):
        xx, yy, zz, xz = (p['I%s%s' % (b, ax)] for ax in ('xx', 'yy', 'zz', 'xz'))
        # R(lam) I R(lam)^T with R = y_rot(lam) = [[c, 0, -s], [0, 1, 0], [s, 0, c]]
        o['i%s11' % k] = c * c * xx - 2 * s * c * xz + s * s * zz
        o['i%s33' % k] = s * s * xx + 2 * s * c * xz + c * c * zz
        o['i%s31' % k] = s * c * (xx - zz) + (c * c - s * s) * xz
        o['i%s22' % k] = yy
        o['i%s12' % k] = o['i%s23' % k] = zero
    return o


M12 = ('d1 d2 d3 g ic11 ic22 ic31 ic33 id11 id22 ie11 ie22 ie31 ie33 if11 if22 l1 l2 l3 l4 '
       'mc md me mf rf rr v').split()
# documented parameterizations: constructor arguments after the dictionary, required keys
SETS = {'Meijaard2007': (1, 'M07'), 'Meijaard2007WithFeedback': (1, 'M07FB'), 'Moore2019': (0, 'M19'),
        'Moore2012': (1, 'M12'), 'MooreRiderLean2012': (0, 'LEAN')}
M19 = ('alphaD alphaH alphaP c g kDaa kDbb kDyy kFaa kFyy kHaa kHbb kHyy kPaa kPbb kPyy kRaa kRyy '
       'lP lam mD mF mH mP mR rF rR v w wP xD xH xP zD zH zP').split()


def set_keys(kind):
    return globals()[SETS[kind][1]]


def make_set(a, st, kind, d=None, prefix='', rider=TRUE):
    d = an.sdict(a, st, set_keys(kind), prefix) if d is None else d
    return pset(a, st, kind + 'ParameterSet', d, *([rider] if SETS[kind][0] else [])), d


def eig_part(a, x):
    """('eigval', kind, matrix, i) or ('eigvec', kind, matrix, row, column), or None."""
    n = a.I.lib.tonum(x)
    t = a.I.lib.opq(n) if n is not None else None
    if t is None or t.head not in ('eigval', 'eigvec'):
        return None
    return (t.head, t.args[0].lit, t.args[1]) + tuple(int(k.rf.const()) for k in t.args[2:])


def paired(ctx, a, rule, tag, ev, vec, want, w, left=False):
    """The frozen 1d/2d arrays are one decomposition of the frozen matrix want."""
    n = len(ev)
    es = [eig_part(a, x) for x in ev]
    vs = [eig_part(a, x) for x in vec]
    if any(e is None or e[0] != 'eigval' for e in es) or any(x is None or x[0] != 'eigvec' for x in vs):
        odd = [V.show(x)[:60] for x, e in zip(list(ev) + list(vec), es + vs) if e is None]
        def wrong(x):
            t = a.I.lib.opq(x) if isinstance(x, Num) else x
            return isinstance(x, Num) and x.rf.is_const() or isinstance(t, V.Term) and t.head == 'attr' and \
                isinstance(t.args[0], V.Term) and t.args[0].head in ('eigval', 'eigvec') and \
                t.args[1] in (string('real'), string('imag'))
        plain = any(wrong(x) for x, e in zip(list(ev) + list(vec), es + vs) if e is None)
        ctx.ob(rule, tag, False if plain else an.UNK, 'not an entry of a decomposition: %s' % odd[:2], w)
        return False
    if es[0][2].kind == 'array' and not all(e[2] is es[0][2] or e[2] == es[0][2] for e in es + vs):
        ctx.ob(rule, tag, False, 'entries of decompositions of different matrices', w)
        return False
    T = [want.items[n * (k % n) + k // n] for k in range(n * n)] if left else list(want.items)
    ok = ctx.equal(rule + ': matrix', tag, es[0][2], V.frozen('array', (n, n), T), w)
    idx = [e[3] for e in es]
    ctx.ob(rule + ': every eigenvalue once', tag, sorted(idx) == list(range(n)), 'order %s' % idx, w)
    bad = [(r, c, vs[n * r + c][3:]) for r in range(n) for c in range(n) if vs[n * r + c][3:] != (r, idx[c])]
    ctx.ob(rule + ': column belongs to eigenvalue', tag, not bad,
           'entry (%d, %d) is component %d of vector %d' % (bad[0][0], bad[0][1], bad[0][2][0], bad[0][2][1]) if bad
           else '%d components' % (n * n), w)
    return ok


def ordered(ctx, mod, qual, args, kw, skip=0):
    """Arguments of a stubbed call in the order of the function's own signature; missing
    ones are None."""
    fn = ctx.project.module(mod).functions[qual]
    names = [x.arg for x in fn.args.posonlyargs + fn.args.args][skip:] + [x.arg for x in fn.args.kwonlyargs]
    out = list(args) + [None] * (len(names) - len(args))
    for i, n in enumerate(names):
        if n in kw and i < len(out):
            out[i] = kw[n]
    return out


class Only:
    """A context that keeps only the obligations a test on (rule, construct) accepts."""

    def __init__(self, ctx, keep):
        self._ctx, self._keep = ctx, keep

    def __getattr__(self, n):
        return getattr(self._ctx, n)

    def ob(self, rule, construct, *a, **k):
        return self._ctx.ob(rule, construct, *a, **k) if self._keep(rule, construct) else True

    def equal(self, rule, construct, *a, **k):
        return self._ctx.equal(rule, construct, *a, **k) if self._keep(rule, construct) else True
