"""Exact evaluation of the class-level descriptor tables as the classes see them
(through inheritance and through the code that builds them): lengths against the
shapes of the matrices the models return, names against symbols by reading each
LaTeX string back into the name, derivative states against the kinematic rows of the
state matrix, and the parameter symbols and body tables of every parameterization."""
import re
import an
import values as V
from common import *
TECHNIQUE = 'constant evaluation of the class tables combined with value-graph shapes of the model matrices'
ASSUMPTIONS = ['a LaTeX symbol names an ASCII name when, read without markup, it spells it (upper/lower case of body letters aside)']

GREEK = {'phi': 'phi', 'delta': 'del', 'lambda': 'lam', 'alpha': 'alpha', 'theta': 'theta', 'psi': 'psi', 'beta': 'beta'}


def spell(latex, greek=GREEK, dot='d'):
    """The name a LaTeX symbol spells out."""
    s = latex.replace('$', '')
    while True:
        m = re.search(r'\\dot\s*(\{([^{}]*)\}|\\[a-z]+|\w)', s)
        if not m:
            break
        s = s[:m.start()] + ' ' + (m.group(2) or m.group(1)) + ' ' + dot + ' ' + s[m.end():]
    s = re.sub(r'\\(mathrm|text|textrm|rm|mathit|operatorname)\b', ' ', s)
    s = re.sub(r'\\([A-Za-z]+)', lambda m: ' ' + greek.get(m.group(1), '?' + m.group(1)) + ' ', s)
    return re.sub(r'[{}_\s]', '', s).lower()


def bare(name):
    return name.replace('_', '').lower()


def cls_attr(a, st, mod, cls, nm):
    return a.I.freeze(st, a.I.lib.getattr(st, a.get(mod, cls), nm, None))


def texts(f):
    if not isinstance(f, V.Frozen) and not isinstance(f, V.Tup):
        return None
    out = [getattr(x, 'lit', None) for x in f.items]
    return None if any(x is None for x in out) else out


def table(f):
    if not isinstance(f, V.Frozen) or f.kind != 'dict':
        return None
    ks = [getattr(x, 'lit', None) for x in f.items]
    return None if any(k is None for k in ks) else list(zip(ks[::2], ks[1::2]))


MODELS = [('Meijaard2007Model', 'M07'), ('Meijaard2007WithFeedbackModel', 'FB'), ('MooreRiderLean2012Model', 'LEAN')]


def built(ctx, cls):
    a = ctx.analysis()
    st = a.state()
    if cls == 'MooreRiderLean2012Model':
        stub_eval_linear(a)
        st, ps, d = lean(a, st)
    elif cls == 'Meijaard2007Model':
        st, ps, d = meijaard(a, st)
    else:
        st, ps, d = feedback(a, st)
    st, m = model(a, st, cls, ps)
    return a, st, m


def models(ctx):
    for cls, _ in MODELS:
        w = ctx.where('models', cls)
        with ctx.group('one entry per state and input', cls, w):
            a, st, m = built(ctx, cls)
            r = a.method(m, 'form_state_space_matrices', [], {}, st)
            A, B = r.frozen().items
            n, k = A.meta[0], B.meta[1]
            T = {}
            for nm, want in (('state_vars', n), ('state_units', n), ('state_vars_latex', n),
                             ('input_vars', k), ('input_units', k), ('input_vars_latex', k)):
                T[nm] = texts(a.I.freeze(st, a.I.lib.getattr(st, m, nm, None)))
                ctx.ob('one entry per state and input', '%s.%s' % (cls, nm), an.UNK if T[nm] is None else len(T[nm]) == want,
                       '%s entries for %d' % (T[nm] and len(T[nm]), want), w)
                if nm.endswith('vars') and T[nm]:
                    ctx.ob('distinct names', '%s.%s' % (cls, nm), len(set(T[nm])) == len(T[nm]), str(T[nm]), w)
            if any(v is None for v in T.values()):
                continue
            full = dict(GREEK, delta='delta')
            for kind in ('state', 'input'):
                for i, (x, y) in enumerate(zip(T[kind + '_vars'], T[kind + '_vars_latex'])):
                    ctx.ob('symbol names the variable', '%s.%s_vars_latex[%d]' % (cls, kind, i), spell(y, full, 'dot') == bare(x),
                           '%s for %s' % (y, x), w)
            for i, (x, u) in enumerate(zip(T['input_vars'], T['input_units'])):
                ctx.ob('units', '%s.input_units[%d]' % (cls, i), u.replace(' ', '').replace('*', '-') in ('N-m', 'Nm'), '%s for %s' % (u, x), w)
            rate = rates(cls, T['state_vars'])
            for i, x in enumerate(T['state_vars']):
                u = T['state_units'][i]
                want = 'm' if cls.startswith('Moore') and x in ('q1', 'q2') else 'rad/s' if x in rate.values() else 'rad'
                ctx.ob('units', '%s.state_units[%d]' % (cls, i), u == want, '%s for %s' % (u, x), w)
            if cls.startswith('Moore'):
                continue
            # each angle's rate is the state that is named its derivative
            row = [A.items[i * n:(i + 1) * n] for i in range(n)]
            for x, xd in rate.items():
                i, j = T['state_vars'].index(x), T['state_vars'].index(xd)
                ctx.equal('kinematic row', '%s d(%s)/dt = %s' % (cls, x, xd), tup(row[i]),
                          tup([const(1 if c == j else 0) for c in range(n)]), w)


def rates(cls, names):
    if cls.startswith('Moore'):
        return {'q' + x[1:]: x for x in names if x.startswith('u')}
    return {x: x + 'dot' for x in names if x + 'dot' in names}


SETS_ = ['Meijaard2007ParameterSet', 'Meijaard2007WithFeedbackParameterSet', 'Moore2012ParameterSet',
         'Moore2019ParameterSet', 'MooreRiderLean2012ParameterSet']


def sets(ctx):
    for cls in SETS_:
        w = ctx.where('parameter_sets', cls)
        with ctx.group('symbol names the parameter', cls, w):
            a = ctx.analysis()
            st = a.state()
            seen = {}
            names = []
            for nm in ('par_strings', 'non_min_par_strings'):
                if nm.startswith('non') and not cls.startswith('Moore2019'):
                    continue
                t = table(cls_attr(a, st, 'parameter_sets', cls, nm))
                if t is None:
                    ctx.ob('symbol names the parameter', '%s.%s' % (cls, nm), an.UNK, 'not a constant table', w)
                    continue
                for k, lat in t:
                    ctx.ob('symbol names the parameter', '%s.%s[%s]' % (cls, nm, k), spell(lat) == bare(k), '%s for %s' % (lat, k), w)
                    if k in seen:
                        continue
                    names.append(k)
                    ctx.ob('distinct symbols', '%s.%s[%s]' % (cls, nm, k), lat not in seen.values(),
                           '%s is also the symbol of %s' % (lat, [x for x in seen if seen[x] == lat]), w)
                    seen[k] = lat
            b = texts(cls_attr(a, st, 'parameter_sets', cls, 'body_labels'))
            if b is None:
                ctx.ob('bodies', cls, an.UNK, 'not a constant list', w)
                continue
            used = sorted({k[1:].upper() for k in names if re.fullmatch('m[A-Za-z]', k)})
            ctx.ob('bodies', cls + '.body_labels', sorted(b) == used and len(set(b)) == len(b),
                   'described %s, with a mass %s' % (b, used), w)
            for k in names:
                m = re.fullmatch(r'[Iik]([A-Za-z])(xx|yy|zz|xz|aa|bb|11|22|33|31)|alpha([A-Z])', k)
                if m:
                    x = (m.group(1) or m.group(3)).upper()
                    ctx.ob('bodies', '%s %s' % (cls, k), x in b, 'body %s' % x, w)


def check(ctx):
    models(ctx)
    sets(ctx)
