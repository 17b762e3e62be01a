"""Path-sensitive dataflow over the constructors and every public query of every
parameter set class and every model: with any one required parameter missing there
is no normal exit, only a ValueError; with extra entries construction succeeds and
stores each given value unchanged. Then every query, plot and model computation is
followed on a set holding exactly the required parameters (read from the class
table) and no path may end in a missing-key failure."""
import an
import values as V
from common import *
from interp import HDict
TECHNIQUE = 'path-sensitive abstract interpretation of constructors and queries (key-presence/typestate of the parameter dictionary)'
ASSUMPTIONS = ['matplotlib calls are opaque', 'the generated leaning-rider equations are an opaque function here']

CONV = {'Meijaard2007': ('Moore2012', 'Meijaard2007WithFeedback'),
        'Meijaard2007WithFeedback': ('Moore2012',), 'Moore2019': ('Meijaard2007', 'Meijaard2007WithFeedback')}


def required(a, st, kind):
    """The names the class checks for, from its own table."""
    cls = a.get('parameter_sets', kind + 'ParameterSet')
    f = a.I.freeze(st, a.I.lib.getattr(st, cls, 'par_strings', None))
    return [f.items[i].lit for i in range(0, len(f.items), 2)]


def check(ctx):
    for kind in SETS:
        w = ctx.where('parameter_sets', kind + 'ParameterSet')
        wc = ctx.where('parameter_sets', 'ParameterSet._check_parameters')
        a = ctx.analysis()
        benchmark_to_moore_model(a)
        req = []
        with ctx.group('required names', kind, w):
            req = required(a, a.state(), kind)
            doc = set_keys(kind)
            lost = sorted(set(doc) - set(req))
            ctx.ob('required names', kind, not lost, 'documented parameters that are not required: %s' % lost, w)
        for k in req:
            with ctx.group('missing parameter refused', '%s without %s' % (kind, k), wc):
                st = a.state()
                d = an.sdict(a, st, [x for x in req if x != k])
                r, _ = make_set(a, st, kind, d)
                bad = [x for x in r.raised if x.exc[0] != 'ValueError' and V.feasible(x.st.pc)]
                ctx.ob('missing parameter refused', '%s without %s' % (kind, k), not r.returns and not bad,
                       'returns normally' if r.returns else an.describe(bad[0]) if bad else 'ValueError only', wc)
        for k in req[:2] + req[-2:]:
            for names in (req, req[::-1]):
                t = '%s without %s, with others' % (kind, k) + (' reversed' if names is not req else '')
                with ctx.group('missing parameter refused', t, wc):
                    st = a.state()
                    d = an.sdict(a, st, ['extra1'] + [x for x in names if x != k] + ['zz', k + '2'])
                    r, _ = make_set(a, st, kind, d)
                    bad = [x for x in r.raised if x.exc[0] != 'ValueError' and V.feasible(x.st.pc)]
                    ctx.ob('missing parameter refused', t, not r.returns and not bad,
                           'returns normally' if r.returns else an.describe(bad[0]) if bad else 'ValueError only', wc)
            for nm, x in (('text', lambda a, st: string('1.0')), ('nothing', lambda a, st: V.NONE),
                          ('a list', lambda a, st: a.I.new_list(st, [const(1)])), ('no text', lambda a, st: string(''))):
                t = '%s with %s for %s' % (kind, nm, k)
                with ctx.group('not a number refused', t, wc):
                    st = a.state()
                    d = an.sdict(a, st, req)
                    a.I.lib.setitem(st, d, string(k), x(a, st), None)
                    r, _ = make_set(a, st, kind, d)
                    bad = [x for x in r.raised if x.exc[0] not in ('ValueError', 'TypeError') and V.feasible(x.st.pc)]
                    ctx.ob('not a number refused', t, not r.returns and not bad,
                           'returns normally' if r.returns else an.describe(bad[0]) if bad else 'refused', wc)
        with ctx.group('empty dictionary refused', kind, wc):
            st = a.state()
            r, _ = make_set(a, st, kind, a.I.new_dict(st, {}))
            ctx.ob('empty dictionary refused', kind, not r.returns, 'raises' if not r.returns else 'returns', wc)
        for tag, extra in (('', []), (' with extra entries', ['extra1', 'note', 'zz'])):
            with ctx.group('values kept', kind + tag, w):
                st = a.state()
                d = an.sdict(a, st, req + extra)
                before = a.I.freeze(st, d)
                r, _ = make_set(a, st, kind, d)
                if not ctx.no_raise('complete set accepted', kind + tag, r, w):
                    continue
                ctx.equal('values kept', kind + tag, r.freeze(a.I.lib.getattr(r.st, r.value, 'parameters', None)), before, w)
                ctx.equal('parameterization name', kind + tag, a.I.lib.getattr(r.st, r.value, 'parameterization', None),
                          string(kind), w)
                if not tag:
                    queries(ctx, a, r.st, r.value, kind)
    models(ctx)


def keyless(ctx, rule, tag, r, w):
    bad = [x for x in r.raised if x.exc[0] in ('KeyError', 'AttributeError', 'NameError', 'UnboundLocalError')
           and V.feasible(x.st.pc)]
    ctx.ob(rule, tag, not bad, an.describe(bad[0]) if bad else 'every name read is present', w)


def public(a, cls):
    """Public methods of the class and its bases, with their argument counts."""
    out = {}
    while cls is not None:
        node = cls.data.get('node')
        for n in getattr(node, 'body', []):
            if hasattr(n, 'args') and (not n.name.startswith('_') or n.name == '_repr_html_'):
                out.setdefault(n.name, n)
        bases = cls.data.get('bases') or ()
        cls = next((b for b in bases if isinstance(b, V.Obj)), None)
    return out


def queries(ctx, a, st0, o, kind):
    cls = a.get('parameter_sets', kind + 'ParameterSet')
    bodies = [x.lit for x in a.I.freeze(st0, a.I.lib.getattr(st0, o, 'body_labels', None)).items]
    for name, node in sorted(public(a, cls).items()):
        params = [x.arg for x in node.args.args][1:]
        need = params[:len(params) - len(node.args.defaults)]
        calls = []
        if node.args.vararg is not None and not need:
            calls = [('all bodies', strs(*bodies))] + [(b, strs(b)) for b in bodies]
        elif need == ['body']:
            calls = [(b, strs(b)) for b in bodies]
        elif name == 'to_parameterization':
            calls = [(t, strs(t)) for t in CONV.get(kind, ())]
        elif need in (['fname'], []) and name not in ('_from_yaml',):
            calls = [('', strs('/tmp/x') if need else [])]
        for tag, args in calls:
            t = '%s.%s(%s)' % (kind, name, tag)
            w = ctx.where('parameter_sets', kind + 'ParameterSet.' + name)
            with ctx.group('reads only required or derived parameters', t, w):
                r = a.method(o, name, args, {}, st0.fork())
                keyless(ctx, 'reads only required or derived parameters', t, r, w)


def models(ctx):
    for cls, kinds, qs in (
            ('Meijaard2007Model', ('Meijaard2007', 'Moore2019'), ('form_reduced_canonical_matrices', 'form_state_space_matrices', 'calc_eigen', '_calc_modal_controllability')),
            ('Meijaard2007WithFeedbackModel', ('Meijaard2007', 'Meijaard2007WithFeedback', 'Moore2019'),
             ('form_reduced_canonical_matrices', 'form_state_space_matrices', 'calc_eigen')),
            ('MooreRiderLean2012Model', ('MooreRiderLean2012',), ('form_state_space_matrices', 'calc_eigen'))):
        for kind in kinds:
            w = ctx.where('models', cls)
            a = ctx.analysis()
            stub_eval_linear(a)
            with ctx.group('model from', '%s of %s' % (cls, kind), w):
                st = a.state()
                d = an.sdict(a, st, required(a, st, kind))
                r, _ = make_set(a, st, kind, d)
                r = a.call(a.get('models', cls), [r.value], {}, r.st)
                if not ctx.no_raise('model from', '%s of %s' % (cls, kind), r, w):
                    continue
                for q in qs:
                    t = '%s.%s from %s' % (cls, q, kind)
                    with ctx.group('reads only required or derived parameters', t, w):
                        x = a.method(r.value, q, [], {}, r.st.fork())
                        keyless(ctx, 'reads only required or derived parameters', t, x, w)
