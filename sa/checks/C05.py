"""Effect analysis over the scenarios of all other checks: before and after every analysed
call of a package function the caller's dictionaries, lists and arrays, the object the
method was called on, every module-level or class-level container and every default
argument are compared symbolically. Then, for pairs of queries on one model, parameter
set or bicycle: the second query's symbolic answer after the first must be the answer it
gives on a fresh object."""
import an
import ring
import sweep
import values as V
from common import *
import draw
TECHNIQUE = 'effect (mutation) analysis by symbolic comparison of the reachable heap before and after each analysed call'
ASSUMPTIONS = ['third-party functions do not write to their arguments except through the out and in-place operations '
               'the analysis models', 'Dash hands each callback its own copy of the table data']

# documented to work in place: the parameter named, or the object itself (None)
IN_PLACE = {('geometry', 'calculate_benchmark_geometry', 'par'), ('com', 'cartesian', 'out')}
CHANGES_SELF = {('main', 'Bicycle.__init__'), ('main', 'Bicycle.add_rider'), ('main', 'Bicycle.calculate_from_measured'),
                ('tables', 'Table.generate_variable_list'), ('tables', 'Table.generate_table_data')}


def parameter_names(f):
    off = 0
    while getattr(f, 'kind', None) in ('bound', 'partial', 'classmethod', 'staticmethod'):
        off = 1 if f.kind in ('bound', 'classmethod') else off
        f = f.data['func']
    n = f.data.get('node')
    if n is None or not hasattr(n, 'args'):
        return []
    return [x.arg for x in n.args.args][off:]


def attrs_of(fz):
    return {fz.items[i].lit: fz.items[i + 1] for i in range(0, len(fz.items), 2)}


class Changes(sweep.Observer):
    """Per construct: worst verdict, number of calls, first difference."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.seen = {}
        self.roots = {}

    def note(self, rule, construct, verdict, detail, where):
        k = (rule, construct)
        v, n, d, w = self.seen.get(k, (an.EQ, 0, '', where))
        u = an.worst(v, verdict)
        if u != v:
            d = detail
        self.seen[k] = (u, n + 1, d, w)

    def shared(self, a, st):
        """Containers reachable from modules, classes and defaults, once per analysis."""
        got = self.roots.get(id(a))
        if got is not None and got[0] is a:
            return got[1]
        out = []

        def add(label, v):
            if isinstance(v, (V.Ref, V.Arr)):
                out.append((label, v))

        def func(label, f):
            while getattr(f, 'kind', None) in ('bound', 'classmethod', 'staticmethod', 'property'):
                f = f.data['func']
            n = f.data.get('node')
            if getattr(f, 'kind', None) == 'func' and n is not None and hasattr(n, 'args'):
                ps = [x.arg for x in n.args.args]
                for p, d in zip(ps[len(ps) - len(f.data['defaults']):], f.data['defaults']):
                    add('default %s of %s' % (p, label), d)
                for p, d in zip(n.args.kwonlyargs, f.data['kwd']):
                    if d is not None:
                        add('default %s of %s' % (p.arg, label), d)
        for mn, env in a.I.mods.items():
            for k, v in a.I.obj(st, env).vars.items():
                if k.startswith('__') or v.var != V.Value.var:
                    continue
                add('%s.%s' % (mn, k), v)
                if isinstance(v, V.Obj) and v.kind == 'func' and v.data.get('mod') == mn:
                    func('%s.%s' % (mn, k), v)
                elif isinstance(v, V.Obj) and v.kind == 'class' and v.data.get('mod') == mn:
                    for q, x in a.I.obj(st, v.data['env']).vars.items():
                        add('%s.%s.%s' % (mn, k, q), x)
                        if isinstance(x, V.Obj):
                            func('%s.%s.%s' % (mn, k, q), x)
        self.roots[id(a)] = (a, out)
        return out

    def before(self, a, f, args, kw, st):
        nm = self.name(a, f)
        if nm is None or nm[0] == 'app':
            return None
        ps = parameter_names(f)
        ins = [(ps[i] if i < len(ps) else '*%d' % i, x) for i, x in enumerate(args)] + sorted(kw.items())
        held = []
        for k, x in ins:
            if isinstance(x, (V.Ref, V.Arr)):
                held.append(('arg', k, x, a.I.freeze(st, x)))
        g = f
        if getattr(g, 'kind', None) == 'bound' and isinstance(g.data['self'], V.Ref):
            held.append(('self', 'self', g.data['self'], a.I.freeze(st, g.data['self'])))
        for k, x in self.shared(a, st):
            held.append(('shared', k, x, a.I.freeze(st, x)))
        return nm, held

    def compare(self, x, y, pc):
        if x is y:
            return an.EQ, ''
        c = an.Comparator(True, True, False)
        v = c.compare(x, y, '', pc)
        return v, '; '.join(m.text() for m in c.out[:2])

    def after(self, a, f, args, kw, held, r):
        if held is None or not r.returns:
            return
        (mod, q), held = held
        w = self.ctx.where(mod, q)
        for kind, k, x, old in held:
            new = a.I.freeze(r.st, x)
            old = V.restrict(old, r.st.pc)
            if kind == 'self' and isinstance(old, V.Frozen) and isinstance(new, V.Frozen) and old.kind == new.kind == 'inst':
                if (mod, q) in CHANGES_SELF:
                    continue
                o, n = attrs_of(old), attrs_of(new)
                for at in o:
                    v, d = self.compare(n[at], o[at], r.st.pc) if at in n else (an.DIFF, 'attribute is gone')
                    self.note('object unchanged', '%s.%s self.%s' % (mod, q, at), v, d, w)
                if not o:
                    self.note('object unchanged', '%s.%s self' % (mod, q), an.EQ, '', w)
                continue
            v, d = self.compare(new, old, r.st.pc)
            if kind == 'arg':
                if (mod, q, k) in IN_PLACE:
                    continue
                self.note('inputs unchanged', '%s.%s %s' % (mod, q, k), v, d, w)
            elif kind == 'shared':
                self.note('shared data unchanged', k, v, 'after %s.%s: %s' % (mod, q, d), w)


def answer(fz):
    """What the user reads off a result: of an object its parameters."""
    if isinstance(fz, V.Frozen) and fz.kind == 'inst':
        at = attrs_of(fz)
        return tup([string(str(fz.meta))] + [at[k] for k in ('parameters', 'parameterization', 'includes_rider') if k in at])
    return fz


def pairs(ctx, what, a, st, obj, queries, w):
    """queries: (label, method, args(st), kw(st)); each after each other one."""
    def run(q, st):
        r = a.method(obj, q[1], q[2](st), q[3](st), st)
        return r
    fresh = {}
    for q in queries:
        with ctx.group('same answer again', '%s %s' % (what, q[0]), w):
            r = run(q, st.fork())
            if r.returns:
                fresh[q[0]] = (answer(r.frozen()), draw.shapes(a, r))
    for q1 in queries:
        with ctx.group('same answer again', '%s %s first' % (what, q1[0]), w):
            r1 = run(q1, st.fork())
            if not r1.returns:
                continue
            for q2 in queries:
                if q2[0] not in fresh:
                    continue
                tag = '%s: %s after %s' % (what, q2[0], q1[0])
                r2 = run(q2, r1.st.fork())
                if not r2.returns:
                    ctx.ob('same answer again', tag, False, 'completes only the first time', w)
                    continue
                want, drawn = fresh[q2[0]]
                got = answer(r2.frozen())
                c = an.Comparator(False, True, False)
                v = c.compare(got, want, '', r2.st.pc)
                d = '; '.join(m.text() for m in c.out[:2])
                if v == an.DIFF and 'call:' in d:
                    v = an.UNK          # results of external calls are numbered
                ss = draw.shapes(a, r2)
                if v == an.EQ and len(ss) != len(drawn):
                    v, d = an.DIFF, '%d shapes drawn, %d at first' % (len(ss), len(drawn))
                for x, y in zip(ss, drawn) if v == an.EQ else ():
                    u = draw.match(x.data, y.data)
                    if u == an.DIFF and any(h.startswith('call:') for k in (x, y) for z in k.data.values() if isinstance(z, V.Value)
                                            for h in an.opaque_heads(z)):
                        u = an.UNK      # results of external calls are numbered
                    if u != an.EQ:
                        v, d = an.worst(v, u), 'drawn %s, at first %s' % (x, y)
                ctx.ob('same answer again', tag, v, d, w)


def no(st):
    return []


def nokw(st):
    return {}


def histories(ctx):
    def over(**kw):
        return lambda st: dict(kw)
    one = over(v=V.var('v1'), mB=V.var('mass1'))
    two = over(v=V.var('v2'))
    for cls, mk, extra in (('Meijaard2007Model', meijaard, ()), ('Meijaard2007WithFeedbackModel', feedback, ('kphi',)),
                           ('MooreRiderLean2012Model', None, ())):
        w = ctx.where('models', cls)
        with ctx.group('same answer again', cls, w):
            if mk is None:
                a, st, m, _ = lean_model(ctx)
                one = over(v=V.var('v1'), mc=V.var('mass1'))
            else:
                a = ctx.analysis()
                st, ps, _ = mk(a, a.state())
                st, m = model(a, st, cls, ps)
                one = over(v=V.var('v1'), mB=V.var('mass1'))
            many = lambda st: {'v': symarray(a, st, 'vs', 2)}
            qs = [('state space', 'form_state_space_matrices', no, nokw), ('state space with overrides', 'form_state_space_matrices', no, one),
                  ('state space at two speeds', 'form_state_space_matrices', no, many),
                  ('state space at another speed', 'form_state_space_matrices', no, two),
                  ('eigenvalues', 'calc_eigen', no, nokw), ('eigenvalues with overrides', 'calc_eigen', no, one),
                  ('left eigenvectors', 'calc_eigen', no, lambda st: {'left': TRUE})]
            if mk is not None:
                qs += [('canonical', 'form_reduced_canonical_matrices', no, nokw),
                       ('canonical with overrides', 'form_reduced_canonical_matrices', no, one)]
            pairs(ctx, cls, a, st, m, qs, w)
    for kind in SETS:
        w = ctx.where('parameter_sets', kind + 'ParameterSet')
        with ctx.group('same answer again', kind, w):
            a = ctx.analysis()
            if kind.startswith('Meijaard2007'):
                benchmark_to_moore_model(a)
            r, _ = make_set(a, a.state(), kind)
            st, ps = r.st, r.value
            ax = V.term('axes', string('given'))
            on = lambda st: {'ax': ax}
            qs = [('conversion to itself', 'to_parameterization', lambda st: [string(kind)], nokw)]
            labs = [x.lit for x in a.I.freeze(st, a.I.lib.getattr(st, ps, 'body_labels', None)).items]
            has = lambda n: a.I.lookup(a.get('parameter_sets', kind + 'ParameterSet'), n) is not None
            if kind == 'Meijaard2007':
                qs.append(('conversion with feedback', 'to_parameterization', lambda st: strs('Meijaard2007WithFeedback'), nokw))
                qs.append(('conversion to Moore2012', 'to_parameterization', lambda st: strs('Moore2012'), nokw))
            if kind == 'Moore2019':
                qs.append(('conversion to Meijaard2007', 'to_parameterization', lambda st: strs('Meijaard2007'), nokw))
            if kind in ('Meijaard2007', 'Moore2019'):
                for b in labs[:2]:
                    qs.append(('mass centre of ' + b, 'form_mass_center_vector', lambda st, b=b: strs(b), nokw))
                    if has('form_inertia_tensor'):
                        qs.append(('inertia of ' + b, 'form_inertia_tensor', lambda st, b=b: strs(b), nokw))
                qs.append(('joint mass centre', 'mass_center_of', lambda st: strs(*labs[:2]), nokw))
                qs.append(('joint mass centre of others', 'mass_center_of', lambda st: strs(*labs[1:]), nokw))
                for p in ('plot_geometry', 'plot_mass_centers', 'plot_principal_radii_of_gyration', 'plot_all'):
                    qs.append((p, p, no, on))
            qs.append(('notebook table', '_repr_html_', no, nokw))
            pairs(ctx, kind, a, st, ps, qs, w)
    w = ctx.where('main', 'Bicycle')
    with ctx.group('same answer again', 'Bicycle', w):
        a = ctx.analysis()
        st = a.state()
        import C36
        b = bicycle(a, st, u=True, keys=C36.SPLIT)
        qs = [('canonical', 'canonical', no, nokw), ('nominal canonical', 'canonical', no, lambda st: {'nominal': TRUE}),
              ('state space', 'state_space', lambda st: [V.var('speed')], nokw),
              ('nominal state space', 'state_space', lambda st: [V.var('speed2')], lambda st: {'nominal': TRUE}),
              ('eigenvalues', 'eig', lambda st: [symarray(a, st, 'sp', 2)], nokw),
              ('eigenvalues at one speed', 'eig', lambda st: [V.var('speed')], nokw)]
        for hb, fk, wh, ax in ((1, 1, 1, 0), (1, 0, 0, 1), (0, 1, 1, 1), (0, 1, 0, 0)):
            kw = {'handlebar': V.boolean(hb), 'fork': V.boolean(fk), 'wheel': V.boolean(wh), 'aboutSteerAxis': V.boolean(ax)}
            qs.append(('steer inertia %d%d%d%d' % (hb, fk, wh, ax), 'steer_assembly_moment_of_inertia', no, lambda st, kw=kw: dict(kw)))
        pairs(ctx, 'Bicycle', a, st, b, qs, w)


def check(ctx):
    histories(ctx)
    ob = Changes(ctx)
    done = sweep.sweep(ctx, ob)
    ctx.notes.append('scenarios of %s' % ' '.join(done))
    for (rule, construct), (v, n, d, w) in sorted(ob.seen.items()):
        ctx.ob(rule, construct, v, d or '%d analysed calls' % n, w)
