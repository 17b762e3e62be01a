"""Two analyses. Path-sensitive: over the scenarios of all other checks and over extra
option combinations (every boolean option left symbolic, so both branches of each are
followed), no feasible path of a public function escapes with an unbound name, a missing
attribute or an operation on None. Flow analysis over every function of the package,
reached by a scenario or not: every name is defined somewhere, no local is loaded where
no path has assigned it, a local assigned on some paths only is loaded only in statements
the path-sensitive analysis went through, every attribute read from self is set by the
class or its bases, every name imported from the package exists, and every call of a
package function binds to its parameters."""
import ast
import an
import defuse
import plots
import sweep
import values as V
from common import *
TECHNIQUE = 'definite-assignment dataflow plus path-sensitive abstract interpretation with symbolic options'
ASSUMPTIONS = ['attributes of third-party objects exist as documented']
BAD = ('NameError', 'UnboundLocalError', 'AttributeError', 'TypeError')


class Escapes(sweep.Observer):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.seen = {}

    def after(self, a, f, args, kw, held, r):
        nm = self.name(a, f)
        if nm is None:
            return
        bad = [x for x in r.raised if x.exc[0] in BAD and V.feasible(x.st.pc)]
        n, first = self.seen.get(nm, (0, None))
        self.seen[nm] = (n + 1, first or (an.describe(bad[0]) if bad else None))


def report(ctx, ob):
    for (mod, q), (n, bad) in sorted(ob.seen.items()):
        ctx.ob('computed before use', '%s.%s' % (mod, q), bad is None, bad or '%d analysed calls' % n, ctx.where(mod, q))


def flag(n):
    return V.cond_atom(('option', n))


class Scratch(object):
    """A context for one scenario; what it visited is kept, its analysis is not."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.sub = an.Ctx('C43', 'quick', self.ctx.seed, self.ctx.project)
        return self.sub

    def __exit__(self, *exc):
        for a in self.sub.analyses:
            self.ctx.extra_funcs |= a.I.funcs_seen
            self.ctx.extra_sites |= a.I.callsites
            self.ctx.extra_lines |= a.I.visited
        self.sub = None


def options(ctx):
    """Plots and queries with every boolean option symbolic, with and without axes."""
    def run(tag, a, obj, m, args, kw, st, mod, q, allow=()):
        w = ctx.where(mod, q)
        r = a.method(obj, m, args, kw, st)
        bad = [x for x in r.raised if V.feasible(x.st.pc) and x.exc[0] in BAD + ('IndexError', 'KeyError') and x.exc[0] not in allow]
        ctx.ob('computed before use', tag, not bad, an.describe(bad[0]) if bad else 'every path', w)
    swept = {'swept': lambda a, st: {'v': symarray(a, st, 'vs', 3)},
             'swept mass': lambda a, st: {'mB': symarray(a, st, 'ms', 3), 'v': V.var('v1')},
             'stored': lambda a, st: {}, 'scalar': lambda a, st: {'v': V.var('v1')}}
    for cls in ('Meijaard2007Model', 'Meijaard2007WithFeedbackModel'):
        for nm, over in swept.items():
            one = nm in ('stored', 'scalar')
            for hz in ('bool', 'float'):
                def start(sub):
                    a, st, m = plots.eigen_model(sub, cls)
                    if one:
                        a.I.stubs[('models', '_Model.calc_eigen')] = lambda st, args, kw, node: tup([
                            plots.carr(a, st, 'ev', 4), plots.carr(a, st, 'evec', 4, 4)])
                    return a, st, m, dict(over(a, st), hide_zeros=flag('hide') if hz == 'bool' else V.var('tol'))
                tag = '%s %s, %s, hide_zeros %s' % (cls, '%s', nm, hz)
                with Scratch(ctx) as sub, ctx.group('computed before use', tag % 'plot_eigenvectors', ctx.where('models', '_Model.plot_eigenvectors')):
                    a, st, m, kw = start(sub)
                    run(tag % 'plot_eigenvectors', a, m, 'plot_eigenvectors', [], kw, st, 'models', '_Model.plot_eigenvectors')
                for srt, given in (() if one else ((True, False), (False, True))):
                    t = tag % 'plot_eigenvalue_parts' + (', sorted' if srt else ', own axes and colours')
                    with Scratch(ctx) as sub, ctx.group('computed before use', t, ctx.where('models', '_Model.plot_eigenvalue_parts')):
                        a, st, m, kw = start(sub)
                        kw.update(show_stable_regions=flag('stable'), sort_modes=V.boolean(srt))
                        if given:
                            kw['ax'] = V.term('axes', string('given'))
                            kw['colors'] = a.I.new_list(st, strs('r', 'g', 'b', 'k'))
                        run(t, a, m, 'plot_eigenvalue_parts', [], kw, st, 'models', '_Model.plot_eigenvalue_parts')
    for kind in SETS:
        cl = kind + 'ParameterSet'
        for ax in (False, True):
            for meth, opts in (('plot_geometry', ('show_steer_axis',)), ('plot_person_diamond', ('show_cross',)), ('plot_mass_centers', ()),
                               ('plot_principal_radii_of_gyration', ()), ('plot_principal_inertia_ellipsoids', ()), ('plot_all', ())):
                t = '%s %s%s' % (cl, meth, ' axes' if ax else '')
                with Scratch(ctx) as sub, ctx.group('computed before use', t, ctx.where('parameter_sets', cl)):
                    a = sub.analysis()
                    r, _ = make_set(a, a.state(), kind)
                    st, ps = r.st, r.value
                    if a.I.lookup(a.get('parameter_sets', cl), meth) is None:
                        continue
                    kw = {o: flag(o) for o in opts}
                    if ax:
                        kw['ax'] = V.term('axes', string('given'))
                    run(t, a, ps, meth, [], kw, st, 'parameter_sets', cl)


def methods(project, mod, cls, seen=()):
    """(module, class) chain inside the package; True when a base is not followed."""
    m = project.module(mod)
    node = m.classes.get(cls)
    out, unknown = [(mod, cls)], False
    for b in node.bases if node is not None else ():
        nm = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
        if nm in ('object', 'ABC'):
            continue
        if nm in m.classes and nm not in seen:
            more, u = methods(project, mod, nm, tuple(seen) + (cls,))
            out += more
            unknown |= u
        else:
            unknown = True
    return out, unknown


def flows(ctx):
    P = ctx.project
    for mn in P.all_modules():
        if mn.startswith('_moore'):
            continue
        m = P.module(mn)
        bad = {}
        for n in defuse.undefined(m):
            bad.setdefault(n.id, n)
        for k, n in sorted(bad.items()):
            ctx.ob('names defined', '%s %s' % (mn, k), False, 'nothing defines %s' % k, 'bicycleparameters/%s.py:%d' % (mn, n.lineno))
        ctx.ob('names defined', mn, not bad, 'every name resolves', 'bicycleparameters/%s.py' % mn)
        for q, f in sorted(m.functions.items()):
            ctx.extra_funcs.add((mn, q))
            w = ctx.where(mn, q)
            with ctx.group('definite assignment', '%s.%s' % (mn, q), w):
                F = defuse.Flow(f)
                for n in F.never:
                    ctx.ob('definite assignment', '%s.%s %s' % (mn, q, n.id), False, '%s is loaded at line %d and no path has assigned it' % (n.id, n.lineno), w)
                for n in F.maybe:
                    st = statement(m, n)
                    ok = (mn, st) in ctx.extra_lines
                    ctx.ob('definite assignment', '%s.%s %s' % (mn, q, n.id), True if ok else an.UNK,
                           'assigned on some paths, line %d %s' % (n.lineno, 'followed path by path' if ok else 'not reached by a scenario'), w)
                if not F.never and not F.maybe:
                    ctx.ob('definite assignment', '%s.%s' % (mn, q), True, '%d locals' % len(F.local), w)
        attributes(ctx, P, mn, m)
        calls(ctx, P, mn, m)


def statement(m, node):
    """Line of the innermost statement holding a node."""
    best = None
    for s in ast.walk(m.tree):
        if isinstance(s, ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            if s.lineno <= node.lineno <= (s.end_lineno or s.lineno):
                if best is None or s.lineno >= best:
                    best = s.lineno
    return best


def attributes(ctx, P, mn, m):
    for cls, node in sorted(m.classes.items()):
        chain, unknown = methods(P, mn, cls)
        if unknown:
            continue
        have = set(dir(object)) | {'__dict__', '__name__'}
        dynamic = False
        # subclasses may set what a base reads
        family = set(chain)
        for c in m.classes:
            ch, _ = methods(P, mn, c)
            if (mn, cls) in ch:
                family |= set(ch)
        for mod, c in family:
            cn = P.module(mod).classes[c]
            for x in cn.body:
                for y in ast.walk(x):
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name):
                        have.add(y.attr)
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == 'setattr':
                        dynamic = True
                    if isinstance(y, ast.FunctionDef) and y.name in ('__getattr__', '__getattribute__'):
                        dynamic = True
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    have.add(x.name)
                elif isinstance(x, (ast.Assign, ast.AnnAssign)):
                    have |= {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if dynamic:
            continue
        for f in [x for x in node.body if isinstance(x, ast.FunctionDef)]:
            if not f.args.args or any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list):
                continue
            me = f.args.args[0].arg
            odd = [y for y in ast.walk(f) if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Load) and
                   isinstance(y.value, ast.Name) and y.value.id == me and y.attr not in have]
            ctx.ob('attributes set', '%s.%s.%s' % (mn, cls, f.name), not odd,
                   '%s is never set' % odd[0].attr if odd else 'every attribute of %s is set somewhere' % me, ctx.where(mn, '%s.%s' % (cls, f.name)))


def exports(P, mn):
    """Top-level names of a package module, None when not enumerable."""
    m = P.module(mn)
    out = set()
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                if x.name == '*':
                    return None
                out.add((x.asname or x.name).split('.')[0])
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out | set(m.functions) | set(m.classes)


def calls(ctx, P, mn, m):
    """Imports of the package exist; calls of its functions bind."""
    names, mods = {}, {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom) and (n.level or (n.module or '').startswith('bicycleparameters')):
            src = (n.module or '').replace('bicycleparameters', '').lstrip('.')
            for x in n.names:
                if src and P.has(src):
                    have = exports(P, src)
                    if have is not None:
                        ctx.ob('imports exist', '%s from %s import %s' % (mn, src, x.name), x.name in have or x.name == '*', '', 'bicycleparameters/%s.py:%d' % (mn, n.lineno))
                    if x.name in P.module(src).functions:
                        names[x.asname or x.name] = (src, x.name)
                elif not src and P.has(x.name):
                    mods[x.asname or x.name] = x.name
    for q, f in m.functions.items():
        if '.' not in q:
            names.setdefault(q, (mn, q))
    cls_of = {}
    for c, node in m.classes.items():
        for x in node.body:
            if isinstance(x, ast.FunctionDef):
                cls_of[id(x)] = c
    for q, f in sorted(m.functions.items()):
        local = defuse.bound_names(f)
        outer = m.functions.get(q.rsplit('.', 1)[0])
        if outer is not None:
            local |= defuse.bound_names(outer)
        cls = cls_of.get(id(f)) or (cls_of.get(id(outer)) if outer is not None else None)
        me = f.args.args[0].arg if id(f) in cls_of and f.args.args else 'self' if cls else None
        n = 0
        odd = None
        for c in [x for x in ast.walk(f) if isinstance(x, ast.Call)]:
            g, target, skip = c.func, None, 0
            if isinstance(g, ast.Name) and g.id in names and g.id not in local:
                target = names[g.id]
            elif isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name):
                if g.value.id in mods and g.value.id not in local:
                    have = exports(P, mods[g.value.id])
                    if have is not None and g.attr not in have:
                        odd = odd or '%s.%s does not exist (line %d)' % (g.value.id, g.attr, c.lineno)
                    if g.attr in P.module(mods[g.value.id]).functions:
                        target = (mods[g.value.id], g.attr)
                elif g.value.id == me and cls:
                    fam = [k for k, node in m.classes.items() if (mn, cls) in methods(P, mn, k)[0]]
                    defs = {id(m.functions[k + '.' + g.attr]): m.functions[k + '.' + g.attr] for k2 in fam
                            for _, k in methods(P, mn, k2)[0] if k + '.' + g.attr in m.functions}
                    # every definition a subclass could provide
                    why = [defuse.shape_error(c, d, 0 if any(getattr(x, 'id', '') == 'staticmethod' for x in d.decorator_list) else 1) for d in defs.values()]
                    if defs:
                        n += 1
                        if all(why):
                            odd = odd or '%s at line %d: %s' % (g.attr, c.lineno, why[0])
                    continue
            if target is None:
                continue
            d = P.module(target[0]).functions[target[1]]
            if d.decorator_list:
                continue
            n += 1
            e = defuse.shape_error(c, d, skip)
            if e:
                odd = odd or '%s at line %d: %s' % (target[1], c.lineno, e)
        if n or odd:
            ctx.ob('calls bind', '%s.%s' % (mn, q), odd is None, odd or '%d calls of package functions' % n, ctx.where(mn, q))


def check(ctx):
    ob = Escapes(ctx)
    sweep.sweep(ctx, ob, sweep.QUICK + ['C26'])
    report(ctx, ob)
    options(ctx)
    flows(ctx)
