"""Interpretation of the web app callbacks with symbolic bicycle parameters: each table
cell is matched to one parameter in both directions, the tilt conversions must cancel, and
the returned figures are matched to the panels named by the callback decorators."""
import ast
import itertools
from fractions import Fraction
import an
import ring
import values as V
from common import *
TECHNIQUE = 'symbolic interpretation of the app callbacks, cell-by-cell dependence of the parameters'
ASSUMPTIONS = ['dash passes table rows as it received them',
               'the callback for tables and the callback for figures are identified by their Output ids']
CELLS = {  # table -> rows of (label fragment, {column: parameter})
    'wheel-table': [('Radius', {'fW': 'rF', 'rW': 'rR'}), ('Mass', {'fW': 'mF', 'rW': 'mR'}),
                    ('Ixx', {'fW': 'IFxx', 'rW': 'IRxx'}), ('Iyy', {'fW': 'IFyy', 'rW': 'IRyy'})],
    'frame-table': [('Center of Mass X', {'rB': 'xB', 'fA': 'xH'}), ('Center of Mass Z', {'rB': 'zB', 'fA': 'zH'}),
                    ('Total Mass', {'rB': 'mB', 'fA': 'mH'}), ('Ixx', {'rB': 'IBxx', 'fA': 'IHxx'}),
                    ('Iyy', {'rB': 'IByy', 'fA': 'IHyy'}), ('Izz', {'rB': 'IBzz', 'fA': 'IHzz'}),
                    ('Ixz', {'rB': 'IBxz', 'fA': 'IHxz'})],
    'general-table': [('Wheel Base', {'data': 'w'}), ('Trail', {'data': 'c'}), ('Tilt', {'data': 'lam'}), ('Gravity', {'data': 'g'})],
}
HEADS = {'fW': 'Front Wheel', 'rW': 'Rear Wheel', 'rB': 'Rear Body', 'fA': 'Front Assembly'}
PARS = [p for rows in CELLS.values() for _, c in rows for p in c.values()]


class App:
    """The app module, its decorated callbacks and a record of the figures asked for."""

    def __init__(self, ctx, u=True, numbers=None):
        self.ctx = ctx
        self.a = a = ctx.analysis()
        self.cb = []
        self.asked = []
        self.made = []
        self.triggered = None
        self.inputs = {}
        self.decl = {}

        def deco(st, t, args, kw, node):
            outs, ins, n = [], [], 0
            flat = list(args)
            for k in ('output', 'outputs', 'inputs', 'state'):
                if k in kw:
                    flat.append(kw[k])
            rows = []
            for x in flat:
                rows += self.refs(a.I.freeze(st, x))
            rec = {'out': [(i, p) for k, i, p in rows if k == 'Output'],
                   'in': [(i, p) for k, i, p in rows if k != 'Output'], 'line': node.lineno if node is not None else 0}

            def run(st2, ar, kw2, nd):
                rec['fn'] = ar[0]
                self.cb.append(rec)
                return ar[0]
            return a.I.lib.pyfunc('callback', run)
        a.I.lib.term_callback = deco

        def init(st, args, kw, node):
            self_, name, path, force = (ordered(ctx, 'main', 'Bicycle.__init__', args, kw) + [None] * 4)[:4]
            nm = a.I.freeze(st, name).lit
            d = an.sdict(a, st, PARS, nm + '_', u=u, extra={k: num(x, u) for k, x in (numbers or {}).items()})
            self.made.append((nm, a.I.freeze(st, path) if path is not None else None))
            h = a.I.mut(st, self_.addr)
            h.attrs['parameters'] = a.I.new_dict(st, {string('Benchmark'): d})
            h.attrs['bicycleName'] = name
            return NONE
        a.I.stubs[('main', 'Bicycle.__init__')] = init
        for kind, q in (('geometry', '_plot_bicycle_geometry_plotly'), ('eigenvalues', '_plot_eigenvalues_vs_speed_plotly')):
            a.I.stubs[('main', 'Bicycle.' + q)] = self.plotter(kind, 'Bicycle.' + q)
        old = a.I.lib.ext_attr

        def ext_attr(path):
            if path in ('dash.callback_context.inputs', 'dash.ctx.inputs') and self.decl:
                return self.decl['inputs']
            if path in ('dash.callback_context.triggered', 'dash.ctx.triggered') and self.decl:
                return self.decl['triggered']
            if path in ('dash.callback_context.triggered_id', 'dash.ctx.triggered_id') and self.decl:
                return string(self.triggered.split('.')[0])
            return old(path)
        a.I.lib.ext_attr = ext_attr
        self.table_fn = a.get('app', 'populate_wheel_data') if 'populate_wheel_data' in ctx.project.module('app').functions else None
        if self.table_fn is None:
            fns = [q for q in ctx.project.module('app').functions]
            a.get('app', fns[0])

    def refs(self, v):
        """Output(..)/Input(..) descriptions inside a frozen decorator argument."""
        if isinstance(v, V.Num):
            t = self.a.I.lib.opq(v)
            if t is not None:
                v = t
        if isinstance(v, V.Term):
            kind = [k for k in ('Output', 'Input', 'State') if ('dependencies.' + k) in V.show(v, 2) or ('dash.' + k) in V.show(v, 2)]
            s = [x for x in strings(v)]
            return [(kind[0], s[0], s[1])] if kind and len(s) >= 2 else []
        out = []
        for x in (v.items if isinstance(v, (V.Frozen, V.Tup)) else []):
            out += self.refs(x)
        return out

    def plotter(self, kind, qual):
        def f(st, args, kw, node):
            names = [x.arg for x in self.ctx.project.module('main').functions[qual].args.args]
            av = dict(zip(names, ordered(self.ctx, 'main', qual, args, kw)))
            me = av.pop('self')
            fz = {k: (None if x is None else self.a.I.freeze(st, x)) for k, x in av.items()}
            bike = self.a.I.freeze(st, self.a.I.lib.getitem(st, self.a.I.lib.getattr(st, me, 'parameters', None), string('Benchmark'), None))
            self.asked.append((kind, st.pc, fz, bike))
            return V.term('figure', string(kind))
        return f

    def by_out(self, *ids):
        for c in self.cb:
            if {i for i, _ in c['out']} >= set(ids):
                return c
        return None

    def call(self, rec, values, triggered, st=None):
        a = self.a
        st = st or a.state()
        self.triggered = triggered
        ins = {}
        for (i, p), v in zip(rec['in'], values):
            ins[string(i + '.' + p)] = v
        self.decl = {'inputs': a.I.new_dict(st, ins),
                     'triggered': a.I.new_list(st, [a.I.new_dict(st, {string('prop_id'): string(triggered)})])}
        self.asked = []
        return a.call(rec['fn'], list(values), {}, st)


def strings(v):
    out = []
    for x in getattr(v, 'args', ()) or ():
        if isinstance(x, V.Str):
            out.append(x.lit)
        elif isinstance(x, (V.Term, V.Frozen, V.Tup)):
            out += strings(x) if isinstance(x, V.Term) else [s for i in x.items for s in ([i.lit] if isinstance(i, V.Str) else strings(i))]
    return out


def literal(ctx, name):
    for n in ctx.project.module('app').tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            try:
                return ast.literal_eval(n.value)
            except ValueError:
                return None
    return None


def rows_of(v):
    """Frozen list of dicts -> python list of {key: value}."""
    out = []
    for d in v.items:
        out.append({d.items[i].lit: d.items[i + 1] for i in range(0, len(d.items), 2)})
    return out


def tables(ctx, app, bike, clicks):
    rec = app.by_out(*CELLS)
    if rec is None:
        return None, None
    a = app.a
    vals = {'bike-dropdown': string(bike), 'reset-button': num(const_rf(clicks))}
    st = a.state()
    r = app.call(rec, [vals[i] for i, _ in rec['in']], 'bike-dropdown.value', st)
    return rec, r


def const_rf(n):
    return ring.const(n)


def display(ctx):
    w = ctx.where('app', 'populate_wheel_data')
    for bike, clicks in (('Browser', 0), ('Rigid', 3)):
        with ctx.group('cell shows its parameter', bike, w):
            app = App(ctx)
            rec, r = tables(ctx, app, bike, clicks)
            if rec is None:
                ctx.ob('callbacks', 'tables', an.UNK, 'no callback outputs the three tables', w)
                return
            if not ctx.no_raise('completes', 'tables of ' + bike, r, w):
                continue
            out = list(r.freeze(r.value).items)
            ctx.ob('callbacks', 'tables of %s: outputs' % bike, len(out) == len(rec['out']), '%d values for %d outputs' % (len(out), len(rec['out'])), w)
            for (tid, prop), v in zip(rec['out'], out):
                if tid not in CELLS:
                    continue
                got = rows_of(v)
                want = CELLS[tid]
                ctx.ob('callbacks', '%s %s property' % (bike, tid), prop == 'data', prop, w)
                ctx.ob('rows', '%s %s' % (bike, tid), len(got) == len(want), '%d rows, %d expected' % (len(got), len(want)), w)
                for (frag, cols), row in zip(want, got):
                    lab = row.get('label')
                    ctx.ob('row label', '%s %s %s' % (bike, tid, frag), isinstance(lab, V.Str) and lab.lit is not None and frag in lab.lit,
                           V.show(lab, 2) if lab is not None else 'no label', w)
                    if tid == 'general-table' and frag == 'Tilt':
                        ctx.ob('row label', '%s tilt unit' % bike, lab is not None and 'deg' in lab.lit, '', w)
                    for col, par in cols.items():
                        val = V.var('%s_%s' % (bike, par), False)
                        if par == 'lam':
                            val = num(val.rf * ring.const(180) / ring.PI)
                        if col not in row:
                            ctx.ob('cell shows its parameter', '%s %s/%s' % (bike, tid, col), False, 'row %s has no column %s' % (frag, col), w)
                            continue
                        ctx.equal('cell shows its parameter', '%s %s %s/%s = %s' % (bike, tid, frag, col, par), row[col], val, w)
                        ctx.ob('cell is a plain number', '%s %s/%s' % (bike, frag, col), not app.a.I.lib.tonum(row[col]).u, 'uncertainty removed', w)
            ctx.ob('bicycle', bike, {n for n, _ in app.made} == {bike}, 'parameters loaded from %s' % sorted({n for n, _ in app.made}), w)
            ctx.ob('app data', bike, all(p is not None and 'app-data' in V.show(p, 6) for _, p in app.made), 'loaded from the app data directory', w)


def digits(ctx):
    """Concrete values with many digits: nothing is rounded or cut on the way."""
    lam = {p: ring.const(Fraction(10 ** 9 * (7 + i) + 123456789, 10 ** 10)) for i, p in enumerate(PARS)}
    w = ctx.where('app', 'populate_wheel_data')
    with ctx.group('no digit lost', 'tables', w):
        lam['lam'] = ring.const(Fraction(18123456789, 10 ** 9)) * ring.PI / ring.const(180)
        app = App(ctx, True, dict(lam))
        rec, r = tables(ctx, app, 'Pista', 0)
        if rec is not None and ctx.no_raise('completes', 'tables with numbers', r, w):
            for (tid, prop), v in zip(rec['out'], r.freeze(r.value).items):
                for (frag, cols), row in zip(CELLS.get(tid, []), rows_of(v)):
                    for col, par in cols.items():
                        x = lam[par] * ring.const(180) / ring.PI if par == 'lam' else lam[par]
                        if col in row:
                            ctx.equal('no digit lost', 'cell %s %s/%s' % (tid, frag, col), row[col], num(x), w)
    w = ctx.where('app', 'plot_update')
    with ctx.group('no digit lost', 'figures', w):
        lam['lam'] = ring.const(Fraction(18123456789, 10 ** 9))
        app = App(ctx)
        rec = app.by_out('geometry-plot', 'eigen-plot')
        if rec is None:
            return
        st = app.a.state()
        cells = {(t, k, c): num(lam[p]) for t, rows in CELLS.items() for k, (_, cols) in enumerate(rows) for c, p in cols.items()}
        pg = page(app, st, cells, [], (0, 10))
        r = app.call(rec, [pg[i] for i, _ in rec['in']], 'general-table.data', st)
        if ctx.no_raise('completes', 'figures with numbers', r, w):
            for kind, pc, kw, bike in app.asked:
                d = {bike.items[i].lit: bike.items[i + 1] for i in range(0, len(bike.items), 2)}
                for p in PARS:
                    x = lam[p] / ring.const(180) * ring.PI if p == 'lam' else lam[p]
                    if p in d:
                        ctx.equal('no digit lost', '%s %s' % (kind, p), d[p], num(x), w)


def page(app, st, cells, checklist, slider, bike='Browser'):
    """Symbolic page inputs; cells maps (table, row, col) to a value."""
    a = app.a
    out = {}
    for tid, rows in CELLS.items():
        lst = []
        for k, (frag, cols) in enumerate(rows):
            d = {string('label'): string(frag)}
            for col in cols:
                d[string(col)] = cells[(tid, k, col)]
            lst.append(a.I.new_dict(st, d))
        out[tid] = a.I.new_list(st, lst)
    out['bike-dropdown'] = string(bike)
    out['geometry-checklist'] = a.I.new_list(st, [string(x) for x in checklist])
    out['range-slider'] = a.I.new_list(st, [num(ring.const(x)) for x in slider])
    return out


TRIGGERS = ['wheel-table.data', 'frame-table.data', 'general-table.data', 'geometry-checklist.value', 'range-slider.value', 'bike-dropdown.value']


def figures(ctx):
    w = ctx.where('app', 'plot_update')
    for trig in TRIGGERS:
        with ctx.group('figures use the cells', trig, w):
            app = App(ctx)
            rec = app.by_out('geometry-plot', 'eigen-plot')
            if rec is None:
                ctx.ob('callbacks', 'figures', an.UNK, 'no callback outputs both figures', w)
                return
            st = app.a.state()
            own = trig.startswith('bike')
            name = 'Pista' if trig[0] in 'bg' else 'Browser'
            # after a change of bicycle the table callback has filled the cells from that
            # bicycle; otherwise the user may have edited any of them
            cells, pars = {}, {}
            for tid, rows in CELLS.items():
                for k, (frag, cols) in enumerate(rows):
                    for col, par in cols.items():
                        v = V.var('%s_%s' % (name if own else 'cell', par), False)
                        pars[par] = v
                        cells[(tid, k, col)] = num(v.rf * ring.const(180) / ring.PI) if par == 'lam' else v
            pg = page(app, st, cells, ['centers'], (0, 10), name)
            r = app.call(rec, [pg[i] for i, _ in rec['in']], trig, st)
            if not ctx.no_raise('completes', trig, r, w):
                continue
            seen = {}
            for kind, pc, kw, bike in app.asked:
                seen[kind] = seen.get(kind, 0) + 1
                d = {bike.items[i].lit: bike.items[i + 1] for i in range(0, len(bike.items), 2)}
                ctx.ob('figures use the cells', '%s %s keys' % (trig, kind), set(d) == set(PARS), 'extra or missing %s' % sorted(set(d) ^ set(PARS)), w)
                for p in PARS:
                    if p in d:
                        ctx.equal('figures use the cells', '%s %s %s' % (trig, kind, p), d[p], pars[p], w)
            ctx.ob('figures', trig, seen.get('geometry', 0) >= 1 and seen.get('eigenvalues', 0) >= 1, str(seen), w)
            out = list(r.freeze(r.value).items)
            for (oid, prop), v in zip(rec['out'], out):
                kind = {'geometry-plot': 'geometry', 'eigen-plot': 'eigenvalues'}.get(oid)
                if kind:
                    ctx.equal('panel', '%s %s' % (trig, oid), v, V.term('figure', string(kind)), w)
                    ctx.ob('panel', '%s %s property' % (trig, oid), prop == 'figure', prop, w)
            ctx.ob('bicycle', trig, {n for n, _ in app.made} == {name}, str(app.made)[:80], w)


def options(ctx):
    w = ctx.where('app', 'plot_update')
    # the values come in the order in which the boxes were ticked
    for chk in [list(x) for n in range(4) for x in itertools.permutations(('centers', 'ellipse', 'stability'), n)]:
        bits = sum(1 << i for i, x in enumerate(('centers', 'ellipse', 'stability')) if x in chk)
        for trig in (('geometry-checklist.value', 'bike-dropdown.value') if ctx.thorough or bits in (0, 5) else ('geometry-checklist.value',)):
            tag = '%s (%s)' % ('+'.join(chk) or 'none', trig)
            with ctx.group('options', tag, w):
                app = App(ctx)
                rec = app.by_out('geometry-plot', 'eigen-plot')
                if rec is None:
                    return
                st = app.a.state()
                cells = {(t, k, c): V.var('cell_' + p, False) for t, rows in CELLS.items() for k, (_, cols) in enumerate(rows) for c, p in cols.items()}
                pg = page(app, st, cells, chk, (-5, 15))
                r = app.call(rec, [pg[i] for i, _ in rec['in']], trig, st)
                if not ctx.no_raise('completes', tag, r, w):
                    continue
                for kind, pc, kw, bike in app.asked:
                    if kind == 'geometry':
                        flag(ctx, tag, 'centerOfMass', kw, 'centers' in chk, 'Bicycle._plot_bicycle_geometry_plotly', w)
                        flag(ctx, tag, 'inertiaEllipse', kw, 'ellipse' in chk, 'Bicycle._plot_bicycle_geometry_plotly', w)
                    else:
                        flag(ctx, tag, 'stability_region', kw, 'stability' in chk, 'Bicycle._plot_eigenvalues_vs_speed_plotly', w)
                    if 'show' in kw:
                        flag(ctx, tag + ' ' + kind, 'show', kw, False, None, w)
    for lo, hi in ((0, 10), (-5, 15), (-45, 45), (20, 25)):
        tag = 'slider %d..%d' % (lo, hi)
        with ctx.group('speed range', tag, w):
            app = App(ctx)
            rec = app.by_out('geometry-plot', 'eigen-plot')
            if rec is None:
                return
            st = app.a.state()
            cells = {(t, k, c): V.var('cell_' + p, False) for t, rows in CELLS.items() for k, (_, cols) in enumerate(rows) for c, p in cols.items()}
            pg = page(app, st, cells, [], (lo, hi))
            r = app.call(rec, [pg[i] for i, _ in rec['in']], 'range-slider.value', st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            for kind, pc, kw, bike in app.asked:
                if kind == 'eigenvalues' and kw.get('speeds') is not None:
                    s = kw['speeds']
                    d = ring.const(0)
                    if isinstance(s, V.Num):
                        # a shifted range: a constant added to it
                        for x in ring.all_atoms(s.rf).values():
                            if getattr(x, 'head', None) == 'opq' and getattr(x.args[0], 'head', None) == 'linspace':
                                rest = s.rf - app.a.I.lib.tonum(x.args[0]).rf
                                if rest.const() is not None:
                                    s, d = x.args[0], rest
                        s = app.a.I.lib.opq(s) if isinstance(s, V.Num) else s
                    if isinstance(s, V.Term) and s.head == 'linspace' and len(s.args) == 3:
                        n = app.a.I.lib.const_int(s.args[2])
                        s = [s.args[0]] + [None] * ((n or 2) - 2) + [s.args[1]]
                    elif isinstance(s, V.Frozen):
                        s = list(s.items)
                    else:
                        ctx.ob('speed range', tag, an.UNK, V.show(kw['speeds'], 3), w)
                        continue
                    ctx.equal('speed range', tag + ' first', s[0], num(ring.const(lo) - d), w)
                    ctx.equal('speed range', tag + ' last', s[-1], num(ring.const(hi) - d), w)
                    ctx.ob('speed range', tag + ' resolution', len(s) >= 2 * (hi - lo), '%d speeds' % len(s), w)


def flag(ctx, tag, name, kw, want, qual, w):
    v = kw.get(name)
    if v is None and qual is not None:
        args = ctx.project.module('main').functions[qual].args
        names = [x.arg for x in args.args]
        i = names.index(name) - (len(names) - len(args.defaults))
        d = ast.literal_eval(args.defaults[i])
        got = bool(d)
    elif v is None:
        return
    else:
        got = True if v is TRUE else False if v is FALSE else None
    if got is None:
        ctx.ob('options', '%s %s' % (tag, name), an.UNK, V.show(v, 3), w)
    else:
        ctx.ob('options', '%s %s' % (tag, name), got == want, '%s, %s wanted' % (got, want), w)


def static(ctx):
    """Module level tables, layout ids and shipped data."""
    mod = ctx.project.module('app')
    w = 'app.py'
    cols = {'wheel-table': 'WHEEL_COLUMNS', 'frame-table': 'FRAME_COLUMNS', 'general-table': 'GENERAL_COLUMNS'}
    for tid, name in cols.items():
        c = literal(ctx, name)
        if c is None:
            ctx.ob('columns', tid, an.UNK, name + ' is no literal', w)
            continue
        ids = {x['id']: x for x in c}
        want = {k for _, cc in CELLS[tid] for k in cc}
        ctx.ob('columns', tid, set(ids) == want | {'label'}, 'columns %s' % sorted(ids), w)
        for k in want & set(HEADS):
            ctx.ob('columns', '%s %s' % (tid, k), HEADS[k] in ids.get(k, {}).get('name', ''), ids.get(k, {}).get('name', ''), w)
        ctx.ob('columns', tid + ' labels are fixed', ids.get('label', {}).get('editable') is False, '', w)
        bad = [k for k in want if ids.get(k, {}).get('editable', True) is False]
        ctx.ob('columns', tid + ' cells can be edited', not bad, str(bad), w)
        used = [n for n in ast.walk(mod.tree) if isinstance(n, ast.Call) and any(k.arg == 'id' and isinstance(k.value, ast.Constant) and k.value.value == tid for k in n.keywords)]
        for n in used:
            kw = {k.arg: k.value for k in n.keywords}
            if 'columns' in kw and isinstance(kw['columns'], ast.Name):
                ctx.ob('columns', tid + ' layout', kw['columns'].id == name, kw['columns'].id, '%s:%d' % (w, n.lineno))
    ids = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg == 'id' and isinstance(k.value, ast.Constant):
                    ids.setdefault(k.value.value, []).append(n.lineno)
    app = App(ctx)
    for c in app.cb:
        for i, p in c['out'] + c['in']:
            ctx.ob('callback ids', '%s.%s' % (i, p), len(ids.get(i, [])) == 1, 'components with this id: %s' % ids.get(i, []), 'app.py:%d' % c['line'])
    outs = [x for c in app.cb for x in c['out']]
    ctx.ob('callback ids', 'each output has one callback', len(outs) == len(set(outs)), str(outs)[:200], w)
    # the layout's checklist values and ranges are those the callback tests
    opts, labels = literal(ctx, 'OPTIONS'), literal(ctx, 'OPT_LABELS')
    if opts is None or labels is None:
        ctx.ob('bicycles on offer', 'lists', an.UNK, 'not literals', w)
        return
    ctx.ob('bicycles on offer', 'labels', len(opts) == len(labels) and all(b.split(' ')[0] == o for o, b in zip(opts, labels)), '', w)
    ctx.ob('bicycles on offer', 'distinct', len(set(opts)) == len(opts), '', w)
    import os
    base = os.path.join(ctx.project.pkgdir, 'app-data', 'bicycles')
    for o in opts:
        f = os.path.join(base, o, 'Parameters', o + 'Benchmark.txt')
        if not os.path.exists(f):
            ctx.ob('bicycles on offer', o, False, 'no parameter file', w)
            continue
        have = {}
        for line in open(f):
            if '=' in line and not line.startswith('#'):
                k, v = line.split('=', 1)
                have[k.strip()] = v
        miss = [p for p in PARS if p not in have]
        ctx.ob('bicycles on offer', o, not miss, 'missing %s' % miss, f)


def check(ctx):
    display(ctx)
    figures(ctx)
    options(ctx)
    digits(ctx)
    with ctx.group('layout', 'static', 'app.py'):
        static(ctx)
