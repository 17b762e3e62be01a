"""The names the generated equations unpack from each slot of q, u, r and p are read
from their syntax tree. Value-graph dataflow over the model then gives, for every
override pattern, the exact value in every slot of every call of the generated
equations and the entry of the 13-state result behind every entry of the returned
matrices; both are compared with the slot order of the generated code and the
advertised states and inputs."""
import ast
import itertools
import an
import values as V
from common import *
from C29 import texts
TECHNIQUE = 'value-graph dataflow over the caller joined with the unpacking order in the syntax tree of the generated callee'
ASSUMPTIONS = ['dtk.bicycle.pitch_from_roll_and_steer is an opaque function of its arguments']


def unpacking(ctx):
    """name -> (argument, slot) and the matrix order of states and inputs."""
    f = ctx.project.module('_mooreriderlean2012').functions['eval_linear']
    params = [x.arg for x in f.args.args]
    slots = {}
    dims = {}
    for s in f.body:
        if not isinstance(s, ast.Assign) or len(s.targets) != 1:
            continue
        t, v = s.targets[0], s.value
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, ast.Name) and v.id in params:
            for i, e in enumerate(t.elts):
                slots[e.id] = (v.id, i)
        elif isinstance(t, ast.Name) and isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name) \
                and v.value.id in params and isinstance(v.slice, ast.Constant):
            slots[t.id] = (v.value.id, v.slice.value)
    return params, slots, f


def order(slots, arg):
    return [n for i, n in sorted((i, n) for n, (x, i) in slots.items() if x == arg)]


def kinematic(f, states, ctx, w):
    """Rows of A that the generated code fills with constants: d(q_i)/dt = u_i."""
    rows = {}
    for s in f.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and \
                isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == 'A':
            try:
                i, j = ast.literal_eval(s.targets[0].slice)
            except ValueError:
                continue
            rows.setdefault(i, {})[j] = s.value
    for i, x in enumerate(states):
        u = 'u' + x[1:]
        if not x.startswith('q') or u not in states:
            continue
        row = rows.get(i, {})
        if sorted(row) != list(range(len(states))):
            ctx.ob('generated state order', 'row of d%s/dt' % x, an.UNK, 'columns %s assigned' % sorted(row), w)
            continue
        vals = {j: n.value for j, n in row.items() if isinstance(n, ast.Constant)}
        ok = len(vals) == len(states) and vals == {j: (1 if states[j] == u else 0) for j in range(len(states))}
        ctx.ob('generated state order', 'row of d%s/dt' % x, ok, 'non-zero columns %s' %
               [states[j] for j in row if vals.get(j) != 0], w)


PATTERNS = [('scalar', {}), ('scalar override', {'mc': 's', 'v': 's'}), ('v array', {'v': 'a'}),
            ('mass array', {'mc': 'a'}), ('geometry arrays', {'rr': 'a', 'rf': 'a', 'd1': 'a', 'd2': 'a', 'd3': 'a'}),
            ('v and radius arrays', {'v': 'a', 'rr': 'a'}), ('radius array and scalar v', {'rr': 'a', 'v': 's'}),
            ('array and scalar', {'v': 'a', 'mg': 's', 'k9': 'a'}), ('v array, scalar radius', {'v': 'a', 'rr': 's'})]


def check(ctx):
    w = ctx.where('models', 'MooreRiderLean2012Model.form_state_space_matrices')
    wg = ctx.where('_mooreriderlean2012', 'eval_linear')
    params, slots, f = unpacking(ctx)
    by = {p: order(slots, p) for p in params}
    qs, us, rs, ps = [by[p] for p in params[:4]]
    ctx.ob('unpacking', 'coordinates', qs == ['q%d' % i for i in range(1, 10)], str(qs), wg)
    ctx.ob('unpacking', 'speeds', us == ['u4', 'u6', 'u7', 'u9'], str(us), wg)
    ctx.ob('unpacking', 'torques', rs == ['T4', 'T6', 'T7', 'T9'], str(rs), wg)
    ctx.ob('unpacking', 'parameters', sorted(ps) == sorted(k for k in LEAN if k != 'v'), '%d parameters' % len(ps), wg)
    states = qs + us
    kinematic(f, states, ctx, wg)
    pats = list(PATTERNS)
    if ctx.thorough:
        pats += [('%s array' % k, {k: 'a'}) for k in LEAN] + [('%s scalar, v array' % k, {k: 's', 'v': 'a'}) for k in LEAN if k != 'v']
    for nm, pat in pats:
        with ctx.group('slots', nm, w):
            a, st, m, d = lean_model(ctx)
            n = 2
            base = {k: V.var(k) for k in LEAN}
            kw = {}
            at = [dict(base) for _ in range(n)]
            for k, t in pat.items():
                if t == 's':
                    kw[k] = V.var('new_' + k)
                    for x in at:
                        x[k] = kw[k]
                else:
                    kw[k] = symarray(a, st, 'new_' + k, n)
                    for i in range(n):
                        at[i][k] = V.var('new_%s_%d' % (k, i))
            arrays = 'a' in pat.values()
            r = a.method(m, 'form_state_space_matrices', [], kw, st)
            if not ctx.no_raise('completes', nm, r, w):
                continue
            A, B = r.frozen().items
            calls = a.eval_linear_args
            ctx.ob('evaluated per parameter value', nm, len(calls) == (n if arrays else 1), '%d evaluations' % len(calls), w)
            T = {k: texts(a.I.freeze(st, a.I.lib.getattr(st, m, k, None))) for k in ('state_vars', 'input_vars')}
            ri = [states.index(x) if x in states else None for x in T['state_vars']]
            ci = [rs.index(x) if x in rs else None for x in T['input_vars']]
            for i, (x, c) in enumerate(zip(at, calls)):
                q, u, rr, p = c[:4]
                zero = {q_: const(0) for q_ in qs + us + rs}
                pitch = None
                tag = nm + (' [%d]' % i if arrays else '')
                for s, z in zip(qs, q.items):
                    if s == 'q5':
                        pitch = z
                        continue
                    ctx.equal('equilibrium', '%s %s' % (tag, s), z, const(0), w)
                for s, z in zip(us, u.items):
                    want = num(ring.const(0) - x['v'].rf / x['rr'].rf) if s == 'u6' else const(0)
                    ctx.equal('equilibrium', '%s %s' % (tag, s), z, want, w)
                for s, z in zip(rs, rr.items):
                    ctx.equal('equilibrium', '%s %s' % (tag, s), z, const(0), w)
                ctx.equal('equilibrium', '%s q5' % tag, pitch,
                          a.I.lib.call(st, V.ext('dtk.bicycle.pitch_from_roll_and_steer'),
                                       [const(0), const(0)] + [x[k] for k in ('rf', 'rr', 'd1', 'd2', 'd3')], {}, None), w)
                ctx.ob('slots', '%s parameter count' % tag, len(p.items) == len(ps), '%d values for %d slots' % (len(p.items), len(ps)), w)
                for s, z in zip(ps, p.items):
                    ctx.equal('slots', '%s parameter %s' % (tag, s), z, x[s], w)
                nA, nB = len(ri), len(ci)
                a_ = A.items[i * nA * nA:(i + 1) * nA * nA]
                b_ = B.items[i * nA * nB:(i + 1) * nA * nB]
                bad = None
                for j, k in itertools.product(range(nA), range(nA)):
                    if a_[j * nA + k] is not lin_entry('Alin', ri[j], ri[k], *c):
                        bad = bad or (j, k)
                ctx.ob('retained rows and columns', '%s A' % tag, bad is None,
                       '%d entries' % (nA * nA) if bad is None else 'entry (%s, %s) is not that entry of the equations' %
                       (T['state_vars'][bad[0]], T['state_vars'][bad[1]]), w)
                bad = None
                for j, k in itertools.product(range(nA), range(nB)):
                    if b_[j * nB + k] is not lin_entry('Blin', ri[j], ci[k], *c):
                        bad = bad or (j, k)
                ctx.ob('retained rows and columns', '%s B' % tag, bad is None,
                       '%d entries' % (nA * nB) if bad is None else 'entry (%s, %s) is not that entry of the equations' %
                       (T['state_vars'][bad[0]], T['input_vars'][bad[1]]), w)
