"""Value-graph dataflow with symbolic decompositions: every eigenvalue and
eigenvector component returned by calc_eigen of the three models (right and left,
scalar and array overrides) and by Bicycle.eig is traced to its decomposition
entry; all entries of one slice must come from one decomposition of exactly the
state matrix of that slice's parameters (transposed for left), each eigenvalue
once, each column from the decomposition column of its own eigenvalue. Speeds of
every scalar kind must give one row."""
import an
import values as V
from common import *
TECHNIQUE = 'value-graph dataflow (abstract interpretation) with provenance tracking of decomposition entries'
ASSUMPTIONS = ['numpy/scipy eig return matching columns', 'the generated leaning-rider equations are an opaque function here']


def slices(f, n):
    if len(f.meta) == n:
        return [f]
    k = 1
    for d in f.meta[1:]:
        k *= d
    return [V.frozen('array', f.meta[1:], f.items[i * k:(i + 1) * k]) for i in range(f.meta[0])]


def models(ctx):
    from C06 import setup
    for cls in ('Meijaard2007Model', 'Meijaard2007WithFeedbackModel', 'MooreRiderLean2012Model'):
        w = ctx.where('models', '_Model.calc_eigen')
        a, st0, m, keys = setup(ctx, cls)
        cases = [('no overrides', lambda st: {}, 0), ('scalar v', lambda st: {'v': V.var('speed')}, 0),
                 ('array v', lambda st: {'v': symarray(a, st, 'speed', 3)}, 3),
                 ('array g, scalar v', lambda st: {'g': symarray(a, st, 'grav', 2), 'v': V.var('speed')}, 2)]
        for t, mk, n in cases:
            for left in (False, True):
                tag = '%s %s%s' % (cls, t, ' left' if left else '')
                with ctx.group('pairing', tag, w):
                    st = st0.fork()
                    kw = mk(st)
                    r0 = a.method(m, 'form_state_space_matrices', [], dict(kw), st.fork())
                    A = slices(r0.frozen().items[0], 2)
                    if left:
                        kw['left'] = TRUE
                    r = a.method(m, 'calc_eigen', [], kw, st)
                    if not ctx.no_raise('completes', tag, r, w):
                        continue
                    f = r.frozen()
                    ev, vec = f.items
                    N = A[0].meta[0]
                    sh = ((n,) if n else ()) + (N,)
                    ctx.ob('shapes', tag, ev.meta == sh and vec.meta == sh + (N,), '%s %s' % (ev.meta, vec.meta), w)
                    for i, (e, x, M) in enumerate(zip(slices(ev, 1), slices(vec, 2), A)):
                        paired(ctx, a, 'pairing', '%s slice %d' % (tag, i), e.items, x.items, M, w, left)
    w = ctx.where('models', '_Model.calc_eigen')


SPEEDS = [('float', lambda a, st: V.var('s'), 1), ('integer', lambda a, st: const(4), 1),
          ('0.0', lambda a, st: const(0.0), 1),
          ('list', lambda a, st: a.I.new_list(st, [V.var('s_0'), V.var('s_1')]), 2),
          ('tuple', lambda a, st: tup([V.var('s_0'), V.var('s_1')]), 2),
          ('array of 3', lambda a, st: symarray(a, st, 's', 3), 3),
          ('array of 1', lambda a, st: symarray(a, st, 's', 1), 1),
          ('integer list', lambda a, st: a.I.new_list(st, [const(1), const(2)]), 2),
          ('integer array', lambda a, st: a.I.new_arr(st, [const(3), const(1)], (2,), 'i'), 2)]


def bikes(ctx):
    w = ctx.where('main', 'Bicycle.eig')
    for u in (True, False):
        for t, mk, n in SPEEDS:
            tag = 'Bicycle.eig %s%s' % (t, '' if u else ' plain parameters')
            with ctx.group('pairing', tag, w):
                a = ctx.analysis()
                st = a.state()
                b = bicycle(a, st, u=u)
                s = mk(a, st)
                fs = a.I.freeze(st, s)
                per = list(fs.items) if isinstance(fs, (Frozen, V.Tup)) else [fs]
                before = a.I.freeze(st, s)
                r = a.method(b, 'eig', [s], {}, st)
                if not ctx.no_raise('completes', tag, r, w):
                    continue
                f = r.frozen()
                ev, vec = f.items
                ok = ev.meta == (n, 4) and vec.meta == (n, 4, 4)
                ctx.ob('shapes', tag, ok, '%s %s' % (ev.meta, vec.meta), w)
                ctx.equal('speeds unchanged', tag, r.freeze(s), before, w)
                if not ok:
                    continue
                for i, (e, x, sp) in enumerate(zip(slices(ev, 1), slices(vec, 2), per)):
                    st2 = a.state()
                    b2 = bicycle(a, st2, u=False)
                    A = a.method(b2, 'state_space', [sp], {}, st2).frozen().items[0]
                    paired(ctx, a, 'pairing', '%s row %d' % (tag, i), e.items, x.items, A, w)


def check(ctx):
    models(ctx)
    bikes(ctx)
