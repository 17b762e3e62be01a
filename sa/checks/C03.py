"""Value-graph dataflow with algebraic normal forms: the closed-loop A returned
by the feedback model is compared entry by entry with A_open - B K where K is
assembled from the documented gain names (kT<torque>_<state>), for scalar gains,
for every single gain given as an array, for all gains as arrays, and for gains
combined with other swept parameters; B is compared with the open-loop B. The
zero-gain case must be identical to the open-loop model."""
import an
import values as V
from specs import whipple
from common import *
ASSUMPTIONS = ['real arithmetic: rounding is not modelled']

TORQUE = {'Tphi': 0, 'Tdel': 1}
STATE = {'phi': 0, 'del': 1, 'phid': 2, 'deld': 3}


def gain_matrix(p):
    """From the documented names, not from any list order in the code."""
    K = [[ring.const(0)] * 4 for _ in range(2)]
    for g in GAINS:
        t, s = g[1:].split('_')
        K[TORQUE[t]][STATE[s]] = p(g)
    return K


def closed(p=ring.var, K=None):
    M, C1, K0, K2 = whipple.canonical(p)
    A, B = whipple.state_space(M, C1, K0, K2, p('v'), p('g'))
    K = K or gain_matrix(p)
    BK = whipple.mul(B, K)
    return an.matrix([[A[i][j] - BK[i][j] for j in range(4)] for i in range(4)]), an.matrix(B)


def check(ctx):
    w = ctx.where('models', 'Meijaard2007WithFeedbackModel.form_state_space_matrices')
    a = ctx.analysis()
    with ctx.group('closed loop', 'scalar gains', w):
        st, ps, d = feedback(a, a.state())
        st, m = model(a, st, 'Meijaard2007WithFeedbackModel', ps)
        r = a.method(m, 'form_state_space_matrices', st=st)
        ctx.no_raise('completes', 'scalar gains', r, w)
        A, B = closed()
        f = r.frozen()
        ctx.equal('closed loop', 'A with stored gains', f.items[0], A, w)
        ctx.equal('closed loop', 'B with stored gains', f.items[1], B, w)
        for ks in [(k,) for k in GAINS] + [('v',), ('g', 'mB', 'kTdel_phi')]:
            p = lambda x: ring.var(x + '_new') if x in ks else ring.var(x)
            r2 = a.method(m, 'form_state_space_matrices', kw={k: V.var(k + '_new') for k in ks}, st=r.st.fork())
            A, B = closed(p)
            f = r2.frozen()
            ctx.equal('closed loop', 'A with scalar override of %s' % ','.join(ks), f.items[0], A, w)
            ctx.equal('closed loop', 'B with scalar override of %s' % ','.join(ks), f.items[1], B, w)
    # zero gains
    with ctx.group('zero gains', 'all gains zero', w):
        a = ctx.analysis()
        st = a.state()
        d = an.sdict(a, st, M07, extra={k: const(0.0) for k in GAINS})
        r = pset(a, st, 'Meijaard2007WithFeedbackParameterSet', d, TRUE)
        st, m = model(a, r.st, 'Meijaard2007WithFeedbackModel', r.value)
        r = a.method(m, 'form_state_space_matrices', st=st)
        zero = [[ring.const(0)] * 4 for _ in range(2)]
        A, B = closed(K=zero)
        ctx.equal('zero gains', 'A equals the open loop', r.frozen().items[0], A, w)
        ctx.equal('zero gains', 'B equals the open loop', r.frozen().items[1], B, w)
        # and through the plain set's conversion
        st, ps, d = meijaard(a, a.state())
        st, m = model(a, st, 'Meijaard2007WithFeedbackModel', ps)
        r = a.method(m, 'form_state_space_matrices', st=st)
        ctx.equal('zero gains', 'A of a plain bicycle given to the feedback model', r.frozen().items[0], A, w)
        ctx.equal('zero gains', 'B of a plain bicycle given to the feedback model', r.frozen().items[1], B, w)
    arrays(ctx, w)


def arrays(ctx, w):
    a = ctx.analysis()
    combos = [((k,), (), 2) for k in GAINS]
    combos += [(tuple(GAINS), (), 3), ((GAINS[0], GAINS[7]), (), 4), ((GAINS[5], 'v'), (), 3),
               ((GAINS[2], 'g', 'zB'), (), 2), ((GAINS[6],), (GAINS[1], 'v'), 2), (('v',), (GAINS[3],), 3),
               (('rR',), (), 2), ((GAINS[4],), (), 1)]
    with ctx.group('closed loop, arrays', 'array gains', w):
        st0, ps, d = feedback(a, a.state())
        st0, m = model(a, st0, 'Meijaard2007WithFeedbackModel', ps)
        for arrs, scal, n in combos:
            tag = 'arrays %s%s length %d' % ('+'.join(arrs) if len(arrs) < 8 else 'all gains',
                                             ' scalars ' + '+'.join(scal) if scal else '', n)
            st = st0.fork()
            kw = {k: symarray(a, st, k, n) for k in arrs}
            kw.update({k: V.var(k + '_new') for k in scal})
            r = a.method(m, 'form_state_space_matrices', kw=kw, st=st)
            if not ctx.want(r, 'closed loop, arrays', tag, w):
                continue
            As, Bs = [], []
            for i in range(n):
                p = lambda x: ring.var('%s_%d' % (x, i) if x in arrs else x + '_new' if x in scal else x)
                A, B = closed(p)
                As.append(A)
                Bs.append(B)
            f = r.frozen()
            ctx.equal('closed loop, arrays', 'A, ' + tag, f.items[0], an.stack(As), w)
            ctx.equal('closed loop, arrays', 'B, ' + tag, f.items[1], an.stack(Bs), w)
