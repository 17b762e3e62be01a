"""Value-graph dataflow over rider.py. yeadon_vec_to_bicycle_vec and the posture
residuals are compared, as exact trigonometric rational functions of all
measurements, with forward kinematics built from rotation matrices; the residual
function handed to the root finder is analysed with a symbolic posture, each
unknown identified by the configuration entry its solution is stored under. The
configuration dictionary given to the human model is compared for left/right
mirroring, and the rotation used for the inertia with the one used for vectors."""
import itertools
import an
import values as V
from specs import mech
from common import *
ASSUMPTIONS = ['yeadon: Human.meas/CFG dictionaries, center_of_mass (3,1) in its frame, inertia_transformed(rotmat) = '
               'rotmat^T I rotmat about the mass centre; joint rotations are 1-2-3 Euler with segments along -z',
               'real arithmetic']

MP = 'hbb lcs lsp lst lamst whb LhbR LhbF'.split()
MEAS = 'Lj3L Lj5L Lj6L Ls4L Ls4w La2L La4L La5L'.split()
R = [[0, -1, 0], [-1, 0, 0], [0, 0, -1]]
JOINTS = 'PJ1extension J1J2flexion CA1extension CA1adduction CA1rotation A1A2extension'.split()
MIRROR = {'PK1extension': ('PJ1extension', 1), 'K1K2flexion': ('J1J2flexion', 1),
          'CB1extension': ('CA1extension', 1), 'CB1abduction': ('CA1adduction', -1),
          'CB1rotation': ('CA1rotation', -1), 'B1B2extension': ('A1A2extension', 1)}


def v(n):
    return ring.var(n)


def seat():
    """Bicycle origin to seat (human origin), bicycle axes."""
    L = v('lsp') + v('lst')
    x = ring.sqrt(v('lcs') ** 2 - (v('rR') - v('hbb')) ** 2) - L * ring.cos(v('lamst'))
    return [x, mech.Z, -v('hbb') - L * ring.sin(v('lamst'))]


def check(ctx):
    transform(ctx)
    configure(ctx)
    posture(ctx)


def transform(ctx):
    w = ctx.where('rider', 'yeadon_vec_to_bicycle_vec')
    for u in (False, True):
        a = ctx.analysis()
        tag = 'yeadon_vec_to_bicycle_vec' + (' (uncertain)' if u else '')
        with ctx.group('rigid transform', tag, w):
            st = a.state()
            mp = an.sdict(a, st, MP, u=u)
            bp = an.sdict(a, st, M07, u=u)
            vec = a.I.new_arr(st, [V.var('p%d' % i) for i in range(3)], (3, 1))
            r = a.call(a.get('rider', 'yeadon_vec_to_bicycle_vec'), [vec, mp, bp], {}, st)
            s = seat()
            want = [[s[i] + sum((R[i][j] * v('p%d' % j) for j in range(3)), mech.Z)] for i in range(3)]
            if ctx.no_raise('completes', tag, r, w):
                ctx.equal('rigid transform', tag, r.frozen(), an.matrix(want), w)
    C = [[ring.const(x) for x in row] for row in R]
    ctx.equal('specification is a proper rotation', 'R R^T', an.matrix(mech.mul(C, mech.T(C))),
              an.matrix(mech.mat(lambda i, j: ring.const(int(i == j)))), w)


def configure(ctx):
    w = ctx.where('rider', 'configure_rider')
    h = V.term('human')
    sym = lambda i, j: 'Y%d%d' % (min(i, j), max(i, j))

    def hook(st, o, attr):
        if o is not h:
            return None
        if attr == 'center_of_mass':
            return a.I.new_arr(st, [V.var('com%d' % i) for i in range(3)], (3, 1))
        if attr == 'mass':
            return V.var('mass')
        if attr == 'inertia':
            return a.I.new_arr(st, [V.var(sym(i, j)) for i in range(3) for j in range(3)], (3, 3))
        if attr == 'inertia_transformed':
            return a.I.lib.pyfunc(attr, transformed)
        return None

    def transformed(st, args, kw, node):
        rot = kw.get('rotmat', args[1] if len(args) > 1 else None)
        pos = kw.get('pos', args[0] if args else V.NONE)
        if pos is not V.NONE:
            return V.term('inertia about another point')
        f = a.I.freeze(st, rot)
        C = [[f.items[3 * i + j].rf for j in range(3)] for i in range(3)]
        I = mech.mat(lambda i, j: v(sym(i, j)))
        out = mech.mul(mech.T(C), mech.mul(I, C))
        return a.I.new_arr(st, [num(x) for row in out for x in row], (3, 3))
    a = ctx.analysis(attr_hook=hook)
    seen = {}

    def on_bike(st, args, kw, node):
        seen['args'] = [a.I.freeze(st, x) for x in args]
        return h
    a.I.stubs[('rider', 'rider_on_bike')] = on_bike
    with ctx.group('rider parameters', 'configure_rider', w):
        st = a.state()
        mp = an.sdict(a, st, MP, u=True)
        bp = an.sdict(a, st, [k for k in M07 if k != 'v'], u=True)
        r = a.call(a.get('rider', 'configure_rider'),
                   [string('/data/riders/Jo'), string('Bike'), bp, mp, FALSE], {}, st)
        if not ctx.no_raise('completes', 'configure_rider', r, w):
            return
        f = r.frozen()
        C = [[ring.const(x) for x in row] for row in R]
        I = mech.congr(C, mech.mat(lambda i, j: v(sym(i, j))))
        s = seat()
        com = [s[i] + sum((R[i][j] * v('com%d' % j) for j in range(3)), mech.Z) for i in range(3)]
        want = {'IBxx': I[0][0], 'IByy': I[1][1], 'IBzz': I[2][2], 'IBxz': I[0][2], 'mB': v('mass'),
                'xB': com[0], 'yB': com[1], 'zB': com[2]}
        e = {f.items[0].items[i].lit: f.items[0].items[i + 1] for i in range(0, len(f.items[0].items), 2)}
        for k in want:
            if k not in e:
                ctx.ob('rider parameters', k, False, 'missing', w)
            else:
                ctx.equal('rider parameters', k, e[k], num(want[k]), w)
        ctx.equal('rider parameters', 'human returned', f.items[1], h, w)
        m, c, J = mech.union([
            (v('mB'), [v('xB'), mech.Z, v('zB')], mech.planar(v('IBxx'), v('IBxz'), v('IByy'), v('IBzz'))),
            (want['mB'], [want['xB'], want['yB'], want['zB']],
             mech.planar(want['IBxx'], want['IBxz'], want['IByy'], want['IBzz']))])
        g = {f.items[2].items[i].lit: f.items[2].items[i + 1] for i in range(0, len(f.items[2].items), 2)}
        for k, x in (('mB', m), ('xB', c[0]), ('zB', c[2]), ('IByy', J[1][1]), ('IBxx', J[0][0]), ('IBzz', J[2][2]), ('IBxz', J[0][2]), ('rF', v('rF'))):
            ctx.equal('combined bicycle', k, g[k], num(x), w)
        A = seen['args']
        ctx.equal('files', 'measurement file', A[2], string('/data/riders/Jo/RawData/JoYeadonMeas.txt'), w)
        ctx.equal('files', 'configuration file', A[3], string('/data/riders/Jo/RawData/JoBikeYeadonCFG.txt'), w)


def Rx(a):
    c, s = ring.cos(a), ring.sin(a)
    return [[mech.ONE, mech.Z, mech.Z], [mech.Z, c, -s], [mech.Z, s, c]]


def Ry(a):
    c, s = ring.cos(a), ring.sin(a)
    return [[c, mech.Z, s], [mech.Z, mech.ONE, mech.Z], [-s, mech.Z, c]]


def Rz(a):
    c, s = ring.cos(a), ring.sin(a)
    return [[c, -s, mech.Z], [s, c, mech.Z], [mech.Z, mech.Z, mech.ONE]]


def ap(M, x):
    return [mech.dot(r, x) for r in M]


def residuals(q):
    """Loop closures: q maps joint names and ay az by bz to symbols."""
    E3 = [mech.Z, mech.Z, mech.ONE]
    P = Rx(v('somersault'))
    L = v('lsp') + v('lst')
    down = lambda M, l: [-l * x for x in ap(M, E3)]
    plus = lambda *vs: [sum(x, mech.Z) for x in zip(*vs)]
    # leg: hip at the human origin, foot on the bottom bracket
    J1 = mech.mul(P, Rx(q['PJ1extension']))
    J2 = mech.mul(J1, Rx(q['J1J2flexion']))
    foot = plus(down(J1, v('Lj3L')), down(J2, v('Lj5L') + v('Lj6L') - v('Lj3L')))
    bb = [mech.Z, -L * ring.cos(v('lamst')), -L * ring.sin(v('lamst'))]
    out = [foot[1] - bb[1], foot[2] - bb[2]]
    # arm: shoulder at half width, top of the torso
    sh = ap(P, [v('Ls4w') / 2, mech.Z, v('Ls4L')])
    A1 = mech.mul(P, mech.mul(Rx(q['CA1extension']), mech.mul(Ry(q['CA1adduction']), Rz(q['CA1rotation']))))
    A2 = mech.mul(A1, Rx(q['A1A2extension']))
    hand = plus(sh, down(A1, v('La2L')), down(A2, v('La4L') + v('La5L') - v('La2L')))
    s = seat()
    hub = [mech.Z, s[0], v('rR') - (-s[2])]
    grip = [v('whb') / 2, hub[1] + q['by'], hub[2] + q['bz']]
    out += [hand[i] - grip[i] for i in range(3)]
    # elbow axis horizontal
    out.append(A1[2][0])
    # the same grip seen from the front hub
    out += [q['ay'] - q['by'] - v('w'), q['az'] - q['bz'] + v('rF') - v('rR')]
    hw = (v('whb') / 2) ** 2
    out.append(ring.sqrt(q['ay'] ** 2 + q['az'] ** 2 + hw) - v('LhbF'))
    out.append(ring.sqrt(q['by'] ** 2 + q['bz'] ** 2 + hw) - v('LhbR'))
    return out


NAMES = ['leg reaches bottom bracket (fore-aft)', 'leg reaches bottom bracket (vertical)', 'hand on grip (lateral)',
         'hand on grip (fore-aft)', 'hand on grip (vertical)', 'elbow axis horizontal', 'grip from both hubs (fore-aft)',
         'grip from both hubs (vertical)', 'grip distance from front hub', 'grip distance from rear hub']


def posture(ctx):
    w = ctx.where('rider', 'rider_on_bike')
    h = V.term('human')
    box = {}

    def hook(st, o, attr):
        if isinstance(o, V.Term) and o.head.startswith('call:yeadon'):
            if attr == 'CFG':
                return box['cfg']
            if attr == 'meas':
                return box['meas']
        return None
    a = ctx.analysis(attr_hook=hook)
    with ctx.group('posture', 'rider_on_bike', w):
        st = a.state()
        box['cfg'] = an.sdict(a, st, ['somersault', 'tilt'] + JOINTS + sorted(MIRROR), 'cfg_',
                              extra={'somersault': V.var('somersault')})
        box['meas'] = an.sdict(a, st, MEAS)
        mp = an.sdict(a, st, MP, u=True)
        bp = an.sdict(a, st, M07, u=True)
        before = [a.I.freeze(st, x) for x in (mp, bp)]
        r = a.call(a.get('rider', 'rider_on_bike'), [bp, mp, string('meas'), string('cfg'), FALSE], {}, st)
        if not ctx.no_raise('completes', 'rider_on_bike', r, w):
            return
        for x, b, nm in ((mp, before[0], 'measured'), (bp, before[1], 'benchmark')):
            ctx.equal('inputs unchanged', nm, r.freeze(x), b, w)
        human = [e for e in r.calls('yeadon.Human')]
        if ctx.ob('human', 'one human model', len(human) == 1, '%d' % len(human), w) == an.EQ:
            ctx.equal('human', 'returned', r.frozen(), human[0].data[4] if len(human[0].data) > 4 else r.frozen(), w)
        given = [e for e in r.calls('.set_CFG_dict')]
        solve = [e for e in r.calls('scipy.optimize.fsolve')]
        if len(given) != 1 or len(solve) != 1:
            ctx.ob('posture', 'one solve, one configuration', an.UNK, '%d %d' % (len(solve), len(given)), w)
            return
        cfg = given[0].data[2][0]
        e = {cfg.items[i].lit: cfg.items[i + 1] for i in range(0, len(cfg.items), 2)}
        for k, (src, sign) in sorted(MIRROR.items()):
            want = num(a.I.lib.tonum(e[src]).rf * sign)
            ctx.equal('bilateral symmetry', '%s mirrors %s' % (k, src), num(a.I.lib.tonum(e[k]).rf), want, w)
        ctx.equal('configuration kept', 'somersault', e['somersault'], V.var('somersault'), w)
        ctx.equal('configuration kept', 'tilt', e['tilt'], V.var('cfg_tilt'), w)
        index(ctx, a, r, e, solve[0], w)


def index(ctx, a, r, e, ev, w):
    """Match the residuals of the function given to the solver."""
    fn = ev.data[2][0]
    at = {}
    for k in JOINTS:
        t = e[k]
        t = a.I.lib.opq(t) if isinstance(t, Num) else t
        if not (isinstance(t, V.Term) and t.head == 'getitem' and isinstance(t.args[1], Num)):
            ctx.ob('posture', '%s comes from the solution' % k, an.UNK, V.show(e[k]), w)
            return
        at[int(t.args[1].rf.const())] = k
    ctx.ob('posture', 'each joint has its own solution entry', len(at) == len(JOINTS), str(at), w)
    if len(at) != len(JOINTS):
        return
    rest = [i for i in range(10) if i not in at]
    q = dict((k, v('q_' + k)) for k in JOINTS)
    want = {}
    for n in 'ay az by bz'.split():
        q[n] = v('q_' + n)
    spec = residuals(q)
    best = None
    for perm in itertools.permutations('ay az by bz'.split()):
        names = dict(at)
        names.update(zip(rest, perm))
        st = r.st.fork()
        x = a.I.new_arr(st, [V.var('q_' + names[i]) for i in range(10)], (10,))
        g = a.call(fn, [x], {}, st)
        if not g.returns:
            ctx.no_raise('posture', 'residual function completes', g, w)
            return
        fz = g.frozen()
        alts = [[a.I.lib.tonum(x).rf for _, x in V.leaves(y, g.st.pc)] for y in fz.items]
        got = [x[0] for x in alts]
        is_ = lambda ys, s: all(ring.numerically_zero(y - s) or ring.numerically_zero(y + s) for y in ys)
        match = [any(is_(ys, s) for ys in alts) for s in spec]
        extra = [i for i, ys in enumerate(alts) if not any(is_(ys, s) for s in spec)]
        score = (sum(match), -len(extra))
        if best is None or score > best[0]:
            best = (score, match, extra, got)
        if all(match) and not extra:
            break
    _, match, extra, got = best
    for nm, m in zip(NAMES, match):
        ctx.ob('posture equations', nm, bool(m), 'stated by the residuals' if m else
               'no residual is this closure; unmatched residuals: %s' % [an.clip(ring.show(got[i], 6), 160) for i in extra], w)
    ctx.ob('posture equations', 'no other condition', not extra, str(extra), w)
