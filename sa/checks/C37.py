"""Two-point lattice (plain, uncertain) carried with every number through the functions
between measurements and parameters. The functions are analysed with all measurements
uncertain, with all plain and with every single one uncertain; the dependence of each
result on each measurement is read off its expression, so a result that depends on an
uncertain measurement and is not itself uncertain has lost it. No path may end in an
operation uncertain values do not support. Stripping is checked over every kind of value
a parameter dictionary may hold."""
import an
import values as V
from common import *
import C18
TECHNIQUE = 'dependence analysis with an uncertain/plain lattice over the measurement data flow'
ASSUMPTIONS = ['the uncertainties package propagates through arithmetic, umath and unumpy; numpy and math functions refuse uncertain values']

AX = [('xx', 'xy', 'xz'), ('yx', 'yy', 'yz'), ('zx', 'zy', 'zz')]


class In(object):
    """Inputs of one scenario; names in us are uncertain."""

    def __init__(self, a, st, us):
        self.a, self.st, self.us = a, st, us
        self.names = []

    def __call__(self, n):
        if n not in self.names:
            self.names.append(n)
        return V.var(n, self.us is None or n in self.us)

    def arr(self, *ns, **kw):
        sh = kw.get('shape', (len(ns),))
        its = [self(n) if isinstance(n, str) else const(n) for n in ns]
        dt = 'O' if any(a_.u for a_ in its) else 'f'
        return self.a.I.new_arr(self.st, its, sh, dt)

    def list(self, *ns):
        return self.a.I.new_list(self.st, [self(n) for n in ns])

    def dict(self, ks, **plain):
        d = {string(k): self(k) for k in ks}
        d.update({string(k): x for k, x in plain.items()})
        return self.a.I.new_dict(self.st, d)

    def tensor(self, p=''):
        return self.arr(*[p + x for r in AX for x in r], shape=(3, 3))


BIKE = [k for k in M07 if k != 'v']
RIDER = 'mB xB yB zB IBxx IByy IBzz IBxz'.split()
GEO = 'dF nF dR nR gamma f w'.split()
ABC = 'dF nF dR nR h1 h2 h3 h4 h5 d1 d2 d3 d4 d'.split()


def scenarios():
    """(construct, module, function, builder of the arguments)."""
    S = []

    def add(nm, mod, fn, mk):
        S.append((nm, mod, fn, mk))
    add('pendulum', 'inertia', 'compound_pendulum_inertia', lambda i: [i('m'), i('g'), i('l'), i('T')])
    add('torsion', 'inertia', 'tor_inertia', lambda i: [i('k'), i('T')])
    add('stiffness', 'inertia', 'torsional_pendulum_stiffness', lambda i: [i('I'), i('T')])
    add('tube', 'inertia', 'tube_inertia', lambda i: [i('l'), i('m'), i('ro'), i('ri')])
    add('components', 'inertia', 'inertia_components', lambda i: [i.arr('j1', 'j2', 'j3'), i.arr('b1', 'b2', 'b3')])
    add('parallel axis', 'inertia', 'parallel_axis', lambda i: [i.tensor(), i('m'), i.arr('dx', 'dy', 'dz')])
    for p in 'BHFRGS':
        ks = ['I%s%s' % (p, x) for x in (('xx', 'yy') if p in 'FR' else ('xx', 'yy', 'zz', 'xz'))]
        add('tensor of %s' % p, 'inertia', 'part_inertia_tensor', lambda i, p=p, ks=ks: [i.dict(ks), string(p)])
    add('rotation', 'inertia', 'rotate_inertia_tensor', lambda i: [i.tensor(), i('angle')])
    add('rider', 'inertia', 'combine_bike_rider', lambda i: [i.dict(BIKE), i.a.I.new_dict(i.st, {string(k): i('r' + k) for k in RIDER})])
    add('mass centre', 'com', 'center_of_mass', lambda i: [i.list('m1', 'm2', 'm3'), i.list('b1', 'b2', 'b3')])
    for p in 'BHSG':
        add('line of %s' % p, 'com', 'com_line', lambda i, p=p: [i('alpha'), i('a'), i.dict(['lam', 'rR', 'rF', 'w']), string(p), i('l1'), i('l2')])
    add('total mass centre', 'com', 'total_com', lambda i: [i.arr('x1', 'x2', 'y1', 'y2', 'z1', 'z2', shape=(3, 2)), i.arr('m1', 'm2')])
    add('geometry', 'geometry', 'calculate_benchmark_geometry', lambda i: [i.dict(GEO), i.a.I.new_dict(i.st, {})])
    add('abc', 'geometry', 'calculate_abc_geometry', lambda i: [tuple_(i, 'h1 h2 h3 h4 h5'), tuple_(i, 'd1 d2 d3 d4 d')])
    add('l1 l2', 'geometry', 'calculate_l1_l2', lambda i: [i(x) for x in 'h6 h7 d5 d6 l'.split()])
    add('handlebar reference', 'geometry', 'fwheel_to_handlebar_ref', lambda i: [i('lam'), i('l1'), i('l2')])
    add('steer axis', 'geometry', 'distance_to_steer_axis', lambda i: [i('w'), i('c'), i('lam'), i.arr('x', 0, 'z')])
    add('point to line', 'geometry', 'point_to_line_distance', lambda i: [i.arr('px', 'py', 'pz'), i.arr('ax', 'bx', 'ay', 'by', 'az', 'bz', shape=(3, 2))])
    add('canonical', 'bicycle', 'benchmark_par_to_canonical', lambda i: [i.dict(BIKE)])
    add('state matrix', 'bicycle', 'ab_matrix', lambda i: [i.arr(*['%s%d%d' % (m, r, c) for r in (0, 1) for c in (0, 1)], shape=(2, 2)) for m in ('M', 'C', 'K', 'L')] + [i('v'), i('g')])
    add('trail', 'bicycle', 'trail', lambda i: [i('rF'), i('lam'), i('fo')])
    add('lambda', 'bicycle', 'lambda_from_abc', lambda i: [i(x) for x in ('rF', 'rR', 'a', 'b', 'c')])
    return S


def tuple_(i, names):
    return tup([i(n) for n in names.split()])


def atoms(v, pc=V.TRUE, out=None):
    """Every number inside a frozen value with the names of the inputs it depends on."""
    out = [] if out is None else out

    def walk(x, path):
        for c, y in V.leaves(x, pc):
            if isinstance(y, Num):
                names = {str(t.args[0]) for t in ring.all_atoms(y.rf).values() if t.head == 'var'}
                out.append((path, y, names))
            elif isinstance(y, V.Term):
                names = {str(t.args[0]) for f in y.sub_rfs() for t in ring.all_atoms(f).values() if t.head == 'var'}
                out.append((path, num(ring.app('opq', y)), names))
            elif isinstance(y, Frozen) and y.kind == 'dict':
                for k in range(0, len(y.items), 2):
                    walk(y.items[k + 1], path + '[%s]' % getattr(y.items[k], 'lit', '?'))
            elif isinstance(y, (Frozen, V.Tup)):
                for k, z in enumerate(y.items):
                    walk(z, path + '[%d]' % k)
    walk(v, '')
    return out


def lost(r, us):
    """(path, name) of the results that lost the uncertainty of an input."""
    for path, n, names in atoms(r.frozen()):
        hit = names if us is None else names & us
        if hit and not n.u:
            return '%s depends on the uncertain %s and is not uncertain' % (path or 'result', sorted(hit)[0])
    return None


def gained(r):
    for path, n, names in atoms(r.frozen()):
        if n.u:
            return '%s is uncertain though every input is plain' % (path or 'result')
    return None


def verdict(ctx, tag, r, us, w):
    dropped = [e for e in r.events if e.kind == 'drop_uncertainty']
    bad = [x for x in r.raised if V.feasible(x.st.pc) and x.exc[0] in ('TypeError', 'AttributeError')]
    ctx.ob('supports uncertain values', tag, not bad, an.describe(bad[0]) if bad else 'every path completes', w)
    if bad:
        return
    if dropped:
        ctx.ob('supports uncertain values', tag, an.UNK, 'refused in %s, handled' % (dropped[0].data[0],), w)
    if us == set():
        ctx.ob('plain stays plain', tag, gained(r) is None, gained(r) or 'all plain', w)
    else:
        bad = lost(r, us)
        ctx.ob('stays uncertain', tag, bad is None, bad or '%d numbers' % len(atoms(r.frozen())), w)


def functions(ctx):
    for nm, mod, fn, mk in scenarios():
        w = ctx.where(mod, fn)

        def run(us, label):
            with ctx.group('stays uncertain', '%s %s' % (nm, label), w):
                a = ctx.analysis()
                f = a.get(mod, fn)
                st = a.state()
                i = In(a, st, us)
                r = a.call(f, mk(i), {}, st)
                verdict(ctx, '%s %s' % (nm, label), r, us, w)
                return i.names
        names = run(None, 'all uncertain') or []
        run(set(), 'all plain')
        for n in names:
            run({n}, 'only %s uncertain' % n)


def measured(ctx):
    """From the measurement dictionary to the benchmark set, the whole way."""
    w = ctx.where('main', 'calculate_benchmark_from_measured')
    for split, fly in ((False, False), (True, False), (False, True), (True, True)):
        parts = 'BGS' if split else 'BH'
        ks = C18.keys(parts, (2, 2, 2)[:len(parts)], split, fly)
        ks3 = C18.keys(parts, (3, 3, 3)[:len(parts)], split, fly)

        def run(us, label):
            tag = 'measured, %s fork%s, %s' % ('split' if split else 'whole', ' with flywheel' if fly else '', label)
            with ctx.group('stays uncertain', tag, w):
                a = ctx.analysis()
                f = a.get('main', 'calculate_benchmark_from_measured')
                st = a.state()
                i = In(a, st, us)

                def opq(names, what):
                    def g(st, args, kw, node):
                        fz = [a.I.freeze(st, x) for x in args]
                        deps = sorted({m for x in fz for _, n, ns in atoms(x) for m in ns})
                        u = any(n.u for x in fz for _, n, ns in atoms(x))
                        made = [num(ring.app(what + k, *[ring.var(d) for d in deps]), u) for k in names]
                        return made
                    return g
                com = opq('xz', 'com')
                comp = opq(('xx', 'xz', 'zz'), 'comp')
                a.I.stubs[('com', 'center_of_mass')] = lambda *x: tup(com(*x))
                a.I.stubs[('inertia', 'inertia_components')] = lambda st, args, kw, node: a.I.new_arr(st, comp(st, args, kw, node), (3,), 'O')
                r = a.call(f, [i.dict(ks3)], {}, st)
                verdict(ctx, tag, r, us, w)
                return i.names
        names = run(None, 'all uncertain') or []
        run(set(), 'all plain')
        if fly and not ctx.thorough:
            continue
        for n in names:
            run({n}, 'only %s uncertain' % n)


def bicycles(ctx):
    """Matrices of a loaded bicycle, with and without the nominal option."""
    import C36
    for meth, args, q in (('canonical', [], 'Bicycle.canonical'), ('state_space', ['speed'], 'Bicycle.state_space'),
                          ('steer_assembly_moment_of_inertia', [], 'Bicycle.steer_assembly_moment_of_inertia')):
        w = ctx.where('main', q)
        for nominal in (False, True):
            for about in ((False, True) if meth.startswith('steer') else (None,)):
                for us, lab in ((None, 'all uncertain'), (set(), 'all plain')) + tuple(
                        ({k}, 'only %s uncertain' % k) for k in (BIKE if ctx.thorough else ('lam', 'mB', 'IHxx', 'IHzz', 'xH', 'w', 'IFxx', 'mF'))):
                    tag = '%s nominal %s%s, %s' % (meth, nominal, '' if about is None else ' about the steer axis %s' % about, lab)
                    with ctx.group('stays uncertain', tag, w):
                        a = ctx.analysis()
                        a.get('main', 'Bicycle')
                        st = a.state()
                        i = In(a, st, us)
                        par = i.dict(BIKE)
                        b = instance(a, st, 'main', 'Bicycle', {'parameters': a.I.new_dict(st, {string('Benchmark'): par}),
                                                                'hasRider': V.FALSE, 'bicycleName': string('b')})
                        kw = {'nominal': V.boolean(nominal)}
                        if about is not None:
                            kw['aboutSteerAxis'] = V.boolean(about)
                        r = a.method(b, meth, [V.var(x) for x in args], kw, st)
                        if nominal:
                            bad = [x for x in r.raised if V.feasible(x.st.pc)]
                            ctx.ob('nominal option strips', tag, not bad and gained(r) is None, an.describe(bad[0]) if bad else gained(r) or 'plain', w)
                        else:
                            verdict(ctx, tag, r, us, w)


def strip(ctx):
    w = ctx.where('io', 'remove_uncertainties')
    mk = {'number': lambda i, k: i(k),
          'list of numbers': lambda i, k: i.list(k + '1', k + '2'),
          'long list of numbers': lambda i, k: i.list(*[k + str(j) for j in range(1, 10)]),
          'array of numbers': lambda i, k: i.arr(k + '1', k + '2', k + '3')}
    for nm, f in sorted(mk.items()):
        for us, lab in ((None, 'uncertain'), (set(), 'plain'), ({'a', 'a1', 'b2', 'b'}, 'some uncertain')):
            tag = '%s, %s' % (nm, lab)
            with ctx.group('stripping', tag, w):
                a = ctx.analysis()
                fn = a.get('io', 'remove_uncertainties')
                st = a.state()
                i = In(a, st, us)
                d = a.I.new_dict(st, {string('a'): f(i, 'a'), string('other'): V.var('o'), string('b'): f(i, 'b')})
                want = a.I.freeze(st, d)
                r = a.call(fn, [d], {}, st)
                if not ctx.no_raise('stripping', tag + ' completes', r, w):
                    continue
                ctx.equal('stripping', tag + ': keys and nominal values', r.frozen(), want, w)
                ctx.ob('stripping', tag + ': plain', gained(r) is None, gained(r) or '', w)
                ctx.equal('stripping', tag + ': given dictionary unchanged', r.freeze(d), want, w)
                same = [n.u for _, n, _ in atoms(r.freeze(d))] == [n.u for _, n, _ in atoms(want)]
                ctx.ob('stripping', tag + ': given uncertainties kept', same, '', w)


def check(ctx):
    functions(ctx)
    measured(ctx)
    bicycles(ctx)
    strip(ctx)
