"""Abstract interpretation of loading over every combination of existing directories and
files and of the force flags, with file contents as tokens named by their path: which
parameter set ends up under which key, what is recalculated from what, and when loading
refuses. The same for adding a rider, with and without a saved rider file."""
import itertools
import an
import values as V
from common import *
import files
TECHNIQUE = 'configuration-exhaustive abstract interpretation with provenance tokens for file contents'
ASSUMPTIONS = ['the computations started by loading are those decided in C12, C18 and C21']
D = '/data/bicycles/Rigid'
RAW = D + '/RawData/RigidMeasured.txt'


def loader(ctx, a, t):
    def load(st, args, kw, node):
        p = a.I.lib.force(V.restrict(ordered(ctx, 'io', 'load_parameter_text_file', args, kw)[0], st.pc))
        if getattr(p, 'lit', None) is None:
            return a.I.lib.opaque_call(st, 'load', None, args, kw, node)
        q = t.norm(p.lit)
        if q not in t.texts:
            a.I.raise_(st, 'FileNotFoundError', string(q), node)
        d = {string('from'): string(q), string('mB'): V.var(q, True)}
        if q == RAW:
            # periods calculated on an earlier occasion
            d[string('TcB1')] = V.var('stale', True)
            d[string('TcF1')] = V.var('entered', True)
            if t.split:
                d[string('mS')] = V.var('mS', True)
                d[string('mG')] = V.var('mG', True)
        return a.I.new_dict(st, d)
    a.I.stubs[('io', 'load_parameter_text_file')] = load


def source(d):
    """Where a frozen parameter dictionary came from."""
    if isinstance(d, V.Frozen) and d.kind == 'dict':
        for i in range(0, len(d.items), 2):
            if getattr(d.items[i], 'lit', None) == 'from':
                return d.items[i + 1].lit
    if getattr(d, 'head', None) in ('computed', 'combined', 'configured'):
        return '%s(%s)' % (d.head, ', '.join(str(source(x)) for x in d.args))
    return V.show(d)[:80]


def as_dict(v):
    return {getattr(v.items[i], 'lit', '?'): v.items[i + 1] for i in range(0, len(v.items), 2)}


def entries(r, a, o, attr):
    v = r.freeze(a.I.lib.getattr(r.st, o, attr, None))
    return {getattr(v.items[i], 'lit', '?'): source(v.items[i + 1]) for i in range(0, len(v.items), 2)}


def setup(ctx, texts, dirs, period_missing, split=False):
    t = files.Tree(ctx, texts, dirs=dirs)
    t.split = split
    t.asked = []
    t.stored = []
    a = t.a
    loader(ctx, a, t)
    calls = []

    def calc(st, args, kw, node):
        calls.append([a.I.freeze(st, x) for x in ordered(ctx, 'period', 'calc_periods_for_files', args, kw)])
        return a.I.new_dict(st, {string('TcB1'): V.var('calculated', True)})
    a.I.stubs[('period', 'calc_periods_for_files')] = calc

    def asked(st, args, kw, node):
        t.asked.append([a.I.freeze(st, x) for x in ordered(ctx, 'period', 'check_for_period', args, kw)])
        return V.boolean(period_missing)
    a.I.stubs[('period', 'check_for_period')] = asked

    def stored(st, args, kw, node):
        t.stored.append([a.I.freeze(st, x) for x in ordered(ctx, 'io', 'write_periods_to_file', args, kw)])
        return NONE
    a.I.stubs[('io', 'write_periods_to_file')] = stored
    a.I.stubs[('main', 'calculate_benchmark_from_measured')] = lambda st, args, kw, node: tup(
        [V.term(h, a.I.freeze(st, ordered(ctx, 'main', 'calculate_benchmark_from_measured', args, kw)[0])) for h in ('computed', 'extras')])
    return t, a, calls


def loading(ctx):
    w = ctx.where('main', 'Bicycle.__init__')
    wc = ctx.where('main', 'Bicycle.calculate_from_measured')
    par = {'no Parameters': None, 'empty Parameters': [], 'Benchmark file': ['Benchmark'],
           'other file': ['Meijaard'], 'two files': ['Benchmark', 'Meijaard']}
    raw = {'no RawData': None, 'RawData without measurements': ['a.mat'], 'measurements': ['RigidMeasured.txt'],
           'measurements and signals': ['RigidMeasured.txt', 'RigidForkB1.mat', 'notes.doc', 'RigidForkA1.mat', 'RigidForkA2.mat', 'Rigid.mat.bak', 'mat']}
    for (pn, ps), (rn, rs), force, fp, miss, split in itertools.product(par.items(), raw.items(), (False, True), (False, True), (False, True), (False, True)):
        if (miss or split) and not (rs and 'RigidMeasured.txt' in rs):
            continue
        tag = '%s, %s%s%s%s%s' % (pn, rn, ', forced' if force else '', ', periods forced' if fp else '', ', periods missing' if miss else '', ', split fork' if split else '')
        texts = {}
        dirs = [D]
        if ps is not None:
            dirs.append(D + '/Parameters')
            texts.update({D + '/Parameters/Rigid%s.txt' % x: '' for x in ps})
        if rs is not None:
            dirs.append(D + '/RawData')
            texts.update({D + '/RawData/' + x: '' for x in rs})
        has = rs is not None and 'RigidMeasured.txt' in rs
        bench = ps is not None and 'Benchmark' in ps
        with ctx.group('policy', tag, w):
            t, a, calls = setup(ctx, texts, dirs, miss, split)
            st = a.state()
            r = a.call(a.get('main', 'Bicycle'), [string('Rigid')],
                       {'pathToData': string('/data'), 'forceRawCalc': V.boolean(force), 'forcePeriodCalc': V.boolean(fp)}, st)
            said = any('no data available' in V.show(x) for e in r.events if e.kind == 'print' for x in e.data)
            fails = not r.returns
            if not has and (force or not bench):
                ctx.ob('refused or reported', tag, fails or said, 'loads without saying that there is no data', w)
                if not fails:
                    got = entries(r, a, r.value, 'parameters')
                    ctx.ob('policy', tag + ' no invented data', not any('computed' in v for v in got.values()), str(got), w)
                continue
            if not ctx.no_raise('policy', tag, r, w):
                continue
            got = entries(r, a, r.value, 'parameters')
            want = {x: D + '/Parameters/Rigid%s.txt' % x for x in ps or []}
            recalc = has and (force or not bench)
            if recalc:
                want['Benchmark'] = 'computed(%s)' % RAW
            if has:
                want['Measured'] = RAW
            ctx.ob('policy', tag, got == want, 'got %s, wants %s' % (sorted(got.items()), sorted(want.items())), w)
            ctx.ob('policy', tag + ' no rider', a.I.lib.getattr(r.st, r.value, 'hasRider', None) is FALSE, '', w)
            if recalc:
                ex = r.freeze(a.I.lib.getattr(r.st, r.value, 'extras', None))
                ctx.ob('policy', tag + ' extras', getattr(ex, 'head', None) == 'extras' and source(ex.args[0]) == RAW, V.show(ex)[:100], w)
                need = fp or miss
                ctx.ob('periods', tag, len(calls) == (1 if need else 0), '%d calculations of periods' % len(calls), wc)
                for c in calls:
                    mats = [x for x in c[1].items] if isinstance(c[1], V.Frozen) else []
                    mats = sorted(x.lit for x in mats)
                    ctx.ob('periods', tag + ' files', c[0].lit == D + '/RawData' and
                           mats == sorted(x for x in rs if x.endswith('.mat')), 'files %s of %s' % (mats, c[0].lit), wc)
                    ctx.ob('periods', tag + ' fork', c[2] is V.boolean(split), 'fork taken as split: %s' % V.show(c[2]), wc)
                for c in t.asked:
                    ctx.ob('periods', tag + ' fork asked', c[1] is V.boolean(split), 'fork taken as split: %s' % V.show(c[1]), wc)
                for c in t.stored if need else ():
                    d = as_dict(c[1])
                    ctx.equal('periods', tag + ' stored', d.get('TcB1', NONE), V.var('calculated', True), wc)
                    ctx.ob('periods', tag + ' stored in', getattr(c[0], 'lit', None) == RAW, V.show(c[0]), wc)
                if need:
                    al = as_dict(r.freeze(a.I.lib.getattr(r.st, r.value, 'parameters', None)))
                    v = as_dict(al['Measured']).get('TcB1')
                    if v is None:
                        ctx.ob('periods', tag + ' used', False, 'calculated periods are not among the measured parameters', wc)
                    else:
                        ctx.equal('periods', tag + ' used', v, V.var('calculated', True), wc)
                    ctx.equal('periods', tag + ' others kept', as_dict(al['Measured']).get('TcF1', NONE), V.var('entered', True), wc)
                    cb = al['Benchmark']
                    ks = [x.lit for x in cb.args[0].items[::2]] if cb.args and isinstance(cb.args[0], V.Frozen) else []
                    ctx.ob('periods', tag + ' before the calculation', 'TcB1' in ks, 'calculated from %s' % ks, wc)
                    if 'TcB1' in ks:
                        ctx.equal('periods', tag + ' before the calculation, value', as_dict(cb.args[0])['TcB1'], V.var('calculated', True), wc)
            else:
                ctx.ob('periods', tag, not calls, '%d calculations of periods' % len(calls), wc)
    for nm, dirs in (('missing directory', ['/data/bicycles']), ('other bicycle', ['/data/bicycles/Browser'])):
        with ctx.group('policy', nm, w):
            t, a, calls = setup(ctx, {}, dirs, False)
            r = a.call(a.get('main', 'Bicycle'), [string('Rigid')], {'pathToData': string('/data')}, a.state())
            ctx.ob('refused or reported', nm, not r.returns and bool(r.raised) and all(x.exc[0] == 'ValueError' for x in r.raised),
                   'raises %s' % sorted({x.exc[0] for x in r.raised}), w)


def riding(ctx):
    w = ctx.where('main', 'Bicycle.add_rider')
    R = '/data/riders/Jason'
    saved = R + '/Parameters/JasonRigidBenchmark.txt'
    for has, meas, re, draw, again in itertools.product((False, True), repeat=5):
        tag = '%s%s%s%s%s' % ('saved rider' if has else 'no saved rider', ', measurements' if meas else '', ', recalculated' if re else '',
                              ', drawn' if draw else '', ', second rider' if again else '')
        with ctx.group('rider', tag, w):
            t, a, _ = setup(ctx, {saved: ''} if has else {}, [R + '/Parameters', D], False)
            conf = []

            def configure(st, args, kw, node):
                args = ordered(ctx, 'rider', 'configure_rider', args, kw)
                conf.append([a.I.freeze(st, x) for x in args])
                return tup([V.term('configured', a.I.freeze(st, args[2]), a.I.freeze(st, args[3])), V.term('human'),
                            V.term('combined', a.I.freeze(st, args[2]), V.term('configured', a.I.freeze(st, args[2]), a.I.freeze(st, args[3])))])
            a.I.stubs[('rider', 'configure_rider')] = configure
            a.I.stubs[('inertia', 'combine_bike_rider')] = lambda st, args, kw, node: V.term(
                'combined', *[a.I.freeze(st, x) for x in ordered(ctx, 'inertia', 'combine_bike_rider', args, kw)])
            st = a.state()
            own = V.term('own')
            ps = {string('Benchmark'): own}
            if meas:
                ps[string('Measured')] = V.term('measured')
            b = instance(a, st, 'main', 'Bicycle', {
                'bicycleName': string('Rigid'), 'directory': string(D), 'hasRider': V.boolean(again),
                'parameters': a.I.new_dict(st, ps), 'riderPar': a.I.new_dict(st, {}), 'human': NONE,
                'riderName': string('Luke') if again else NONE})
            r = a.method(b, 'add_rider', [string('Jason')], {'reCalc': V.boolean(re), 'draw': V.boolean(draw)}, st)
            calc = re or draw or not has
            if again:
                if ctx.no_raise('rider', tag, r, w):
                    ctx.equal('rider', tag + ' unchanged', r.freeze(a.I.lib.getattr(r.st, b, 'parameters', None)),
                              a.I.freeze(st, a.I.new_dict(st, ps)), w)
                    ctx.ob('rider', tag + ' name', a.I.lib.getattr(r.st, b, 'riderName', None).lit == 'Luke', '', w)
                continue
            if calc and not meas:
                ctx.ob('refused or reported', tag, not r.returns, 'adds a rider without measurements to place it', w)
                continue
            if not ctx.no_raise('rider', tag, r, w):
                continue
            ctx.ob('rider', tag + ' source', len(conf) == (1 if calc else 0), '%d configurations' % len(conf), w)
            for c in conf:
                ok = c[0].lit == R and c[1].lit == 'Rigid' and c[2] is own and getattr(c[3], 'head', None) == 'measured' and \
                    c[4] is V.boolean(draw)
                ctx.ob('rider', tag + ' inputs', ok, 'configured with %s' % [V.show(x)[:50] for x in c], w)
            rp = V.term('configured', own, V.term('measured')) if calc else None
            got = r.freeze(a.I.lib.getitem(r.st, a.I.lib.getattr(r.st, b, 'riderPar', None), string('Benchmark'), None))
            ctx.ob('rider', tag + ' rider set', source(got) == (source(rp) if calc else saved), source(got), w)
            gb = r.freeze(a.I.lib.getitem(r.st, a.I.lib.getattr(r.st, b, 'parameters', None), string('Benchmark'), None))
            ctx.ob('rider', tag + ' bicycle set', getattr(gb, 'head', None) == 'combined' and gb.args[0] is own and gb.args[1] is got,
                   source(gb), w)
            ctx.ob('rider', tag + ' flags', a.I.lib.getattr(r.st, b, 'hasRider', None) is TRUE and
                   a.I.lib.getattr(r.st, b, 'riderName', None).lit == 'Jason', '', w)
            hu = a.I.lib.getattr(r.st, b, 'human', None)
            ctx.ob('rider', tag + ' human', getattr(hu, 'head', None) == 'human' if calc else hu is NONE, V.show(hu), w)


def later(ctx):
    """After a rider is added the matrices are those of the combined set."""
    w = ctx.where('main', 'Bicycle.canonical')
    with ctx.group('rider', 'later queries', w):
        a = ctx.analysis()
        st = a.state()
        b = bicycle(a, st, u=False, extra=None, attrs=None, keys=M07, measured=None)
        a.I.stubs[('inertia', 'combine_bike_rider')] = lambda st, args, kw, node: an.sdict(a, st, M07, 'combined_')
        rd = an.sdict(a, st, ['IBxx', 'IByy', 'IBzz', 'IBxz', 'mB', 'xB', 'yB', 'zB'], 'rider_')
        a.I.stubs[('io', 'load_parameter_text_file')] = lambda st, args, kw, node: rd
        r = a.method(b, 'add_rider', [string('Jason')], {}, st)
        if ctx.no_raise('rider', 'later queries', r, w):
            r2 = a.method(b, 'canonical', [], {}, r.st)
            c = bicycle(a, st, u=False, prefix='combined_', keys=M07)
            st3 = a.state()
            c = bicycle(a, st3, u=False, prefix='combined_', keys=M07)
            r3 = a.method(c, 'canonical', [], {}, st3)
            if ctx.no_raise('rider', 'later queries canonical', r2, w):
                ctx.equal('rider', 'later queries', r2.frozen(), r3.frozen(), w)


def check(ctx):
    loading(ctx)
    riding(ctx)
    later(ctx)
