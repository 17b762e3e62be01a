"""Abstract interpretation of the naming of oscillation periods, of their collection over
recordings and of the completeness test. The names the inertia computation needs are found
by interpreting it with each period left out in turn; producible names, needed names and
the completeness test must agree for whole and split forks, with and without a flywheel
and with any number of orientations."""
import itertools
import an
import values as V
from common import *
import files
import C18
import C25
TECHNIQUE = 'abstract interpretation of name producers and consumers; exhaustive comparison of the name sets'
ASSUMPTIONS = ['recordings carry the part, pendulum and orientation words documented for the data files']

ORD = ['First', 'Second', 'Third', 'Fourth', 'Fifth', 'Sixth']
PARTS = {False: {'Fwheel': 'F', 'Rwheel': 'R', 'Frame': 'B', 'Flywheel': 'D', 'Fork': 'H', 'Rod': 'P'},
         True: {'Fwheel': 'F', 'Rwheel': 'R', 'Frame': 'B', 'Flywheel': 'D', 'Fork': 'S', 'Handlebar': 'G', 'Rod': 'P'}}


def key(ctx, a, split, **dat):
    st = a.state()
    d = a.I.new_dict(st, {string(k): string(v) for k, v in dat.items()})
    return a.call(a.get('period', 'get_period_key'), [d, V.boolean(split)], {}, st)


def naming(ctx):
    w = ctx.where('period', 'get_period_key')
    made = {False: {}, True: {}}
    for split in (False, True):
        for part, letter in PARTS[split].items():
            for pend in ('Torsional', 'Compound'):
                for i, o in enumerate(ORD):
                    tag = '%s fork %s %s %s' % ('split' if split else 'whole', part, pend, o)
                    with ctx.group('names', tag, w):
                        a = ctx.analysis()
                        want = 'T%s%s%d' % (pend[0].lower(), letter, i + 1)
                        variants = [dict(part=part, pendulum=pend, angleOrder=o), dict(part=part, pendulum=pend, angle=o)]
                        if part == 'Rod':
                            variants.append(dict(part='Rod', pendulum=pend, angleOrder=o, rod='Rod'))
                            variants.append(dict(part='Calrod', pendulum=pend, angleOrder=o, rod='Calrod'))
                        else:
                            variants.append(dict(part=part, pendulum=pend, angleOrder=o, rod='Calrod'))
                        for v in variants:
                            r = key(ctx, a, split, **v)
                            t = '%s by %s%s' % (tag, '/'.join(sorted(v)), ' ' + v.get('rod', '') if 'rod' in v else '')
                            if ctx.no_raise('names', t, r, w):
                                got = getattr(r.value, 'lit', None)
                                ctx.ob('names', t, got == want, 'named %s, wants %s' % (got, want), w)
                                made[split].setdefault(got, set()).add((part if v.get('rod') != part else 'Rod', pend, o))
        for k, v in sorted(made[split].items(), key=str):
            ctx.ob('distinct names', '%s %s' % ('split' if split else 'whole', k), len(v) == 1, 'given to %s' % sorted(v), w)
    return made


def wired(ctx, split, fly, counts, drop):
    """Does the inertia computation succeed, and which results does it give, without one
    measured period?"""
    a = ctx.analysis()
    st = a.state()
    parts = 'BGS' if split else 'BH'
    ks = [k for k in C18.keys(parts, counts, split, fly) if k != drop]
    d = an.sdict(a, st, ks, '', u=True)

    def com(st, args, kw, node):
        return tup([V.var('x%d' % next(a.I.serial), True), V.var('z%d' % next(a.I.serial), True)])
    a.I.stubs[('com', 'center_of_mass')] = com
    a.I.stubs[('inertia', 'inertia_components')] = lambda st, args, kw, node: a.I.new_arr(
        st, [V.var('I%s' % c, True) for c in 'abc'], (3,), 'o')
    a.I.stubs[('geometry', 'calculate_l1_l2')] = lambda st, args, kw, node: tup([V.var('l1', True), V.var('l2', True)])
    r = a.call(a.get('main', 'calculate_benchmark_from_measured'), [d], {}, st)
    if not r.returns:
        return None
    f = r.freeze(a.I.lib.getitem(r.st, r.value, const(0), None))
    return {f.items[i].lit for i in range(0, len(f.items), 2)}


def complete(ctx, split, ks):
    a = ctx.analysis()
    st = a.state()
    r = a.call(a.get('period', 'check_for_period'), [an.sdict(a, st, ks, '', u=True), V.boolean(split)], {}, st)
    if r.raised or r.value not in (TRUE, FALSE):
        return None
    return r.value is FALSE


def needed(ctx, made):
    w = ctx.where('period', 'check_for_period')
    wi = ctx.where('main', 'calculate_benchmark_from_measured')
    for split, fly, counts in itertools.product((False, True), (False, True), [(3, 3, 3), (4, 3, 5), (6, 2, 2), (2, 6, 6)]):
        if not ctx.thorough and fly and counts[0] in (6, 2):
            continue
        parts = 'BGS' if split else 'BH'
        counts = counts[:len(parts)]
        tag = '%s fork%s, %s orientations' % ('split' if split else 'whole', ', flywheel' if fly else '', counts)
        with ctx.group('completeness', tag, w):
            ks = C18.keys(parts, counts, split, fly)
            full = wired(ctx, split, fly, counts, None)
            ctx.ob('needed names are stored names', tag + ' all there', full is not None, 'inertias computed from the full set', wi)
            need = []
            for k in [k for k in ks if k.startswith('T')]:
                got = wired(ctx, split, fly, counts, k)
                if got is None or got != full:
                    need.append(k)
                ctx.ob('needed names are stored names', '%s %s' % (tag, k), k in made[split], 'read by the computation', wi)
            c = complete(ctx, split, ks)
            ctx.ob('completeness', tag + ' complete set', an.UNK if c is None else c, 'taken as %s' % ('complete' if c else 'incomplete'), w)
            # all needed but one, also with other periods present to make up the number
            extra = [k for k in ('TcB2', 'TcD1', 'TtD1', 'TtB7', 'TcH1', 'TtH7', 'TtH8', 'TcS1', 'TcG1', 'TtS7', 'TtG7') if k not in ks]
            for k in need:
                for ex in (False, True):
                    c = complete(ctx, split, [x for x in ks if x != k] + (extra if ex else []))
                    ctx.ob('completeness', '%s without %s%s' % (tag, k, ' but with others' if ex else ''),
                           an.UNK if c is None else not c, 'taken as complete', w)
            none = complete(ctx, split, [x for x in ks if not x.startswith('T')])
            ctx.ob('completeness', tag + ' no periods', an.UNK if none is None else not none, 'taken as complete', w)


def split_test(ctx):
    w = ctx.where('main', 'is_fork_split')
    for split, fly in itertools.product((False, True), repeat=2):
        parts = 'BGS' if split else 'BH'
        for order in (1, -1):
            a = ctx.analysis()
            st = a.state()
            ks = C18.keys(parts, (3, 3, 3), split, fly)[::order]
            r = a.call(a.get('main', 'is_fork_split'), [an.sdict(a, st, ks, '', u=True)], {}, st)
            ctx.ob('fork', '%s%s %d' % ('split' if split else 'whole', ' flywheel' if fly else '', order),
                   r.value is V.boolean(split), V.show(r.value), w)


def small_sets(ctx):
    """Whatever else was measured, separate parts mean a split fork."""
    w = ctx.where('main', 'is_fork_split')
    for want, ks in ((True, ['mS', 'mG']), (True, ['mB', 'mF', 'mR', 'mG', 'mS']), (False, ['mB', 'mF', 'mR', 'mH']), (False, ['mH']),
                     (False, ['mD', 'mH', 'TcD1', 'gamma', 'w', 'f']), (True, ['mD', 'g', 'mS', 'TcS1', 'aS1', 'alphaS1', 'mG'])):
        a = ctx.analysis()
        st = a.state()
        r = a.call(a.get('main', 'is_fork_split'), [an.sdict(a, st, ks, '', u=True)], {}, st)
        ctx.ob('fork', '+'.join(ks), r.value is V.boolean(want), V.show(r.value), w)


RECS = [('Fork', 'Torsional', 'First', 2), ('Frame', 'Torsional', 'Second', 1), ('Frame', 'Compound', 'First', 3),
        ('Fwheel', 'Torsional', 'First', 1), ('Rod', 'Torsional', 'First', 2), ('Rwheel', 'Compound', 'First', 1)]


def collecting(ctx):
    """Every recording goes to the period of its own name; trials are averaged."""
    w = ctx.where('period', 'calc_periods_for_files')
    for split, order, kind in itertools.product((False, True), (1, -1), ('rate', 'actual', 'time')):
        tag = '%s fork, %s%s' % ('split' if split else 'whole', kind, '' if order > 0 else ', reversed')
        with ctx.group('collected', tag, w):
            recs = RECS + ([('Handlebar', 'Torsional', 'Third', 2)] if split else [])
            names, info, want = [], {}, {}
            for part, pend, o, n in recs:
                for i in range(n):
                    f = 'Rigid%s%s%s%d.mat' % (part, pend, o, i + 1)
                    names.append(f)
                    info['/d/RawData/' + f] = (part, pend, o, f)
                    want.setdefault('T%s%s%d' % (pend[0].lower(), PARTS[split][part], ORD.index(o) + 1), []).append(f)
            t = files.Tree(ctx, {p: '' for p in info}, dirs=['/d'])
            a = t.a
            st = a.state()
            calls = []

            def load(st, args, kw, node):
                p = a.I.lib.force(V.restrict(ordered(ctx, 'io', 'load_pendulum_mat_file', args, kw)[0], st.pc)).lit
                part, pend, o, f = info[p]
                d = {'part': string(part), 'pendulum': string(pend), 'angleOrder': string(o), 'data': V.term('data', string(f))}
                if kind == 'time':
                    d['time'] = V.term('time', string(f))
                else:
                    d['sampleRate'] = V.term('rate', string(f))
                    if kind == 'actual':
                        d['ActualRate'] = V.term('actual', string(f))
                return a.I.new_dict(st, {string(k): v for k, v in d.items()})
            a.I.stubs[('io', 'load_pendulum_mat_file')] = load

            def fit(st, args, kw, node):
                ar = [a.I.freeze(st, x) if x is not None else None for x in
                      ordered(ctx, 'period', 'get_period_from_truncated', args, kw)]
                calls.append(ar)
                f = ar[0].args[0].lit if getattr(ar[0], 'head', None) == 'data' else '?'
                return V.var('T:' + f, True)
            a.I.stubs[('period', 'get_period_from_truncated')] = fit
            r = a.call(a.get('period', 'calc_periods_for_files'),
                       [string('/d/RawData'), a.I.new_list(st, [string(x) for x in names[::order]]), V.boolean(split)], {}, st)
            if not ctx.no_raise('collected', tag, r, w):
                continue
            v = r.frozen()
            got = {getattr(v.items[i], 'lit', '?'): v.items[i + 1] for i in range(0, len(v.items), 2)}
            ctx.ob('collected', tag + ' names', sorted(got) == sorted(want), 'names %s, wants %s' % (sorted(got), sorted(want)), w)
            for k, fs in want.items():
                if k in got:
                    acc = None
                    for f in fs:
                        x = V.var('T:' + f, True).rf
                        acc = x if acc is None else acc + x
                    ctx.equal('averaged', '%s %s' % (tag, k), got[k], num(acc / ring.const(len(fs)), True), w)
                    ctx.ob('averaged', '%s %s uncertain' % (tag, k), isinstance(got[k], V.Num) and got[k].u, '', w)
            plots = set()
            for c in calls:
                f = c[0].args[0].lit if getattr(c[0], 'head', None) == 'data' else None
                h = {'rate': 'rate', 'actual': 'actual', 'time': 'time'}[kind]
                ctx.ob('signal', '%s %s' % (tag, f), getattr(c[1], 'head', None) == h and c[1].args[0].lit == f,
                       'fitted with %s' % V.show(c[1]), w)
                p = getattr(c[2], 'lit', None)
                ctx.ob('signal', '%s %s plot' % (tag, f), p is not None and p not in plots and
                       p.startswith('/d/Plots/'), 'plot in %s' % p, w)
                plots.add(p)
            ctx.ob('signal', tag + ' each once', len(calls) == len(names), '%d fits for %d files' % (len(calls), len(names)), w)


def loading(ctx):
    """What a recording's file holds is passed on, but for the header and clashing rates."""
    w = ctx.where('io', 'load_pendulum_mat_file')
    for notes, time, rate in itertools.product(('text', 'empty', 'array'), (False, True), (False, True)):
        tag = 'notes %s%s%s' % (notes, ', time' if time else '', ', rate' if rate else '')
        with ctx.group('recording', tag, w):
            a = ctx.analysis()
            st = a.state()
            base = {'part': string('Fork'), 'pendulum': string('Torsional'), 'angle': string('First'), 'data': V.term('data'),
                    'trial': const(1)}
            if time:
                base['time'] = V.term('time')
            if rate:
                base['sampleRate'] = V.var('rate')
                base['duration'] = V.var('duration')

            def loadmat(st, args, kw, node):
                d = dict(base)
                for k in ('__globals__', '__header__', '__version__'):
                    d[k] = string(k)
                d['notes'] = string('windy') if notes == 'text' else a.I.new_arr(st, [], (0,)) if notes == 'empty' else \
                    a.I.new_arr(st, [const(1)], (1,))
                tgt = kw.get('mdict', args[1] if len(args) > 1 else None)
                if tgt is None:
                    return a.I.new_dict(st, {string(k): v for k, v in d.items()})
                for k, v in d.items():
                    a.I.lib.setitem(st, tgt, string(k), v, node)
                return tgt
            a.I.lib.ext['scipy.io.loadmat'] = a.I.lib.ext['scipy.io.matlab.loadmat'] = loadmat
            r = a.call(a.get('io', 'load_pendulum_mat_file'), [string('/d/a.mat')], {}, st)
            if not ctx.no_raise('recording', tag, r, w):
                continue
            v = r.frozen()
            got = {getattr(v.items[i], 'lit', '?'): v.items[i + 1] for i in range(0, len(v.items), 2)}
            want = set(base) | {'notes'}
            if time:
                want -= {'sampleRate', 'duration'}
            ctx.ob('recording', tag, set(got) == want, 'holds %s' % sorted(got), w)
            for k in want & set(got):
                if k != 'notes':
                    ctx.equal('recording', '%s %s' % (tag, k), got[k], base[k], w)
            if notes == 'empty':
                ctx.ob('recording', tag + ' empty notes', getattr(got.get('notes'), 'lit', None) == '', V.show(got.get('notes', NONE)), w)


def rate(ctx):
    w = ctx.where('period', 'get_sample_rate')
    for ks in (['sampleRate'], ['ActualRate'], ['sampleRate', 'ActualRate']):
        a = ctx.analysis()
        st = a.state()
        r = a.call(a.get('period', 'get_sample_rate'), [an.sdict(a, st, ks, '')], {}, st)
        if ctx.no_raise('rate', '+'.join(ks), r, w):
            ctx.equal('rate', '+'.join(ks), r.value, V.var(ks[-1]), w)


def check(ctx):
    small_sets(ctx)
    made = naming(ctx)
    needed(ctx, made)
    split_test(ctx)
    collecting(ctx)
    loading(ctx)
    rate(ctx)
    C25.loading(Only(ctx, lambda rule, con: rule == 'periods'))
