"""Abstract interpretation of saving over a literal file system: the files and their
content come from the write effects, for every number and order of sets. The directory
that results is given to the interpreted loader, which must key the same values by the
same set names."""
import itertools
import an
import values as V
from common import *
import files
from C22 import value_of
TECHNIQUE = 'effect analysis of saved files (abstract interpretation) fed back into the interpreted loader'
ASSUMPTIONS = ['bicycle, rider and set names are single capitalised words, as documented']

SETS3 = ['Benchmark', 'Meijaard', 'Extra']


def params(a, st, pre, sets):
    return a.I.new_dict(st, {string(s): a.I.new_dict(st, {string(k): V.var('%s%s.%s' % (pre, s, k), k == 'c') for k in ('c', 'lam', 'mB')})
                             for s in sets})


def content(parts):
    """name -> variable written for it"""
    out = {}
    for l in files.lines(parts)[0]:
        l = files.merged(l)
        v, _ = value_of(l[1]) if len(l) > 1 else (None, 0)
        if isinstance(v, V.Num):
            at = list(ring.all_atoms(v.rf).values())
            out[l[0].split('=')[0].strip()] = V.show(v)
    return out


def save(ctx, bike, rider, sets, existing=(), only=None):
    t = files.Tree(ctx, {p: 'old = 1\n' for p in existing}, ['y'] * 20, dirs=['/data/bicycles/' + bike])
    a = t.a
    st = a.state()
    attrs = {'bicycleName': string(bike), 'directory': string('/data/bicycles/' + bike), 'hasRider': V.boolean(bool(rider)),
             'parameters': params(a, st, 'b', sets), 'riderPar': params(a, st, 'r', [s for s in sets if s != 'Measured' and (only is None or s in only)] if rider else []),
             'human': NONE}
    if rider:
        attrs['riderName'] = string(rider)
    b = instance(a, st, 'main', 'Bicycle', attrs)
    r = a.method(b, 'save_parameters', [], {}, st)
    return t, r


def saving(ctx):
    w = ctx.where('main', 'Bicycle.save_parameters')
    wl = ctx.where('main', 'Bicycle.__init__')
    for n in (1, 2, 3):
        for sets in itertools.permutations(SETS3, n):
            for measured in (False, True):
                for rider in (None, 'Jason'):
                    ss = list(sets)
                    if measured:
                        ss.insert(1, 'Measured')
                    for bike in ('Rigid', 'Benchmark', 'Bianchipista') if n == 3 else ('Rigid',):
                        tag = '%s%s %s' % (bike, ' with ' + rider if rider else '', '+'.join(ss))
                        with ctx.group('files', tag, w):
                            one(ctx, tag, bike, rider, ss, w, wl)


def rider_sets(ctx):
    """A rider has the sets that were combined, the bicycle may have others."""
    w = ctx.where('main', 'Bicycle.save_parameters')
    for sets in itertools.permutations(SETS3, 2):
        if 'Benchmark' in sets:
            tag = 'Rigid with Jason (Benchmark only) %s' % '+'.join(sets)
            with ctx.group('files', tag, w):
                one(ctx, tag, 'Rigid', 'Jason', list(sets) + ['Measured'], w, w, ['Benchmark'])


def one(ctx, tag, bike, rider, ss, w, wl, only=None):
    t, r = save(ctx, bike, rider, ss, only=only)
    if not ctx.no_raise('completes', tag, r, w):
        return
    out = files.written(r.events)
    want = {}
    for s in ss:
        if s == 'Measured' or only is not None and s not in only:
            continue
        if rider:
            d = '/data/riders/%s/Parameters/' % rider
            want[d + rider + bike + s + '.txt'] = ('r', s)
            want[d + 'Combined/' + rider + bike + s + '.txt'] = ('b', s)
        else:
            want['/data/bicycles/%s/Parameters/%s%s.txt' % (bike, bike, s)] = ('b', s)
    ctx.ob('files', tag, sorted(out) == sorted(want), 'wrote %s, wants %s' % (sorted(out), sorted(want)), w)
    # a file is written once
    ops = [files.path_of(e.data[0]) for e in r.events if e.kind == 'open' and e.data[2] == 'w']
    ctx.ob('files', tag + ' once each', len(ops) == len(set(ops)), '%s' % ops, w)
    for p, (pre, s) in sorted(want.items()):
        if p in out:
            got = content(out[p])
            exp = {k: V.show(V.var('%s%s.%s' % (pre, s, k), k == 'c')) for k in ('c', 'lam', 'mB')}
            ctx.ob('content', '%s %s' % (tag, p), got == exp, 'values %s' % sorted(got.items()), w)
    if rider:
        return
    texts = {p: '' for p in out}
    for order in ((lambda x: sorted(x)), (lambda x: sorted(x, reverse=True))):
        t2 = files.Tree(ctx, texts, dirs=['/data/bicycles/' + bike], listdir_order=order)
        a = t2.a
        st = a.state()
        a.I.stubs[('io', 'load_parameter_text_file')] = lambda st, args, kw, node: V.term(
        'loaded', a.I.lib.force(V.restrict(ordered(ctx, 'io', 'load_parameter_text_file', args, kw)[0], st.pc)))
        if 'Benchmark' not in ss:
            continue
        r2 = a.call(a.get('main', 'Bicycle'), [string(bike)], {'pathToData': string('/data')}, st)
        if not ctx.no_raise('reload', tag, r2, wl):
            continue
        ps = r2.freeze(a.I.lib.getattr(r2.st, r2.value, 'parameters', None))
        got = {getattr(ps.items[i], 'lit', '?'): ps.items[i + 1] for i in range(0, len(ps.items), 2)}
        got.pop('Measured', None)
        exp = {s: '/data/bicycles/%s/Parameters/%s%s.txt' % (bike, bike, s) for s in ss if s != 'Measured'}
        ctx.ob('reload', tag, sorted(got) == sorted(exp), 'keys %s' % sorted(got), wl)
        for s in exp:
            if s in got:
                v = got[s]
                ctx.ob('reload', '%s %s' % (tag, s), getattr(v, 'head', None) == 'loaded' and v.args[0].lit == exp[s],
                       V.show(v), wl)


def rider_reload(ctx):
    """The rider file that is saved is the one add_rider looks for."""
    w = ctx.where('main', 'Bicycle.add_rider')
    for bike, rider in (('Rigid', 'Jason'), ('Browser', 'Luke'), ('Jason', 'Rigid')):
        tag = '%s on %s' % (rider, bike)
        with ctx.group('rider reload', tag, w):
            t, r = save(ctx, bike, rider, ['Benchmark'])
            if not ctx.no_raise('completes', tag, r, w):
                continue
            mine = [p for p, parts in files.written(r.events).items() if 'rBenchmark.c' in str(content(parts))]
            t2 = files.Tree(ctx, {p: '' for p in mine}, dirs=['/data/bicycles/' + bike])
            a = t2.a
            st = a.state()
            a.I.stubs[('io', 'load_parameter_text_file')] = lambda st, args, kw, node: V.term(
        'loaded', a.I.lib.force(V.restrict(ordered(ctx, 'io', 'load_parameter_text_file', args, kw)[0], st.pc)))
            a.I.stubs[('inertia', 'combine_bike_rider')] = lambda st, args, kw, node: V.term(
                'combined', *ordered(ctx, 'inertia', 'combine_bike_rider', args, kw))
            b = instance(a, st, 'main', 'Bicycle', {
                'bicycleName': string(bike), 'directory': string('/data/bicycles/' + bike), 'hasRider': FALSE,
                'parameters': a.I.new_dict(st, {string('Benchmark'): V.term('own')}), 'riderPar': a.I.new_dict(st, {}), 'human': NONE})
            r = a.method(b, 'add_rider', [string(rider)], {}, st)
            if not ctx.no_raise('rider reload', tag, r, w):
                continue
            rp = r.freeze(a.I.lib.getattr(r.st, b, 'riderPar', None))
            got = rp.items[1] if len(rp.items) == 2 and rp.items[0].lit == 'Benchmark' else None
            ctx.ob('rider reload', tag, len(mine) == 1 and getattr(got, 'head', None) == 'loaded' and got.args[0].lit == mine[0],
                   'saved as %s, loaded %s' % (mine, got and V.show(got)), w)


def check(ctx):
    rider_sets(ctx)
    saving(ctx)
    rider_reload(ctx)
