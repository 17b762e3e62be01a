"""Effect analysis of saving periods: the writer is interpreted over literal measurement
files (with and without final newline, comments, blank lines, periods in every position)
and symbolic periods. The final text is reassembled from the write effects: the lines that
do not define a period must be the old ones, verbatim and in order, and every period of
the given set must stand exactly once, on a line of its own, with its own value."""
import itertools
import an
import values as V
from common import *
import files
from C22 import value_of, ufloats
TECHNIQUE = 'effect analysis of file rewrites, line by line, over literal files and symbolic periods'
ASSUMPTIONS = ['period names start with T (see C21); no other measured quantity does']

BASE = ['# Rigid, measured 2010-10-11', 'mB = 10.0+/-0.02', '', 'alphaB1 = 1.57+/-0.01 # Torsional', 'notes = 3 # T is not here',
        'gamma = 0.4, 0.41, 0.42']
PER = ['TcB1', 'TcF1', 'TtB1', 'TtB2', 'TtP1']
MORE = ['TcR1', 'TcH1', 'TcS1', 'TcG1', 'TcD1', 'TtF1', 'TtR1', 'TtD1', 'TtH1', 'TtS3', 'TtG6', 'TtB11']


def name(line):
    return line.split('#')[0].split('=')[0].strip()


def is_period(line):
    return line.strip().startswith('T') and '=' in line


def cases():
    old = ['%s = 1.5+/-0.01' % p for p in PER]
    yield 'no periods yet', BASE
    yield 'all periods at the end', BASE + old
    yield 'all periods first', old + BASE
    yield 'periods between', [x for i, b in enumerate(BASE) for x in (b, old[i % 5])][:-1]
    yield 'period last, another line before', old[:2] + BASE + old[2:3]
    yield 'some periods', BASE[:3] + old[1:3] + BASE[3:]
    yield 'only periods', old
    yield 'twice', BASE + old + old[:2]
    yield 'indented and unspaced', BASE + ['  TcB1 = 1.0', 'TcF1=2.0+/-0.1']
    yield 'empty', []
    yield 'one line', BASE[1:2]


def final(r):
    out = files.written(r.events)
    return out


def judge(ctx, tag, parts, old, want, w, complete=True):
    ls, done = files.lines(parts)
    ls = [files.merged(l) for l in ls]
    ctx.ob('line structure', tag + ' terminated', done or not ls, 'last line ends with a newline', w)
    rest, per = [], {}
    for l in ls:
        head = l[0] if l and isinstance(l[0], str) else ''
        if is_period(head) or (l and not isinstance(l[0], str)):
            per.setdefault(name(head), []).append(l)
        else:
            rest.append(l[0] if len(l) == 1 else '' if not l else l)
    keep = [x for x in old if not is_period(x)]
    # blank lines at the very end are not content
    strip = lambda xs: xs[:-1] if xs and xs[-1] == '' else xs
    ctx.ob('other lines kept', tag, strip(rest) == strip(keep), 'kept %s of %s' % (rest, keep), w)
    for k in sorted(want):
        x = per.get(k, [])
        ctx.ob('each period once', '%s %s' % (tag, k), len(x) == 1, '%d lines' % len(x), w)
        for l in x[:1]:
            vs = [y for y in l if not isinstance(y, str)]
            txt = ''.join(y for y in l if isinstance(y, str))
            if want[k] is None:
                continue
            if len(vs) != 1:
                ctx.ob('own line', '%s %s' % (tag, k), False, 'line %s' % [y if isinstance(y, str) else V.show(y) for y in l], w)
                continue
            ctx.ob('own line', '%s %s' % (tag, k), ''.join(txt.split()) == k + '=' and l.index(vs[0]) > 0, 'text %r' % txt, w)
            got, plain = value_of(vs[0])
            if got is None:
                ctx.ob('value', '%s %s' % (tag, k), an.UNK, V.show(vs[0]), w)
                continue
            ctx.ob('value', '%s %s unformatted' % (tag, k), plain, V.show(vs[0]), w)
            ctx.equal('value', '%s %s' % (tag, k), got, want[k], w)
            ctx.ob('value', '%s %s uncertain' % (tag, k), got.u == want[k].u, '', w)
    if complete:
        ctx.ob('each period once', tag + ' no others', set(per) <= set(want), 'periods %s' % sorted(per), w)


def writer(ctx):
    w = ctx.where('io', 'write_periods_to_file')
    for (nm, ls), end, order, others, every in itertools.product(cases(), ('\n', ''), (1, -1), (False, True), (False, True)):
        if every and (order < 0 or not others):
            continue
        tag = '%s%s%s%s' % (nm, '' if end else ', no final newline', '' if order > 0 else ', reversed',
                            ', every period' if every else ', whole set' if others else '')
        with ctx.group('rewrite', tag, w):
            text = '\n'.join(ls) + (end if ls else '')
            t = files.Tree(ctx, {'/d/RigidMeasured.txt': text})
            a = t.a
            st = a.state()
            per = {k: V.var(k, k != 'TtB2') for k in PER + (MORE if every else [])}
            d = dict(per)
            if others:
                d.update({k: V.var(k) for k in ('mB', 'alphaB1', 'gamma', 'lT', 'notes')})
            d = {k: d[k] for k in list(d)[::order]}
            r = a.call(a.get('io', 'write_periods_to_file'),
                       [string('/d/RigidMeasured.txt'), a.I.new_dict(st, {string(k): v for k, v in d.items()})], {}, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            out = final(r)
            ctx.ob('the file only', tag, list(out) == ['/d/RigidMeasured.txt'], 'wrote %s' % sorted(out), w)
            judge(ctx, tag, out.get('/d/RigidMeasured.txt', []), ls, per, w)


def pipeline(ctx):
    """Recalculating periods for a bicycle: periods entered by hand stay in the file."""
    w = ctx.where('main', 'Bicycle.calculate_from_measured')
    path = '/data/bicycles/Rigid/RawData/RigidMeasured.txt'
    for nm, old, new in (('nothing entered', BASE, PER), ('one entered by hand', BASE + ['TcB1 = 1.25+/-0.01'], PER[1:]),
                         ('entered and recalculated', BASE + ['TcB1 = 1.25+/-0.01', 'TtP1 = 3.0'], PER[:3])):
        for end in ('\n', ''):
            tag = nm + ('' if end else ', no final newline')
            with ctx.group('pipeline', tag, w):
                t = files.Tree(ctx, {path: '\n'.join(old) + end, path.replace('Measured.txt', 'ForkTorsionalFirst1.mat'): ''})
                a = t.a
                ufloats(a)
                st = a.state()
                per = {k: V.var(k, True) for k in new}
                a.I.stubs[('period', 'calc_periods_for_files')] = lambda st, args, kw, node: a.I.new_dict(
                    st, {string(k): v for k, v in per.items()})
                a.I.stubs[('main', 'calculate_benchmark_from_measured')] = lambda st, args, kw, node: tup(
                    [ordered(ctx, 'main', 'calculate_benchmark_from_measured', args, kw)[0], NONE])
                b = instance(a, st, 'main', 'Bicycle', {'bicycleName': string('Rigid'), 'directory': string('/data/bicycles/Rigid'),
                                                        'parameters': a.I.new_dict(st, {})})
                r = a.method(b, 'calculate_from_measured', [], {'forcePeriodCalc': TRUE}, st)
                if not ctx.no_raise('completes', tag, r, w):
                    continue
                out = final(r)
                want = {name(x): None for x in old if is_period(x)}
                want.update(per)
                ctx.ob('the file only', tag, list(out) == [path], 'wrote %s' % sorted(out), w)
                judge(ctx, tag, out.get(path, []), old, want, w)


def check(ctx):
    writer(ctx)
    pipeline(ctx)
