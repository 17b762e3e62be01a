"""Abstract interpretation of Table over bicycles whose parameter values are distinct
opaque tokens: the stored rows and every cell of the generated text are traced back to
the bicycle and variable they came from. Generating twice must give the same text and
leave the stored rows alone; the rounding function is followed over every digit pattern
of the uncertainty; the LaTeX symbols of the variables are compared pairwise."""
import itertools
import an
import values as V
from common import *
TECHNIQUE = 'value-graph dataflow with uninterpreted cell tokens traced through table layout'
ASSUMPTIONS = ['the formatted text of a value is an opaque token in the table checks']

NAMES = ['IBxx', 'lam', 'c', 'mB', 'g']
BIKES = [('Rigid', NAMES), ('Stratosl', ['lam', 'IBxx', 'zH', 'c']), ('B', ['g', 'mB', 'zH', 'IBxx', 'lam', 'c'])]

# names that differ only in the case of their letters
CASED = [('Rigid', ['lP', 'lp', 'dP', 'xb']), ('B', ['xB', 'lp', 'mp']), ('Yellow', ['dp', 'lP', 'mP', 'xB', 'xb'])]


def token(b, k, sig):
    return '%s%s%s' % ('s' * (2 + len(k)) if sig else 'v', b, k)


def bikes(a, st, source, unc, which):
    out = []
    for b, ks in which:
        d = a.I.new_dict(st, {string(k): V.var('%s.%s' % (b, k), True) if unc(b, k) else string(token(b, k, False)) for k in ks})
        params = {string(source): d, string('Other'): a.I.new_dict(st, {string(k): string('wrong') for k in ks + ['zz']})}
        out.append(instance(a, st, 'main', 'Bicycle', {'bicycleName': string(b), 'parameters': a.I.new_dict(st, params)}))
    return out


def setup(ctx, which, source, unc, latex, alone=False):
    a = ctx.analysis()
    st = a.state()

    def uround(st, args, kw, node):
        n = args[0]
        if isinstance(n, V.Str):
            return n
        rf = a.I.lib.tonum(n).rf
        b, k = str(next(iter(ring.all_atoms(rf).values())).args[0]).split('.')
        return string('%s+/-%s' % (token(b, k, False), token(b, k, True)))
    a.I.stubs[('tables', 'uround')] = uround
    bs = bikes(a, st, source, unc, which)
    r = a.call(a.get('tables', 'Table'), [string(source), V.boolean(latex), bs[0] if alone else a.I.new_list(st, bs)], {}, st)
    return a, r


def wanted(which, unc):
    ks = sorted({k for b, x in which for k in x}, key=str.lower)
    rows = {}
    for k in ks:
        row = []
        for b, x in which:
            row += [token(b, k, False), token(b, k, True) if unc(b, k) else 'NA'] if k in x else ['NA', 'NA']
        rows[k] = row
    return ks, rows


def lits(v):
    return [getattr(x, 'lit', None) for x in v.items]


def cells(text):
    lines = text.split('\n')
    return [[c.strip() for c in l.strip().strip('|').split('|')] for l in lines if l.startswith('|')], lines


def tables(ctx):
    w = ctx.where('tables', 'Table')
    wr = ctx.where('tables', 'Table.create_rst_table')
    some = lambda b, k: b != 'B'
    cases = [('all uncertain', BIKES, lambda b, k: True), ('one plain', BIKES, some), ('single', BIKES[:1], lambda b, k: True), ('alone', BIKES[1:2], lambda b, k: True),
             ('names differing in case', CASED, some), ('reversed', BIKES[::-1], some), ('mixed', BIKES, lambda b, k: k > 'a')]
    for (nm, which, unc), latex, src in itertools.product(cases, (False, True), ('Measured', 'Benchmark')):
        tag = '%s%s %s' % (nm, ' latex' if latex else '', src)
        with ctx.group('cells', tag, w):
            a, r = setup(ctx, which, src, unc, latex, nm == 'alone')
            if not ctx.no_raise('completes', tag, r, w):
                continue
            st, t = r.st, r.value
            data = a.I.freeze(st, a.I.lib.getattr(st, t, 'tableData', None))
            ks, rows = wanted(which, unc)
            sym = {}
            for k in ks:
                sym[k] = k
                if latex:
                    sym[k] = a.call(a.get('tables', 'to_latex'), [string(k)], {}, a.state()).value.lit
            got = [lits(x) for x in data.items]
            ctx.ob('rows', tag, sorted(x[0] for x in got) == sorted(sym.values()), '%d rows for %d variables' % (len(got), len(ks)), w)
            for x in got:
                k = [k for k in ks if sym[k] == x[0]]
                if len(k) == 1:
                    ctx.ob('cells', '%s row %s' % (tag, k[0]), x[1:] == rows[k[0]], '%s, wants %s' % (x[1:], rows[k[0]]), w)
            seen = []
            for i in range(2):
                r = a.method(t, 'create_rst_table', [], {}, st)
                if not ctx.no_raise('completes', '%s text %d' % (tag, i + 1), r, wr):
                    break
                st = r.st
                seen.append(getattr(r.value, 'lit', None))
            if len(seen) < 2 or None in seen:
                ctx.ob('text', tag, an.UNK if None in seen else False, 'text not determined', wr)
                continue
            ctx.ob('same text every time', tag, seen[0] == seen[1], '%d and %d characters' % (len(seen[0]), len(seen[1])), wr)
            ctx.equal('stored rows unchanged', tag, r.freeze(a.I.lib.getattr(st, t, 'tableData', None)), data, wr)
            grid, lines = cells(seen[0])
            ctx.ob('text', tag + ' bicycle header', grid[0][1:] == [b for b, _ in which], str(grid[0]), wr)
            ctx.ob('text', tag + ' rectangular', len({len(l) for l in lines if l.strip()}) == 1, 'line lengths %s' %
                   sorted({len(l) for l in lines}), wr)
            ctx.ob('text', tag + ' sub header', len(grid[1]) == 2 * len(which) + 1 and grid[1][0] == 'Variable' and
                   len(set(grid[1][1::2])) == 1 and len(set(grid[1][2::2])) == 1 and 'sigma' in grid[1][2], str(grid[1]), wr)
            body = {}
            for x in grid[2:]:
                body.setdefault(x[0].replace(':math:', '').strip('`'), []).append(x[1:])
            for k in ks:
                ctx.ob('text', '%s row %s' % (tag, k), body.get(sym[k]) == [rows[k]], '%s, wants %s' % (body.get(sym[k]), rows[k]), wr)
            ctx.ob('text', tag + ' rows', len(grid) == len(ks) + 2, '%d rows for %d variables' % (len(grid) - 2, len(ks)), wr)


def written(ctx):
    """The text is also what is written to a file."""
    w = ctx.where('tables', 'Table.create_rst_table')
    with ctx.group('file', 'text written', w):
        a, r = setup(ctx, BIKES[:2], 'Measured', lambda b, k: True, False)
        r = a.method(r.value, 'create_rst_table', [], {'fileName': string('/out/table.rst')}, r.st)
        if ctx.no_raise('completes', 'with a file name', r, w):
            ev = [e for e in r.events if e.kind in ('file_write', 'write')]
            if not ev:
                ctx.ob('file', 'text written', an.UNK, 'kinds %s' % sorted({e.kind for e in r.events}), w)
            else:
                texts = [x for e in ev for x in e.data if isinstance(x, V.Str)]
                got = ''.join(x.lit or '?' for x in texts if x.lit != '/out/table.rst')
                ctx.ob('file', 'text written', got == r.value.lit, '%d characters written' % len(got), w)


VARS = ('IBxx IBxz IByy IBzz IFxx IFyy IHxx IHxz IHyy IHzz IRxx IRyy c g lam mB mF mH mR rF rR w xB xH zB zH '
        'f gamma lcs hbb lsp lst lamst whb LhbF LhbR d l dF dR nF nR TcB1 TcB2 TcB3 TcF1 TcH1 TcR1 TtB1 TtB2 TtB3 TtH1 '
        'alphaB1 alphaB2 alphaB3 aB1 aB2 aB3 alphaH1 aH1 ds1 ds3 mG mS mP').split()


def symbols(ctx):
    w = ctx.where('tables', 'to_latex')
    a = ctx.analysis()
    seen = {}
    for k in VARS:
        with ctx.group('symbols', k, w):
            r = a.call(a.get('tables', 'to_latex'), [string(k)], {}, a.state())
            if r.value is None or getattr(r.value, 'lit', None) is None:
                continue
            s = r.value.lit
            ctx.ob('symbols', k, s not in seen, '%s' % s if s not in seen else '%s is also the symbol of %s' % (s, seen[s]), w)
            seen[s] = k


def rounding(ctx):
    """For every position of the first digit of the uncertainty, before and after the point."""
    from fractions import Fraction
    w = ctx.where('tables', 'uround')
    for nom in (Fraction(123456789, 1000000), Fraction(-98765, 100000000), Fraction(3), Fraction(0)):
        for k, lead in [(k, 37) for k in range(-4, 14)] + [(k, 97) for k in (-2, -1, 0, 1, 5)] + [(None, 0)]:
            sd = Fraction(lead, 100) / Fraction(10) ** k if k is not None else Fraction(0)
            t = 'value %s uncertainty %s' % (float(nom), float(sd))
            with ctx.group('rounding', t, w):
                a = ctx.analysis()
                st = a.state()
                x = instance(a, st, 'main', 'Bicycle', {'nominal_value': const(nom), 'std_dev': const(sd)})
                r = a.call(a.get('tables', 'uround'), [x], {}, st)
                if not ctx.no_raise('completes', t, r, w):
                    continue
                s = getattr(r.value, 'lit', None)
                if s is None or '+/-' not in s:
                    ctx.ob('rounding', t, an.UNK if s is None else False, str(s), w)
                    continue
                v, u = s.split('+/-')
                last = 1 / Fraction(10) ** (k + 1) if k is not None else Fraction(1, 10 ** 13)
                ok = abs(Fraction(u) - sd) <= last / 2 and abs(Fraction(v) - nom) <= last / 2
                ok = ok and len(v.partition('.')[2]) == len(u.partition('.')[2])
                ctx.ob('rounding', t, ok, s, w)


def html(ctx):
    """The notebook table of a parameter set: one row per parameter, its own symbol
    beside its own value."""
    import re
    w = ctx.where('parameter_sets', 'ParameterSet._repr_html_')
    for cls in SETS:
        with ctx.group('html', cls, w):
            a = ctx.analysis()
            r, _ = make_set(a, a.state(), cls)
            st, o = r.st, r.value
            sym = a.I.freeze(st, a.I.lib.getattr(st, o, 'par_strings', None))
            sym = {sym.items[i].lit: sym.items[i + 1].lit for i in range(0, len(sym.items), 2)}
            r = a.method(o, '_repr_html_', [], {}, st)
            if not ctx.no_raise('completes', 'html ' + cls, r, w):
                continue
            vals, text = [], ''
            for p in (r.value.parts if getattr(r.value, 'lit', None) is None else [r.value]):
                if isinstance(p, (str, V.Str)) and getattr(p, 'lit', p) is not None and not isinstance(getattr(p, 'lit', p), V.Str):
                    text += getattr(p, 'lit', p)
                    continue
                while isinstance(p, V.Str) and len(p.parts) == 1:
                    p = p.parts[0]
                text += '\x00%d\x00' % len(vals)
                vals.append(p.args[2] if getattr(p, 'head', None) == 'fmt' else p.args[0] if getattr(p, 'head', None) == 'str' else p)
            rows = [re.findall(r'<td>(.*?)</td>', x, re.S) for x in re.findall(r'<tr>(.*?)</tr>', text, re.S)]
            rows = [x for x in rows if x]
            ctx.ob('html caption', cls, '<caption>%s</caption>' % cls in text, text[:80], w)
            bare = lambda s: s.strip().replace('\\(', '').replace('\\)', '').strip('$ ')
            for k in sorted(sym):
                mine = [x for x in rows if bare(x[0]) == sym[k]]
                ctx.ob('html rows', '%s %s' % (cls, k), len(mine) == 1 and len(mine[0]) == 2, '%d rows of %s' % (len(mine), sym[k]), w)
                if len(mine) == 1 and len(mine[0]) == 2:
                    m = re.match('^\\s*\x00(\\d+)\x00\\s*$', mine[0][1])
                    if not m:
                        ctx.ob('html values', '%s %s' % (cls, k), False, 'cell %r' % mine[0][1], w)
                        continue
                    ctx.equal('html values', '%s %s' % (cls, k), vals[int(m.group(1))], V.var(k), w)
            ctx.ob('html rows', cls, len(rows) == len(sym), '%d rows, %d parameters' % (len(rows), len(sym)), w)


def check(ctx):
    html(ctx)
    rounding(ctx)
    tables(ctx)
    written(ctx)
    symbols(ctx)
