"""Abstract interpretation of the text-file writers and readers over a literal file
system. The writers run on dictionaries of symbolic values and the written text is taken
from the write effects: every line must be one parameter's name, the separator and
exactly that value's own text. The reader runs on every line shape of the documented
grammar with the numbers left as tokens, and on the text its own writer produced."""
import itertools
import an
import ring
import values as V
from common import *
from values import term
import files
TECHNIQUE = 'effect analysis: symbolic write effects compared with the grammar the reader is interpreted on'
ASSUMPTIONS = ['str of a number and float/ufloat_fromstr of that text are inverse (see C54)']


def ufloats(a):
    """Uncertain texts become tokens named by their text."""
    def h(st, args, kw, node):
        s = a.I.lib.force(V.restrict(args[0], st.pc))
        if getattr(s, 'lit', None) is None:
            return a.I.lib.opaque_call(st, 'uncertainties.ufloat_fromstr', None, args, kw, node)
        t = s.lit.strip()
        if '+/-' not in t:
            t += '+/-?'
        return V.var('U:' + ''.join(t.split()), True)
    for n in ('uncertainties.ufloat_fromstr', 'uncertainties.core.ufloat_fromstr'):
        a.I.lib.ext[n] = h


NAMES = ['IBxx', 'lam', 'c', 'mB', 'a10', 'TcB1']


def value_of(part):
    """(value, plain) of an inserted value: plain when it is the unformatted text."""
    if isinstance(part, V.Str):
        return (value_of(part.parts[0]) if len(part.parts) == 1 else (None, False))
    if getattr(part, 'head', None) == 'fmt':
        spec, conv, v = part.args
        return v, getattr(spec, 'lit', None) == '' and getattr(conv, 'lit', None) in ('', 's', 'r')
    if getattr(part, 'head', None) == 'str' and len(part.args) == 1:
        return part.args[0], True
    return None, False


def check_lines(ctx, tag, parts, vals, w, sep=True, spec_ok=None):
    ls, done = files.lines(parts)
    ls = [files.merged(l) for l in ls]
    ctx.ob('one line each', tag + ' terminated', done, 'last line ends with a newline', w)
    seen = {}
    for l in ls:
        if not l:
            continue
        if not isinstance(l[0], str) or '=' not in l[0]:
            ctx.ob('grammar', '%s line %s' % (tag, V.show(l[0]) if not isinstance(l[0], str) else l[0]),
                   an.UNK if not isinstance(l[0], str) else False, 'line does not start with "name ="', w)
            continue
        k = l[0].split('=')[0].strip()
        seen.setdefault(k, []).append(l)
    ctx.ob('one line each', tag, sorted(seen) == sorted(vals) and all(len(v) == 1 for v in seen.values()),
           'lines for %s' % sorted((k, len(v)) for k, v in seen.items()), w)
    for k, v in sorted(vals.items()):
        for l in seen.get(k, [])[:1]:
            head, rest = l[0].split('=', 1)
            ok = not rest.strip() and head.strip() == k and all(not x.strip() for x in l[2:] if isinstance(x, str))
            if len(l) < 2 or isinstance(l[1], str) or len([x for x in l[1:] if not isinstance(x, str)]) != 1:
                ctx.ob('value text', '%s %s' % (tag, k), False, 'line %s' % [x if isinstance(x, str) else V.show(x) for x in l], w)
                continue
            got, plain = value_of(l[1])
            if got is None:
                ctx.ob('value text', '%s %s' % (tag, k), an.UNK, V.show(l[1]), w)
                continue
            if not plain and spec_ok and spec_ok(l[1]):
                plain = True
            ctx.ob('grammar', '%s %s' % (tag, k), ok, 'line %s' % [x if isinstance(x, str) else V.show(x) for x in l], w)
            ctx.ob('value text', '%s %s unformatted' % (tag, k), plain, V.show(l[1]), w)
            ctx.equal('value text', '%s %s' % (tag, k), got, v, w)
            if isinstance(v, V.Num) and isinstance(got, V.Num):
                ctx.ob('uncertainty written', '%s %s' % (tag, k), got.u == v.u,
                       'uncertain %s, text of an uncertain value %s' % (v.u, got.u), w)


def writer(ctx):
    w = ctx.where('io', 'write_parameter_text_file')
    shapes = [('plain', lambda i: False), ('uncertain', lambda i: True), ('mixed', lambda i: i % 2 == 0)]
    for (nm, u), order, path, ex in itertools.product(
            shapes, (1, -1), ('/data/bicycles/Rigid/Parameters/RigidBenchmark.txt', 'RigidBenchmark.txt'), (False, True)):
        tag = '%s%s %s%s' % (nm, ' reversed' if order < 0 else '', path, ' over an old file' if ex else '')
        with ctx.group('writer', tag, w):
            t = files.Tree(ctx, {path: 'old = 1.0\n'} if ex else {}, ['y'])
            a = t.a
            st = a.state()
            vals = {k: V.var(k, u(i)) for i, k in enumerate(NAMES)}
            d = a.I.new_dict(st, {string(k): vals[k] for k in NAMES[::order]})
            r = a.call(a.get('io', 'write_parameter_text_file'), [string(path), d], {}, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            out = files.written(r.events)
            ctx.ob('written where asked', tag, list(out) == [path], 'files %s' % sorted(out), w)
            check_lines(ctx, tag, out.get(path, []), vals, w)


def exports(ctx):
    """The ini text of a parameter set is in the same grammar."""
    q = 'ParameterSet.to_ini'
    w = ctx.where('parameter_sets', q)
    for cls in SETS:
        with ctx.group('ini', cls, w):
            t = files.Tree(ctx, {})
            a = t.a
            st = a.state()
            keys = set_keys(cls)
            r, _ = make_set(a, st, cls)
            r = a.method(r.value, 'to_ini', [string('/out/p.ini')], {}, r.st)
            if not ctx.no_raise('completes', 'ini ' + cls, r, w):
                continue
            out = files.written(r.events)
            ctx.ob('written where asked', 'ini ' + cls, list(out) == ['/out/p.ini'], 'files %s' % sorted(out), w)
            wide = lambda p: getattr(p, 'head', None) == 'fmt' and enough(getattr(p.args[0], 'lit', ''))
            check_lines(ctx, 'ini ' + cls, out.get('/out/p.ini', []), {k: V.var(k) for k in keys}, w, spec_ok=wide)


def enough(spec):
    """A float format that keeps at least fifteen digits after the point."""
    import re
    m = re.match(r'^\d*\.(\d+)[feEg]$', spec or '')
    return bool(m) and int(m.group(1)) >= 15


NUMS = ['0.08', '1', '-0.5', '1e-05', '2.5E+3']
UNCS = ['0.08 +/- 0.01', '0.314+/-0.002', '-1.5+/-0.2', '1.5e-03+/-2e-04']


def expect(vals, unc):
    """Mean of the values as a ring value."""
    from fractions import Fraction
    acc = None
    for v in vals:
        if unc:
            t = ''.join(v.split())
            x = V.var('U:' + (t if '+/-' in t else t + '+/-?'), True).rf
        else:
            x = ring.const(Fraction(v))
        acc = x if acc is None else acc + x
    return num(acc / ring.const(len(vals)), unc)


def shapes(thorough):
    """(label, line text, name, expected value or None)"""
    out = []
    n = 0
    names = ['c', 'lam', 'IBxx', 'alphaB1', 'TcB1']
    seps = ['=', ' = ', ' =', '= ', '\t=\t', '  =  ']
    ends = ['', ' ', '  # a comment', '#tight', '#5.0', '# x = 3', ' # with = sign, comma and +/- mark']
    combos = []
    for k in ((1, 2, 3) if not thorough else (1, 2, 3, 4)):
        for unc in (False, True):
            pool = UNCS if unc else NUMS
            for j in range(len(pool)):
                combos.append((unc, [pool[(j + i) % len(pool)] for i in range(k)]))
    combos += [(unc, (pool * 3)[:k]) for unc, pool in ((False, list(NUMS)), (True, list(UNCS))) for k in (4, 5, 8)]
    for unc, vs in combos:
        for i, sep in enumerate(seps):
            for j, comma in enumerate((',', ', ', ' , ')):
                if len(vs) == 1 and j:
                    continue
                es = ends if thorough else [ends[(n + i + j) % len(ends)], ends[(n + 1) % len(ends)]]
                for e in dict.fromkeys(es):
                    name = names[n % len(names)]
                    n += 1
                    out.append((name, name + sep + comma.join(vs) + e, expect(vs, unc)))
    return out


def reads(ctx, tag, text, want, w, seen=None):
    t = files.Tree(ctx, {'/data/p.txt': text})
    ufloats(t.a)
    st = t.a.state()
    r = t.a.call(t.a.get('io', 'load_parameter_text_file'), [string('/data/p.txt')], {}, st)
    if not ctx.no_raise('reads', tag, r, w):
        return None
    v = r.frozen()
    got = {getattr(v.items[i], 'lit', None): v.items[i + 1] for i in range(0, len(v.items), 2)}
    ctx.ob('names', tag, sorted(map(str, got)) == sorted(want), 'read %s, file has %s' % (sorted(map(str, got)), sorted(want)), w)
    for k in want:
        if k in got:
            ctx.equal('values', '%s %s' % (tag, k), got[k], want[k], w)
            if isinstance(got[k], V.Num):
                ctx.ob('uncertainty kept', '%s %s' % (tag, k), got[k].u == want[k].u, 'uncertain %s' % got[k].u, w)
    return got


def reader(ctx):
    w = ctx.where('io', 'load_parameter_text_file')
    all_ = shapes(ctx.thorough)
    for name, line, want in all_:
        with ctx.group('reads', repr(line), w):
            reads(ctx, repr(line), line + '\n', {name: want}, w)
    # values with and without uncertainty on one line
    for vs in (['0.1', '0.12+/-0.02'], ['0.12 +/- 0.02', '0.1'], ['0.1', '0.2', '0.12+/-0.02']):
        line = 't = ' + ', '.join(vs)
        with ctx.group('reads', repr(line), w):
            t = files.Tree(ctx, {'/data/p.txt': line + '\n'})
            ufloats(t.a)
            st = t.a.state()
            r = t.a.call(t.a.get('io', 'load_parameter_text_file'), [string('/data/p.txt')], {}, st)
            if ctx.no_raise('reads', repr(line), r, w):
                v = r.frozen().items
                ctx.ob('uncertainty kept', repr(line), len(v) == 2 and isinstance(v[1], V.Num) and v[1].u, V.show(r.frozen()), w)
    # whole files: several parameters in both orders, with and without final newline
    block = [('c', '0.08 +/- 0.01'), ('d', '0.314+/-0.002'), ('t', '0.1+/-0.01, 0.12+/-0.02'), ('whb', '0.5'),
             ('w', '1.0, 1.2 # twice'), ('lam', '0.4')]
    fillers = ['', '\n', '# comment\n', '   # indented comment = 3\n', '  \n']
    for order in (1, -1):
        for end in ('\n', ''):
            for i, f in enumerate(fillers):
                tag = 'file %s filler %r%s' % ('forward' if order > 0 else 'backward', f, '' if end else ' no final newline')
                with ctx.group('reads', tag, w):
                    text = f.join('%s = %s\n' % x for x in block[::order])
                    text = f + text[:-1] + end
                    want = {}
                    for k, v in block:
                        vs = v.split('#')[0].split(',')
                        want[k] = expect([x.strip() for x in vs], '+/-' in v)
                    reads(ctx, tag, text, want, w)


def round_trip(ctx):
    """What the writer writes, the reader reads: values as tokens."""
    w = ctx.where('io', 'load_parameter_text_file')
    plain = {'c': '0.08', 'mB': '81.5', 'xH': '-0.25', 'zero': '0.0', 'g': '9.81'}
    unc = {'lam': '0.31+/-0.02', 'IBxx': '2.5+/-0.003', 'TcB1': '-1.0+/-0.1'}
    for nm, ks in (('plain', list(plain)), ('uncertain', list(unc)), ('both', list(plain) + list(unc)), ('one', ['c'])):
        with ctx.group('round trip', nm, w):
            t = files.Tree(ctx, {})
            st = t.a.state()
            d = t.a.I.new_dict(st, {string(k): V.var(k, k in unc) for k in ks})
            r = t.a.call(t.a.get('io', 'write_parameter_text_file'), [string('/d/p.txt'), d], {}, st)
            if not ctx.no_raise('round trip', nm + ' written', r, w):
                continue
            text = ''
            ok = True
            for x in files.written(r.events).get('/d/p.txt', []):
                if isinstance(x, str):
                    text += x
                    continue
                v, pl = value_of(x)
                at = list(ring.all_atoms(v.rf).values()) if isinstance(v, V.Num) else []
                if len(at) != 1:
                    ok = False
                    break
                k = at[0].args[0]
                k = getattr(k, 'lit', k)
                text += (unc if v.u else plain).get(k, '?')
            if not ok:
                ctx.ob('round trip', nm, an.UNK, 'text not followed', w)
                continue
            want = {k: expect([(unc if k in unc else plain)[k]], k in unc) for k in ks}
            reads(ctx, 'round trip ' + nm, text, want, w)


YAML_DUMP = ['yaml.dump', 'yaml.safe_dump']
YAML_LOAD = ['yaml.load', 'yaml.safe_load', 'yaml.full_load']


def yaml_files(t):
    """path -> (structure, mode) of the YAML documents of the tree."""
    a = t.a
    lib = a.I.lib
    docs = {}

    def dump(st, args, kw, node):
        fz = a.I.freeze(st, args[0])
        f = args[1] if len(args) > 1 else kw.get('stream')
        if f is None or f is V.NONE:
            return string(term('yamltext', fz))
        a.I.event(st, 'write', (f, string(term('yamltext', fz))), node)
        return V.NONE

    def load(st, args, kw, node):
        f = args[0] if args else kw['stream']
        p = None
        if getattr(f, 'head', None) == 'file':
            p = files.path_of(f)
        elif isinstance(f, V.Str) and len(f.parts) == 1 and getattr(f.parts[0], 'head', None) == 'content':
            p = f.parts[0].args[0].lit
        if p not in docs:
            raise lib.unsupported('YAML read from %s' % (p or V.show(f)))
        return thaw(st, docs[p])

    def thaw(st, v):
        if isinstance(v, V.Frozen) and v.kind == 'dict':
            return a.I.new_dict(st, {v.items[i]: thaw(st, v.items[i + 1]) for i in range(0, len(v.items), 2)})
        return v
    for n in YAML_DUMP:
        lib.ext[n] = dump
    for n in YAML_LOAD:
        lib.ext[n] = load
    return docs


def entries(fz):
    return {getattr(fz.items[i], 'lit', None): fz.items[i + 1] for i in range(0, len(fz.items), 2)} \
        if isinstance(fz, V.Frozen) and fz.kind == 'dict' else None


def yaml_trip(ctx):
    """What a parameter set exports as YAML is what its class reads back."""
    w = ctx.where('parameter_sets', 'ParameterSet.to_yaml')
    for cls, rider, order in itertools.product(SETS, (V.TRUE, V.FALSE), (1, -1)):
        has = SETS[cls][0]
        if rider is V.FALSE and not has:
            continue
        tag = 'yaml %s%s%s' % (cls, ' includes_rider=%s' % (rider is V.TRUE) if has else '', ' reversed' if order < 0 else '')
        with ctx.group('yaml', tag, w):
            t = files.Tree(ctx, {})
            docs = yaml_files(t)
            a = t.a
            st = a.state()
            keys = set_keys(cls)
            d = a.I.new_dict(st, {string(k): V.var(k) for k in list(keys)[::order]})
            r, d = make_set(a, st, cls, d, rider=rider)
            r = a.method(r.value, 'to_yaml', [string('/out/p.yml')], {}, r.st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            out = files.written(r.events)
            ctx.ob('written where asked', tag, list(out) == ['/out/p.yml'], 'files %s' % sorted(out), w)
            parts = [x for x in out.get('/out/p.yml', []) if not (isinstance(x, str) and not x.strip())]
            parts = [p.parts[0] if isinstance(p, V.Str) and len(p.parts) == 1 else p for p in parts]
            if len(parts) != 1 or getattr(parts[0], 'head', None) != 'yamltext':
                ctx.ob('yaml', tag, an.UNK, 'written: %s' % [p if isinstance(p, str) else V.show(p)[:60] for p in parts], w)
                continue
            doc = parts[0].args[0]
            top = entries(doc)
            vals = entries(top.get('values')) if top else None
            if vals is None:
                ctx.ob('yaml', tag, False, 'no dictionary of values in %s' % V.show(doc)[:100], w)
                continue
            ctx.ob('yaml names', tag, sorted(map(str, vals)) == sorted(keys), 'values of %s' % sorted(map(str, vals)), w)
            for k in keys:
                if k in vals:
                    ctx.equal('yaml values', '%s %s' % (tag, k), vals[k], V.var(k), w)
            name = getattr(top.get('parameterization'), 'lit', None)
            ctx.ob('yaml parameterization', tag, name == cls, 'parameterization %s' % name, w)
            docs['/out/p.yml'] = doc
            loads(ctx, t, st, cls, tag, '/out/p.yml', keys, rider if has else None)
            # files by hand: other entries, in the other order
            more = {string('rider'): rider, string('description'): string('by hand'),
                    string('values'): a.I.new_dict(st, {string(k): V.var('f_' + k) for k in list(keys)[::-1]}),
                    string('parameterization'): string(cls)}
            docs['/in/q.yml'] = a.I.freeze(st, a.I.new_dict(st, more))
            loads(ctx, t, a.state(), cls, tag + ' by hand', '/in/q.yml', keys, rider if has else None, 'f_')


def yaml_constants(ctx):
    """Files in which every value is the same number: zero is a value like any other."""
    for cls in SETS:
        for nm, c in (('zeros', 0), ('ones', 1), ('negative', -2)):
            tag = 'yaml %s of %s' % (cls, nm)
            with ctx.group('yaml', tag, ctx.where('parameter_sets', 'ParameterSet._from_yaml')):
                t = files.Tree(ctx, {})
                docs = yaml_files(t)
                a = t.a
                st = a.state()
                keys = set_keys(cls)
                x = num(ring.const(c), False, 'f')
                docs['/in/z.yml'] = a.I.freeze(st, a.I.new_dict(st, {
                    string('values'): a.I.new_dict(st, {string(k): x for k in keys}), string('rider'): V.TRUE,
                    string('parameterization'): string(cls)}))
                loads(ctx, t, a.state(), cls, tag, '/in/z.yml', keys, V.TRUE if SETS[cls][0] else None, value=x)


def yaml_scalars(ctx):
    """Converted sets hold NumPy scalars, which YAML cannot represent: they must not
    reach the document as they are."""
    w = ctx.where('parameter_sets', 'ParameterSet.to_yaml')
    for cls in SETS:
        with ctx.group('yaml scalars', cls, w):
            t = files.Tree(ctx, {})
            yaml_files(t)
            a = t.a
            st = a.state()
            r, d = make_set(a, st, cls)
            lib = a.I.lib
            keys = set_keys(cls)
            of = {k: V.term('numpy scalar', string(k)) for k in keys}

            def to_float(st, args, kw, node):
                v = lib.force(V.restrict(args[0], st.pc))
                for k, x in of.items():
                    if v is x or getattr(lib.opq(v), 'key', None) == x.key if isinstance(v, V.Num) else v is x:
                        return V.var(k)
                return v
            lib.ext['builtins.float'] = to_float
            st = r.st
            par = lib.getattr(st, r.value, 'parameters', None)
            for k in keys:
                lib.setitem(st, par, string(k), of[k], None)
            r = a.method(r.value, 'to_yaml', [string('/out/p.yml')], {}, st)
            if not ctx.no_raise('completes', 'yaml scalars ' + cls, r, w):
                continue
            parts = [p.parts[0] if isinstance(p, V.Str) and len(p.parts) == 1 else p for p in files.written(r.events).get('/out/p.yml', [])]
            docs = [p.args[0] for p in parts if getattr(p, 'head', None) == 'yamltext']
            vals = entries((entries(docs[0]) or {}).get('values')) if docs else None
            if vals is None:
                ctx.ob('yaml scalars', cls, an.UNK, 'no document followed', w)
                continue
            for k in keys:
                x = vals.get(k)
                ctx.ob('yaml scalars', '%s %s' % (cls, k), x is not of[k], 'a NumPy scalar is handed to YAML', w)


def loads(ctx, t, st, cls, tag, path, keys, rider, prefix='', value=None):
    a = t.a
    w = ctx.where('parameter_sets', 'ParameterSet._from_yaml')
    r = a.method(a.get('parameter_sets', cls + 'ParameterSet'), '_from_yaml', [string(path)], {}, st)
    if not ctx.no_raise('yaml read', tag, r, w):
        return
    o = r.value
    get = lambda n: a.I.lib.getattr(r.st, o, n, None)
    got = entries(r.freeze(get('parameters')))
    ctx.ob('yaml read', tag + ' names', got is not None and sorted(map(str, got)) == sorted(keys), 'read %s' % sorted(map(str, got or [])), w)
    for k in keys:
        if got and k in got:
            ctx.equal('yaml read', '%s %s' % (tag, k), got[k], V.var(prefix + k) if value is None else value, w)
    ctx.ob('yaml read', tag + ' parameterization', getattr(get('parameterization'), 'lit', None) == cls,
           V.show(get('parameterization')), w)
    if rider is not None:
        ctx.equal('yaml read', tag + ' includes_rider', get('includes_rider'), rider, w)


def check(ctx):
    yaml_trip(ctx)
    yaml_constants(ctx)
    yaml_scalars(ctx)
    writer(ctx)
    exports(ctx)
    reader(ctx)
    round_trip(ctx)
