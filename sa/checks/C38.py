"""Constant evaluation of every data set shipped with the package: the dictionaries of
parameter_dicts.py (module evaluated by the abstract interpreter, literals inspected in
the syntax tree for repeated keys) and the text files of the web app. Each must hold
every parameter of its parameterization once, as the kind of number the parameter sets
accept, and describe an admissible rigid body system (signs, ranges, positive definite
inertia tensors satisfying the triangle inequalities, wheels lighter than a hoop of
their radius). Data sets of one and the same bicycle in different parameterizations
must describe the same bodies: geometry, masses, mass centers and tensors are carried
over by the definitions of the parameterizations and compared."""
import ast
import glob
import math
import os
import re
import an
import values as V
from common import *
TECHNIQUE = 'constant evaluation of the data module and files, with rules on keys, types, ranges and cross-consistency'
ASSUMPTIONS = ['the mass centers of the shipped bodies lie above the ground and ahead of the rear contact',
               'the files of the web app may be off the measured data by two units of the last written digit',
               'measured tensors may miss a triangle inequality by 5 percent']

# data sets, their parameterization, and extra documented keys
DICTS = {'meijaard2007_browser_jason': 'Meijaard2007', 'moore2019_browser_jason': 'Moore2019',
         'mooreriderlean2012_browser_jason': 'MooreRiderLean2012', 'meijaard2007_browser_jasonlegs': 'Meijaard2007'}
LINE = re.compile(r'^\s*([A-Za-z]\w*)\s*=\s*([^#]*?)\s*(#.*)?$')


class Numbers(dict):
    def __init__(self, name, d):
        dict.__init__(self, d)
        self.name = name


def constant(f):
    """(python number, kind) of a frozen constant, or None."""
    if isinstance(f, Num) and f.rf.is_const():
        return float(f.rf.const())
    return None


def sym2(p, b):
    return p['I%sxx' % b], p['I%szz' % b], p['I%sxz' % b]


def close(x, y, rel, floor=0.0):
    return abs(x - y) <= rel * max(abs(x), abs(y)) + floor


def tensor_ok(xx, yy, zz, xz):
    """Positive definite with principal moments satisfying the triangle inequalities."""
    m, r = (xx + zz) / 2, math.hypot((xx - zz) / 2, xz)
    p = sorted([m - r, m + r, yy])
    # thin measured bodies miss the inequality by less than the measurement error
    return p[0] > 0 and p[2] <= (p[0] + p[1]) * 1.05, p


class Check(object):
    def __init__(self, ctx, name, d, w):
        self.ctx, self.name, self.d, self.w = ctx, name, d, w

    def ob(self, rule, ok, detail):
        self.ctx.ob(rule, self.name, ok, detail, self.w)

    def signs(self, pos=(), neg=(), nonneg=()):
        d = self.d
        for k in pos:
            self.ob('positive %s' % k, d[k] > 0, '%s = %r' % (k, d[k]))
        for k in neg:
            self.ob('above ground %s' % k, d[k] < 0, '%s = %r' % (k, d[k]))
        for k in nonneg:
            self.ob('not negative %s' % k, d[k] >= 0, '%s = %r' % (k, d[k]))

    def world(self):
        d = self.d
        self.ob('gravity', 9.7 < d['g'] < 9.9, 'g = %r' % d['g'])
        if 'v' in d:
            self.ob('speed', 0 <= d['v'] < 50, 'v = %r' % d['v'])

    def tensor(self, b, xx, yy, zz, xz):
        ok, p = tensor_ok(xx, yy, zz, xz)
        self.ob('inertia tensor of %s' % b, ok, 'principal moments %s' % ', '.join('%.6g' % x for x in p))

    def wheel(self, b, ixx, iyy, m, r):
        self.ob('wheel %s is flat' % b, 0 < ixx < iyy <= 2 * ixx * 1.0001, 'radial %r, axial %r' % (ixx, iyy))
        self.ob('wheel %s is not beyond a hoop' % b, iyy <= m * r * r, 'axial %r of m r^2 = %.6g' % (iyy, m * r * r))

    def meijaard(self, bodies='BH'):
        d = self.d
        self.world()
        self.signs(pos=['w', 'rR', 'rF', 'mR', 'mF', 'c', 'lam'] + ['m' + b for b in bodies], neg=['z' + b for b in bodies])
        self.ob('steer axis tilt in radians', 0 < d['lam'] < math.pi / 4, 'lam = %r' % d['lam'])
        self.ob('wheels fit the wheelbase', d['rR'] + d['rF'] < d['w'], '%r + %r < %r' % (d['rR'], d['rF'], d['w']))
        self.ob('trail', d['c'] < d['rF'], 'c = %r' % d['c'])
        for b in bodies:
            self.ob('mass center of %s over the wheelbase' % b, 0 < d['x' + b] < d['w'] + d['rF'], 'x = %r' % d['x' + b])
            self.tensor(b, *[d['I%s%s' % (b, x)] for x in ('xx', 'yy', 'zz', 'xz')])
        for b in 'RF':
            self.wheel(b, d['I%sxx' % b], d['I%syy' % b], d['m' + b], d['r' + b])
            if 'I%szz' % b in d:
                self.ob('wheel %s is symmetric' % b, d['I%szz' % b] == d['I%sxx' % b], 'Izz %r' % d['I%szz' % b])
        for b in bodies:
            if 'y' + b in d:
                self.ob('plane of symmetry %s' % b, d['y' + b] == 0, 'y = %r' % d['y' + b])

    def moore19(self):
        d = self.d
        self.world()
        self.signs(pos=['w', 'rR', 'rF', 'c', 'lam', 'lP', 'wP'] + ['m' + b for b in 'DHPRF'] +
                   [k for k in d if re.match(r'k[DHPRF](aa|bb|yy)$', k)], neg=['zD', 'zH', 'zP'])
        self.ob('steer axis tilt in radians', 0 < d['lam'] < math.pi / 4, 'lam = %r' % d['lam'])
        self.ob('wheels fit the wheelbase', d['rR'] + d['rF'] < d['w'], '%r + %r < %r' % (d['rR'], d['rF'], d['w']))
        for b in 'DHP':
            self.ob('mass center of %s over the wheelbase' % b, 0 < d['x' + b] < d['w'] + d['rF'], 'x = %r' % d['x' + b])
            self.ob('principal angle of %s in radians' % b, abs(d['alpha' + b]) <= math.pi / 2, 'alpha = %r' % d['alpha' + b])
            k = sorted(d['k%s%s' % (b, x)] ** 2 for x in ('aa', 'bb', 'yy'))
            self.ob('inertia tensor of %s' % b, k[2] <= 1.05 * (k[0] + k[1]), 'squared radii %s' % ', '.join('%.6g' % x for x in k))
        for b in 'RF':
            self.wheel(b, d['k%saa' % b] ** 2, d['k%syy' % b] ** 2, 1.0, d['r' + b])
        for k in ('yD', 'yF', 'yH', 'yP', 'yR', 'xR'):
            if k in d:
                self.ob('reference frame %s' % k, d[k] == 0, '%s = %r' % (k, d[k]))
        self.ob('person is taller than wide', d['wP'] < d['lP'] < 2.3, 'lP = %r, wP = %r' % (d['lP'], d['wP']))

    def lean(self):
        d = self.d
        self.world()
        self.signs(pos=['rr', 'rf', 'mc', 'md', 'me', 'mf', 'mg', 'd1'], nonneg=['c9', 'k9'])
        for b in 'ceg':
            self.tensor(b, *[d['i%s%s' % (b, x)] for x in ('11', '22', '33', '31')])
        self.wheel('d', d['id11'], d['id22'], d['md'], d['rr'])
        self.wheel('f', d['if11'], d['if22'], d['mf'], d['rf'])
        self.ob('roll axis of the upper body above the ground', d['d4'] - d['rr'] < 0, 'd4 - rr = %r' % (d['d4'] - d['rr']))
        self.ob('upper body above its roll axis', d['l6'] < 0, 'l6 = %r' % d['l6'])


def repeated(mod, name):
    """Keys written twice in the literal of a module level dictionary."""
    out, found = [], None
    for s in mod.tree.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(t, ast.Name) and t.id == name for t in ts) and s.value is not None:
                found = s
                for n in ast.walk(s.value):
                    if isinstance(n, ast.Dict):
                        seen = set()
                        for k in n.keys:
                            if isinstance(k, ast.Constant):
                                if k.value in seen:
                                    out.append('%r (line %d)' % (k.value, k.lineno))
                                seen.add(k.value)
    return out, found


def read_dicts(ctx):
    a = ctx.analysis()
    mod = ctx.project.module('parameter_dicts')
    sets = {}
    defined = [t.id for s in mod.tree.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)]
    names = list(DICTS)
    for nm in defined:
        pre = nm.split('_')[0]
        kind = [k for k in SETS if k.lower() == pre]
        if nm not in DICTS and kind:
            DICTS[nm] = kind[0]
            names.append(nm)
    for nm in names:
        dup, node = repeated(mod, nm)
        w = '%s:%s' % (mod.path if hasattr(mod, 'path') else 'parameter_dicts.py', node.lineno if node is not None else '?')
        ctx.ob('each parameter once', nm, not dup, 'written twice: %s' % ', '.join(dup) if dup else 'no repeated key', w)
        with ctx.group('data set', nm, w):
            try:
                d = a.get('parameter_dicts', nm)
            except Exception:
                d = None
            st = a.state()
            if d is None:
                ctx.ob('data set is shipped', nm, False, 'not defined in parameter_dicts', w)
                continue
            f = a.I.freeze(st, d)
            its = {f.items[i].lit: f.items[i + 1] for i in range(0, len(f.items), 2)}
            need = set_keys(DICTS[nm])
            miss = [k for k in need if k not in its]
            ctx.ob('complete', nm, not miss, 'lacks %s' % miss if miss else '%d parameters' % len(its), w)
            # a set must be accepted by the class of its parameterization
            cls = DICTS[nm]
            r = a.call(a.get('parameter_sets', cls + 'ParameterSet'), [d] + ([TRUE] if SETS[cls][0] else []), {}, st)
            ctx.no_raise('accepted by its parameterization', nm, r, w)
            vals = {k: constant(x) for k, x in its.items()}
            odd = [k for k, x in vals.items() if x is None]
            ctx.ob('plain numbers', nm, not odd, '%s' % ', '.join('%s = %s' % (k, V.show(its[k])[:40]) for k in odd) if odd
                   else '%d numbers' % len(vals), w)
            if not miss and not odd:
                sets[nm] = Numbers(nm, vals)
                c = Check(ctx, nm, sets[nm], w)
                with ctx.group('admissible', nm, w):
                    {'Meijaard2007': c.meijaard, 'Moore2019': c.moore19, 'MooreRiderLean2012': c.lean}.get(DICTS[nm], c.world)()
    return sets, '%s' % getattr(mod, 'path', 'parameter_dicts.py')


def read_file(ctx, path, w):
    """Parameters of a '<key> = <value>+/-<sd>' file: {key: (value, sd, unit of last digit)}."""
    out, twice, odd = {}, [], []
    for n, ln in enumerate(open(path, encoding='utf-8').read().splitlines(), 1):
        m = LINE.match(ln)
        if not m:
            if ln.strip() and not ln.strip().startswith('#'):
                odd.append('line %d' % n)
            continue
        k, t = m.group(1), m.group(2)
        v, _, u = t.partition('+/-')
        try:
            x, sd = float(v), float(u) if u else 0.0
        except ValueError:
            odd.append('%s (line %d)' % (k, n))
            continue
        if k in out:
            twice.append('%s (line %d)' % (k, n))
        dec = len(v.split('e')[0].partition('.')[2].strip())
        out[k] = (x, sd, 10.0 ** -dec)
    return out, twice, odd


def same(ctx, rule, tag, x, y, rel, w, floor=0.0):
    # the construct names both numbers: a different discrepancy is a different finding
    ok = close(x, y, rel, floor)
    ctx.ob(rule, tag if ok else '%s: %r against %r' % (tag, x, y), ok, '%.12g and %.12g' % (x, y), w)


def rotated(p, b):
    s, c = math.sin(p['lam']), math.cos(p['lam'])
    xx, zz, xz = sym2(p, b)
    return (c * c * xx - 2 * s * c * xz + s * s * zz, s * s * xx + 2 * s * c * xz + c * c * zz,
            s * c * (xx - zz) + (c * c - s * s) * xz)


def lean_agrees(ctx, l, p, w):
    s, c = math.sin(p['lam']), math.cos(p['lam'])
    R = 'the leaning rider set describes the measured bicycle'
    d1 = c * (p['c'] + p['w'] - p['rR'] * s / c)
    d3 = -c * (p['c'] - p['rF'] * s / c)
    want = {'rr': p['rR'], 'rf': p['rF'], 'mc': p['mB'], 'md': p['mR'], 'me': p['mH'], 'mf': p['mF'], 'g': p['g'],
            'd1': d1, 'd3': d3, 'd2': (p['rR'] + d1 * s - p['rF'] + d3 * s) / c,
            'ic22': p['IByy'], 'ie22': p['IHyy'], 'id11': p['IRxx'], 'id22': p['IRyy'], 'if11': p['IFxx'], 'if22': p['IFyy']}
    for k, b in (('c', 'B'), ('e', 'H')):
        want['i%s11' % k], want['i%s33' % k], want['i%s31' % k] = rotated(p, b)
    for (kx, kz), x, z in ((('l1', 'l2'), p['xB'], p['zB'] + p['rR']), (('l3', 'l4'), p['xH'] - p['w'], p['zH'] + p['rF'])):
        want[kx], want[kz] = x * c - z * s, x * s + z * c
    for k in sorted(want):
        same(ctx, R, '%s %s' % (l.name, k), l[k], want[k], 1e-9, w, 1e-9)


def rider_agrees(ctx, l, legs, full, w):
    """Legs on the bicycle plus the upper body make the whole rider on the bicycle."""
    R = 'legs and upper body make the whole rider'
    m = legs['mB'] + l['mg']
    same(ctx, R, 'mB', m, full['mB'], 1e-9, w)
    xg, zg = l['l5'], l['l6'] + l['d4'] - l['rr']
    x = (legs['mB'] * legs['xB'] + l['mg'] * xg) / m
    z = (legs['mB'] * legs['zB'] + l['mg'] * zg) / m
    same(ctx, R, 'xB', x, full['xB'], 1e-3, w)
    same(ctx, R, 'zB', z, full['zB'], 1e-3, w)
    parts = [(legs['mB'], legs['xB'], legs['zB'], legs['IBxx'], legs['IByy'], legs['IBzz'], legs['IBxz']),
             (l['mg'], xg, zg, l['ig11'], l['ig22'], l['ig33'], l['ig31'])]
    t = [0.0] * 4
    for mm, px, pz, xx, yy, zz, xz in parts:
        dx, dz = px - x, pz - z
        for i, val in enumerate((xx + mm * dz * dz, yy + mm * (dx * dx + dz * dz), zz + mm * dx * dx, xz - mm * dx * dz)):
            t[i] += val
    for i, k in enumerate(('IBxx', 'IByy', 'IBzz', 'IBxz')):
        same(ctx, R, k, t[i], full[k], 3e-3, w)


def moore_agrees(ctx, q, p, w):
    R = 'the principal axis set describes the measured bicycle'
    for k in ('g', 'lam', 'c', 'w', 'rR', 'rF', 'mR', 'mF', 'mH', 'xH', 'zH'):
        same(ctx, R, '%s %s' % (q.name, k), q[k], p[k], 1e-9, w)
    for b in 'RF':
        same(ctx, R, '%s m k%saa^2' % (q.name, b), q['m' + b] * q['k%saa' % b] ** 2, p['I%sxx' % b], 3e-3, w)
        same(ctx, R, '%s m k%syy^2' % (q.name, b), q['m' + b] * q['k%syy' % b] ** 2, p['I%syy' % b], 3e-3, w)
    bodies = [('H', 'H')]
    for b, src in bodies:
        tensor_agrees(ctx, R, q, b, p, src, w, 3e-3)


def tensor_agrees(ctx, R, q, b, p, src, w, rel):
    a2, b2 = q['m' + b] * q['k%saa' % b] ** 2, q['m' + b] * q['k%sbb' % b] ** 2
    s, c = math.sin(q['alpha' + b]), math.cos(q['alpha' + b])
    got = {'xx': a2 * c * c + b2 * s * s, 'zz': a2 * s * s + b2 * c * c, 'xz': (b2 - a2) * s * c, 'yy': q['m' + b] * q['k%syy' % b] ** 2}
    big = max(abs(p['I%s%s' % (src, x)]) for x in got)
    for x in sorted(got):
        same(ctx, R, '%s I%s%s' % (q.name, b, x), got[x], p['I%s%s' % (src, x)], rel, w, rel * big)


def check(ctx):
    sets, path = read_dicts(ctx)
    root = ctx.project.pkgdir
    files = {}
    for p in sorted(glob.glob(os.path.join(root, 'app-data', 'bicycles', '*', 'Parameters', '*.txt'))):
        bike = os.path.basename(os.path.dirname(os.path.dirname(p)))
        w = os.path.relpath(p, os.path.dirname(root)) + ':1'
        tag = 'app-data ' + os.path.basename(p)[:-4]
        with ctx.group('data set', tag, w):
            d, twice, odd = read_file(ctx, p, w)
            ctx.ob('file is named after its bicycle', tag, os.path.basename(p) == bike + 'Benchmark.txt', 'in %s' % bike, w)
            ctx.ob('each parameter once', tag, not twice, 'written twice: %s' % twice if twice else '%d lines' % len(d), w)
            ctx.ob('plain numbers', tag, not odd, 'not a number: %s' % odd if odd else '%d numbers' % len(d), w)
            miss = [k for k in M07 if k != 'v' and k not in d]
            ctx.ob('complete', tag, not miss, 'lacks %s' % miss if miss else '%d parameters' % len(d), w)
            neg = [k for k, x in d.items() if x[1] < 0]
            ctx.ob('deviations are not negative', tag, not neg, '%s' % neg if neg else 'all', w)
            if not miss:
                files[bike] = d
                c = Check(ctx, tag, {k: x[0] for k, x in d.items()}, w)
                c.meijaard('BH')
            src = os.path.join(os.path.dirname(root), 'data', 'bicycles', bike, 'Parameters', os.path.basename(p))
            if os.path.exists(src):
                o = read_file(ctx, src, w)[0]
                R = 'app data rounds the measured data'
                extra = sorted(set(d) ^ set(o))
                ctx.ob('app data has the measured parameters', tag, not extra, 'differ in %s' % extra if extra else '%d' % len(d), w)
                for k in sorted(set(d) & set(o)):
                    x, y = d[k], o[k]
                    same(ctx, R, '%s %s' % (tag, k), x[0], y[0], 5e-3, w, 2 * x[2])
                    same(ctx, R + ' (deviation)', '%s %s' % (tag, k), x[1], y[1], 1e-9, w)
    full, legs = sets.get('meijaard2007_browser_jason'), sets.get('meijaard2007_browser_jasonlegs')
    lean_, moore = sets.get('mooreriderlean2012_browser_jason'), sets.get('moore2019_browser_jason')
    if legs and lean_:
        with ctx.group('leaning rider set', 'agreement', path):
            lean_agrees(ctx, lean_, legs, path)
    if full and legs:
        for k in M07:
            if not re.match(r'.*B|v$', k):
                same(ctx, 'both benchmark sets describe the same bicycle', '%s %s' % (full.name, k), full[k], legs[k], 1e-9, path)
    if full and legs and lean_:
        with ctx.group('rider', 'agreement', path):
            rider_agrees(ctx, lean_, legs, full, path)
    if moore and legs:
        with ctx.group('principal axis set', 'agreement', path):
            moore_agrees(ctx, moore, legs, path)
    if 'Browser' in files:
        p = {k: x[0] for k, x in files['Browser'].items()}
        o = files['Browser']
        if legs:
            for k in M07:
                if k != 'v' and 'B' not in k:
                    same(ctx, 'the dictionary describes the bicycle of the app', 'jasonlegs %s' % k, legs[k], p[k], 6e-3, path, 2 * o[k][2])
        if moore:
            with ctx.group('principal axis set', 'rear frame', path):
                R = 'the rear frame is that of the bicycle of the app'
                for k, s in (('mD', 'mB'), ('xD', 'xB'), ('zD', 'zB')):
                    same(ctx, R, k, moore[k], p[s], 6e-3, path, 2 * o[s][2])
                tensor_agrees(ctx, R, moore, 'D', p, 'B', path, 6e-3)
