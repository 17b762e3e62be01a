"""Path-sensitive value-graph dataflow over sort_eigenmodes and sort_modes with
symbolic spectra: the nearest eigenvalue is an arbitrary one among those whose
distance was not marked infinite, and at every step of every feasible path the produced row must be a
permutation of that step's eigenvalues with each eigenvector column moved with its
own eigenvalue, and each mode goes on with the nearest, in the complex plane, of the
eigenvalues of the next step not yet taken. The first row is unchanged, the three named modes partition the
columns, and the input arrays are compared before and after."""
import itertools
import an
import values as V
from common import *
TECHNIQUE = 'path-sensitive value-graph dataflow (decision diagrams over an arbitrary nearest-eigenvalue choice)'
ASSUMPTIONS = ['eigenvalues are finite', 'sweeps of up to three steps; the step is the same at every position']


def spectra(a, st, n, m):
    ev = [num(ring.app('opq', V.term('in', string('e'), const(i), const(j))), False, 'c') for i in range(n) for j in range(m)]
    vec = [num(ring.app('opq', V.term('in', string('v'), const(i), const(r), const(j))), False, 'c')
           for i in range(n) for r in range(m) for j in range(m)]
    return a.I.new_arr(st, ev, (n, m), 'c'), a.I.new_arr(st, vec, (n, m, m), 'c')


def nearest(a):
    """argmin as an arbitrary choice among the entries that are not infinite."""
    lib = a.I.lib
    serial = {}
    a.picks = []

    def f(st, args, kw, node):
        v = lib.force(V.restrict(args[0], st.pc))
        its, sh = lib.as_arr(st, v)
        if len(sh) != 1:
            raise an.Unsupported('argmin over %d dimensions' % len(sh))
        return choose(st, its, [const(k) for k in range(len(its))], node)

    def choose(st, its, cols, node):
        """The candidate (an index) whose entry is smallest."""
        # the same entries always give the same choice
        q = serial.setdefault(tuple(its), len(serial))
        ok = []
        for k, x in enumerate(its):
            fin = V.FALSE
            for c, y in V.leaves(V.restrict(x, st.pc), TRUE):
                n = lib.tonum(y)
                if n is None or not ring.infinite_part(n.rf):
                    fin = V.or_(fin, c)
            ok.append(fin)
        none = TRUE
        for c in ok:
            none = V.and_(none, V.not_(c))
        # without a finite entry the first one is returned
        r = const(0)
        last = const(0)
        for k in range(len(its)):
            last = V.ite(ok[k], const(k), last)
        r = last
        for k in reversed(range(len(its))):
            pick = V.and_(ok[k], V.cond_atom(('choice', q, k)))
            r = V.ite(pick, const(k), r)
        r = V.ite(none, const(0), r)
        res = cols[-1]
        for k in reversed(range(len(its) - 1)):
            for c, y in V.leaves(r):
                if y.rf.const() == k:
                    res = V.ite(c, cols[k], res)
        a.picks.append((st.pc, [V.restrict(x, st.pc) for x in its], cols, res, a.I.where(node)))
        return res

    def least(st, args, kw, node):
        if 'key' in kw and len(args) == 1:
            cols = lib.iterate(st, args[0], node)
            if cols and all(isinstance(V.restrict(c, st.pc), Num) for c in cols):
                return choose(st, [a.I.call(st, kw['key'], [x], {}, node) for x in cols], cols, node)
        return lib.minmax(st, args, kw, node, False)
    a.I.lib.ext['numpy.argmin'] = f
    a.I.lib.ext['builtins.min'] = least


def source(a, x):
    """(step, column) or (step, component, column) of an input entry."""
    n = a.I.lib.tonum(x)
    t = a.I.lib.opq(n) if n is not None else None
    if t is None or t.head != 'in':
        return None
    return tuple(int(k.rf.const()) for k in t.args[1:])


def joint(vs, pc):
    out = [(pc, ())]
    for v in vs:
        nxt = []
        for c, t in out:
            for c2, x in V.leaves(v, c):
                if V.feasible(c2):
                    nxt.append((c2, t + (x,)))
        out = nxt
    return out


def rows(ctx, a, tag, ev, vec, n, m, w):
    """ev: n rows of m values, vec: n x m x m values."""
    for i in range(n):
        cases = 0
        bad = None
        for c, t in joint(ev[i], TRUE):
            cases += 1
            src = [source(a, x) for x in t]
            if any(s is None for s in src):
                bad = (c, 'entry %s is not one of the given eigenvalues' % V.show(t[src.index(None)])[:60])
                break
            if sorted(src) != [(i, j) for j in range(m)]:
                bad = (c, 'row %d holds eigenvalues %s of the steps' % (i, src))
                break
            if i == 0 and src != [(0, j) for j in range(m)]:
                bad = (c, 'first row is reordered: %s' % src)
                break
            for r in range(m):
                for j in range(m):
                    got = {source(a, x) for c2, x in V.leaves(vec[i][r][j], c) if V.feasible(V.and_(c, c2))}
                    if got != {(i, r, src[j][1])}:
                        bad = (c, 'component %d of vector %d comes from %s, eigenvalue from %s' % (r, j, sorted(map(str, got)), src[j]))
            if bad:
                break
        ctx.ob('permutation', '%s row %d' % (tag, i), bad is None,
               '%d orderings' % cases if bad is None else '%s [when %s]' % (bad[1], V.show_pc(bad[0])[:200]), w)


def atoms_in(rf):
    """Sources of the input entries an expression depends on."""
    out = set()

    def go(t):
        if isinstance(t, V.Term):
            if t.head == 'in':
                out.add((t.args[0].lit,) + tuple(int(k.rf.const()) for k in t.args[1:]))
            for x in t.args:
                go(x)
    for at in ring.all_atoms(rf).values():
        if at.head == 'opq':
            go(at.args[0])
    return out


def is_distance(rf, p, q):
    """rf grows with the distance in the complex plane of e[p] and e[q]: True, False or
    None when its form is not understood."""
    e = lambda s: V.term('in', string('e'), const(s[0]), const(s[1]))
    part = lambda s, h: ring.app('opq', V.term('attr', e(s), string(h)))
    dx, dy = part(p, 'real') - part(q, 'real'), part(p, 'imag') - part(q, 'imag')
    d2 = dx * dx + dy * dy
    z = ring.app('opq', e(p)) - ring.app('opq', e(q))
    inner = rf
    if not rf.d and len(rf.n.t) == 1:
        (m, c), = rf.n.t.items()
        if len(m) == 1 and m[0][1] == 1 and ring.atom_by_id(m[0][0]).head == 'abs' and c > 0:
            inner = ring.atom_by_id(m[0][0]).args[0]
            if ring.zero_test(inner - z) or ring.zero_test(inner + z):
                return True
    for x in (inner * inner, inner):
        r = x / d2
        if r.is_const() and r.const() > 0 or ring.zero_test(x - d2):
            return True
    heads = {at.head for at in ring.all_atoms(rf).values()}
    return False if heads <= ring.INTERPRETED | {'opq'} else None


def tracking(ctx, a, tag, ev, n, m, w):
    """Each mode goes on with the nearest of the eigenvalues not yet taken."""
    done, bad, unk = 0, None, None
    met = set()
    for pc, its, cands, res, at in a.picks:
        for n_, x in enumerate(its):
            k = V.restrict(cands[n_], pc).rf.const()
            for c, y in V.leaves(x, pc):
                num_ = a.I.lib.tonum(y)
                if num_ is None:
                    unk = unk or (at, V.show(y)[:80])
                    continue
                if ring.infinite_part(num_.rf):
                    continue
                src = sorted(s[1:] for s in atoms_in(num_.rf) if s[0] == 'e')
                done += 1
                if len(src) != 2 or len(src[0]) != 2 or src[1][0] != src[0][0] + 1:
                    bad = bad or (at, 'entry %d of the distances compares eigenvalues %s (step, column)' % (k, src))
                    continue
                ok = is_distance(num_.rf, src[0], src[1])
                if ok is not True:
                    if ok is None:
                        unk = unk or (at, ring.show(num_.rf)[:150])
                    else:
                        bad = bad or (at, 'not the distance of the eigenvalues: %s' % ring.show(num_.rf)[:200])
                    continue
                i = src[0][0]
                cols = set()
                for j in range(m):
                    for c2, z in V.leaves(ev[i][j], c):
                        if V.feasible(c2) and source(a, z) == src[0]:
                            cols.add(j)
                            met.add((i + 1, j))
                            # when this entry is picked the mode goes on with it
                            for c3, z2 in V.leaves(res, c2):
                                if not V.feasible(c3) or not isinstance(z2, Num) or z2.rf.const() != k:
                                    continue
                                for c4, z3 in V.leaves(ev[i + 1][j], c3):
                                    if V.feasible(c4) and source(a, z3) != src[1]:
                                        bad = bad or (at, 'column %d goes on with %s when the nearest of %s is %s' % (
                                            j, source(a, z3), src[0], src[1]))
                if not cols:
                    bad = bad or (at, 'distances from %s, which is in no column' % (src[0],))
    want = {(i, j) for i in range(1, n) for j in range(m)}
    if n == 1:
        return
    if not a.picks and not bad:
        ctx.ob('nearest continuation', tag, an.UNK, 'no choice of a smallest distance found', w)
        return
    if met != want and not bad and not unk:
        bad = (w, 'no nearest choice for (step, column) %s' % sorted(want - met)[:4])
    ctx.ob('nearest continuation', tag, False if bad else an.UNK if unk else True,
           bad[1] if bad else unk[1] if unk else '%d distances' % done, (bad or unk or (w,))[0])


def grid(f):
    n, m = f.meta[:2]
    k = len(f.items) // n
    rows_ = [list(f.items[i * k:(i + 1) * k]) for i in range(n)]
    if len(f.meta) == 2:
        return rows_
    p = f.meta[2]
    return [[r[j * p:(j + 1) * p] for j in range(m)] for r in rows_]


def cat(parts, three):
    """Columns of several arrays side by side."""
    out = None
    for f, cols in parts:
        g = grid(f) if len(f.meta) == (3 if three else 2) else None
        if g is None:
            n = f.meta[0]
            k = len(f.items) // n
            flat = [list(f.items[i * k:(i + 1) * k]) for i in range(n)]
            g = [[[x] for x in r] for r in flat] if three else [[x] for r in flat for x in r]
        out = g if out is None else ([[p + q for p, q in zip(x, y)] for x, y in zip(out, g)] if three else
                                     [x + y for x, y in zip(out, g)])
    return out


def check(ctx):
    w = ctx.where('bicycle', 'sort_eigenmodes')
    for n, m in ((1, 4), (2, 4), (2, 2), (3, 2), (4, 2), (2, 3), (2, 5), (3, 3)) + (((2, 6), (5, 2)) if ctx.thorough else ()):
        tag = 'sort_eigenmodes %d steps of %d' % (n, m)
        with ctx.group('permutation', tag, w):
            a = ctx.analysis()
            nearest(a)
            st = a.state()
            ev, vec = spectra(a, st, n, m)
            before = [a.I.freeze(st, ev), a.I.freeze(st, vec)]
            r = a.call(a.get('bicycle', 'sort_eigenmodes'), [ev, vec], {}, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            f = r.frozen()
            ctx.ob('shapes', tag, f.items[0].meta == (n, m) and f.items[1].meta == (n, m, m),
                   '%s %s' % (f.items[0].meta, f.items[1].meta), w)
            rows(ctx, a, tag, grid(f.items[0]), grid(f.items[1]), n, m, w)
            tracking(ctx, a, tag, grid(f.items[0]), n, m, w)
            ctx.equal('inputs unchanged', tag, tup([r.freeze(ev), r.freeze(vec)]), tup(before), w)
    w = ctx.where('bicycle', 'sort_modes')
    for n in (1, 2):
        tag = 'sort_modes %d steps' % n
        with ctx.group('permutation', tag, w):
            a = ctx.analysis()
            nearest(a)
            st = a.state()
            ev, vec = spectra(a, st, n, 4)
            before = [a.I.freeze(st, ev), a.I.freeze(st, vec)]
            r = a.call(a.get('bicycle', 'sort_modes'), [ev, vec], {}, st)
            if not ctx.no_raise('completes', tag, r, w):
                continue
            f = r.frozen()
            d = [{x.items[i].lit: x.items[i + 1] for i in range(0, len(x.items), 2)} for x in f.items]
            we, cap, cas = d
            shapes = [x.meta for y in d for x in (y['evals'], y['evecs'])]
            ok = shapes == [(n, 2), (n, 4, 2), (n,), (n, 4), (n,), (n, 4)]
            ctx.ob('shapes', tag, ok, str(shapes), w)
            if not ok:
                continue
            E = cat([(we['evals'], 2), (cap['evals'], 1), (cas['evals'], 1)], False)
            X = cat([(we['evecs'], 2), (cap['evecs'], 1), (cas['evecs'], 1)], True)
            # columns: weave pair, capsize, caster -> order them as the first row lists them
            order = [source(a, x)[1] for x in E[0]] if all(source(a, x) for x in E[0]) else list(range(4))
            inv = [order.index(j) for j in range(4)] if sorted(order) == list(range(4)) else list(range(4))
            E = [[r_[k] for k in inv] for r_ in E]
            X = [[[c_[k] for k in inv] for c_ in r_] for r_ in X]
            ctx.ob('named modes', tag, order == [2, 3, 1, 0], 'weave, weave, capsize, caster are columns %s' % order, w)
            rows(ctx, a, tag, E, X, n, 4, w)
            ctx.equal('inputs unchanged', tag, tup([r.freeze(ev), r.freeze(vec)]), tup(before), w)
