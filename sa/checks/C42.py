"""Value-graph dataflow with the channel indices enumerated: the system handed to the
frequency-response routine must be the state matrix at the requested speed, the column
of the chosen input, the row that selects the chosen output and no feed-through; the
title names that channel and options are passed through. The comparisons make one such
call per speed or bicycle on one figure, labelled with that speed or bicycle, and shift
phases only by whole turns."""
from fractions import Fraction
import itertools

import an
import values as V
from common import *
TECHNIQUE = 'value-graph dataflow (abstract interpretation) over all channels, with call-argument comparison'
ASSUMPTIONS = ['dtk.control.bode computes the response of the system it is given']
OUT = ['Roll Angle', 'Steer Angle', 'Roll Rate', 'Steer Rate']
IN = ['Roll Torque', 'Steer Torque']


def bodes(r):
    return [e for e in r.events if e.kind == 'call' and str(e.data[0]).endswith('.bode')]


def figure(a, st, nm, n=2):
    """A figure whose phase axes hold n lines."""
    a.I.lib.term_get_ydata = lambda st, t, args, kw, node: (
        a.I.new_arr(st, [ydata(t, i) for i in range(3)], (3,)) if t.head == 'line' else None)
    ls = a.I.new_list(st, [V.term('line', string(nm), const(i)) for i in range(n)])
    ax = instance(a, st, 'main', 'Bicycle', {'lines': ls})
    return instance(a, st, 'main', 'Bicycle', {'ax2': ax, 'ax1': ax})


def channel(ctx, a, rule, tag, e, y, u, A, B, w, ex=None):
    args = e.data[2]
    s = args[0]
    s = s if isinstance(s, (V.Tup, V.Frozen)) else None
    if s is None or len(s.items) != 4:
        ctx.ob(rule, tag, an.UNK, 'system is %s' % V.show(args[0])[:100], w)
        return
    flat = lambda v: list(v.items) if isinstance(v, (V.Tup, V.Frozen)) else [v]
    n = 4
    ctx.equal(rule, tag + ' state matrix', s.items[0], A, w)
    ctx.equal(rule, tag + ' input column', tup(flat(s.items[1])), tup([B.items[i * 2 + u] for i in range(n)]), w)
    ctx.equal(rule, tag + ' output row', tup(flat(s.items[2])), tup([const(1 if i == y else 0) for i in range(n)]), w)
    ctx.equal(rule, tag + ' feed-through', tup(flat(s.items[3])), tup([const(0)]), w)


def kwd(e):
    k = e.data[3]
    return {getattr(x, 'lit', x): v for x, v in (k.items() if isinstance(k, dict) else k)}


def single(ctx):
    w = ctx.where('main', 'Bicycle.plot_bode')
    for u in range(2):
        for y in range(4):
            for extra in (False, True):
                t = '%s to %s%s' % (IN[u], OUT[y], ' with options' if extra else '')
                with ctx.group('channel', t, w):
                    a = ctx.analysis()
                    st = a.state()
                    b = bicycle(a, st, u=True)
                    sp = const(-3) if extra else V.var('speed')
                    s = a.method(b, 'state_space', [sp], {'nominal': TRUE}, st.fork())
                    A, B = s.frozen().items
                    kw = {'label': string('mine'), 'title': string('given'), 'fig': V.term('figure')} if extra else {}
                    r = a.method(b, 'plot_bode', [sp, const(u), const(y)], dict(kw), st)
                    if not ctx.no_raise('completes', t, r, w):
                        continue
                    es = bodes(r)
                    ctx.ob('one response', t, len(es) == 1, '%d calls' % len(es), w)
                    if len(es) != 1:
                        continue
                    channel(ctx, a, 'channel', t, es[0], y, u, A, B, w)
                    k = kwd(es[0])
                    if extra:
                        for x in kw:
                            ctx.ob('options', '%s %s' % (t, x), k.get(x) is kw[x], V.show(k.get(x))[:80] if x in k else 'not passed', w)
                    else:
                        lit = getattr(k.get('title'), 'lit', None)
                        ctx.ob('title', t, an.UNK if lit is None else lit.lower() == t.lower(), str(lit), w)
                    ctx.ob('returned', t, r.value is es[0].data[4] or a.I.freeze(r.st, r.value) is a.I.freeze(r.st, es[0].data[4]), '', w)


def ydata(line, i):
    return num(ring.app('opq', V.term('ydata', line, const(i))))


def turns(rf):
    """Whether the value is an integer combination of integer-valued terms."""
    if rf.is_const():
        return rf.const().denominator == 1
    d = list(rf.d)
    if d:
        return None
    for mono, c in rf.n.t.items():
        if Fraction(c).denominator != 1:
            return False
        for at, e in mono:
            if ring.atom_by_id(at).head not in ('sign', 'ceil', 'floor', 'trunc', 'int', 'round'):
                return False
    return True


def phases(ctx, a, r, tag, w):
    """Each phase line keeps its data up to whole turns."""
    done = set()
    for e in r.events:
        if e.kind == 'call' and str(e.data[0]).endswith('set_ydata'):
            line = e.data[1]
            done.add(line)
            new = r.freeze(e.data[2][0])
            its = list(new.items) if isinstance(new, V.Frozen) else []
            for i, x in enumerate(its):
                n = a.I.lib.tonum(x)
                ok = turns((n.rf - ydata(line, i).rf) / ring.const(360)) if n is not None else None
                ctx.ob('phase shift', '%s %s point %d' % (tag, V.show(line), i), an.UNK if ok is None else ok, V.show(x)[:300], w)
            if not its:
                ctx.ob('phase shift', '%s %s' % (tag, V.show(line)), an.UNK, V.show(new)[:100], w)
    ctx.ob('phase shift', tag + ' lines', True, '%d lines shifted' % len(done), w)


def compare(ctx):
    for which in ('speeds', 'bicycles'):
        fn = ('main', 'Bicycle.compare_bode_speeds') if which == 'speeds' else ('plot', 'compare_bode_bicycles')
        w = ctx.where(*fn)
        for n in (1, 2, 3):
            for fig in (False, True):
                for u, y in (itertools.product(range(2), range(4)) if n == 2 and not fig else ((0, 0), (1, 2), (0, 3))):
                    t = '%d %s, input %d output %d%s' % (n, which, u, y, ' on a figure' if fig else '')
                    with ctx.group('comparison', t, w):
                        a = ctx.analysis()
                        st = a.state()
                        calls = []

                        def pb(st, args, kw, node):
                            calls.append((args, dict(kw)))
                            return V.term('bode', const(len(calls)))
                        a.I.stubs[('main', 'Bicycle.plot_bode')] = pb
                        bs = [bicycle(a, st, attrs={'bicycleName': string('Bike%d' % i)}) for i in range(n if which == 'bicycles' else 1)]
                        kw = {'fig': figure(a, st, 'given')} if fig else {}
                        a.I.lib.ext['matplotlib.pyplot.figure'] = lambda st, args, kw, node: figure(a, st, 'new')
                        sp = [const(k) for k in (5, 9, 4)[:n]]
                        try:
                            if which == 'speeds':
                                r = a.method(bs[0], 'compare_bode_speeds', [a.I.new_list(st, sp), const(u), const(y)], kw, st)
                            else:
                                r = a.call(a.get('plot', 'compare_bode_bicycles'), [a.I.new_list(st, bs), V.var('speed'), const(u), const(y)], kw, st)
                        except an.Unsupported as e:
                            ctx.ob('completes', t, an.UNK, str(e), w)
                            r = None
                        ctx.ob('comparison', t + ' curves', len(calls) == n, '%d curves' % len(calls), w)
                        if len(calls) != n:
                            continue
                        figs = set()
                        names = ['self', 'speed', 'u', 'y']
                        for i, (args, k) in enumerate(calls):
                            g = dict(zip(names, args))
                            g.update(k)
                            b = bs[i if which == 'bicycles' else 0]
                            ctx.ob('comparison', '%s curve %d bicycle' % (t, i), g.get('self') is b, '', w)
                            want = sp[i] if which == 'speeds' else V.var('speed')
                            ctx.equal('comparison', '%s curve %d speed' % (t, i), g['speed'], want, w)
                            ctx.equal('comparison', '%s curve %d input' % (t, i), g['u'], const(u), w)
                            ctx.equal('comparison', '%s curve %d output' % (t, i), g['y'], const(y), w)
                            lab = getattr(g.get('label'), 'lit', None)
                            name = str((5, 9, 4)[i]) if which == 'speeds' else 'Bike%d' % i
                            ctx.ob('labels', '%s curve %d' % (t, i), an.UNK if lab is None else lab.split(' ')[0] in (name, name + '.0'), str(lab), w)
                            figs.add(g.get('fig'))
                        ctx.ob('comparison', t + ' one figure', len(figs) == 1 and (not fig or kw['fig'] in figs), str(figs)[:100], w)
                        if r is not None:
                            ctx.no_raise('completes', t, r, w)
                            ctx.ob('returned', t, r.value in figs, V.show(r.value)[:60], w)
                            phases(ctx, a, r, t, w)


def check(ctx):
    single(ctx)
    compare(ctx)
