"""What a plotting function draws, read off its effect trace."""
import an
import ring
import values as V
from values import Num, Str, Term, Frozen, Tup, num, const, string, tup

PATCH = {'Circle': ('center', 'radius'), 'Wedge': ('center', 'radius', 'theta1', 'theta2'),
         'Ellipse': ('center', 'width', 'height', 'angle'), 'Rectangle': ('center', 'width', 'height')}
ALIAS = {'xy': 'center', 'r': 'radius'}


class Shape(object):
    def __init__(self, kind, ax, data, style, pc, where):
        self.kind, self.ax, self.data, self.style, self.pc, self.where = kind, ax, data, style, pc, where

    def __repr__(self):
        return '%s %s' % (self.kind, {k: V.show(v, 3)[:60] for k, v in self.data.items()})


def kws(e):
    k = e.data[3]
    return {getattr(x, 'lit', x): v for x, v in (k.items() if isinstance(k, dict) else k)}


def unopq(a, v):
    if isinstance(v, Num):
        t = a.I.lib.opq(v)
        if t is not None:
            return t
    return v


def fmt_style(s):
    out = {}
    for ls in ('--', '-.', ':', '-'):
        if ls in s:
            out['linestyle'] = string(ls)
            s = s.replace(ls, '', 1)
            break
    for c in s:
        if c in 'bgrcmykw':
            out['color'] = string(c)
    return out


def shapes(a, r):
    """Lines, patches and texts of a Result, in drawing order."""
    made, out = {}, []
    for e in r.events:
        if e.kind != 'call':
            continue
        name = str(e.data[0])
        kw = kws(e)
        args = list(e.data[2])
        pc = getattr(e, 'pc', V.TRUE)
        last = name.rsplit('.', 1)[-1]
        if last in PATCH and e.data[1] is None:
            names = PATCH[last]
            d = dict(zip(names, args))
            for k in list(kw):
                kk = ALIAS.get(k, k)
                if kk in names:
                    d[kk] = kw.pop(k)
            made[unopq(a, e.data[4])] = (last.lower(), d, kw)
        elif last in ('add_patch', 'add_artist') and e.data[1] is not None:
            m = made.get(unopq(a, args[0]))
            if m is None:
                out.append(Shape('?', e.data[1], {}, {}, pc, e.where))
            else:
                out.append(Shape(m[0], e.data[1], m[1], m[2], pc, e.where))
        elif last == 'plot' and e.data[1] is not None:
            i = 0
            while i < len(args):
                x, y = args[i], args[i + 1] if i + 1 < len(args) else None
                i += 2
                st = dict(kw)
                if i < len(args) and isinstance(args[i], Str):
                    for k, v in fmt_style(args[i].lit or '').items():
                        st.setdefault(k, v)
                    i += 1
                out.append(Shape('line', e.data[1], {'x': x, 'y': y}, st, pc, e.where))
        elif last == 'text' and e.data[1] is not None and len(args) >= 3:
            out.append(Shape('text', e.data[1], {'x': args[0], 'y': args[1], 's': args[2]}, kw, pc, e.where))
    return out


def calls(r, name):
    return [e for e in r.events if e.kind == 'call' and str(e.data[0]).rsplit('.', 1)[-1] == name]


def same(x, y):
    return an.Comparator().compare(x, y, '', V.TRUE)


def match(data, want):
    """EQ if every named datum of want agrees."""
    v = an.EQ
    for k, x in want.items():
        if k not in data or data[k] is None:
            return an.DIFF
        v = an.worst(v, same(data[k], x))
        if v == an.DIFF:
            return v
    return v


def seq(v):
    return list(v.items) if isinstance(v, (Frozen, Tup)) else None


def points(s):
    """((x, y), ...) of a line, or None."""
    x, y = seq(s.data['x']), seq(s.data['y'])
    if x is None or y is None or len(x) != len(y):
        return None
    return list(zip(x, y))


def line_is(s, pts, closed=False):
    """The line joins these points, in this or the opposite order."""
    p = points(s)
    if p is None:
        return an.UNK
    if len(p) != len(pts):
        return an.DIFF
    best = an.DIFF
    for q in (pts, pts[::-1]):
        v = an.EQ
        for (x1, y1), (x2, y2) in zip(p, q):
            v = an.worst(v, an.worst(same(x1, x2), same(y1, y2)))
            if v == an.DIFF:
                break
        if v == an.EQ:
            return v
        if v == an.UNK:
            best = v
    return best


def find(ctx, rule, tag, cands, test, what, w):
    """Exactly one of the candidates passes; returns it."""
    vs = [(test(s), s) for s in cands]
    eq = [s for v, s in vs if v == an.EQ]
    if len(eq) == 1:
        ctx.ob(rule, tag, True, what, eq[0].where or w)
        return eq[0]
    if len(eq) > 1:
        ctx.ob(rule, tag, False, 'drawn %d times: %s' % (len(eq), what), w)
        return eq[0]
    unk = [s for v, s in vs if v == an.UNK]
    ctx.ob(rule, tag, an.UNK if unk else False, 'wanted %s; drawn %s' % (what, [s for _, s in vs][:3]), (cands[0].where if cands else None) or w)
    return None
