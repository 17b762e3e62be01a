"""Derivatives of exact expressions."""
import ring


def diff(rf, name):
    """d rf / d(variable name); raises ValueError on functions without a rule."""
    memo = {}

    def d_rf(x):
        n = d_poly(x.n)
        if not x.d:
            return n
        top = ring.RF(x.n)
        if top.is_zero():
            return ring.RZERO
        den = top / x
        if den.d:
            raise ValueError('nested denominator')
        return n / den - top * d_poly(den.n) / (den * den)

    def d_poly(p):
        out = ring.RZERO
        for m, c in p.t.items():
            for i, (aid, e) in enumerate(m):
                da = d_atom(ring.atom_by_id(aid))
                if da.is_zero():
                    continue
                rest = ring.const(c * e)
                for j, (bid, f) in enumerate(m):
                    k = f - 1 if j == i else f
                    b = ring.from_atom(ring.atom_by_id(bid))
                    rest = rest * power(b, k)
                out = out + rest * da
        return out

    def power(b, k):
        r = ring.RONE
        for _ in range(abs(int(k))):
            r = r * b
        return r if k >= 0 else ring.RONE / r

    def d_atom(a):
        if a.id in memo:
            return memo[a.id]
        h = a.head
        if h == 'var':
            r = ring.RONE if a.args[0] == name else ring.RZERO
        elif h == 'pi':
            r = ring.RZERO
        elif h in ('sin', 'cos', 'exp', 'sqrt', 'atan', 'asin', 'log'):
            x = a.args[0]
            dx = d_rf(x)
            if dx.is_zero():
                r = ring.RZERO
            elif h == 'sin':
                r = ring.cos(x) * dx
            elif h == 'cos':
                r = -ring.sin(x) * dx
            elif h == 'exp':
                r = ring.exp(x) * dx
            elif h == 'sqrt':
                r = dx / (ring.const(2) * ring.sqrt(x))
            elif h == 'atan':
                r = dx / (ring.RONE + x * x)
            elif h == 'asin':
                r = dx / ring.sqrt(ring.RONE - x * x)
            else:
                r = dx / x
        else:
            if any(b.head == 'var' and b.args[0] == name for b in ring.all_atoms(ring.from_atom(a)).values()):
                raise ValueError('no derivative of %s' % h)
            r = ring.RZERO
        memo[a.id] = r
        return r
    return d_rf(rf)
