"""Reads the small LaTeX formula language used in plot titles back into expressions."""
import re
import ring


class TexError(Exception):
    pass


def tokens(parts):
    """parts: literal strings and expressions (ring.RF), already filled in."""
    out = []
    for p in parts:
        if not isinstance(p, str):
            out.append(p)
            continue
        for m in re.finditer(r'\\([A-Za-z]+)|\\[,;! ]|(\d+\.?\d*)|([A-Za-z])|(\S)', p):
            if m.group(1):
                if m.group(1) not in ('left', 'right', 'quad', 'cdot'):
                    out.append('\\' + m.group(1))
            elif m.group(2):
                from fractions import Fraction
                out.append(ring.const(Fraction(m.group(2))))
            elif m.group(3) or m.group(4):
                out.append(m.group(0))
    return out


class Parser(object):
    CLOSE = {'(': ')', '[': ']', '{': '}'}
    FUN = {'\\sin': ring.sin, '\\cos': ring.cos, '\\sqrt': ring.sqrt, '\\exp': ring.exp}

    def __init__(self, toks, names):
        self.t, self.i, self.names = toks, 0, names

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, want=None):
        x = self.peek()
        if x is None or want is not None and not (isinstance(x, str) and x == want):
            raise TexError('expected %s, got %s' % (want, x))
        self.i += 1
        return x

    def expr(self):
        neg = self.sign('-')
        v = self.term()
        v = -v if neg else v
        while True:
            if self.sign('+'):
                v = v + self.term()
            elif self.sign('-'):
                v = v - self.term()
            else:
                return v

    def sign(self, s):
        if isinstance(self.peek(), str) and self.peek() == s:
            self.i += 1
            return True
        return False

    def starts(self):
        x = self.peek()
        return x is not None and (not isinstance(x, str) or x in self.CLOSE or x in self.FUN or x in self.names or x == 'e')

    def term(self):
        v = self.factor()
        while True:
            if self.sign('/'):
                v = v / self.factor()
            elif self.starts():
                v = v * self.factor()
            else:
                return v

    def factor(self):
        x = self.peek()
        if isinstance(x, str) and x == 'e':
            self.take()
            self.take('^')
            return ring.exp(self.base())
        v = self.base()
        if self.sign('^'):
            p = self.base()
            if not p.is_const():
                raise TexError('power')
            v = v ** int(p.const_value() if hasattr(p, 'const_value') else next(iter(p.n.t.values())))
        return v

    def base(self):
        x = self.peek()
        if x is None:
            raise TexError('formula ends')
        self.i += 1
        if not isinstance(x, str):
            return x
        if x in self.CLOSE:
            v = self.expr()
            self.take(self.CLOSE[x])
            return v
        if x in self.FUN:
            return self.FUN[x](self.base() if self.peek() in ('{', '(') else self.factor())
        if x in self.names:
            return self.names[x]
        raise TexError('unexpected %s' % x)


def formula(parts, names):
    p = Parser(tokens(parts), names)
    v = p.expr()
    if p.peek() is not None:
        raise TexError('left over %s' % p.peek())
    return v
