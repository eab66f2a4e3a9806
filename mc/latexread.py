"""Reads LaTeX formulas as mathematics: an independent recursive-descent reader, evaluated numerically."""
import re
import mpmath

TOKEN = re.compile(r'\s+|\\left|\\right|\\[a-zA-Z]+|[0-9]+(?:\.[0-9]+)?|[a-zA-Z_]+(?:,\s*[0-9]+)?|[-+*/^{}()=]')
FUNCS = {'\\sin': mpmath.sin, '\\cos': mpmath.cos, '\\tan': mpmath.tan, '\\cot': lambda x: mpmath.cos(x) / mpmath.sin(x), '\\exp': mpmath.exp,
         '\\ln': mpmath.ln, '\\log': mpmath.ln}


class LatexError(Exception):
    pass


def tokenize(s):
    out, i = [], 0
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m:
            raise LatexError('cannot read %r' % s[i:i + 20])
        t = m.group()
        if not t.isspace() and t not in ('\\left', '\\right', '\\,', '\\quad'):
            out.append(t)
        i = m.end()
    return out


class Reader:
    """names: {token of a quantity: value}; dots: the value of the innermost continuation."""
    def __init__(self, tokens, names, dots):
        self.t, self.i, self.names, self.dots = tokens, 0, names, dots
        self.dots_used = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self, want=None):
        t = self.peek()
        if t is None or want is not None and t != want:
            raise LatexError('expected %s, found %s' % (want, t))
        self.i += 1
        return t

    def expr(self):
        v = self.term()
        while self.peek() in ('+', '-'):
            s = self.next()
            w = self.term()
            v = v + w if s == '+' else v - w
        return v

    def term(self):
        sign = 1
        while self.peek() in ('+', '-'):
            if self.next() == '-':
                sign = -sign
        v = self.power()
        while True:
            t = self.peek()
            if t in ('\\cdot', '*', '\\times'):
                self.next()
                v = v * self.power()
            elif t == '/':
                self.next()
                v = v / self.power()
            elif t is not None and t not in '+-=)}^':
                v = v * self.power()
            else:
                return sign * v

    def power(self):
        v = self.atom()
        while self.peek() == '^':
            self.next()
            if self.peek() == '{':
                self.next()
                e = self.expr()
                self.next('}')
            else:
                t = self.next()
                if not t.isdigit():
                    raise LatexError('strange exponent %s' % t)
                # an exponent without braces is a single character
                if len(t) > 1:
                    self.i -= 1
                    self.t[self.i] = t[1:]
                    t = t[0]
                e = int(t)
            v = v**int(e) if e == int(e) else v**e
        return v

    def group(self):
        self.next('{')
        v = self.expr()
        self.next('}')
        return v

    def atom(self):
        t = self.next()
        if t == '(':
            v = self.expr()
            self.next(')')
            return v
        if t == '{':
            v = self.expr()
            self.next('}')
            return v
        if t == '\\frac':
            p = self.group()
            q = self.group()
            return p / q
        if t == '\\sqrt':
            return mpmath.sqrt(self.group())
        if t in FUNCS:
            inverse = False
            if self.peek() not in ('(', '{'):
                raise LatexError('function without an argument')
            close = ')' if self.next() == '(' else '}'
            v = self.expr()
            self.next(close)
            return FUNCS[t](v)
        if t == '\\dots' or t == '\\ldots' or t == '\\cdots':
            self.dots_used += 1
            return self.dots
        if t in self.names:
            return self.names[t]
        if t[0].isdigit():
            return mpmath.mpf(t)
        raise LatexError('unknown quantity %s' % t)


def read_equation(text, names, dots):
    """(left value, right value, number of dots)"""
    names = {k: v for k, v in names.items()}
    tokens = tokenize(text)
    if tokens.count('=') != 1:
        raise LatexError('not one equation')
    i = tokens.index('=')
    l, r = Reader(tokens[:i], names, dots), Reader(tokens[i + 1:], names, dots)
    a, b = l.expr(), r.expr()
    if l.peek() is not None or r.peek() is not None:
        raise LatexError('trailing %s %s' % (l.peek(), r.peek()))
    return a, b, r.dots_used + l.dots_used
