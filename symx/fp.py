"""Rounding: double arithmetic as affine forms.

Off (H.round is None) the arithmetic of the encoded code is exact.  On, every double is
   centre + sum of coefficient * atom,   every atom anywhere in [-1, 1],
and each operation adds one atom for its rounding (at most half an ulp of any value in its
range) and for what is not linear in the operands.  So whatever an execution with rounding
can compute lies in the form; an assertion proved for all values of the atoms holds for every
such execution.  Operations on plain numbers are rounded as the hardware does it."""
import math
from fractions import Fraction
from . import dom
from .dom import R, H, Unsupported, norm

U = Fraction(1, 2 ** 53)
TINY = Fraction(1, 2 ** 1074)


class Rounder:
    def __init__(self, path):
        self.path = path
        self.n = 0

    def eps(self):
        self.n += 1
        return ((dom.atom('var', 'eps!%05d' % self.n), 1),)


def form(x):
    """centre, {monomial: coefficient}"""
    if type(x) is R:
        c = x.t.get((), 0)
        l = {}
        for m, k in x.t.items():
            if m:
                if len(m) != 1 or m[0][1] != 1 or m[0][0][0] == '~':
                    raise Unsupported('non-linear value in rounded arithmetic')
                l[m] = k
        return c, l
    return x, {}


def radius(l):
    return sum((abs(k) for k in l.values()), Fraction(0))


def up(q):
    """a double not below q >= 0"""
    if q == 0:
        return Fraction(0)
    f = float(q)
    r = Fraction(f)
    while r < q:
        f = math.nextafter(f, math.inf)
        r = Fraction(f)
    return r


def make(c, l, extra, exact=False):
    """the form c + l + [-extra, extra], rounded to double unless exact"""
    extra = Fraction(extra)
    if not exact:
        extra += (abs(c) + radius(l) + extra) * U + TINY
    q = Fraction(float(c))
    extra += abs(c - q)
    t = {}
    for m, k in l.items():
        f = Fraction(float(k))
        extra += abs(k - f)
        if f:
            t[m] = norm(f)
    if extra:
        t[H.round.eps()] = norm(up(extra))
    if q:
        t[()] = norm(q)
    return dom.mk(t)


def to_double(v):
    """nearest double of a concrete number"""
    if type(v) is int and -(1 << 53) <= v <= 1 << 53:
        return v
    try:
        return norm(Fraction(float(v)))
    except OverflowError:
        return dom.INF if v > 0 else -dom.INF


def wide(op, a, b):
    """long double: concrete values exact, the others as doubles"""
    m = {'fadd': (dom.add, add), 'fsub': (dom.sub, sub), 'fmul': (dom.mul, mul), 'fdiv': (dom.div, div), 'frem': (dom.fmod_, dom.fmod_)}[op]
    return m[type(a) is R or type(b) is R](a, b)


def narrow(x):
    """long double -> double"""
    return x if type(x) in (R, float) or H.round is None else to_double(x)


def special(*xs):
    return any(type(x) is float for x in xs)


def add(a, b):
    if H.round is None or special(a, b):
        return dom.add(a, b)
    r = dom.add(a, b)
    if type(a) is not R and type(b) is not R:
        return to_double(r)
    if type(a) is not R and a == 0 or type(b) is not R and b == 0:
        return r
    if type(r) is not R and r == 0:
        return r            # x - x
    c, l = form(r)
    return make(c, l, 0)


def sub(a, b):
    return add(a, dom.neg(b))


def pow2(x):
    f = abs(Fraction(x))
    return f and f.numerator & (f.numerator - 1) == 0 and f.denominator & (f.denominator - 1) == 0


def mul(a, b):
    if H.round is None or special(a, b):
        return dom.mul(a, b)
    if type(a) is not R and type(b) is not R:
        return to_double(dom.mul(a, b))
    for x, y in ((a, b), (b, a)):
        if type(x) is not R and (x == 0 or pow2(x)):
            return dom.mul(a, b)
    c, l, e = product(form(a), form(b), a is b or a == b)
    return make(c, l, e)


def product(f, g, same=False):
    (c, l), (d, m) = f, g
    out = {}
    for k, v in l.items():
        out[k] = v * d
    for k, v in m.items():
        out[k] = out.get(k, 0) + v * c
    e = radius(l) * radius(m)
    mid = 0
    if same:                    # a square's remainder is not negative
        mid = e / 2
        e = e / 2
    return c * d + mid, {k: v for k, v in out.items() if v}, e


def linearised(x, f, df, low, high, convex):
    """affine enclosure of a smooth function on x's range: tangent at the centre"""
    raise NotImplementedError


def inverse(x):
    """affine enclosure of 1/x (not rounded): centre, coefficients, remainder"""
    c, l = form(x)
    r = radius(l)
    if abs(c) <= r:
        raise Unsupported('division by a range around zero')
    c = Fraction(c)
    # 1/(c+d) = 1/c - d/c^2 + d^2/(c^2 (c+d))
    e = r * r / (c * c * (abs(c) - r))
    k = -1 / (c * c)
    return 1 / c, {m: v * k for m, v in l.items()}, e


def div(a, b):
    if H.round is None or special(a, b):
        return dom.div(a, b)
    if type(b) is not R:
        if b == 0:
            return dom.div(a, b)
        if type(a) is not R:
            return to_double(dom.div(a, b))
        if pow2(b):
            return dom.div(a, b)
        c, l = form(a)
        q = 1 / Fraction(b)
        return make(c * q, {m: v * q for m, v in l.items()}, 0)
    if a is b or type(a) is R and a.t == b.t:
        if not H.cur.decide(b, 'eq'):
            return 1
    if type(a) is not R and a == 0:
        return 0
    if H.cur.decide(b, 'eq'):
        return dom.div(a, b)
    c, l, e = inverse(b)
    ca, la = form(a)
    pc, pl, pe = product((ca, la), (c, l))
    return make(pc, pl, pe + e * (abs(ca) + radius(la)))


def smooth(x, f, df, bound2):
    """f at the centre + f' * d + |d|^2/2 * max|f''|, with room for the library's last digit"""
    c, l = form(x)
    r = radius(l)
    v = Fraction(f(float(c)))
    k = Fraction(df(float(c)))
    slop = abs(v) * 8 * U + r * abs(k) * 8 * U + abs(k) * abs(Fraction(c) - Fraction(float(c)))
    return make(v, {m: w * k for m, w in l.items()}, r * r / 2 * Fraction(bound2(float(c), float(r))) + slop)


def exp(x):
    if H.round is None or special(x):
        return dom.exp_(x)
    if type(x) is not R:
        return norm(Fraction(math.exp(x)))
    return smooth(x, math.exp, math.exp, lambda c, r: math.exp(c + r) * 1.0000001)


def sqrt(x):
    if H.round is None or special(x):
        return dom.sqrt_(x)
    if type(x) is not R:
        return norm(Fraction(math.sqrt(x))) if x >= 0 else dom.NAN
    c, l = form(x)
    r = radius(l)
    if c <= r:
        raise Unsupported('square root of a range around zero')
    return smooth(x, math.sqrt, lambda v: 0.5 / math.sqrt(v), lambda c, r: 0.25 * (c - r) ** -1.5 * 1.0000001)


def power(a, b):
    if H.round is None or special(a, b):
        return dom.pow_(a, b)
    if dom.is_num(b) and norm(b) == 2:
        return mul(a, a)
    if dom.is_num(b) and norm(b) == Fraction(1, 2):
        return sqrt(a)
    raise Unsupported('pow in rounded arithmetic')


def f32(x):
    if H.round is None or special(x) or type(x) is not R:
        return dom.round_f32(x)
    c, l = form(x)
    return make(c, l, (abs(c) + radius(l)) / 2 ** 24)


def compact(c):
    """a condition with the rounding atoms of each of its forms gathered into one atom"""
    if c is True or c is False:
        return c
    if c.k == 'atom':
        d, op = c.a
        t = {}
        e = Fraction(0)
        for m, k in d.t.items():
            if m and m[0][0].startswith('eps!'):
                e += abs(k)
            else:
                t[m] = k
        if e:
            t[H.round.eps()] = norm(Fraction(math.nextafter(float(up(e)) * 1.0001, math.inf)))
        return type(c)('atom', (dom.mk(t), op)) if e else c
    if c.k == 'not':
        return type(c)('not', compact(c.a))
    return type(c)(c.k, [compact(x) for x in c.a])


def sign_range(d):
    """sign of a form if all its values have one, else None"""
    try:
        c, l = form(d)
    except Unsupported:
        return None
    r = radius(l)
    return None if abs(c) <= r else (-1 if c < 0 else 1)
