"""Number domain of the symbolic executor: exact reals with NaN and infinities.

A double is one of
  int / Fraction   a concrete finite value
  float            NaN, +inf or -inf only
  R                a symbolic finite value: a canonical Laurent polynomial with rational
                   coefficients over atoms.  Atoms are input variables, reciprocals
                   inv(p) of polynomials, and results of opaque functions (exp, sqrt, ...).
Anything that depends on the sign of a symbolic value asks the current path (CTX).
"""
from fractions import Fraction
import math, struct

NAN = float('nan')
INF = float('inf')


class Unsupported(BaseException):
    """The encoding does not cover something the code does."""


class PathAbort(BaseException):
    """This path cannot be taken (assumption not satisfiable)."""


class CtxHolder:
    cur = None
    round = None        # set: arithmetic with rounding (fp.py)


H = CtxHolder()

# ---------------------------------------------------------------- atoms
# An atom's id is a string that determines it, so that everything derived from the order of
# ids is the same in every process and on every re-execution.
ATOMS = {}          # id -> Atom


class Atom:
    __slots__ = ('id', 'kind', 'name', 'base', 'z3', 'info')

    def __init__(self, id, kind, name, base=None, info=None):
        self.id = id; self.kind = kind; self.name = name; self.base = base; self.z3 = None; self.info = info


def atom(kind, base, info=None):
    i = base if kind == 'var' else '~%s(%s)' % (kind, show(base))
    if i not in ATOMS:
        ATOMS[i] = Atom(i, kind, i, None if kind == 'var' else base, info)
    return i


def clear_atoms():
    for k in [k for k, a in ATOMS.items() if a.kind != 'var']:
        del ATOMS[k]


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class R:
    __slots__ = ('t', '_k')

    def __init__(self, t):
        self.t = t
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items(), key=lambda kv: kv[0]))
        return self._k

    def __repr__(self):
        return show(self)


def var(name):
    return R({((atom('var', name), 1),): 1})


def show(x):
    if type(x) is not R:
        return str(x)
    out = []
    for m, c in x.key():
        s = '*'.join(a if e == 1 else '%s^%d' % (a, e) for a, e in m)
        out.append(s if c == 1 and s else '%s%s' % (c, '*' + s if s else ''))
    return ' + '.join(out)


def mk(t):
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return R(t)


def is_num(x):
    return type(x) is int or type(x) is Fraction


def add(a, b):
    ta, tb = type(a), type(b)
    if ta is R:
        if tb is R:
            if len(a.t) < len(b.t):
                a, b = b, a
            t = dict(a.t)
            for m, c in b.t.items():
                o = t.get(m)
                if o is None:
                    t[m] = c
                else:
                    s = o + c
                    if s == 0:
                        del t[m]
                    else:
                        t[m] = norm(s)
            return mk(t)
        if tb is float:
            return b
        if b == 0:
            return a
        t = dict(a.t)
        s = t.get((), 0) + b
        if s == 0:
            t.pop((), None)
        else:
            t[()] = norm(s)
        return mk(t)
    if tb is R:
        return add(b, a)
    if ta is float or tb is float:
        if ta is not float: return b
        if tb is not float: return a
        return a + b
    return norm(a + b)


def neg(a):
    if type(a) is R:
        return R({m: -c for m, c in a.t.items()})
    return -a


def sub(a, b):
    return add(a, neg(b))


def mono_mul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n:
        s = d.get(a, 0) + e
        if s == 0:
            del d[a]
        else:
            d[a] = s
    return tuple(sorted(d.items()))


def mul(a, b):
    ta, tb = type(a), type(b)
    if ta is float or tb is float:
        return mul_special(a, b)
    if ta is R:
        if tb is R:
            t = {}
            for m, c in a.t.items():
                for n, d in b.t.items():
                    p = mono_mul(m, n)
                    t[p] = t.get(p, 0) + c * d
            return fix(mk({m: norm(c) for m, c in t.items() if c != 0}))
        if b == 0:
            return 0
        return R({m: norm(c * b) for m, c in a.t.items()})
    if tb is R:
        return mul(b, a)
    return norm(a * b)


def fix(x):
    """inv atoms to a negative power turn back into their base."""
    if type(x) is not R:
        return x
    for m in x.t:
        for a, e in m:
            if e < 0 and ATOMS[a].kind == 'inv':
                break
        else:
            continue
        break
    else:
        return x
    acc = 0
    for m, c in x.t.items():
        term = c
        rest = []
        for a, e in m:
            if e < 0 and ATOMS[a].kind == 'inv':
                term = mul(term, ipow(ATOMS[a].base, -e))
            else:
                rest.append((a, e))
        acc = add(acc, mul(term, mk({tuple(rest): 1})))
    return acc


def ipow(a, n):
    r = 1
    for _ in range(n):
        r = mul(r, a)
    return r


def sign(a):
    """-1, 0 or 1; asks the path for symbolic values (may fork)."""
    if type(a) is R:
        if H.cur.decide(a, 'lt'): return -1
        if H.cur.decide(a, 'eq'): return 0
        return 1
    return (a > 0) - (a < 0)


def mul_special(a, b):
    if a != a or b != b:
        return NAN
    sa, sb = sign(a), sign(b)
    s = sa * sb
    return NAN if s == 0 else (INF if s > 0 else -INF)


def div(a, b):
    ta, tb = type(a), type(b)
    if ta is float or tb is float:
        if a != a or b != b:
            return NAN
        if tb is float:
            return NAN if ta is float else 0
        s = sign(b)
        return a if s >= 0 else -a
    if tb is not R:
        if b == 0:
            s = sign(a)
            return NAN if s == 0 else (INF if s > 0 else -INF)
        return mul(a, norm(Fraction(1) / b))
    if ta is not R and a == 0:
        return NAN if H.cur.decide(b, 'eq') else 0
    if H.cur.decide(b, 'eq'):
        s = sign(a)
        return NAN if s == 0 else (INF if s > 0 else -INF)
    if ta is R:
        q = proportional(a, b)
        if q is not None:
            return q
    return mul(a, inv(b))


def proportional(a, b):
    """a/b if it is a number."""
    if len(a.t) != len(b.t):
        return None
    m, c = next(iter(b.t.items()))
    d = a.t.get(m)
    if d is None:
        return None
    q = Fraction(d) / c
    for n, e in b.t.items():
        f = a.t.get(n)
        if f is None or f != q * e:
            return None
    return norm(q)


def inv(b):
    """1/b for a polynomial known to be non-zero."""
    if len(b.t) == 1:
        (m, c), = b.t.items()
        return fix(R({tuple((a, -e) for a, e in m): norm(Fraction(1) / c)}))
    lo = {}
    first = True
    for m in b.t:
        d = dict(m)
        if first:
            lo = dict(d); first = False
        else:
            for a in list(lo):
                lo[a] = min(lo[a], d.get(a, 0))
            for a, e in d.items():
                if a not in lo and e < 0:
                    lo[a] = e
    # atoms absent from an earlier monomial count as exponent 0
    for a in list(lo):
        for m in b.t:
            if a not in dict(m):
                lo[a] = min(lo[a], 0)
    lo = {a: e for a, e in lo.items() if e}
    g = tuple(sorted(lo.items()))
    ginv = tuple((a, -e) for a, e in g)
    p = R({mono_mul(m, ginv): c for m, c in b.t.items()})
    lead = p.key()[-1][1]
    p = R({m: norm(Fraction(c) / lead) for m, c in p.t.items()})
    u = atom('inv', p)
    return fix(mul(R({mono_mul(ginv, ((u, 1),)): norm(Fraction(1) / lead)}), 1))


def clear_den(d):
    """Polynomial q and whether its sign is flipped, such that sign(d) = +-sign(q).
    Asks the path for the signs of denominators."""
    flip = False
    for _ in range(50):
        if type(d) is not R:
            return d, flip
        low = {}
        hi = {}
        for m in d.t:
            for a, e in m:
                if ATOMS[a].kind == 'inv':
                    hi[a] = max(hi.get(a, 0), e)
                elif e < 0:
                    low[a] = min(low.get(a, 0), e)
        if not low and not hi:
            return d, flip
        if low:
            g = []
            for a, e in sorted(low.items()):
                if e % 2 and H.cur.decide(R({((a, 1),): 1}), 'lt'):
                    flip = not flip
                g.append((a, -e))
            g = tuple(g)
            d = mk({mono_mul(m, g): c for m, c in d.t.items()})
            continue
        a, k = max(hi.items())
        base = ATOMS[a].base
        if k % 2 and H.cur.decide(base, 'lt'):
            flip = not flip
        acc = 0
        pw = [1]
        for _i in range(k):
            pw.append(mul(pw[-1], base))
        for m, c in d.t.items():
            e = dict(m).get(a, 0)
            rest = tuple(x for x in m if x[0] != a)
            acc = add(acc, mul(mk({rest: c}), pw[k - e]))
        d = acc
    raise Unsupported('denominators do not clear')


def cmp_lt(a, b):
    if type(a) is float or type(b) is float:
        if type(a) is R: a = 0
        if type(b) is R: b = 0
        return a < b
    d = sub(a, b)
    if type(d) is R:
        return H.cur.decide(d, 'lt')
    return d < 0


def cmp_le(a, b):
    if type(a) is float or type(b) is float:
        if type(a) is R: a = 0
        if type(b) is R: b = 0
        return a <= b
    d = sub(a, b)
    if type(d) is R:
        return H.cur.decide(d, 'le')
    return d <= 0


def cmp_eq(a, b):
    if type(a) is float or type(b) is float:
        if type(a) is R: a = 0
        if type(b) is R: b = 0
        return a == b
    d = sub(a, b)
    if type(d) is R:
        return H.cur.decide(d, 'eq')
    return d == 0


def isnan(a):
    return type(a) is float and a != a


def fabs(a):
    if type(a) is R:
        return neg(a) if H.cur.decide(a, 'lt') else a
    return abs(a)


def floor_(a):
    if type(a) is R:
        return H.cur.floor(a)
    if type(a) is float:
        return a
    return math.floor(a)


def ceil_(a):
    return neg(floor_(neg(a)))


def trunc_(a):
    if type(a) is float:
        return a
    if type(a) is R:
        return ceil_(a) if H.cur.decide(a, 'lt') else floor_(a)
    return math.trunc(a)


def whole(a):
    """trunc_ as an integer that code can use"""
    a = trunc_(a)
    return H.cur.floor(a, True) if type(a) is R else a


def round_half_away(a):
    if type(a) is float:
        return a
    h = Fraction(1, 2)
    if cmp_lt(a, 0):
        return neg(floor_(add(neg(a), h)))
    return floor_(add(a, h))


def round_half_even(a):
    if type(a) is float:
        return a
    f = floor_(a)
    d = sub(a, f)
    h = Fraction(1, 2)
    if cmp_lt(d, h): return f
    if cmp_lt(h, d): return add(f, 1)
    return f if type(f) is R or f % 2 == 0 else f + 1


def opaque(kind, arg, extra=None):
    return R({((atom(kind, arg, extra), 1),): 1})


def exp_(a):
    if type(a) is float:
        return NAN if a != a else (INF if a > 0 else 0)
    if type(a) is not R and a == 0:
        return 1
    if (a.key()[-1][1] if type(a) is R else a) > 0:     # exp(x) and exp(-x) are reciprocals
        return inv(opaque('exp', neg(a)))
    return opaque('exp', a)


def sqrt_(a):
    if type(a) is float:
        return NAN if (a != a or a < 0) else a
    if cmp_lt(a, 0):
        return NAN
    if type(a) is not R:
        f = Fraction(a)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return norm(Fraction(n, d))
    return opaque('sqrt', a)


def pow_(a, b):
    if is_num(b) and norm(b) == Fraction(1, 2):
        return sqrt_(a)
    if is_num(b) and type(norm(b)) is int and abs(b) <= 16:
        b = norm(b)
        if b >= 0:
            return mulpow(a, b)
        return div(1, mulpow(a, -b))
    raise Unsupported('pow with exponent %s' % show(b))


def mulpow(a, n):
    r = 1
    for _ in range(n):
        r = mul(r, a)
    return r


def fmod_(a, b):
    if type(a) is float or type(b) is float:
        raise Unsupported('fmod of special value')
    q = trunc_(div(a, b))
    return sub(a, mul(q, b))


def max_(a, b):
    if isnan(a): return b
    if isnan(b): return a
    return b if cmp_lt(a, b) else a


def min_(a, b):
    if isnan(a): return b
    if isnan(b): return a
    return b if cmp_lt(b, a) else a


# ---------------------------------------------------------------- conversions
def from_bits(b):
    f = struct.unpack('<d', struct.pack('<Q', b))[0]
    return from_float(f)


def from_float(f):
    if f != f or f in (INF, -INF):
        return f
    return norm(Fraction(f))


def to_bits(v):
    """IEEE bits of a concrete value, or None if it is not a double."""
    if type(v) is R:
        return None
    f = float(v)
    if type(v) is not float and Fraction(f) != v:
        return None
    return struct.unpack('<Q', struct.pack('<d', f))[0]


def round_f32(v):
    """double -> float -> value"""
    if type(v) is float:
        return v
    if type(v) is R:
        return H.cur.round_f32(v)
    f = Fraction(v)
    if f == 0:
        return 0
    return norm(round_to(f, 24))


def round_to(f, bits):
    s = -1 if f < 0 else 1
    f = abs(f)
    e = f.numerator.bit_length() - f.denominator.bit_length()
    if Fraction(2) ** e > f:
        e -= 1
    ulp = Fraction(2) ** (e - bits + 1)
    q = f / ulp
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n % 2):
        n += 1
    return s * n * ulp


# ---------------------------------------------------------------- evaluation under a model
def evaluate(x, model, cache=None):
    """Exact value (or float where an opaque function is involved); None if undefined."""
    if type(x) is not R:
        return x
    if cache is None:
        cache = {}
    tot = 0
    for m, c in x.t.items():
        v = c
        for a, e in m:
            w = cache.get(a)
            if w is None:
                w = eval_atom(a, model, cache)
                if w is None:
                    return None
                cache[a] = w
            if e < 0:
                if w == 0:
                    return None
                v = v * (Fraction(1) / w if type(w) is not float else 1 / w) ** (-e)
            elif e == 1:
                v = v * w
            else:
                v = v * w ** e
        tot = tot + v
    return tot


def eval_atom(a, model, cache):
    A = ATOMS[a]
    if A.kind == 'var':
        return model.get(A.name, 0)
    b = evaluate(A.base, model, cache)
    if b is None:
        return None
    if A.kind == 'inv':
        if b == 0:
            return None
        return Fraction(1) / b if type(b) is not float else 1 / b
    try:
        if A.kind == 'exp':
            return math.exp(b)
        if A.kind == 'sqrt':
            return math.sqrt(b)
    except (OverflowError, ValueError):
        return None
    if A.kind == 'floor':
        return math.floor(b) if math.isfinite(b) else None
    if A.kind == 'f32':
        return norm(round_to(Fraction(b), 24)) if b else 0
    raise Unsupported('evaluate ' + A.kind)
