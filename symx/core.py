"""Paths: every branch on a symbolic value is decided here, by z3 where the path's
constraints do not already fix it.  A path is re-executed from its list of decisions."""
import os, time, random
from fractions import Fraction
import z3
from . import dom, fp
from .dom import R, ATOMS, H, Unsupported, PathAbort, norm, mk

NEG, ZERO, POS = 1, 2, 4
BITS = {'lt': NEG, 'eq': ZERO, 'le': NEG | ZERO}


class Violation(BaseException):
    """An event that breaks the property."""

    def __init__(self, label, detail=''):
        super().__init__(label, detail)
        self.label = label
        self.detail = detail


class EndPath(BaseException):
    pass


class Stats:
    def __init__(self):
        self.branch_queries = 0
        self.assert_queries = 0
        self.solver_s = 0.0
        self.unknown = 0

    def d(self):
        return dict(self.__dict__)


def rv(q):
    if type(q) is int:
        return z3.RealVal(q)
    return z3.RealVal(str(q.numerator) + '/' + str(q.denominator))


NZ3 = [0]


def atom_z3(a):
    A = ATOMS[a]
    if A.z3 is None:
        if A.kind == 'var':
            A.z3 = z3.Real('v!' + A.name)
        else:
            NZ3[0] += 1
            A.z3 = z3.Real('a!%s%d' % (A.kind, NZ3[0]))
    return A.z3


def poly_z3(x):
    if type(x) is not R:
        return rv(x)
    terms = []
    for m, c in x.key():
        f = None
        for a, e in m:
            v = atom_z3(a)
            if e < 0:
                v = rv(1) / v
            for _ in range(abs(e)):
                f = v if f is None else f * v
        if f is None:
            terms.append(rv(c))
        else:
            terms.append(f if c == 1 else rv(c) * f)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def is_linear(x):
    for m in x.t:
        if len(m) > 1 or (m and (m[0][1] != 1 or m[0][0][0] == '~')):
            return False
    return True


def atoms_of(x, acc):
    """all atoms x depends on, including those inside atoms"""
    if type(x) is not R:
        return
    for m in x.t:
        for a, _ in m:
            if a not in acc:
                acc.add(a)
                if ATOMS[a].base is not None:
                    atoms_of(ATOMS[a].base, acc)


# ---------------------------------------------------------------- boolean conditions
class Cond:
    """('atom', poly, op) | ('and', [..]) | ('or', [..]) | ('not', c) | bool"""
    __slots__ = ('k', 'a')

    def __init__(self, k, a):
        self.k = k
        self.a = a


def c_and(*cs):
    out = []
    for c in cs:
        if c is True: continue
        if c is False: return False
        out.append(c)
    if not out: return True
    return out[0] if len(out) == 1 else Cond('and', out)


def c_or(*cs):
    out = []
    for c in cs:
        if c is False: continue
        if c is True: return True
        out.append(c)
    if not out: return False
    return out[0] if len(out) == 1 else Cond('or', out)


def c_not(c):
    if c is True: return False
    if c is False: return True
    if c.k == 'not': return c.a
    return Cond('not', c)


def c_cmp(a, b, op):
    """op in lt, le, eq; IEEE meaning with NaN and infinities"""
    if type(a) is float or type(b) is float:
        if type(a) is R: a = 0
        if type(b) is R: b = 0
        return (a < b) if op == 'lt' else (a <= b) if op == 'le' else (a == b)
    d = dom.sub(a, b)
    if type(d) is not R:
        return (d < 0) if op == 'lt' else (d <= 0) if op == 'le' else (d == 0)
    d, flip = dom.clear_den(d)
    if type(d) is not R:
        if flip: d = -d
        return (d < 0) if op == 'lt' else (d <= 0) if op == 'le' else (d == 0)
    if flip:
        d = dom.neg(d)
    return Cond('atom', (d, op))


def cond_z3(c):
    if c is True or c is False:
        return z3.BoolVal(c)
    if c.k == 'atom':
        d, op = c.a
        e = poly_z3(d)
        return e < 0 if op == 'lt' else e <= 0 if op == 'le' else e == 0
    if c.k == 'and':
        return z3.And([cond_z3(x) for x in c.a])
    if c.k == 'or':
        return z3.Or([cond_z3(x) for x in c.a])
    return z3.Not(cond_z3(c.a))


def cond_polys(c, acc):
    if c is True or c is False:
        return
    if c.k == 'atom':
        acc.append(c.a[0])
    elif c.k == 'not':
        cond_polys(c.a, acc)
    else:
        for x in c.a:
            cond_polys(x, acc)


def cond_eval(c, model, cache):
    """True/False/None(undefined)"""
    if c is True or c is False:
        return c
    if c.k == 'atom':
        v = dom.evaluate(c.a[0], model, cache)
        if v is None:
            return None
        op = c.a[1]
        return v < 0 if op == 'lt' else v <= 0 if op == 'le' else v == 0
    if c.k == 'not':
        v = cond_eval(c.a, model, cache)
        return None if v is None else not v
    vs = [cond_eval(x, model, cache) for x in c.a]
    if c.k == 'and':
        return False if False in vs else None if None in vs else True
    return True if True in vs else None if None in vs else False


# ---------------------------------------------------------------- linear solver shared by the paths of a process
class LinSolver:
    def __init__(self, stats):
        self.s = z3.Solver()
        self.s.set('timeout', 20000)
        self.stack = []
        self.stats = stats

    def sync(self, cons):
        """cons: list of (key, z3 thunk)"""
        n = 0
        m = min(len(self.stack), len(cons))
        while n < m and self.stack[n] == cons[n][0]:
            n += 1
        while len(self.stack) > n:
            self.s.pop()
            self.stack.pop()
        for k, th in cons[n:]:
            self.s.push()
            self.s.add(th())
            self.stack.append(k)

    def check(self, cons, extra):
        self.sync(cons)
        t0 = time.time()
        self.s.push()
        self.s.add(extra)
        r = self.s.check()
        m = None
        if r == z3.sat:
            m = self.s.model()
        self.s.pop()
        self.stats.branch_queries += 1
        self.stats.solver_s += time.time() - t0
        return r, m


def model_dict(m):
    out = {}
    for d in m.decls():
        n = d.name()
        if n.startswith('v!'):
            v = m[d]
            if z3.is_algebraic_value(v):
                v = v.approx(30)
            out[n[2:]] = norm(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    return out


class Path:
    """One execution.  prefix: recorded outcomes to follow."""

    def __init__(self, lin, stats, prefix=(), model=None, fuel=3000000):
        self.lin = lin
        self.stats = stats
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []
        self.model = dict(model or {})
        self.cache = {}
        self.known = {}
        self.cons = []          # linear constraints [(key, thunk)]
        self.nonlin = []        # nonlinear constraints as Cond
        self.pending = []       # (trace prefix, model)
        self.inputs = {}        # name -> dom value/py value, in order of creation
        self.checks = []        # (label, Cond) assertions of this path
        self.fuel = fuel
        self.reached = 0
        self.floors = {}
        self.bounded = set()    # rounding atoms with their bounds among the constraints
        self.notes = {}

    # ------------------------------------------------------------ signs
    def decide(self, d, op):
        if type(d) is not R:
            return (d < 0) if op == 'lt' else (d <= 0) if op == 'le' else (d == 0)
        self.fuel -= 1
        if self.fuel < 0:
            raise Violation('no-termination', 'step budget exhausted')
        d, flip = dom.clear_den(d)
        if type(d) is not R:
            if flip: d = -d
            return (d < 0) if op == 'lt' else (d <= 0) if op == 'le' else (d == 0)
        if H.round is not None:
            s = fp.sign_range(d)
            if s is not None:
                if flip: s = -s
                return s < 0 if op != 'eq' else False
            self.bound_eps(d)
        # canonical orientation
        lead = d.key()[-1][1]
        want = BITS[op]
        if (lead < 0) != flip:
            want = {NEG: POS, ZERO: ZERO, NEG | ZERO: POS | ZERO}[want]
        if lead != 1:
            q = Fraction(1) / lead
            d = R({m: norm(c * q) for m, c in d.t.items()})
        key = d.key()
        kn = self.known.get(key, 7)
        if kn & want == kn:
            return True
        if kn & want == 0:
            return False
        yes, no = kn & want, kn & ~want
        if self.pos < len(self.prefix):
            o, forked = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((o, forked))
            self.commit(d, key, yes if o else no, forked)
            return o
        v = dom.evaluate(d, self.model, self.cache)
        o = None
        if v is not None and (type(v) is not float or abs(v) > 1e-9):
            s = NEG if v < 0 else ZERO if v == 0 else POS
            if s & kn:
                o = bool(s & want)
        if o is None:
            r, m = self.query(d, yes)
            if r == z3.sat or r == z3.unknown:
                o = True
                if m is not None:
                    self.model = m; self.cache = {}
            else:
                self.trace.append((False, False))
                self.pos += 1
                self.commit(d, key, no, False)
                return False
        r, m = self.query(d, no if o else yes)
        if r == z3.unsat:
            self.trace.append((o, False))
            self.pos += 1
            self.commit(d, key, yes if o else no, False)
            return o
        self.pending.append((self.trace + [(not o, True)], m if m is not None else self.model))
        self.trace.append((o, True))
        self.pos += 1
        self.commit(d, key, yes if o else no, True)
        return o

    def bound_eps(self, d):
        for m in d.t:
            for a, _ in m:
                if a.startswith('eps!') and a not in self.bounded:
                    self.bounded.add(a)
                    v = R({((a, 1),): 1})
                    for p, bits in ((dom.sub(v, 1), NEG | ZERO), (dom.add(v, 1), POS | ZERO)):
                        self.add_sign(p, p.key(), bits)

    def commit(self, d, key, bits, forked):
        self.known[key] = bits
        if forked:
            self.add_sign(d, key, bits)

    def add_sign(self, d, key, bits):
        if is_linear(d):
            self.cons.append(((key, bits), lambda: sign_z3(d, bits)))
        else:
            self.nonlin.append((d, bits))

    def query(self, d, bits):
        if is_linear(d):
            r, m = self.lin.check(self.cons, sign_z3(d, bits))
        else:
            r, m = self.full_query([sign_z3(d, bits)], [d], 3000)
            self.stats.branch_queries += 1
        if m is not None:
            m2 = dict(self.model)
            m2.update(model_dict(m))
            m = m2
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def full_query(self, z3conds, polys, timeout, extra_fix=()):
        """all constraints of the path, with definitions of the atoms involved"""
        s = z3.Solver()
        s.set('timeout', timeout)
        for _, th in self.cons:
            s.add(th())
        acc = set()
        for d, bits in self.nonlin:
            s.add(sign_z3(d, bits))
            atoms_of(d, acc)
        for p in polys:
            atoms_of(p, acc)
        for e in atom_axioms(acc, self):
            s.add(e)
        for c in z3conds:
            s.add(c)
        for c in extra_fix:
            s.add(c)
        t0 = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t0
        m = s.model() if r == z3.sat else None
        return r, m

    # ------------------------------------------------------------ conditions
    def decide_cond(self, c):
        if c is True or c is False:
            return c
        if c.k == 'atom':
            return self.decide(c.a[0], c.a[1])
        if c.k == 'not':
            return not self.decide_cond(c.a)
        if c.k == 'and':
            return all(self.decide_cond(x) for x in c.a)
        return any(self.decide_cond(x) for x in c.a)

    def assume(self, c):
        """restrict the path to c"""
        if c is True:
            return
        if c is False:
            raise PathAbort()
        if c.k == 'and':
            for x in c.a:
                self.assume(x)
            return
        if c.k == 'or':
            if not self.decide_cond(c):
                raise PathAbort()
            return
        pos = True
        if c.k == 'not':
            pos, c = False, c.a
            if c.k != 'atom':
                self.assume(c_or(*[c_not(x) for x in c.a]) if c.k == 'and' else c_and(*[c_not(x) for x in c.a]))
                return
        d, op = c.a
        want = BITS[op]
        if not pos:
            want = 7 & ~want
        lead = d.key()[-1][1]
        if lead < 0:
            want = (want & ZERO) | (POS if want & NEG else 0) | (NEG if want & POS else 0)
        if lead != 1:
            q = Fraction(1) / lead
            d = R({m: norm(x * q) for m, x in d.t.items()})
        key = d.key()
        kn = self.known.get(key, 7)
        if kn & want == 0:
            raise PathAbort()
        self.known[key] = kn & want
        self.add_sign(d, key, kn & want)
        v = dom.evaluate(d, self.model, self.cache)
        ok = v is not None and bool((NEG if v < 0 else ZERO if v == 0 else POS) & want)
        if not ok:
            if is_linear(d):
                r, m = self.lin.check(self.cons, z3.BoolVal(True))
            else:
                r, m = self.full_query([], [d], 3000)
            if r == z3.unsat:
                raise PathAbort()
            if m is not None:
                self.model = dict(self.model)
                self.model.update(model_dict(m))
                self.cache = {}

    def choose(self, n, name):
        """nondeterministic choice 0..n-1 (explored exhaustively)"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            o, _ = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((o, True))
            return o
        for o in range(n - 1, 0, -1):
            self.pending.append((self.trace + [(o, True)], self.model))
        self.trace.append((0, True))
        self.pos += 1
        return 0

    def floor(self, x, whole=False):
        """the largest integer up to x; far from zero only enclosed, unless code needs it as an integer"""
        k = x.key()
        if k in self.floors and not (whole and type(self.floors[k]) is R):
            return self.floors[k]
        # find the value by following the model, then confirming against the solver
        lo = hi = None
        v = dom.evaluate(x, self.model, self.cache)
        guess = int(v // 1) if v is not None else 0
        if abs(guess) >= 64 and not whole:
            self.floors[k] = dom.opaque('floor', x)
            return self.floors[k]
        n = 0
        while True:
            # decide x < guess ; x < guess+1
            if self.decide(dom.sub(x, guess), 'lt'):
                guess -= 1
            elif not self.decide(dom.sub(x, guess + 1), 'lt'):
                guess += 1
            else:
                break
            n += 1
            if n > 400:
                raise Unsupported('floor of unbounded symbolic value')
        self.floors[k] = guess
        return guess

    def round_f32(self, x):
        return dom.opaque('f32', x)

    # ------------------------------------------------------------ assertions
    def check(self, cond, label):
        self.checks.append((label, cond))

    def discharge(self):
        """z3's verdict on all assertions of this path.  Returns list of failing
        (label, cond) candidates with models, or [] if all hold, plus unknown flag."""
        self.stats.assert_queries += 1
        if not self.checks:
            return [], False
        bad = [c_not(c) for _, c in self.checks]
        polys = []
        for c in bad:
            cond_polys(c, polys)
        if H.round is not None:
            self.checks = [(l, fp.compact(c)) for l, c in self.checks]
            bad = [c_not(c) for _, c in self.checks]
            polys = []
            for c in bad:
                cond_polys(c, polys)
            for q in polys:
                self.bound_eps(q)
        r, m = self.full_query([z3.Or([cond_z3(c) for c in bad])], polys, 20000)
        if r == z3.unsat:
            return [], False
        # which
        fails = []
        unknown = False
        for (label, c) in self.checks:
            if c is True:
                continue
            p = []
            cond_polys(c, p)
            n = cond_z3(c_not(c))
            r, m = self.full_query([n], p, 8000)
            self.stats.assert_queries += 1
            if r == z3.unsat:
                continue
            if r == z3.unknown:
                c2 = self.reduce(c)
                if c2 is True:
                    continue
                p2 = []
                cond_polys(c2, p2)
                r2, m2 = self.full_query([cond_z3(c_not(c2))], p2, 8000)
                self.stats.assert_queries += 1
                if r2 == z3.unsat:
                    continue
                if r2 == z3.sat:
                    r, m = r2, m2
            if r == z3.unknown:
                cand = self.search_model([c_not(c)], p)
                if cand is None:
                    unknown = True
                    if os.environ.get('SYMX_DEBUG'):
                        print('UNDECIDED', label, [str(q) for q in p], 'WHERE', [str(th()) for _, th in self.cons], [(str(d), b) for d, b in self.nonlin], flush=True)
                    self.stats.unknown += 1
                    continue
                fails.append((label, [cand]))
            else:
                fails.append((label, self.nice_models(c, n, p, m)))
            if len(fails) >= 3:
                break
        return fails, unknown

    def box_models(self):
        """points of the boxes (rounding decides the rest)"""
        rnd = random.Random(99)
        return [{n: Fraction(rnd.randint(-1024, 1024), 1024) for n in self.var_names()} for _ in range(6)]

    def equalities(self):
        """variable -> polynomial, from the linear equalities the path implies"""
        eqs = []
        for (d_key, bits), _ in self.cons:
            d = R(dict(d_key))
            bits = self.known.get(d_key, bits) & bits
            if bits in (NEG | ZERO, POS | ZERO):
                r, _m = self.lin.check(self.cons, sign_z3(d, bits & ~ZERO))
                if r == z3.unsat:
                    bits = ZERO
            if bits == ZERO:
                eqs.append(d)
        sub = {}
        for d in eqs:
            d = substitute(d, sub)
            if type(d) is not R:
                continue
            (m, c) = d.key()[-1]
            v = m[0][0]
            rhs = dom.mul(dom.sub(d, R({m: c})), norm(Fraction(-1) / c))
            for k in sub:
                sub[k] = substitute(sub[k], {v: rhs})
            sub[v] = rhs
        return sub

    def reduce(self, c):
        """c with the path's linear equalities used up"""
        if not hasattr(self, '_sub'):
            self._sub = self.equalities()
        if not self._sub:
            return c
        return self.reduce_cond(c)

    def reduce_cond(self, c):
        if c is True or c is False:
            return c
        if c.k == 'atom':
            d, op = c.a
            if any(ATOMS[a].kind != 'var' or e < 0 for m in d.t for a, e in m):
                return c
            d = substitute(d, self._sub)
            if type(d) is not R:
                return (d < 0) if op == 'lt' else (d <= 0) if op == 'le' else (d == 0)
            return Cond('atom', (d, op))
        if c.k == 'not':
            return c_not(self.reduce_cond(c.a))
        return (c_and if c.k == 'and' else c_or)(*[self.reduce_cond(x) for x in c.a])

    def complete(self, md):
        out = dict(self.model)
        out.update(md)
        return out

    def var_names(self):
        return [n for n, v in self.inputs.items() if type(v) is R]

    def nice_models(self, c, n, p, m):
        """several models for one failing assertion, the more replayable first"""
        if H.round is not None:
            return self.box_models() + [self.complete(model_dict(m))]
        out = []
        # a clear margin, values on a coarse binary grid
        margin = []
        if c is not False and c.k == 'atom' and c.a[1] == 'eq':
            e = poly_z3(c.a[0])
            margin = [z3.Or(e > rv(Fraction(1, 50)), e < rv(Fraction(-1, 50)))]
        grid, small = self.grid()
        for extra in (margin + grid + small, grid + small, margin + small, margin):
            r, mm = self.full_query([n], p, 4000, extra)
            if r == z3.sat:
                out.append(self.complete(model_dict(mm)))
                break
        s = self.search_model([c_not(c)], p)
        if s is not None:
            out.append(s)
        out.append(self.complete(model_dict(m)))
        if any(A.kind in ('f32', 'floor') for A in ATOMS.values()):
            out = self.uneven(c, out) + out
        return out

    def uneven(self, c, bases, want=2):
        """models whose values have many digits, so that a single-precision step shows"""
        rnd = random.Random(271828)
        out = []
        for t in range(60):
            md = dict(bases[t % len(bases)])
            for n in self.var_names():
                v = md.get(n, 0)
                md[n] = Fraction(float(v + Fraction(rnd.randint(-999, 999), 3 * 10 ** rnd.choice((4, 4, 6)))))
            if self.holds(md) and cond_eval(c, md, {}) is False:
                out.append(md)
                if len(out) == want:
                    break
        return out

    def search_model(self, conds, polys, tries=60):
        """values for the path found by fixing inputs that are not linearly constrained"""
        rnd = random.Random(12345)
        names = self.var_names()
        lin_vars = set()
        for d_key, _ in [k for k, _ in self.cons]:
            for mono, _c in d_key:
                for a, _e in mono:
                    lin_vars.add(ATOMS[a].name)
        free = [n for n in names if n not in lin_vars]
        for t in range(tries):
            if t % 10 == 0 and t:
                # another point of the linear region
                vs = [atom_z3(nm) for nm in names if nm in lin_vars]
                if vs:
                    coef = [rnd.randint(-3, 3) for _ in vs]
                    lim = rnd.randint(-8, 8)
                    r, m = self.lin.check(self.cons, z3.Sum([a * b for a, b in zip(coef, vs)]) >= lim)
                    if m is not None:
                        self.model = self.complete(model_dict(m))
            md = dict(self.model)
            if t:
                for n in free:
                    md[n] = rnd.choice([rnd.randint(-9, 9), Fraction(rnd.randint(-40, 40), 4)])
            cache = {}
            try:
                ok = all(cond_eval(c, md, cache) is True for c in conds) and \
                    all(self.sign_ok(d, b, md, cache) for d, b in self.nonlin)
            except (OverflowError, ZeroDivisionError):
                ok = False
            if ok:
                return md
        return None

    def sign_ok(self, d, bits, md, cache):
        v = dom.evaluate(d, md, cache)
        return v is not None and bool((NEG if v < 0 else ZERO if v == 0 else POS) & bits)

    def grid(self, names=None):
        """constraints that make input values replay without rounding"""
        vs = [atom_z3(nm) for nm in (self.var_names() if names is None else names)]
        g = [v == z3.ToReal(z3.Int('g!%d' % i)) / 4 for i, v in enumerate(vs)]
        return g, [z3.And(v <= 64, v >= -64) for v in vs]

    def light_model(self, tries=12):
        """small values on a grid: the linear part solved, the rest drawn and checked"""
        rnd = random.Random(4711 + len(self.trace))
        names = self.var_names()
        lin = set()
        for (d_key, _), _th in self.cons:
            if len(d_key) == 1 or (len(d_key) == 2 and d_key[0][0] == ()):
                continue                # a bound on one variable
            for mono, _c in d_key:
                for a, _e in mono:
                    lin.add(a)
        free = [n for n in names if n not in lin]
        g, b = self.grid([n for n in names if n in lin])
        base = None
        for extra in (g + b, b, []):
            self.lin.s.set('timeout', 1500)
            r, m = self.lin.check(self.cons, z3.And(extra) if extra else z3.BoolVal(True))
            self.lin.s.set('timeout', 20000)
            if m is not None:
                base = self.complete(model_dict(m))
                break
            if r == z3.unsat and not extra:
                return None
        if base is None:
            return None
        for t in range(tries):
            md = dict(base)
            for n in free:
                if t or n not in self.model:
                    md[n] = rnd.choice([rnd.randint(-9, 9), Fraction(rnd.randint(-40, 40), 4)])
            if self.holds(md):
                return md
        return None

    def holds(self, md):
        cache = {}
        try:
            for (d_key, bits), _th in self.cons:
                if not self.sign_ok(R(dict(d_key)), bits, md, cache):
                    return False
            return all(self.sign_ok(d, b, md, cache) for d, b in self.nonlin)
        except (OverflowError, ZeroDivisionError):
            return False

    def witness(self):
        """values of the inputs that take this path (None if the solver cannot say)"""
        if H.round is not None:
            return self.box_models()[0]
        m = self.light_model()
        if m is not None:
            return m
        g, b = self.grid()
        for extra in (g + b, b, ()):
            r, m = self.full_query([], [], 2000, extra)
            if r == z3.sat:
                return self.complete(model_dict(m))
            if r == z3.unsat and not extra:
                return None
        return self.search_model([], [])

    def path_models(self):
        """several inputs taking this path; None if it is infeasible, [] if the solver cannot say"""
        if H.round is not None:
            return self.box_models()
        out = []
        m = self.light_model(40)
        if m is not None:
            out.append(m)
        g, b = self.grid()
        for extra in (g + b, b, ()):
            if out and len(extra) > 0: continue
            r, m = self.full_query([], [], 5000, extra)
            if r == z3.sat:
                out.append(self.complete(model_dict(m)))
            if r == z3.unsat and not extra:
                return None
        s = self.search_model([], [])
        if s is not None:
            out.append(s)
        return out


def substitute(d, sub):
    if type(d) is not R:
        return d
    acc = 0
    for m, c in d.t.items():
        if not any(a in sub for a, _ in m):
            acc = dom.add(acc, R({m: c}) if m else c)
            continue
        t = c
        for a, e in m:
            t = dom.mul(t, dom.ipow(sub[a] if a in sub else R({((a, 1),): 1}), e))
        acc = dom.add(acc, t)
    return acc


def sign_z3(d, bits):
    e = poly_z3(d)
    if bits == NEG: return e < 0
    if bits == ZERO: return e == 0
    if bits == POS: return e > 0
    if bits == NEG | ZERO: return e <= 0
    if bits == POS | ZERO: return e >= 0
    if bits == NEG | POS: return e != 0
    return z3.BoolVal(bits == 7)


def atom_axioms(acc, path):
    out = []
    exps = []
    for a in sorted(acc):
        A = ATOMS[a]
        if A.kind == 'var':
            continue
        v = atom_z3(a)
        b = A.base
        bz = poly_z3(b)
        if A.kind == 'inv':
            out.append(v * bz == 1)
            if b is A.base:
                kn = path.known.get(A.base.key(), 7)
                if kn == POS: out.append(v > 0)
                elif kn == NEG: out.append(v < 0)
        elif A.kind == 'exp':
            exps.append((v, bz))
            out.append(v > 0)
            out.append(z3.Implies(bz <= 0, v <= 1))
            out.append(z3.Implies(bz < 0, v < 1))
            out.append(z3.Implies(bz == 0, v == 1))
            out.append(z3.Implies(bz > 0, v > 1))
        elif A.kind == 'sqrt':
            out.append(v >= 0)
            out.append(v * v == bz)
        elif A.kind == 'floor':
            out.append(v <= bz)
            out.append(v > bz - 1)
        elif A.kind == 'f32':
            e = rv(Fraction(1, 2 ** 24))
            out.append(z3.If(bz >= 0, z3.And(v >= bz * (1 - e), v <= bz * (1 + e)), z3.And(v <= bz * (1 - e), v >= bz * (1 + e))))
        else:
            raise Unsupported('axioms of ' + A.kind)
    for i in range(len(exps)):
        for j in range(i):
            (v, b), (w, c) = exps[i], exps[j]
            out.append(z3.Implies(b < c, v < w))
            out.append(z3.Implies(b > c, v > w))
            out.append(z3.Implies(b == c, v == w))
    return out
