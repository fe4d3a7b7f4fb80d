"""The extension modules as Python sees them, built from what the (executed) binding source registers."""
import re, types, math, builtins, numbers
from fractions import Fraction
from . import dom, fp, rtlib
from .dom import R, H, Unsupported, NAN, INF
from .rt import RT, MemViolation, CxxExc, UNDEF, M64, M32, sx
from .core import Cond, c_cmp, c_and, c_or, c_not


# ---------------------------------------------------------------- numbers in Python code
class SymBool:
    """a condition; asks the path when used as a truth value"""
    __slots__ = ('c',)

    def __init__(self, c): self.c = c
    def __bool__(self): return H.cur.decide_cond(self.c)
    def __and__(self, o): return mkbool(c_and(self.c, cond(o)))
    def __or__(self, o): return mkbool(c_or(self.c, cond(o)))
    __rand__ = __and__
    __ror__ = __or__
    def __invert__(self): return mkbool(c_not(self.c))
    def __eq__(self, o): return bool(self) == bool(o)
    def __hash__(self): return hash(bool(self))


def mkbool(c):
    return c if c is True or c is False else SymBool(c)


def cond(x):
    if x is True or x is False:
        return x
    if type(x) is SymBool:
        return x.c
    raise Unsupported('condition of type %s' % type(x))


class SymFloat:
    """a Python float"""
    __slots__ = ('v',)

    def __init__(self, v): self.v = v

    def __add__(self, o):
        w = lift(o)
        return NotImplemented if w is None else SymFloat(fp.add(self.v, w))
    __radd__ = __add__
    def __sub__(self, o):
        w = lift(o)
        return NotImplemented if w is None else SymFloat(fp.sub(self.v, w))
    def __rsub__(self, o):
        w = lift(o)
        return NotImplemented if w is None else SymFloat(fp.sub(w, self.v))
    def __mul__(self, o):
        w = lift(o)
        return NotImplemented if w is None else SymFloat(fp.mul(self.v, w))
    __rmul__ = __mul__
    def __truediv__(self, o):
        w = lift(o)
        return NotImplemented if w is None else pydiv(self.v, w)
    def __rtruediv__(self, o):
        w = lift(o)
        return NotImplemented if w is None else pydiv(w, self.v)
    def __floordiv__(self, o):
        w = lift(o)
        return NotImplemented if w is None else SymFloat(dom.floor_(pydiv(self.v, w).v))
    def __rfloordiv__(self, o):
        w = lift(o)
        return NotImplemented if w is None else SymFloat(dom.floor_(pydiv(w, self.v).v))
    def __mod__(self, o):
        w = lift(o)
        if w is None: return NotImplemented
        return SymFloat(fp.sub(self.v, fp.mul(dom.floor_(pydiv(self.v, w).v), w)))
    def __rmod__(self, o):
        return SymFloat(lift(o)) % self
    def __divmod__(self, o):
        return (self // o, self % o)
    def __pow__(self, o):
        w = lift(o)
        return NotImplemented if w is None else SymFloat(fp.power(self.v, w))
    def __neg__(self): return SymFloat(dom.neg(self.v))
    def __pos__(self): return self
    def __abs__(self): return SymFloat(dom.fabs(self.v))
    def __lt__(self, o):
        w = lift(o)
        return NotImplemented if w is None else mkbool(c_cmp(self.v, w, 'lt'))
    def __le__(self, o):
        w = lift(o)
        return NotImplemented if w is None else mkbool(c_cmp(self.v, w, 'le'))
    def __gt__(self, o):
        w = lift(o)
        return NotImplemented if w is None else mkbool(c_cmp(w, self.v, 'lt'))
    def __ge__(self, o):
        w = lift(o)
        return NotImplemented if w is None else mkbool(c_cmp(w, self.v, 'le'))
    def __eq__(self, o):
        w = lift(o)
        return False if w is None else mkbool(c_cmp(self.v, w, 'eq'))
    def __ne__(self, o):
        w = lift(o)
        if w is None: return True
        c = c_cmp(self.v, w, 'eq')
        return mkbool(c_not(c))
    def __hash__(self):
        return 0        # the same for all: which keys are equal is decided by ==, on every path
    def __bool__(self):
        return not dom.cmp_eq(self.v, 0)
    def __int__(self):
        if type(self.v) is float:
            raise (ValueError if self.v != self.v else OverflowError)('cannot convert float to integer')
        return int(dom.whole(self.v))
    __trunc__ = __int__
    def __floor__(self): return int(dom.whole(dom.floor_(self.v)))
    def __ceil__(self): return int(dom.whole(dom.ceil_(self.v)))
    def __round__(self, n=None):
        if n is None:
            return int(dom.whole(dom.round_half_even(self.v)))
        s = Fraction(10) ** n
        return SymFloat(fp.div(dom.round_half_even(fp.mul(self.v, s)), s))
    def __float__(self):
        if type(self.v) is R:
            raise Unsupported('a symbolic float passed to native code')
        return float(self.v)
    def is_integer(self):
        return bool(dom.cmp_eq(dom.floor_(self.v), self.v))
    def __repr__(self):
        return 'SymFloat(%s)' % dom.show(self.v)
    __str__ = __repr__
    def __format__(self, spec): return repr(self)


numbers.Real.register(SymFloat)


def pydiv(a, b):
    if type(b) is not float and dom.cmp_eq(b, 0):
        raise ZeroDivisionError('float division by zero')
    return SymFloat(fp.div(a, b))


def lift(x):
    """Python number -> dom value, or None"""
    t = type(x)
    if t is SymFloat: return x.v
    if t is int: return x
    if t is bool: return int(x)
    if t is Fraction: return dom.norm(x)
    if t is float: return dom.from_float(x)
    if isinstance(x, float): return dom.from_float(float(x))
    if isinstance(x, int): return int(x)
    return None


def wrapf(v):
    return SymFloat(v)


# stand-ins for builtins that would force a concrete value
class _FloatMeta(type):
    def __instancecheck__(cls, x): return type(x) is SymFloat or builtins.isinstance(x, float)
    def __call__(cls, x=0.0):
        if type(x) is SymFloat: return x
        return float(x)


class py_float(metaclass=_FloatMeta):
    fromhex = float.fromhex


def py_isinstance(x, t):
    if type(x) is SymFloat:
        ts = t if type(t) is tuple else (t,)
        return any(u in (float, py_float, object, numbers.Number, numbers.Real, numbers.Complex, SymFloat) for u in ts)
    if type(t) is tuple:
        t = tuple(float if u is py_float else u for u in t)
    elif t is py_float:
        t = float
    return builtins.isinstance(x, t)


class py_math:
    """math module over SymFloat"""
    inf = INF
    nan = NAN
    pi = math.pi
    e = math.e
    def __getattr__(self, n):
        g = getattr(math, n)
        def f(*a):
            if any(type(x) is SymFloat and type(x.v) is R for x in a):
                raise Unsupported('math.' + n)
            return g(*a)
        return f
    def isnan(self, x): return dom.isnan(lift(x))
    def isinf(self, x): return lift(x) in (INF, -INF) if type(lift(x)) is float else False
    def isfinite(self, x): return type(lift(x)) is not float
    def fabs(self, x): return abs(x) if type(x) is SymFloat else math.fabs(x)
    def floor(self, x): return x.__floor__() if type(x) is SymFloat else math.floor(x)
    def ceil(self, x): return x.__ceil__() if type(x) is SymFloat else math.ceil(x)
    def trunc(self, x): return int(x)
    def exp(self, x): return SymFloat(fp.exp(lift(x)))
    def sqrt(self, x): return SymFloat(fp.sqrt(lift(x)))
    def fmod(self, x, y): return SymFloat(dom.fmod_(lift(x), lift(y)))
    def copysign(self, x, y): return -abs(x) if y < 0 else abs(x)
    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        a, b = SymFloat(lift(a)), SymFloat(lift(b))
        d = abs(a - b)
        return bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b)) or bool(d <= abs_tol)


# ---------------------------------------------------------------- types
TN = re.compile(r'\[T = (.*)\]$')
DOUBLE, FLOAT, INT, STR, VEC, BOOL, VOID, CLS, PTR = 'double float int str vec bool void cls ptr'.split()
INTS = {'int': (4, True), 'long': (8, True), 'long long': (8, True), 'short': (2, True), 'unsigned int': (4, False),
        'unsigned long': (8, False), 'unsigned long long': (8, False), 'signed char': (1, True), 'unsigned short': (2, False)}


def parse_type(s):
    s = s.strip()
    if s.startswith('const '):
        s = s[6:]
    if s.endswith('*'):
        return (PTR, parse_type(s[:-1]))
    s = s.strip()
    if s == 'double': return (DOUBLE,)
    if s == 'float': return (FLOAT,)
    if s == 'bool': return (BOOL,)
    if s == 'void': return (VOID,)
    if s in INTS: return (INT,) + INTS[s]
    if s in ('std::basic_string<char>', 'std::string', 'std::__cxx11::basic_string<char>'): return (STR,)
    m = re.fullmatch(r'std::vector<(.*)>', s)
    if m:
        return (VEC, parse_type(m.group(1)))
    return (CLS, s)


def tsize(t):
    k = t[0]
    if k in (DOUBLE, PTR): return 8
    if k == FLOAT: return 4
    if k == BOOL: return 1
    if k == INT: return t[1]
    if k == VEC: return 24
    if k == STR: return 32
    raise Unsupported('by-value argument of type %s' % (t,))


class Rec:
    """one registered callable"""
    def __init__(self, cls, name, kind, ret, ret_size, thunk, closure):
        self.cls = cls; self.name = name; self.kind = kind; self.ret = ret; self.ret_size = ret_size
        self.thunk = thunk; self.closure = closure
        self.args = []; self.none = []; self.argnames = []; self.keep = []; self.policy = 0


class NoMatch(Exception):
    pass


class World:
    """all extension modules of the package under execution"""

    def __init__(self):
        self.rt = RT()
        self.gens = {}
        self.classes = {}      # C++ name -> info dict(py, dtor, module)
        self.modules = {}      # name -> info
        self.recs = []
        self.patients = {}     # id of an object -> what it keeps alive (not seen by the garbage collector, as with pybind11)
        self.excs = []         # (mangled, py exception), latest first
        self.cur_rec = None
        self.cur_mod = None
        self.install_sx()

    # -------------------------------------------------------- registration externals
    def install_sx(self):
        S = rtlib.SIMPLE
        w = self

        def tn(p):
            s = w.rt.cstr(p).decode()
            m = TN.search(s)
            return m.group(1) if m else s

        def sx_class(rt, t, name, size, dtor):
            t = tn(t)
            w.classes[t] = dict(name=rt.cstr(name).decode(), dtor=dtor, mod=w.cur_mod, cpp=t, base=None, recs={})
            w.modules[w.cur_mod]['classes'].append(t)

        def sx_base(rt, t, b): w.classes[tn(t)]['base'] = tn(b)

        def sx_begin(rt, t, name, kind, ret, size, thunk, closure):
            t = tn(t)
            r = Rec(t, rt.cstr(name).decode(), kind, parse_type(tn(ret)), size, thunk, closure)
            w.cur_rec = r
            if t:
                w.classes[t]['recs'].setdefault((r.name, 'set' if kind == 3 else 'get' if kind == 2 else 'fn'), []).append(r)
            else:
                w.modules[w.cur_mod]['functions'].setdefault(r.name, []).append(r)

        def sx_arg(rt, t, none):
            w.cur_rec.args.append(parse_type(tn(t)))
            w.cur_rec.none.append(bool(none) and not (w.cur_rec.kind == 0 and len(w.cur_rec.args) == 1))

        def sx_argname(rt, name, dt, val, none):
            d = None
            if dt:
                ty = parse_type(tn(dt))
                d = ('default', w.read_value(ty, val)) if ty[0] in (DOUBLE, INT, BOOL) else None
            r = w.cur_rec
            i = len(r.argnames) + (r.kind == 0)
            if not none and i < len(r.none):
                r.none[i] = False
            r.argnames.append((rt.cstr(name).decode() if name else None, d))

        def sx_keep_alive(rt, n, p): w.cur_rec.keep.append((n, p))
        def sx_policy(rt, p): w.cur_rec.policy = p
        def sx_end(rt): w.cur_rec = None

        def sx_exception(rt, t, name):
            nm = rt.cstr(name).decode()
            e = type(nm, (Exception,), {'__module__': w.cur_mod})
            w.excs.insert(0, (rt.cstr(t).decode().lstrip('*'), e))
            w.modules[w.cur_mod]['excs'][nm] = e

        for f in (sx_class, sx_base, sx_begin, sx_arg, sx_argname, sx_keep_alive, sx_policy, sx_end, sx_exception):
            S[f.__name__] = f

    def load(self, name, ll_text):
        """compile a module's IR and run its static initialisers and registration"""
        from .llparse import parse_module
        from .codegen import Gen
        mod = parse_module(ll_text)
        g = Gen(mod, self.rt, name)
        g.compile()
        self.gens[name] = g
        self.cur_mod = name
        self.modules[name] = dict(classes=[], functions={}, excs={})
        ctors = mod.globals.get('@llvm.global_ctors')
        if ctors and ctors[1] and ctors[1][0] == 'agg':
            for _, e in ctors[1][1]:
                f = e[1][1][1]
                if f[0] == 'glob':
                    g.ns[g.fname[f[1]]]()
        g.call('sx_init_' + name)

    def finish(self):
        """Python classes; memory snapshot"""
        self.rt.called.clear()
        for t, info in self.classes.items():
            info['py'] = self.make_class(t, info)
        for n, m in self.modules.items():
            d = {}
            for t in m['classes']:
                d[self.classes[t]['name']] = self.classes[t]['py']
            d.update(m['excs'])
            for fn, recs in m['functions'].items():
                d[fn] = self.make_function(fn, recs)
            m['dict'] = d
        self.rt.take_snapshot()

    # -------------------------------------------------------- values
    def read_value(self, ty, p):
        rt = self.rt
        k = ty[0]
        if k in (DOUBLE, FLOAT):
            v = rt.slow_load(p, 'd' if k == DOUBLE else 'f')
            if v is UNDEF:
                raise MemViolation('uninitialised', 'an uninitialised value is returned')
            return SymFloat(v)
        if k == BOOL:
            return bool(rt.slow_load(p, 1))
        if k == INT:
            v = rt.slow_load(p, ty[1])
            if v is UNDEF:
                raise MemViolation('uninitialised', 'an uninitialised value is returned')
            return sx(v, 8 * ty[1]) if ty[2] else v
        if k == STR:
            return rtlib.string_get(rt, p).decode('utf-8', 'replace')
        if k == VEC:
            b, e = rt.slow_load(p, 8), rt.slow_load(p + 8, 8)
            es = tsize(ty[1])
            n = (e - b) // es
            if n and (b >> 32) != (e >> 32):
                raise MemViolation('memory', 'broken vector returned')
            return [self.read_value(ty[1], b + i * es) for i in range(n)]
        raise Unsupported('value of type %s' % (ty,))

    def free_value(self, ty, p):
        rt = self.rt
        if ty[0] == STR:
            rtlib.string_free(rt, p)
        elif ty[0] == VEC:
            b, e = rt.slow_load(p, 8), rt.slow_load(p + 8, 8)
            es = tsize(ty[1])
            if ty[1][0] in (STR, VEC):
                for i in range((e - b) // es):
                    self.free_value(ty[1], b + i * es)
            rt.delete(b)

    def accept(self, ty, x, convert):
        """check x converts to ty (as pybind11's casters do); returns a plan for write"""
        k = ty[0]
        if k in (DOUBLE, FLOAT):
            t = type(x)
            if t is SymFloat: return x.v
            if isinstance(x, float): return dom.from_float(float(x))
            if not convert: raise NoMatch()
            if isinstance(x, int): return int(x)
            if t is Fraction: return dom.norm(x)
            if isinstance(x, (str, bytes, list, tuple, dict, type(None))): raise NoMatch()
            f = getattr(x, '__float__', None)
            if f is None: raise NoMatch()
            return self.accept(ty, f(), convert)
        if k == BOOL:
            if x is True or x is False: return int(x)
            raise NoMatch()
        if k == INT:
            if type(x) is SymFloat or isinstance(x, float) or not isinstance(x, int): raise NoMatch()
            x = int(x)
            lo, hi = (-(1 << (8 * ty[1] - 1)), 1 << (8 * ty[1] - 1)) if ty[2] else (0, 1 << (8 * ty[1]))
            if not lo <= x < hi: raise NoMatch()
            return x & ((1 << (8 * ty[1])) - 1)
        if k == STR:
            if isinstance(x, str): return x.encode()
            if isinstance(x, bytes): return x
            raise NoMatch()
        if k == VEC:
            if isinstance(x, (str, dict, set)) or not (isinstance(x, (list, tuple, bytes, range)) or hasattr(x, '__getitem__')):
                raise NoMatch()
            return [self.accept(ty[1], y, convert) for y in x]
        raise NoMatch()

    def write(self, ty, p, v):
        rt = self.rt
        k = ty[0]
        if k == DOUBLE: rt.store(p, 'd', v)
        elif k == FLOAT: rt.store(p, 'f', fp.f32(v))
        elif k == BOOL: rt.store(p, 1, v)
        elif k == INT: rt.store(p, ty[1], v)
        elif k == STR: rtlib.string_new(rt, p, v)
        elif k == VEC:
            es = tsize(ty[1])
            b = rt.alloc(es * len(v), 'new') if v else 0
            for i, y in enumerate(v):
                self.write(ty[1], b + i * es, y)
            rt.store(p, 8, b)
            rt.store(p + 8, 8, b + es * len(v) if v else 0)
            rt.store(p + 16, 8, b + es * len(v) if v else 0)

    # -------------------------------------------------------- calls
    def bind(self, rec, args, kw):
        """positional list of arguments for a record, or None"""
        n = len(rec.args)
        self_n = 1 if rec.kind in (0,) else 0
        if kw or len(args) < n:
            out = list(args)
            names = [None] * self_n + [a for a in rec.argnames]
            kw = dict(kw)
            for i in range(len(out), n):
                nm = names[i] if i < len(names) else None
                if nm is None: return None
                if nm[0] in kw: out.append(kw.pop(nm[0]))
                elif nm[1] is not None: out.append(nm[1][1])
                else: return None
            if kw: return None
            return out if len(out) == n else None
        return list(args) if len(args) == n else None

    def dispatch(self, name, recs, args, kw):
        rt = self.rt
        if rt.deferred is not None:
            d, rt.deferred = rt.deferred, None
            raise d
        passes = (False, True) if len(recs) > 1 else (True,)
        for convert in passes:
            for rec in recs:
                a = self.bind(rec, args, kw)
                if a is None:
                    continue
                try:
                    plan = [self.plan(t, x, convert, none) for t, x, none in zip(rec.args, a, rec.none)]
                except NoMatch:
                    continue
                return self.invoke(rec, plan, a)
        raise TypeError('%s(): incompatible function arguments' % name)

    def plan(self, ty, x, convert, none):
        if ty[0] == CLS:
            if x is None:
                return 0 if convert and none else self._nomatch()
            if isinstance(x, CxxBase) and self.isa(x._cls, ty[1]):
                if x._p is None:
                    raise TypeError('instance not constructed')
                return x._p
            raise NoMatch()
        return self.accept(ty, x, convert)

    def _nomatch(self):
        raise NoMatch()

    def isa(self, c, b):
        while c:
            if c == b: return True
            c = self.classes[c]['base'] if c in self.classes else None
        return False

    def invoke(self, rec, plan, pyargs):
        rt = self.rt
        n = len(plan)
        tmps = []
        slots = rt.alloc(8 * n, 'args') if n else 0
        for i, (ty, v) in enumerate(zip(rec.args, plan)):
            if ty[0] == CLS:
                p = v
            else:
                p = rt.alloc(tsize(ty), 'argument')
                self.write(ty, p, v)
                tmps.append((ty, p))
            rt.store(slots + 8 * i, 8, p)
        ret = rt.alloc(rec.ret_size, 'result') if rec.ret_size else 0
        try:
            rt.fn_by_addr[rec.thunk](rec.closure, slots, ret)
            if rec.kind == 1:
                if rec.ret[0] != PTR:
                    raise Unsupported('constructor returning by value')
                res = rt.slow_load(ret, 8)
            elif rec.ret[0] == VOID:
                res = None
            elif rec.ret[0] == PTR or rec.ret[0] == CLS:
                res = self.ret_object(rec, ret, pyargs)
            else:
                res = self.read_value(rec.ret, ret)
                self.free_value(rec.ret, ret)
        except CxxExc as e:
            x = self.translate(e)
            rtlib.end_exception(rt, e.addr)
            raise x from None
        finally:
            for ty, p in tmps:
                o = rt.objs.get(p >> 32)
                if o is not None and o.alive:
                    try:
                        self.free_value(ty, p)
                    finally:
                        rt.kill([p])
            if ret: rt.kill([ret])
            if slots: rt.kill([slots])
        if rec.kind == 1:
            return rec, res
        for nurse, patient in rec.keep:
            self.keep(res if nurse == 0 else pyargs[nurse - 1], res if patient == 0 else pyargs[patient - 1])
        return res

    def keep(self, nurse, patient):
        if isinstance(nurse, CxxBase) and patient is not None:
            nurse._world.patients.setdefault(id(nurse), []).append(patient)

    def ret_object(self, rec, ret, pyargs):
        ty = rec.ret
        rt = self.rt
        if ty[0] == PTR and ty[1][0] in (VEC, DOUBLE, STR):
            p = rt.slow_load(ret, 8)
            return None if p == 0 else self.read_value(ty[1], p)
        if ty[0] == PTR and ty[1][0] == CLS:
            p = rt.slow_load(ret, 8)
            if p == 0: return None
            # an existing instance with this address?
            x = self.instances.get(p)
            x = x() if x else None
            if x is not None: return x
            info = self.classes.get(ty[1][1])
            if info is None: raise Unsupported('unregistered type returned')
            o = object.__new__(info['py'])
            o._p = p; o._cls = ty[1][1]; o._epoch = rt.epoch
            o._own = rec.policy in (0, 2)
            if rec.policy == 6:
                self.keep(o, pyargs[0])
            return o
        raise Unsupported('returned type %s' % (ty,))

    instances = {}

    def translate(self, e):
        names = self.rt.chain(e.ti)
        for mangled, py in self.excs:
            if mangled in names:
                return py('%s' % mangled)
        for n in names:
            p = STD_PY.get(n) or STD_PY.get(re.sub(r'^N8pybind11\d+(\w+)E$', r'py:\1', n))
            if p:
                return p('C++ exception ' + n)
        return SystemExit('unknown C++ exception') if not names else RuntimeError('C++ exception ' + names[0])

    # -------------------------------------------------------- Python classes
    def make_class(self, t, info):
        w = self

        def __init__(self, *a, **k):
            self._p = None
            recs = info['recs'].get(('__init__', 'fn'))
            if not recs:
                raise TypeError('%s: No constructor defined!' % info['name'])
            rec, p = w.dispatch(info['name'], recs, a, k)
            self._p = p
            self._cls = t
            self._own = True
            self._epoch = w.rt.epoch
            for nurse, patient in rec.keep:
                full = (self,) + a
                w.keep(full[nurse - 1] if nurse else None, full[patient - 1] if patient and patient - 1 < len(full) else None)

        d = {'__init__': __init__, '__module__': info['mod'], '_info': info, '_world': w}
        for (name, kind), recs in info['recs'].items():
            if name == '__init__':
                continue
            if kind == 'fn':
                f = w.make_function(name, recs)
                d[name] = staticmethod(f) if recs[0].kind == 4 else f
        props = {n for (n, k) in info['recs'] if k in ('get', 'set')}
        for n in props:
            g = info['recs'].get((n, 'get'))
            s = info['recs'].get((n, 'set'))
            fg = (lambda n, g: lambda self: w.dispatch(n, g, (self,), {}))(n, g) if g else None
            fs = (lambda n, s: lambda self, v: w.dispatch(n, s, (self, v), {}))(n, s) if s else None
            d[n] = property(fg, fs)
        return type(info['name'], (CxxBase,), d)

    def make_function(self, name, recs):
        w = self
        def f(*a, **k):
            return w.dispatch(name, recs, a, k)
        f.__name__ = name
        return f


STD_PY = {'St12out_of_range': IndexError, 'St12length_error': ValueError, 'St16invalid_argument': ValueError,
          'St12domain_error': ValueError, 'St11range_error': ValueError, 'St9bad_alloc': MemoryError,
          'St14overflow_error': OverflowError, 'St9exception': RuntimeError,
          'py:index_error': IndexError, 'py:value_error': ValueError, 'py:type_error': TypeError, 'py:key_error': KeyError,
          'py:stop_iteration': StopIteration, 'py:cast_error': RuntimeError}


class CxxBase:
    _p = None
    _own = False
    _epoch = -1

    def __del__(self):
        w = self._world
        patients = w.patients.pop(id(self), None)
        if self._p is None or not self._own:
            return
        rt = w.rt
        if self._epoch != rt.epoch or H.cur is None:
            return
        p, self._p = self._p, None
        try:
            rt.fn_by_addr[self._info['dtor']](p)
        except BaseException as e:
            rt.deferred = e


def load_package(world, src_dir, reader):
    """the package's Python files over the executed extension modules; a fresh copy per call"""
    pkg = types.ModuleType('sacf')
    mods = {'sacf': pkg}
    for n, m in world.modules.items():
        x = types.ModuleType('sacf.' + n)
        x.__dict__.update(m['dict'])
        mods['sacf.' + n] = x
        setattr(pkg, n, x)

    bi = dict(builtins.__dict__)
    bi['float'] = py_float
    bi['isinstance'] = py_isinstance

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            full = 'sacf' + ('.' + name if name else '')
        elif name == 'sacf' or name.startswith('sacf.'):
            full = name
        elif name == 'math':
            return py_math()
        else:
            return builtins.__import__(name, globals, locals, fromlist, level)
        m = get(full)
        if fromlist:
            for f in fromlist or ():
                if not hasattr(m, f) and full == 'sacf':
                    try:
                        get('sacf.' + f)
                    except ImportError:
                        pass
            return m
        return pkg
    bi['__import__'] = imp

    def get(full):
        m = mods.get(full)
        if m is not None:
            return m
        rel = full.split('.', 1)[1]
        code = reader(rel.replace('.', '/') + '.py')
        if code is None:
            raise ImportError(full)
        m = types.ModuleType(full)
        m.__dict__['__builtins__'] = bi
        m.__dict__['__package__'] = 'sacf'
        mods[full] = m
        setattr(pkg, rel, m)
        exec(code, m.__dict__)
        return m

    pkg.__dict__['__builtins__'] = bi
    pkg.__dict__['__package__'] = 'sacf'
    pkg.__dict__['__path__'] = []
    exec(reader('__init__.py'), pkg.__dict__)
    return mods, get
