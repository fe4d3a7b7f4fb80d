"""Helper operations of generated code, and models of the external functions it calls."""
import re, math
from fractions import Fraction
from . import dom, fp
from .dom import R, H, Unsupported, NAN, INF
from .rt import MemViolation, CxxExc, UNDEF, DBits, Blob, M64, M32, sx, _bad, _unsup


def function_at(rt, f):
    fn = rt.fn_by_addr.get(f)
    if fn is None:
        name = rt.fn_names.get(f) or next((n for n, a in rt.sym_addr.items() if a == f), None)
        if name is None:
            raise MemViolation('memory', 'call through an invalid pointer')
        fn = lookup(rt, name)
        if fn is None:
            raise Unsupported('external function ' + name)
        rt.fn_by_addr[f] = fn
    return fn


def end_exception(rt, p):
    """the last handler of an exception is left"""
    if p in rt.rethrown:
        rt.rethrown.discard(p)
        return
    d = rt.exc_dtor.pop(p, 0)
    if d and p not in rt.caught and (d in rt.fn_by_addr or lookup(rt, rt.fn_names.get(d, '')) is not None):
        function_at(rt, d)(p)


def helpers(rt):
    def icall(f, *a):
        return function_at(rt, f)(*a)

    def lifetime(p, start):
        o = rt.objs[p >> 32]
        if o.kind != 'stack':
            return
        o.alive = bool(start)
        o.cells = {}
        o.mixed = False

    # shifts by the width or more are poison; optimised code computes and discards them
    def shl(x, y, n):
        return 0 if y >= n else (x << y) & ((1 << n) - 1)

    def lshr(x, y, n):
        if type(x) is DBits or type(x) is Blob:
            if y == n - 1 and type(x) is DBits:     # sign bit
                return 1 if dom.cmp_lt(x.v, 0) else 0
            _unsup()
        return 0 if y >= n else x >> y

    def ashr(x, y, n):
        return 0 if y >= n else (sx(x, n) >> y) & ((1 << n) - 1)

    def udiv_(x, y, n):
        if y == 0: raise MemViolation('undefined', 'integer division by zero')
        return x // y

    def urem_(x, y, n):
        if y == 0: raise MemViolation('undefined', 'integer division by zero')
        return x % y

    def sdiv_(x, y, n):
        if y == 0: raise MemViolation('undefined', 'integer division by zero')
        a, b = sx(x, n), sx(y, n)
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & ((1 << n) - 1)

    def srem_(x, y, n):
        if y == 0: raise MemViolation('undefined', 'integer division by zero')
        a, b = sx(x, n), sx(y, n)
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & ((1 << n) - 1)

    def fptosi(x, n):
        if x is UNDEF: _bad()
        # out of range: what the target's conversion instruction gives
        big = max(n, 32)
        if type(x) is float:
            return (1 << (big - 1)) & ((1 << n) - 1)
        v = dom.whole(x)
        if not -(1 << (big - 1)) <= v < 1 << (big - 1):
            v = 1 << (big - 1)
        return v & ((1 << n) - 1)

    def fptoui(x, n):
        if x is UNDEF: _bad()
        if type(x) is float:
            return (1 << 63) & ((1 << n) - 1)
        v = dom.whole(x)
        if n < 64:
            # by way of the signed 64-bit conversion
            return (v if -(1 << 63) <= v < 1 << 63 else 1 << 63) & ((1 << n) - 1)
        if not -(1 << 63) <= v < 1 << 64:
            return 1 << 63
        return v & ((1 << 64) - 1)

    def fptosi_sat(x, n):
        if type(x) is float:
            v = 0 if x != x else (1 << (n - 1)) - 1 if x > 0 else -(1 << (n - 1))
        else:
            v = min(max(dom.whole(x), -(1 << (n - 1))), (1 << (n - 1)) - 1)
        return v & ((1 << n) - 1)

    def d2bits(x):
        if x is UNDEF: return x
        b = dom.to_bits(x)
        return DBits(x) if b is None else b

    def bits2d(x):
        if x is UNDEF: return x
        if type(x) is DBits: return x.v
        if type(x) is Blob: _unsup()
        return dom.from_bits(x)

    def imax(a, b): return a if a >= b else b
    def imin(a, b): return a if a <= b else b
    def smax(a, b, n): return a if sx(a, n) >= sx(b, n) else b
    def smin(a, b, n): return a if sx(a, n) <= sx(b, n) else b
    def iabs(a, n): return abs(sx(a, n)) & ((1 << n) - 1)
    def ctlz(a, n): return n - int(a).bit_length() if type(a) is int else _unsup()
    def cttz(a, n): return n if a == 0 else (a & -a).bit_length() - 1
    def ctpop(a, n): return bin(a).count('1')
    def bswap(a, n): return int.from_bytes(a.to_bytes(n // 8, 'little'), 'big')
    def fshl(a, b, c, n):
        c %= n
        return ((a << c) | (b >> (n - c))) & ((1 << n) - 1) if c else a
    def fshr(a, b, c, n):
        c %= n
        return ((a << (n - c)) | (b >> c)) & ((1 << n) - 1) if c else b
    def sat(k, a, b, n):
        m = (1 << n) - 1
        if k == 'usub': return max(a - b, 0)
        if k == 'uadd': return min(a + b, m)
        v = sx(a, n) + sx(b, n) if k == 'sadd' else sx(a, n) - sx(b, n)
        return min(max(v, -(1 << (n - 1))), (1 << (n - 1)) - 1) & m
    def overflow(k, a, b, n):
        m = (1 << n) - 1
        if k[0] == 'u':
            v = a + b if k == 'uadd' else a - b if k == 'usub' else a * b
            return (v & m, 0 if 0 <= v <= m else 1)
        a, b = sx(a, n), sx(b, n)
        v = a + b if k == 'sadd' else a - b if k == 'ssub' else a * b
        return (v & m, 0 if -(1 << (n - 1)) <= v < 1 << (n - 1) else 1)

    def ival(agg, v, i):
        l = list(agg) if type(agg) is tuple else [UNDEF, UNDEF]
        l[i] = v
        return tuple(l)

    def freeze(x):
        return 0 if x is UNDEF else x

    def powi_(x, n):
        return fp.power(x, sx(n, 32))

    def copysign_(x, y):
        a = dom.fabs(x)
        if type(y) is float and y != y: return a
        return dom.neg(a) if dom.cmp_lt(y, 0) else a

    def exp2_(x):
        if dom.is_num(x) and type(dom.norm(x)) is int and abs(x) < 1000:
            return dom.norm(Fraction(2) ** int(x))
        raise Unsupported('exp2')

    def fpclass(x, mask):
        # snan qnan ninf nnorm nsub nzero pzero psub pnorm pinf
        if type(x) is float:
            if x != x: return 1 if mask & 3 else 0
            return 1 if mask & (512 if x > 0 else 4) else 0
        fin = mask & 0x1f8
        if fin == 0: return 0
        if fin == 0x1f8: return 1
        if (mask & 0x60) == 0x60 and not mask & 0x198:
            return 1 if dom.cmp_eq(x, 0) else 0
        if (mask & 0x198) == 0x198 and not mask & 0x60:
            return 0 if dom.cmp_eq(x, 0) else 1
        raise Unsupported('fpclass')
    d = {k: v for k, v in locals().items() if k != 'rt' and callable(v)}
    d['sx'] = sx
    return d


# ---------------------------------------------------------------- files and streams
VT_OFF = 64


class Stream:
    """state of a C++ stream: text, position, error bits; where reading fails (broken) the text ends and asking for more sets badbit"""
    def __init__(self, text=b'', broken=None):
        self.broken = broken        # None, or the length the file claims to have
        self.text = text; self.pos = self.wpos = 0
        self.bad = False
        self.eof = False; self.fail = False
        self.open = True
        self.file = False
        self.ios = None; self.base = None

    @property
    def eof(self): return self._eof

    @eof.setter
    def eof(self, v):
        if v and self.broken is not None:
            self.bad = True
        else:
            self._eof = v

    def take(self, found):
        """the file just opened: None if there is none, else (text, broken)"""
        self.text, self.broken = found
        self.bad = False
        self.eof = self.fail = False
        self.pos, self.open = 0, True

    def state(self):
        return (1 if self.bad else 0) | (2 if self.eof else 0) | (4 if self.fail else 0)


NUM = re.compile(rb'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?')


def token_value(rt, b):
    """value of numeric text; digits registered as tokens stand for symbolic values"""
    v = rt.tokens.get(bytes(b))
    if v is not None:
        return v
    for t in rt.tokens:
        if t in bytes(b) or (len(b) > 3 and bytes(b) in t):
            raise Unsupported('part of a symbolic number read: %r' % bytes(b))
    return dom.norm(Fraction(bytes(b).decode().rstrip('.') if not bytes(b).endswith(b'.') else bytes(b)[:-1].decode()))


def scan_double(rt, s, text, pos):
    """operator>>(double&) of libstdc++: (value or None, new position, hit end)"""
    n = len(text)
    i = pos
    acc = bytearray()
    seen_digit = seen_dot = seen_e = False
    while i < n:
        c = text[i:i + 1]
        if c.isdigit():
            seen_digit = True
            acc += c
        elif c in b'+-' and (not acc or (seen_e and acc[-1:] in b'eE')):
            acc += c
        elif c == b'.' and not seen_dot and not seen_e:
            seen_dot = True
            acc += c
        elif c in b'eE' and not seen_e and seen_digit:
            seen_e = True
            acc += c
        else:
            break
        i += 1
    m = NUM.fullmatch(bytes(acc))
    if m is None:
        return None, i, i >= n
    return token_value(rt, bytes(acc)), i, i >= n


def strtod(rt, text):
    """strtod: (value, characters used)"""
    i = 0
    while i < len(text) and text[i:i + 1] in b' \t\n\v\f\r':
        i += 1
    t = text[i:]
    low = t.lower()
    for sgn in (b'', b'-', b'+'):
        for w, v in ((b'nan', NAN), (b'infinity', INF), (b'inf', INF)):
            if low.startswith(sgn + w):
                return (-v if sgn == b'-' else v), i + len(sgn) + len(w)
    m = NUM.match(t)
    if not m:
        return 0, 0
    return token_value(rt, m.group()), i + m.end()


def lookup(rt, n):
    f = SIMPLE.get(n)
    if f is not None:
        return lambda *a: f(rt, *a)
    for pat, f in PATTERNS:
        if re.match(pat, n):
            return (lambda f: lambda *a: f(rt, *a))(f)
    return None


SIMPLE = {}
PATTERNS = []


def ext(*names):
    def w(f):
        for n in names:
            SIMPLE[n] = f
        return f
    return w


def extp(*pats):
    def w(f):
        for pat in pats:
            PATTERNS.append((pat, f))
        return f
    return w


@ext('_Znwm', '_Znam')
def _new(rt, n): return rt.new(n)

@ext('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def _newnt(rt, n, t): return rt.new(n)

@ext('_ZdlPv', '_ZdaPv')
def _del(rt, p): rt.delete(p)

@ext('_ZdlPvm', '_ZdaPvm')
def _delm(rt, p, n):
    if p and type(p) is int:
        o = rt.objs.get(p >> 32)
        if o is not None and o.alive and o.kind == 'new' and n != o.size:
            raise MemViolation('memory', 'sized delete with the wrong size')
    rt.delete(p)

@ext('malloc')
def _malloc(rt, n): return rt.alloc(n, 'malloc')

@ext('calloc')
def _calloc(rt, n, m):
    p = rt.alloc(n * m, 'malloc')
    rt.memset(p, 0, n * m)
    return p

@ext('free')
def _free(rt, p): rt.delete(p, 'malloc')

@ext('memcpy', 'memmove')
def _memcpy(rt, d, s, n):
    rt.memcpy(d, s, n)
    return d

@ext('memset')
def _memset(rt, d, v, n):
    rt.memset(d, v, n)
    return d

@ext('memcmp', 'bcmp')
def _memcmp(rt, a, b, n):
    x, y = rt.read_bytes(a, n), rt.read_bytes(b, n)
    return 0 if x == y else (1 if x > y else M32)

@ext('memchr')
def _memchr(rt, p, c, n):
    for i in range(n):
        if rt.slow_load(p + i, 1) == c & 255:
            return p + i
    return 0

@ext('strlen')
def _strlen(rt, p): return len(rt.cstr(p))

@ext('strcmp')
def _strcmp(rt, a, b):
    x, y = rt.cstr(a), rt.cstr(b)
    return 0 if x == y else (1 if x > y else M32)

@ext('strchr')
def _strchr(rt, p, c):
    s = rt.cstr(p)
    i = (s + b'\0').find(bytes([c & 255]))
    return 0 if i < 0 else p + i


# C++ run time
@ext('__cxa_allocate_exception')
def _alloc_exc(rt, n): return rt.alloc(n, 'exc')

@ext('__cxa_free_exception')
def _free_exc(rt, p): pass

@ext('__cxa_throw')
def _throw(rt, p, ti, d):
    rt.exc[p] = ti
    if d: rt.exc_dtor[p] = d
    raise CxxExc(p, ti)

@ext('__cxa_begin_catch')
def _begin(rt, p):
    rt.caught.append(p)
    return p

@ext('__cxa_get_exception_ptr')
def _getp(rt, p): return p

@ext('__cxa_end_catch')
def _end(rt):
    if rt.caught: end_exception(rt, rt.caught.pop())

@ext('__cxa_rethrow')
def _rethrow(rt):
    p = rt.caught[-1]
    rt.rethrown.add(p)
    raise CxxExc(p, rt.exc[p])

@ext('__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort')
def _zero(rt, *a): return 0

@ext('__cxa_guard_acquire')
def _guard(rt, p):
    if rt.slow_load(p, 1):
        return 0
    rt.store(p, 1, 1)
    return 1

@ext('_ZSt9terminatev', 'abort', '__cxa_pure_virtual', 'exit', '_exit', '__assert_fail', '__cxa_bad_cast', '__stack_chk_fail')
def _terminate(rt, *a): raise MemViolation('abort', 'the process is terminated')

@extp(r'_ZSt21__glibcxx_assert_failPKciS0_S0_')
def _assertfail(rt, file, line, func, cond):
    raise MemViolation('memory', 'container precondition violated: ' + rt.cstr(cond).decode('latin1'))

@ext('_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt9exceptionD0Ev', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev',
     '_ZNSt11logic_errorD2Ev', '_ZNSt13runtime_errorD2Ev', '_ZNSt6localeC1Ev', '_ZNSt6localeD1Ev')
def _nop(rt, *a): return None

@extp(r'_ZNSt(1[0-9](logic_error|length_error|out_of_range|domain_error|runtime_error|range_error|invalid_argument|overflow_error))[CD][12]')
def _stdexc(rt, *a): return None


def thrower(cls):
    def f(rt, *a): rt.throw_std(cls, '')
    return f


for _n, _c in (('_ZSt20__throw_length_errorPKc', 'St12length_error'), ('_ZSt20__throw_out_of_rangePKc', 'St12out_of_range'),
               ('_ZSt24__throw_out_of_range_fmtPKcz', 'St12out_of_range'), ('_ZSt17__throw_bad_allocv', 'St9bad_alloc'),
               ('_ZSt28__throw_bad_array_new_lengthv', 'St20bad_array_new_length'), ('_ZSt19__throw_logic_errorPKc', 'St11logic_error'),
               ('_ZSt24__throw_invalid_argumentPKc', 'St16invalid_argument'), ('_ZSt20__throw_runtime_errorPKc', 'St13runtime_error'),
               ('_ZSt20__throw_domain_errorPKc', 'St12domain_error'), ('_ZSt19__throw_range_errorPKc', 'St11range_error'),
               ('_ZSt22__throw_overflow_errorPKc', 'St14overflow_error'), ('_ZSt16__throw_bad_castv', 'St8bad_cast'),
               ('_ZSt25__throw_bad_function_callv', 'St17bad_function_call')):
    SIMPLE[_n] = thrower(_c)


# mathematics
def opq(name):
    def f(rt, x):
        return dom.func(name, x)
    return f


@ext('exp')
def _exp(rt, x): return fp.exp(x)

@ext('expm1')
def _expm1(rt, x): return fp.sub(fp.exp(x), 1)

@ext('exp2')
def _exp2(rt, x): return helpers(rt)['exp2_'](x)

@ext('sqrt')
def _sqrt(rt, x): return fp.sqrt(x)

@ext('pow')
def _pow(rt, x, y): return fp.power(x, y)

@ext('fabs')
def _fabs(rt, x): return dom.fabs(x)

@ext('floor')
def _floor(rt, x): return dom.floor_(x)

@ext('ceil')
def _ceil(rt, x): return dom.ceil_(x)

@ext('trunc')
def _trunc(rt, x): return dom.trunc_(x)

@ext('round')
def _round(rt, x): return dom.round_half_away(x)

@ext('rint', 'nearbyint')
def _rint(rt, x): return dom.round_half_even(x)

@ext('lround', 'llround')
def _lround(rt, x): return helpers(rt)['fptosi'](dom.round_half_away(x), 64)

@ext('lrint', 'llrint')
def _lrint(rt, x): return helpers(rt)['fptosi'](dom.round_half_even(x), 64)

@ext('fmod')
def _fmod(rt, x, y): return dom.fmod_(x, y)

@ext('fmax')
def _fmax(rt, x, y): return dom.max_(x, y)

@ext('fmin')
def _fmin(rt, x, y): return dom.min_(x, y)

@ext('fma')
def _fma(rt, x, y, z): return fp.add(fp.mul(x, y), z)

@ext('hypot')
def _hypot(rt, x, y): return fp.sqrt(fp.add(fp.mul(x, x), fp.mul(y, y)))

@ext('copysign')
def _copysign(rt, x, y): return helpers(rt)['copysign_'](x, y)

@ext('abs')
def _abs(rt, x): return abs(sx(x, 32)) & M32

for _n in 'exp expm1 exp2 sqrt pow fabs floor ceil trunc round rint nearbyint fmod fmax fmin fma hypot copysign'.split():
    SIMPLE[_n + 'l'] = SIMPLE[_n]
    SIMPLE[_n + 'f'] = (lambda g: lambda rt, *a: fp.f32(g(rt, *a)))(SIMPLE[_n])
for _n in 'lround llround lrint llrint'.split():
    SIMPLE[_n + 'l'] = SIMPLE[_n + 'f'] = SIMPLE[_n]

@ext('labs', 'llabs')
def _labs(rt, x): return abs(sx(x, 64)) & M64


@ext('nextafter')
def _nextafter(rt, x, y):
    # rounding is not modelled: the neighbour of a real is not defined
    raise Unsupported('nextafter')


# strings and streams
def string_set(rt, p, bs):
    """assign bytes to an existing std::string"""
    ptr = rt.slow_load(p, 8)
    local = p + 16
    cap = 15 if ptr == local else rt.slow_load(p + 16, 8)
    if len(bs) > cap:
        if ptr != local:
            rt.delete(ptr)
        ptr = rt.alloc(len(bs) + 1, 'new')
        rt.store(p, 8, ptr)
        rt.store(p + 16, 8, len(bs))
    rt.write_bytes(ptr, bs + b'\0')
    rt.store(p + 8, 8, len(bs))


def string_get(rt, p):
    return rt.read_bytes(rt.slow_load(p, 8), rt.slow_load(p + 8, 8))


def string_new(rt, p, bs):
    """construct a std::string in raw memory"""
    if len(bs) > 15:
        ptr = rt.alloc(len(bs) + 1, 'new')
        rt.store(p + 16, 8, len(bs))
    else:
        ptr = p + 16
    rt.store(p, 8, ptr)
    rt.write_bytes(ptr, bs + b'\0')
    rt.store(p + 8, 8, len(bs))


def string_free(rt, p):
    ptr = rt.slow_load(p, 8)
    if ptr != p + 16:
        rt.delete(ptr)


def mkstream(rt, this, text, is_open=True, dtor='_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED%dEv'):
    s = Stream(text)
    s.open = is_open
    s.file = 'fstream' in dtor
    vt = rt.alloc(VT_OFF + 64, 'vtable')
    rt.store(vt + VT_OFF - 24, 8, VT_OFF)      # offset of the virtual base
    rt.store(this, 8, vt + VT_OFF)
    rt.store(vt + VT_OFF, 8, rt.function(dtor % 1))        # the complete and the deleting destructor
    rt.store(vt + VT_OFF + 8, 8, rt.function(dtor % 0))
    o = rt.objs[this >> 32]
    s.base = this
    s.ios = this + VT_OFF
    rt.streams[this] = s
    rt.streams[s.ios] = s
    for d in (8, 16, 24):       # other bases a compiler may name
        rt.streams[this + d] = s
    return s


def gone(rt, this):
    s = rt.streams.get(this)
    for k in [k for k, v in rt.streams.items() if v is s]:
        del rt.streams[k]


def stream(rt, p):
    s = rt.streams.get(p)
    if s is None:
        raise Unsupported('stream the model does not know')
    return s


def vopen(rt, name):
    """(text, None or claimed length where reading fails after the text), None if there is no such file"""
    t = rt.vfs.get(name)
    return t if t is None or isinstance(t, tuple) else (t, None)


FST = r'_ZNSt1[34]basic_i?fstreamIcSt11char_traitsIcEE'
SST = r'_ZNSt7__cxx1[0-9]*?1[89]basic_i?(string)?stringstreamIcSt11char_traitsIcESaIcEE'


@extp(FST + r'C[12]ERKNSt7__cxx1112basic_string')
def _ifs_str(rt, this, s, mode):
    t = vopen(rt, string_get(rt, s))
    x = mkstream(rt, this, b'', False, '_ZNSt14basic_ifstreamIcSt11char_traitsIcEED%dEv')
    if t is None: x.fail = True
    else: x.take(t)

@extp(FST + r'C[12]EPKc')
def _ifs_c(rt, this, s, mode):
    t = vopen(rt, rt.cstr(s))
    x = mkstream(rt, this, b'', False, '_ZNSt14basic_ifstreamIcSt11char_traitsIcEED%dEv')
    if t is None: x.fail = True
    else: x.take(t)

@extp(FST + r'C[12]Ev')
def _ifs_v(rt, this):
    mkstream(rt, this, b'', False, '_ZNSt14basic_ifstreamIcSt11char_traitsIcEED%dEv')

@extp(FST + r'4openERKNSt7__cxx11')
def _ifs_open(rt, this, s, mode):
    t = vopen(rt, string_get(rt, s))
    x = stream(rt, this)
    if t is None or x.open: x.fail = True
    else: x.take(t)

@extp(FST + r'4openEPKc')
def _ifs_openc(rt, this, s, mode):
    t = vopen(rt, rt.cstr(s))
    x = stream(rt, this)
    if t is None or x.open: x.fail = True
    else: x.take(t)

@extp(r'_ZNK?St1[34]basic_i?fstreamIcSt11char_traitsIcEE7is_openEv')
def _isopen(rt, this): return 1 if stream(rt, this).open else 0

@extp(FST + r'5closeEv')
def _close(rt, this):
    x = stream(rt, this)
    if not x.open: x.fail = True
    x.open = False

@extp(r'_ZNSt(1[34]basic_i?fstream|7__cxx111[89]basic_i?stringstream)I.*D[12]Ev')
def _sdtor(rt, this):
    gone(rt, this)

@extp(r'_ZNSt(1[34]basic_i?fstream|7__cxx111[89]basic_[io]?stringstream)I.*D0Ev')
def _sdel(rt, this):
    gone(rt, this)
    rt.delete(this)

@extp(r'_ZNSt7__cxx111[89]basic_i?stringstreamIcSt11char_traitsIcESaIcEEC[12]ERKNS_12basic_string')
def _ss(rt, this, s, mode):
    mkstream(rt, this, string_get(rt, s))

@extp(r'_ZNSt7__cxx111[89]basic_i?stringstreamIcSt11char_traitsIcESaIcEEC[12]Ev')
def _ssv(rt, this):
    mkstream(rt, this, b'')

@extp(r'_ZNSt7__cxx111[89]basic_i?stringstreamIcSt11char_traitsIcESaIcEE3strERKNS_12basic_string')
def _ssstr(rt, this, s):
    x = stream(rt, this)
    x.text = string_get(rt, s)
    x.pos = x.wpos = 0

@extp(r'_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv')
def _fail(rt, p):
    s = stream(rt, p)
    return 1 if s.fail or s.bad else 0

@extp(r'_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv')
def _not(rt, p):
    s = stream(rt, p)
    return 1 if s.fail or s.bad else 0

@extp(r'_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv')
def _bool(rt, p):
    s = stream(rt, p)
    return 0 if s.fail or s.bad else 1

@extp(r'_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv')
def _good(rt, p): return 0 if stream(rt, p).state() else 1

@extp(r'_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv')
def _eof(rt, p): return 1 if stream(rt, p).eof else 0

@extp(r'_ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv')
def _badbit(rt, p): return 1 if stream(rt, p).bad else 0

@extp(r'_ZNKSt9basic_iosIcSt11char_traitsIcEE7rdstateEv')
def _rdstate(rt, p): return stream(rt, p).state()

@extp(r'_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate')
def _clear(rt, p, st):
    s = stream(rt, p)
    s.bad, s.eof, s.fail = bool(st & 1), bool(st & 2), bool(st & 4)

@extp(r'_ZNSt9basic_iosIcSt11char_traitsIcEE8setstateESt12_Ios_Iostate')
def _setstate(rt, p, st):
    s = stream(rt, p)
    s.bad |= bool(st & 1); s.eof |= bool(st & 2); s.fail |= bool(st & 4)


def getline(rt, p, out, delim):
    s = stream(rt, p)
    if s.state():
        s.fail = True
        return p
    rt.spend(1)
    d = bytes([delim & 255])
    i = s.text.find(d, s.pos)
    if s.pos >= len(s.text):
        s.eof = s.fail = True
        string_set(rt, out, b'')
        return p
    if i < 0:
        line = s.text[s.pos:]
        s.pos = len(s.text)
        s.eof = True
    else:
        line = s.text[s.pos:i]
        s.pos = i + 1
    string_set(rt, out, line)
    return p


@extp(r'_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_$')
def _getline3(rt, p, out, delim): return getline(rt, p, out, delim)

@extp(r'_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE$')
def _getline2(rt, p, out): return getline(rt, p, out, 10)

@extp(r'_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_EOS6_RNSt7__cxx1112basic_string')
def _getliner(rt, p, out, delim=10): return getline(rt, p, out, delim)


def skipws(s):
    while s.pos < len(s.text) and s.text[s.pos:s.pos + 1] in b' \t\n\v\f\r':
        s.pos += 1
    if s.pos >= len(s.text):
        s.eof = s.fail = True
        return False
    return True


def extract(rt, p, store):
    s = stream(rt, p)
    rt.spend(1)
    if s.state():
        s.fail = True
        return p
    if not skipws(s):
        return p
    v, s.pos, end = scan_double(rt, s, s.text, s.pos)
    if end:
        s.eof = True
        if s.bad:
            return p
    if v is None:
        s.fail = True
        store(0)
    else:
        store(v)
    return p


@extp(r'_ZNSirsERd$|_ZNSi10_M_extractIdEERSiRT_')
def _rsd(rt, p, d): return extract(rt, p, lambda v: rt.store(d, 'd', v))

@extp(r'_ZNSirsERf$|_ZNSi10_M_extractIfEERSiRT_')
def _rsf(rt, p, d): return extract(rt, p, lambda v: rt.store(d, 'f', fp.f32(v)))

@extp(r'_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_string')
def _rss(rt, p, out):
    s = stream(rt, p)
    rt.spend(1)
    if s.state():
        s.fail = True
        return p
    if not skipws(s):
        return p
    i = s.pos
    while i < len(s.text) and s.text[i:i + 1] not in b' \t\n\v\f\r':
        i += 1
    string_set(rt, out, s.text[s.pos:i])
    s.pos = i
    if i >= len(s.text):
        s.eof = True
    return p

@extp(r'_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_$')
def _rsc(rt, p, out):
    s = stream(rt, p)
    if s.state():
        s.fail = True
        return p
    if not skipws(s):
        return p
    rt.store(out, 1, s.text[s.pos])
    s.pos += 1
    return p

@extp(r'_ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_')
def _ws(rt, p):
    s = stream(rt, p)
    if not s.state():
        while s.pos < len(s.text) and s.text[s.pos:s.pos + 1] in b' \t\n\v\f\r':
            s.pos += 1
        if s.pos >= len(s.text):
            s.eof = True
    return p

@extp(r'_ZNSi4peekEv')
def _peek(rt, p):
    s = stream(rt, p)
    if s.state(): return M32
    if s.pos >= len(s.text):
        s.eof = True
        return M32
    return s.text[s.pos]

@extp(r'_ZNSi3getEv')
def _get(rt, p):
    s = stream(rt, p)
    if s.state():
        s.fail = True
        return M32
    if s.pos >= len(s.text):
        s.eof = s.fail = True
        return M32
    s.pos += 1
    return s.text[s.pos - 1]

@extp(r'_ZNSi3getERc')
def _getc(rt, p, out):
    s = stream(rt, p)
    if s.state() or s.pos >= len(s.text):
        if not s.state(): s.eof = True
        s.fail = True
        return p
    rt.store(out, 1, s.text[s.pos])
    s.pos += 1
    return p

@extp(r'_ZNSi6ignoreEv')
def _ign0(rt, p): return _ign(rt, p, 1, M32)

@extp(r'_ZNSi6ignoreEl$')
def _ign1(rt, p, n): return _ign(rt, p, n, M32)

@extp(r'_ZNSi6ignoreEli')
def _ign(rt, p, n, d):
    s = stream(rt, p)
    if s.state():
        s.fail = True
        return p
    while n:
        if s.pos >= len(s.text):
            s.eof = True
            break
        c = s.text[s.pos]
        s.pos += 1
        n -= 1
        if c == d: break
    return p

@ext('strtod')
def _strtod(rt, p, endp):
    v, n = strtod(rt, rt.cstr(p))
    if endp:
        rt.store(endp, 8, p + n)
    return v

@ext('atof')
def _atof(rt, p): return strtod(rt, rt.cstr(p))[0]

@ext('__errno_location')
def _errno(rt):
    a = rt.sym('errno')
    o = rt.objs[a >> 32]
    if 0 not in o.cells: o.cells[0] = (4, 0)
    return a

@ext('isspace')
def _isspace(rt, c): return 1 if c in (32, 9, 10, 11, 12, 13) else 0

@ext('isdigit')
def _isdigit(rt, c): return 1 if 48 <= c <= 57 else 0

@ext('isalpha')
def _isalpha(rt, c): return 1 if 65 <= c <= 90 or 97 <= c <= 122 else 0

@ext('isalnum')
def _isalnum(rt, c): return 1 if _isalpha(rt, c) or _isdigit(rt, c) else 0

@ext('tolower')
def _tolower(rt, c): return c + 32 if 65 <= c <= 90 else c

@ext('toupper')
def _toupper(rt, c): return c - 32 if 97 <= c <= 122 else c

# whole streams
@extp(r'_ZNKSt(1[34]basic_i?fstreamI|7__cxx111[89]basic_[io]?stringstreamI|9basic_iosI).*5rdbufEv')
def _rdbuf(rt, this):
    h = rt.alloc(64, 'streambuf')
    rt.streams[h] = stream(rt, this)
    return h

@extp(r'_ZNKSt7__cxx111[89]basic_[io]?stringstreamIcSt11char_traitsIcESaIcEE3strEv')
def _ssget(rt, out, this): string_new(rt, out, stream(rt, this).text)

@extp(r'_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC[12]Ev')
def _oss(rt, this): mkstream(rt, this, b'')

@extp(r'_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED[12]Ev')
def _ossd(rt, this): gone(rt, this)


def write(rt, p, bs):
    """text written to a string stream; elsewhere output is not observed"""
    s = rt.streams.get(p)
    if s is not None and not s.state():
        s.text = s.text[:s.wpos] + bs + s.text[s.wpos + len(bs):]
        s.wpos += len(bs)
    return p


@extp(r'_ZNSolsEPSt15basic_streambufIcSt11char_traitsIcEE')
def _outbuf(rt, p, b):
    src = stream(rt, b)
    rest = src.text[src.pos:]
    src.pos = len(src.text)
    if src.broken is not None and p in rt.streams:
        rt.streams[p].bad = True
    if not rest and p in rt.streams:
        rt.streams[p].fail = True
    return write(rt, p, rest)

@extp(r'_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_string')
def _outs(rt, p, s): return write(rt, p, string_get(rt, s))

@extp(r'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc')
def _outcs(rt, p, c): return write(rt, p, rt.cstr(c))

@extp(r'_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l')
def _outn(rt, p, c, n): return write(rt, p, rt.read_bytes(c, n))

@extp(r'_ZNSo5writeEPKcl')
def _outw(rt, p, c, n): return write(rt, p, rt.read_bytes(c, n))

@extp(r'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c', r'_ZNSo3putEc')
def _outc(rt, p, c): return write(rt, p, bytes([c & 255]))

@extp(r'_ZSt4endlI')
def _endl(rt, p): return write(rt, p, b'\n')

@extp(r'_ZSt5flushI|_ZNSo5flushEv')
def _flush(rt, p): return p

@extp(r'_ZNSolsEPFRSoS_E')
def _manip(rt, p, f): return function_at(rt, f)(p)

@extp(r'_ZNSi4readEPcl')
def _read(rt, p, buf, n):
    s = stream(rt, p)
    s.last = 0
    if s.state():
        s.fail = True
        return p
    b = s.text[s.pos:s.pos + n]
    for i, c in enumerate(b):
        rt.store(buf + i, 1, c)
    s.last = len(b)
    s.pos += len(b)
    if len(b) < n:
        s.eof = s.fail = True
    return p

@extp(r'_ZNKSi6gcountEv')
def _gcount(rt, p): return stream(rt, p).last

@extp(r'_ZNSi5seekgElSt12_Ios_Seekdir')
def _seekg(rt, p, off, way):
    s = stream(rt, p)
    s.eof = False
    if not s.state():
        off = off - (1 << 64) if off >> 63 else off
        n = (0, s.pos, len(s.text) if s.broken is None else s.broken)[way] + off
        if 0 <= n <= max(len(s.text), s.broken or 0): s.pos = n
        else: s.fail = True
    return p

@extp(r'_ZNSi5seekgESt4fposI')
def _seekgp(rt, p, off, *state): return _seekg(rt, p, off, 0)

@extp(r'_ZNSi5tellgEv')
def _tellg(rt, p):
    s = stream(rt, p)
    return (M64 if s.fail or s.bad else s.pos, 0)

@ext('fopen', 'fopen64')
def _fopen(rt, name, mode):
    t = vopen(rt, rt.cstr(name))
    if t is None or rt.cstr(mode)[:1] != b'r':
        return 0
    h = rt.alloc(64, 'FILE')
    rt.streams[h] = Stream(*t)
    rt.streams[h].file = True
    return h

@ext('fclose')
def _fclose(rt, f):
    stream(rt, f)
    gone(rt, f)
    rt.kill([f])
    return 0

# other output: nothing observable here, except on a string stream
@extp(r'_ZNSo|_ZStlsI|_ZNSolsE')
def _out(rt, p, *a):
    if p in rt.streams:
        raise Unsupported('formatted output to a string stream')
    return p
