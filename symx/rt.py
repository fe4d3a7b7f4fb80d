"""Run-time of the executor: memory, externals, exceptions.  One instance per process; `reset`
brings it back to the state after static initialisation, for every path."""
import re
from fractions import Fraction
from . import dom
from .dom import R, H, Unsupported, NAN, INF

M64 = (1 << 64) - 1
M32 = (1 << 32) - 1
SZ = {1: 1, 2: 2, 4: 4, 8: 8, 'd': 8, 'f': 4, 16: 16, 'b': 1, 'x': 16}


class MemViolation(BaseException):
    """an invalid memory access or other undefined event"""

    def __init__(self, kind, detail=''):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


class CxxExc(BaseException):
    def __init__(self, addr, ti):
        super().__init__(addr, ti)
        self.addr = addr
        self.ti = ti


def _bad(*a, **k):
    raise MemViolation('uninitialised', 'use of an uninitialised value')


class Undef:
    __slots__ = ()
    def __repr__(self): return 'undef'
    def __hash__(self): return 0


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod and rand or ror xor rxor lshift rlshift '
           'rshift rrshift lt le gt ge eq ne neg bool index int float abs invert').split():
    setattr(Undef, '__%s__' % _n, _bad)
UNDEF = Undef()


def _unsup(*a, **k):
    raise Unsupported('bit operation on a symbolic double')


class DBits:
    """the bit pattern of a double that is not a concrete double"""
    __slots__ = ('v',)
    def __init__(self, v): self.v = v


class Blob:
    """bytes moved as one integer that is not one"""
    __slots__ = ('c',)
    def __init__(self, c): self.c = c


for _c in (DBits, Blob):
    for _n in ('add radd sub rsub mul rmul floordiv mod and rand or ror xor rxor lshift rlshift '
               'rshift rrshift lt le gt ge eq ne neg bool index int').split():
        setattr(_c, '__%s__' % _n, _unsup)
    _c.__hash__ = object.__hash__


class Obj:
    __slots__ = ('size', 'cells', 'alive', 'kind', 'name', 'mixed', 'const')

    def __init__(self, size, kind, name=''):
        self.size = size; self.cells = {}; self.alive = True; self.kind = kind; self.name = name
        self.mixed = False; self.const = False

    def copy(self):
        o = Obj(self.size, self.kind, self.name)
        o.cells = dict(self.cells); o.alive = self.alive; o.mixed = self.mixed; o.const = self.const
        return o


class RT:
    def __init__(self):
        self.objs = {}
        self.next_id = 1
        self.fn_by_addr = {}
        self.fn_names = {}
        self.ext = {}
        self.exc = {}           # exception object addr -> ti
        self.caught = []
        self.exc_dtor = {}
        self.rethrown = set()
        self.sym_addr = {}      # symbol -> addr (globals, functions)
        self.ti_name = {}       # typeinfo addr -> class name
        self.ti_base = {}       # class name -> base class name
        self.snapshot = None
        self.streams = {}
        self.vfs = {}
        self.tokens = {}
        self.deferred = None
        self.instr = 0
        self.fuel = 1 << 60
        self.epoch = 0
        self.depth = 0
        self.called = set()

    # ------------------------------------------------------------ objects
    def alloc(self, size, kind, name=''):
        i = self.next_id
        self.next_id = i + 1
        self.objs[i] = Obj(size, kind, name)
        return i << 32

    def alloca(self, size):
        i = self.next_id
        self.next_id = i + 1
        self.objs[i] = Obj(size, 'stack')
        return i << 32

    def kill(self, addrs):
        for a in addrs:
            o = self.objs[a >> 32]
            o.alive = False
            o.cells = {}

    def take_snapshot(self):
        self.snapshot = ({i: o.copy() for i, o in self.objs.items()}, self.next_id)

    def reset(self):
        objs, self.next_id = self.snapshot
        self.objs.clear()
        for i, o in objs.items():
            self.objs[i] = o if o.kind in ('fn', 'const') else o.copy()
        self.exc = {}
        self.caught = []
        self.exc_dtor = {}
        self.rethrown = set()
        self.streams = {}
        self.vfs = {}
        self.tokens = {}
        self.deferred = None
        self.epoch += 1
        self.instr = 0
        self.depth = 0

    def where(self, addr):
        o = self.objs.get(addr >> 32)
        if o is None:
            return 'address %#x' % addr
        off = addr & M32
        if off >= 1 << 31:
            off -= 1 << 32
        return 'offset %d of a %s object of %d bytes%s%s' % (off, o.kind, o.size, ' (%s)' % o.name if o.name else '', '' if o.alive else ', already freed')

    def obj(self, addr, n, what):
        if type(addr) is not int:
            if addr is UNDEF:
                _bad()
            raise Unsupported('address is not an integer')
        o = self.objs.get(addr >> 32)
        off = addr & M32
        if o is None or not o.alive or off + n > o.size or o.kind == 'fn':
            if o is None and addr < 4096:
                raise MemViolation('memory', 'null pointer %s' % what)
            raise MemViolation('memory', 'invalid %s of %d bytes at %s' % (what, n, self.where(addr)))
        return o, off

    # ------------------------------------------------------------ loads
    def slow_load(self, addr, code):
        n = SZ[code]
        o, off = self.obj(addr, n, 'read')
        cells = o.cells
        c = cells.get(off)
        if c is not None and SZ[c[0]] == n:
            k, v = c
            if k == code:
                return v
            return convert(k, v, code)
        parts = self.collect(o, off, n)
        if not parts:
            return UNDEF
        # all bytes concrete?
        if sum(SZ[k] for _, k, _ in parts) == n and all(type(v) is int and k not in ('d', 'f', 'x') for _, k, v in parts):
            x = 0
            for r, k, v in parts:
                x |= v << (8 * r)
            return x if code not in ('d', 'f', 'x') else convert(n, x, code)
        if code in ('d', 'f', 'x') or n < 8:
            if any(v is UNDEF for _, _, v in parts) or sum(SZ[k] for _, k, _ in parts) < n:
                return UNDEF
            raise Unsupported('double read from pieces')
        if all(v is UNDEF for _, _, v in parts):
            return UNDEF
        return Blob(parts)

    def collect(self, o, off, n):
        """cells covering [off, off+n) as (relative offset, code, value); partial ones split into bytes"""
        cells = o.cells
        out = []
        if o.mixed:
            i = off - 15
        else:
            i = off - (off % 8)
        end = off + n
        while i < end:
            c = cells.get(i)
            if c is None:
                i += 1
                continue
            s = SZ[c[0]]
            if i + s <= off:
                i += 1
                continue
            if i >= off and i + s <= end:
                out.append((i - off, c[0], c[1]))
            else:
                for b in range(s):
                    if off <= i + b < end:
                        out.append((i + b - off, 1, self.byte(c, b)))
            i += s
        return out

    def byte(self, c, b):
        k, v = c
        if v is UNDEF:
            return UNDEF
        if k in ('d', 'f', 'x'):
            if k == 'd':
                v = dom.to_bits(v)
                if v is None:
                    raise Unsupported('byte of a symbolic double')
            else:
                raise Unsupported('byte of a float')
        if type(v) is not int:
            raise Unsupported('byte of a symbolic value')
        return (v >> (8 * b)) & 255

    # ------------------------------------------------------------ stores
    def store(self, addr, code, val):
        if type(addr) is not int:
            self.obj(addr, 1, 'write')
        o = self.objs.get(addr >> 32)
        off = addr & M32
        n = SZ[code]
        if o is None or not o.alive or o.const or o.kind == 'fn' or off + n > o.size:
            if o is not None and o.alive and o.const:
                raise MemViolation('memory', 'write to constant data')
            self.obj(addr, n, 'write')
        if type(val) is DBits:
            code, val = 'd', val.v
        elif type(val) is Blob:
            self.clear(o, off, n)
            o.mixed = True
            for r, k, v in val.c:
                o.cells[off + r] = (k, v)
            return
        cells = o.cells
        c = cells.get(off)
        if c is not None and SZ[c[0]] == n:
            cells[off] = (code, val)
            return
        if n == 8 and not off & 7 and not o.mixed:
            cells[off] = (code, val)
            return
        o.mixed = True
        self.clear(o, off, n)
        cells[off] = (code, val)

    def clear(self, o, off, n):
        cells = o.cells
        end = off + n
        for i in range(max(0, off - 15), end):
            c = cells.get(i)
            if c is None:
                continue
            s = SZ[c[0]]
            if i + s <= off:
                continue
            del cells[i]
            if i < off or i + s > end:
                o.mixed = True
                for b in range(s):
                    if not off <= i + b < end:
                        cells[i + b] = (1, self.byte(c, b))

    def memcpy(self, dst, src, n):
        if type(n) is not int:
            _bad() if n is UNDEF else _unsup()
        if n == 0:
            return
        so, soff = self.obj(src, n, 'read')
        do, doff = self.obj(dst, n, 'write')
        if do.const:
            raise MemViolation('memory', 'write to constant data')
        H.cur and self.spend(n >> 3)
        parts = self.collect(so, soff, n)
        if (doff & 7) or (n & 7) or so.mixed or do.mixed or (soff & 7):
            do.mixed = True
            self.clear(do, doff, n)
        else:
            for i in range(doff, doff + n, 8):
                do.cells.pop(i, None)
        for r, k, v in parts:
            do.cells[doff + r] = (k, v)

    def memset(self, dst, b, n):
        if type(n) is not int:
            _bad() if n is UNDEF else _unsup()
        if n == 0:
            return
        o, off = self.obj(dst, n, 'write')
        self.spend(n >> 3)
        b &= 255
        i = off
        end = off + n
        w8 = int.from_bytes(bytes([b]) * 8, 'little')
        if (off | n) & 7:
            o.mixed = True
        if o.mixed:
            self.clear(o, off, n)
        while i < end:
            if i % 8 == 0 and i + 8 <= end:
                o.cells[i] = (8, w8)
                i += 8
            else:
                o.cells[i] = (1, b)
                i += 1

    def spend(self, n):
        self.fuel -= n
        if self.fuel < 0:
            raise MemViolation('no-termination', 'step budget exhausted')

    def read_bytes(self, addr, n):
        return bytes(self.slow_load(addr + i, 1) for i in range(n))

    def write_bytes(self, addr, bs):
        for i, b in enumerate(bs):
            self.store(addr + i, 1, b)

    def cstr(self, addr):
        out = bytearray()
        while True:
            b = self.slow_load(addr + len(out), 1)
            if b is UNDEF:
                _bad()
            if b == 0:
                return bytes(out)
            out.append(b)

    # ------------------------------------------------------------ heap
    def new(self, n, kind='new'):
        if type(n) is not int:
            _bad() if n is UNDEF else _unsup()
        if n > 1 << 31:
            self.throw_std('St9bad_alloc', '')
        return self.alloc(n, kind)

    def delete(self, p, kind='new'):
        if type(p) is not int:
            _bad() if p is UNDEF else _unsup()
        if p == 0:
            return
        o = self.objs.get(p >> 32)
        if o is None or p & M32 or o.kind != kind:
            raise MemViolation('memory', 'invalid free of %s' % self.where(p))
        if not o.alive:
            raise MemViolation('memory', 'double free')
        o.alive = False
        o.cells = {}

    def open_files(self):
        return len({id(s) for s in self.streams.values() if s.file and s.open})

    # ------------------------------------------------------------ exceptions
    def throw_std(self, cls, msg):
        """throw a standard library exception of mangled class cls"""
        a = self.alloc(64, 'exc', msg)
        self.store(a, 8, 0)
        raise CxxExc(a, self.std_ti(cls))

    def function(self, name):
        """address of an external function"""
        a = self.sym_addr.get(name)
        if a is None:
            a = self.alloc(1, 'fn', name)
            self.sym_addr[name] = a
            self.fn_names[a] = name
            if self.snapshot is not None:
                self.snapshot[0][a >> 32] = self.objs[a >> 32]
                self.snapshot = (self.snapshot[0], max(self.snapshot[1], self.next_id))
        return a

    def std_ti(self, cls):
        return self.sym('_ZTI' + cls)

    def sym(self, name):
        a = self.sym_addr.get(name)
        if a is None:
            a = self.alloc(256, 'ext', name)
            self.sym_addr[name] = a
            if name.startswith('_ZTI'):
                self.ti_name[a] = name[4:]
            if self.snapshot is not None:
                self.snapshot[0][a >> 32] = self.objs[a >> 32]
                self.snapshot = (self.snapshot[0], max(self.snapshot[1], self.next_id))
        return a

    def chain(self, ti):
        """class names from ti up its bases"""
        n = self.ti_name.get(ti)
        out = []
        while n:
            out.append(n)
            n = self.ti_base.get(n, STD_BASE.get(n))
        return out

    def lpad(self, exc, catches, cleanup):
        names = self.chain(exc.ti)
        for c in catches:
            if c == 0:
                return (exc.addr, self.typeid(0))
            if self.ti_name.get(c) in names:
                return (exc.addr, self.typeid(c))
        if cleanup:
            return (exc.addr, 0)
        raise exc

    def typeid(self, ti):
        # by class name, so that the modules' copies agree
        if ti == 0:
            return 1
        n = self.ti_name.get(ti)
        i = TYPEIDS.get(n)
        if i is None:
            i = TYPEIDS[n] = len(TYPEIDS) + 2
        return i

    def resume(self, agg):
        a = agg[0]
        raise CxxExc(a, self.exc[a])


TYPEIDS = {}
STD_BASE = {
    'St12out_of_range': 'St11logic_error', 'St12length_error': 'St11logic_error', 'St16invalid_argument': 'St11logic_error',
    'St12domain_error': 'St11logic_error', 'St11logic_error': 'St9exception', 'St13runtime_error': 'St9exception',
    'St11range_error': 'St13runtime_error', 'St14overflow_error': 'St13runtime_error', 'St15underflow_error': 'St13runtime_error',
    'St9bad_alloc': 'St9exception', 'St20bad_array_new_length': 'St9bad_alloc', 'St17bad_function_call': 'St9exception',
    'St8bad_cast': 'St9exception', 'St10bad_typeid': 'St9exception',
    'NSt8ios_base7failureB5cxx11E': 'St13runtime_error',
}


def convert(k, v, code):
    """value of a cell of kind k read as kind code of the same size"""
    if v is UNDEF:
        return v
    if k == 'd' and code == 8:
        b = dom.to_bits(v)
        return DBits(v) if b is None else b
    if k == 8 and code == 'd':
        if type(v) is DBits:
            return v.v
        if type(v) is not int:
            raise Unsupported('double read from pieces')
        return dom.from_bits(v)
    if code == 'f' and k == 4:
        import struct
        return dom.from_float(struct.unpack('<f', struct.pack('<I', v))[0])
    if code == 4 and k == 'f':
        import struct
        if type(v) is R:
            raise Unsupported('bits of a symbolic float')
        return struct.unpack('<I', struct.pack('<f', float(v)))[0]
    if k == 16 and code == 'x':
        if v == 0: return 0
    if k == 1 and code == 'b':
        return v & 1
    if k == 'b' and code == 1:
        return v
    raise Unsupported('cell conversion %s -> %s' % (k, code))


def sx(v, n):
    """signed value of an n-bit pattern"""
    return v - (1 << n) if v >> (n - 1) else v
