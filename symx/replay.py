"""Runs scenarios on the real package with concrete inputs.  Executed by the interpreter the package
is built for:  replay.py PKGDIR PLAINDIR SCENMODULE JOBS.json  ->  one JSON line per job."""
import sys, os, subprocess, json, math, gc, shutil, tempfile
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOL = 1e-9


class Failed(Exception):
    pass


class Skip(Exception):
    pass


class RealCtx:
    symbolic = False
    NAN = float('nan')

    def __init__(self, job, tier, scratch):
        self.job = job; self.tier = tier; self.scratch = scratch
        self.values = job['inputs']
        self.choices = job['choices']
        self.observed = []
        self.nfiles = 0
        self.texts = {}
        self.floor = 1.0

    def real(self, name):
        return float(Fraction(self.values.get(name, '0')))

    def rounding(self):
        pass

    def box(self, name, mid, rad):
        return mid + rad * self.real(name)

    def near(self, a, b, tol, label):
        if isinstance(a, (list, tuple)):
            if not isinstance(b, (list, tuple)) or len(a) != len(b):
                raise Failed('%s: shape %r %r' % (label, a, b))
            for i, (x, y) in enumerate(zip(a, b)):
                self.near(x, y, tol, '%s[%d]' % (label, i))
        elif not (abs(a - b) <= tol or a != a and b != b or a == b):
            raise Failed('%s: %r %r' % (label, a, b))

    def choose(self, n, name):
        return self.choices.get(name, 0)

    def const(self, x):
        return float(x)

    def array(self, values):
        import numpy
        return numpy.array(values, dtype=float)

    def unit(self, u):
        self.floor = u

    def scalar(self, v):
        import numpy
        return numpy.float64(v)

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, label):
        if not c:
            raise Failed(label)

    def eq(self, a, b, label):
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
                raise Failed('%s: shape %r %r' % (label, a, b))
            for i, (x, y) in enumerate(zip(a, b)):
                self.eq(x, y, '%s[%d]' % (label, i))
            return
        if isinstance(a, (float, int)) and isinstance(b, (float, int)) and not isinstance(a, bool):
            if a != a or b != b:
                if not (a != a and b != b):
                    raise Failed('%s: %r %r' % (label, a, b))
                return
            if a == b:
                return
            if not abs(a - b) <= TOL * max(self.floor, abs(a), abs(b)):
                raise Failed('%s: %r %r' % (label, a, b))
            return
        if not a == b:
            raise Failed('%s: %r %r' % (label, a, b))

    def exact(self, a, b, label):
        """no rounding involved"""
        if isinstance(a, (list, tuple)):
            if not isinstance(b, (list, tuple)) or len(a) != len(b):
                raise Failed('%s: shape %r %r' % (label, a, b))
            for i, (x, y) in enumerate(zip(a, b)):
                self.exact(x, y, '%s[%d]' % (label, i))
            return
        if not (a == b or (a != a and b != b)):
            raise Failed('%s: %r %r' % (label, a, b))

    def rel(self, a, b, label):
        """equal up to relative rounding, however small"""
        if not abs(a - b) <= TOL * abs(b):
            raise Failed('%s: %r %r' % (label, a, b))

    def le(self, a, b, label):
        if not a <= b + TOL * max(self.floor, abs(a), abs(b)):
            raise Failed('%s: %r %r' % (label, a, b))

    def lt(self, a, b, label):
        if not a < b:
            raise Failed('%s: %r %r' % (label, a, b))

    def any(self, cs): return any(list(cs))
    def all(self, cs): return all(list(cs))
    def not_(self, c): return not c

    def eqc(self, a, b):
        return a == b or abs(a - b) <= TOL * max(self.floor, abs(a), abs(b))

    def fail(self, label):
        raise Failed(label)

    def isnan(self, x): return x != x
    def abs(self, x): return abs(x)
    def exp(self, x): return math.exp(x)

    def div(self, a, b):
        if b == 0:
            return float('nan') if a == 0 or a != a else math.copysign(float('inf'), a)
        return a / b

    def sure(self, c): return bool(c)
    def observe(self, label, value): self.observed.append((label, value))

    def in_world(self, name, fn, args):
        """fn run by another process that imports the package built in that context"""
        if name == 'sandbox':
            return fn(self, *args)
        pkg = os.path.join(os.path.dirname(sys.argv[1]), 'native-' + name)
        if not os.path.isdir(pkg):
            sys.exit('no build for context ' + name)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), '--call', pkg, fn.__module__, fn.__name__],
                           input=json.dumps(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
        if p.returncode:
            raise Exception('context %s: %s' % (name, p.stderr[-500:]))
        return json.loads(p.stdout)

    @property
    def pkg(self):
        import sacf
        return sacf

    @property
    def SACF(self): return self.pkg.SACF

    @property
    def DataStructure(self):
        from sacf.datastructure import DataStructure
        return DataStructure

    @property
    def Correlator(self):
        from sacf.correlator import Correlator
        return Correlator

    @property
    def CorrelationIterator(self):
        from sacf.correlator import CorrelationIterator
        return CorrelationIterator

    @property
    def ds_module(self):
        import sacf.datastructure
        return sacf.datastructure

    def number(self, name, form='plain'):
        v = self.real(name)
        lim = {'plain': v >= 0, 'plus': v >= 0, 'frac': v >= 0, 'exp': v >= 0, 'dot': 0 <= v < 1}.get(form, v < 0)
        self.assume(lim)
        if form in ('exp', 'nexp'):
            t = '%.17e' % v
            if form == 'nexp': t = t.replace('e', 'E')
        elif form == 'dot':
            t = ('%.60f' % v)[1:]
        elif form in ('frac', 'negfrac'):
            t = '%.40f' % v
        else:
            t = '%.40f' % v
            t = t.rstrip('0').rstrip('.')
        if form == 'plus':
            t = '+' + t
        if form in ('neg', 'negfrac', 'nexp') and not t.startswith('-'):
            raise Skip()
        return t, float(t)

    def file(self, text):
        self.nfiles += 1
        n = os.path.join(self.scratch, 'file%d.dat' % self.nfiles)
        with open(n, 'w', newline='') as f:
            f.write(text)
        return n

    def broken_file(self, text, upto):
        """a file that can be read up to a byte only (stub/eio.c)"""
        self.nfiles += 1
        n = os.path.join(self.scratch, 'file%d.dat.eio-%d' % (self.nfiles, upto))
        with open(n, 'w', newline='') as f:
            f.write(text)
        return n

    def directory(self):
        return self.scratch

    def missing_file(self):
        return os.path.join(self.scratch, 'absent.dat')

    def held(self):
        """[bytes, open files] the native code holds (stub/held.c)"""
        import ctypes
        lib = ctypes.CDLL(None)
        try:
            lib.held_bytes.restype = ctypes.c_long
        except AttributeError:
            return [0, 0]
        if not RealCtx.watched:
            RealCtx.watched = True
            for l in open('/proc/self/maps'):
                f = l.split()
                if len(f) > 5 and f[1][2] == 'x' and f[5].startswith(os.path.realpath(sys.argv[1]) + '/'):
                    a, b = f[0].split('-')
                    lib.held_watch(ctypes.c_void_p(int(a, 16)), ctypes.c_void_p(int(b, 16)))
        return [lib.held_bytes(), len([f for f in os.listdir('/proc/self/fd') if os.path.exists('/proc/self/fd/' + f)])]

    watched = False

    def collect(self):
        for _ in range(3):
            gc.collect()


def call(pkg, module, name):
    sys.path.insert(0, HERE)
    sys.path.insert(0, pkg)
    import importlib
    fn = getattr(importlib.import_module(module), name)
    r = fn(RealCtx(dict(inputs={}, choices={}), '', None), *json.load(sys.stdin))
    sys.stdout.write(json.dumps(r))
    sys.stdout.flush()
    os._exit(0)


def main():
    if sys.argv[1] == '--call':
        call(*sys.argv[2:5])
    pkg, scen, jobs = sys.argv[1:4]
    sys.path.insert(0, HERE)
    sys.path.insert(0, pkg)
    import importlib
    mod = importlib.import_module('scen.' + scen)
    tier = os.environ.get('VERIF_TIER', 'quick')
    table = {s[0]: s for s in mod.scenarios(tier)}
    for job in json.load(open(jobs)):
        scratch = tempfile.mkdtemp(prefix='sacf-replay-')
        ctx = RealCtx(job, tier, scratch)
        r = {}
        try:
            name, fn, kw = table[job['scen']][:3]
            fn(ctx, **kw)
            r['status'] = 'ok'
            r['observed'] = [[l, floats(v)] for l, v in ctx.observed]
        except Failed as e:
            r['status'] = 'failed'
            r['detail'] = str(e)
        except Skip:
            r['status'] = 'skip'
        except BaseException as e:
            r['status'] = 'exception'
            r['detail'] = '%s: %s' % (type(e).__name__, e)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print(json.dumps(r))
        sys.stdout.flush()
    sys.stdout.flush()
    os._exit(0)


def floats(v):
    if isinstance(v, (list, tuple)):
        return [floats(x) for x in v]
    return repr(float(v)) if isinstance(v, (int, float)) else None


if __name__ == '__main__':
    main()
