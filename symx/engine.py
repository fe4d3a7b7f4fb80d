"""Exploration of a property's scenarios over all paths, in parallel; replay; evidence."""
import os, sys, time, json, importlib, multiprocessing as mp, subprocess, tempfile, shutil, traceback, random, signal
from fractions import Fraction
from . import dom, fp, core, build
from .dom import R, H, Unsupported, PathAbort
from .rt import MemViolation, CxxExc
from .core import Violation, Path, Cond, c_cmp, c_and, c_or, c_not
from .pyfront import World, SymFloat, SymBool, mkbool, cond, lift, load_package, CxxBase

VERIF = build.VERIF
FUEL = 5000000
SLICE = 0.4
LIMIT = 2 ** 40          # magnitude of input numbers


class SymCtx:
    """the scenario's view of the symbolic world"""
    symbolic = True

    def __init__(self, eng, path, tier):
        self.eng = eng; self.path = path; self.tier = tier
        self.inputs = {}
        self.choices = {}
        self.observed = []
        self.files = {}
        self.nfiles = 0
        self.tokens = {}
        self._mods = None
        self._get = None
        self.NAN = SymFloat(dom.NAN)

    # -- inputs
    def real(self, name):
        if name in self.inputs:
            raise Exception('input %s twice' % name)
        if H.round is not None:
            raise Exception('unbounded input in rounded arithmetic')
        v = dom.var(name)
        self.inputs[name] = v
        self.path.inputs[name] = v
        self.path.assume(c_cmp(v, LIMIT, 'le'))
        self.path.assume(c_cmp(-LIMIT, v, 'le'))
        return SymFloat(v)

    def rounding(self):
        """from here on doubles are rounded"""
        H.round = fp.Rounder(self.path)

    def box(self, name, mid, rad):
        """any number within rad of mid"""
        v = dom.var(name)
        self.inputs[name] = v
        self.path.inputs[name] = v
        self.path.assume(c_cmp(v, 1, 'le'))
        self.path.assume(c_cmp(-1, v, 'le'))
        return SymFloat(fp.add(lift(mid), fp.mul(lift(rad), v)))

    def near(self, a, b, tol, label):
        if isinstance(a, (list, tuple)):
            self.path.reached += 1
            if not isinstance(b, (list, tuple)) or len(a) != len(b):
                raise Violation(label + ': shape')
            for i, (x, y) in enumerate(zip(a, b)):
                self.near(x, y, tol, '%s[%d]' % (label, i))
            return
        a, b = lift(a), lift(b)
        if type(a) is float or type(b) is float:
            return self.eq(SymFloat(a), SymFloat(b), label)
        d = dom.sub(a, b)
        self.check(mkbool(c_and(c_cmp(d, lift(tol), 'le'), c_cmp(dom.neg(lift(tol)), d, 'le'))), label)

    def choose(self, n, name):
        if name in self.choices:
            raise Exception('choice %s twice' % name)
        k = self.path.choose(n, name)
        self.choices[name] = k
        return k

    def const(self, x):
        return SymFloat(lift(x))

    def array(self, values):
        """an array of numpy holding values (as Python objects)"""
        import numpy
        return numpy.array([[SymFloat(lift(x)) for x in v] if isinstance(v, (list, tuple)) else SymFloat(lift(v)) for v in values], dtype=object)

    def unit(self, u):
        """values in this run are of the order of u (where rounding is judged)"""

    def scalar(self, v):
        return SymFloat(lift(v))

    def assume(self, c):
        self.path.assume(cond(c))

    # -- assertions
    def check(self, c, label):
        self.path.reached += 1
        c = cond(c)
        if c is False:
            raise Violation(label)
        if c is not True:
            self.path.check(c, label)

    def eq(self, a, b, label):
        self.path.reached += 1
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
                raise Violation(label + ': shape')
            for i, (x, y) in enumerate(zip(a, b)):
                self.eq(x, y, '%s[%d]' % (label, i))
            return
        v, w = lift(a), lift(b)
        if v is None or w is None:
            if a != b:
                raise Violation(label)
            return
        if dom.isnan(v) or dom.isnan(w):
            if not (dom.isnan(v) and dom.isnan(w)):
                raise Violation(label)
            return
        c = c_cmp(v, w, 'eq')
        if c is False:
            raise Violation(label)
        if c is not True:
            self.path.check(c, label)

    exact = eq
    rel = eq

    def le(self, a, b, label):
        self.check(mkbool(c_cmp(lift(a), lift(b), 'le')), label)

    def lt(self, a, b, label):
        self.check(mkbool(c_cmp(lift(a), lift(b), 'lt')), label)

    def any(self, cs):
        return mkbool(c_or(*[cond(c) for c in cs]))

    def all(self, cs):
        return mkbool(c_and(*[cond(c) for c in cs]))

    def not_(self, c):
        return mkbool(c_not(cond(c)))

    def eqc(self, a, b):
        """equality as a condition"""
        return mkbool(c_cmp(lift(a), lift(b), 'eq'))

    def fail(self, label):
        raise Violation(label)

    def isnan(self, x):
        return dom.isnan(lift(x))

    def abs(self, x):
        return abs(x)

    def exp(self, x):
        return SymFloat(fp.exp(lift(x)))

    def div(self, a, b):
        return SymFloat(fp.div(lift(a), lift(b)))

    def sure(self, c):
        """c as a truth value (splits the path)"""
        return bool(c) if not isinstance(c, SymBool) else self.path.decide_cond(c.c)

    def observe(self, label, value):
        self.observed.append((label, value))

    # -- the package
    def load(self):
        if self._mods is None:
            self._mods, self._get = load_package(self.world, None, self.eng.reader)

    world_name = 'sandbox'

    @property
    def world(self):
        return self.eng.worlds[self.world_name]

    @property
    def pkg(self):
        self.load()
        return self._mods['sacf']

    @property
    def SACF(self): return self.pkg.SACF
    @property
    def DataStructure(self):
        self.load()
        return self._mods['sacf.datastructure'].DataStructure
    @property
    def Correlator(self):
        self.load()
        return self._mods['sacf.correlator'].Correlator
    @property
    def CorrelationIterator(self):
        self.load()
        return self._mods['sacf.correlator'].CorrelationIterator
    @property
    def ds_module(self):
        self.load()
        return self._mods['sacf.datastructure']

    def use_world(self, name):
        """switch to the package as built in another include context"""
        self.world_name = name
        self._mods = None
        if name not in self.eng.active:
            self.eng.worlds[name].rt.reset()
            self.eng.worlds[name].patients.clear()
            self.eng.worlds[name].rt.fuel = FUEL
            self.eng.active.add(name)

    def in_world(self, name, fn, args):
        """fn run with the package as built in the named context"""
        self.use_world(name)
        return fn(self, *args)

    # -- files
    def number(self, name, form='plain'):
        """a number written in a file: (text, value)"""
        i = len(self.tokens)
        v = self.real(name)
        digits = '7%04d1' % (i * 7 + 13)
        if form == 'plain':
            self.assume(v >= 0)
            txt = digits
        elif form == 'neg':
            self.assume(v < 0)
            txt = '-' + digits
        elif form == 'plus':
            self.assume(v >= 0)
            txt = '+' + digits
        elif form == 'frac':
            txt = digits[:2] + '.' + digits[2:]
            self.assume(v >= 0)
        elif form == 'negfrac':
            txt = '-' + digits[:2] + '.' + digits[2:]
            self.assume(v < 0)
        elif form == 'exp':
            txt = digits[:1] + '.' + digits[1:] + 'e+02'
            self.assume(v >= 0)
        elif form == 'dot':
            txt = '.' + digits
            self.assume(v >= 0)
            self.assume(v < 1)
        elif form == 'nexp':
            txt = '-' + digits[:1] + '.' + digits[1:] + 'E-03'
            self.assume(v < 0)
        else:
            raise Exception('form')
        self.tokens[txt] = v
        self.world.rt.tokens[txt.encode()] = v.v
        return txt, v

    def file(self, text):
        self.nfiles += 1
        n = '/vfs/file%d.dat' % self.nfiles
        self.files[n] = text
        self.world.rt.vfs[n.encode()] = text.encode()
        return n

    def broken_file(self, text, upto):
        """a file that can be read up to a byte only"""
        self.nfiles += 1
        n = '/vfs/file%d.dat.eio-%d' % (self.nfiles, upto)
        self.world.rt.vfs[n.encode()] = (text.encode()[:upto], len(text))
        return n

    def directory(self):
        self.world.rt.vfs[b'/vfs'] = (b'', 4096)
        return '/vfs'

    def missing_file(self):
        return '/vfs/absent.dat'

    def collect(self):
        pass

    def held(self):
        """[bytes, open files] the native code holds"""
        rt = self.world.rt
        live = [o for o in rt.objs.values() if o.alive]
        return [sum(max(o.size, 1) for o in live if o.kind in ('new', 'malloc')), rt.open_files()]


def endless(*a):
    raise MemViolation('no-termination', 'time budget of one path exhausted')


class Item:
    __slots__ = ('scen', 'prefix', 'model')


def pack_model(m):
    return {k: str(v) for k, v in m.items()}


class Engine:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.tier = tier; self.seed = seed
        self.mod = importlib.import_module('scen.' + prop.lower())
        self.scenarios = self.mod.scenarios(tier)
        self.worlds = {}
        self.active = set()
        self.pycode = {}
        self.tried = {}

    # ------------------------------------------------------------ set-up
    def prepare(self, repo, work):
        self.repo = repo
        self.work = work
        self.native = build.start_native(repo, os.path.join(work, 'native'))
        self.native_ready = False
        for c in getattr(self.mod, 'CONTEXTS', ()):
            if c != 'sandbox':
                self.native += build.start_native(repo, os.path.join(work, 'native-' + c), context=c)
        contexts = getattr(self.mod, 'CONTEXTS', ('sandbox',))
        self.load_s = time.time()
        for c in contexts:
            irs = build.ir(repo, os.path.join(work, 'ir-' + c), c)
            w = World()
            for n in build.MODULES:
                w.load(n, irs[n])
            w.finish()
            self.worlds[c] = w
        self.load_s = time.time() - self.load_s

    def reader(self, rel):
        c = self.pycode.get(rel)
        if c is None:
            p = os.path.join(self.repo, 'sacf', rel)
            if not os.path.exists(p):
                return None
            c = self.pycode[rel] = compile(open(p).read(), p, 'exec')
        return c

    # ------------------------------------------------------------ one path
    def run_path(self, si, prefix, model):
        name, fn, kw = self.scenarios[si][:3]
        dom.clear_atoms()
        steps = getattr(self.mod, 'PATH_STEPS', FUEL)        # a path longer than this is tried on the real build
        p = Path(self.lin, self.stats, prefix, model, fuel=steps * 3 // 5)
        H.cur = p
        H.round = None
        self.active = {'sandbox'}
        w0 = self.worlds['sandbox']
        w0.rt.reset()
        w0.patients.clear()
        w0.rt.fuel = steps
        ctx = self.ctx = SymCtx(self, p, self.tier)
        ev = None
        if steps != FUEL:
            signal.signal(signal.SIGALRM, endless)
            signal.alarm(60)                            # a loop that makes no steps the budget counts
        try:
            fn(ctx, **kw)
            for c in self.active:
                if self.worlds[c].rt.deferred is not None:
                    raise self.worlds[c].rt.deferred
        except PathAbort:
            H.cur = None
            return p, ctx, 'abort', None
        except Violation as e:
            ev = ('assert', e.label, e.detail)
            if e.label == 'no-termination':
                ev = ('hang', e.label, e.detail)
        except MemViolation as e:
            ev = ('hang' if e.kind == 'no-termination' else 'memory', e.kind, e.detail)
        except Unsupported as e:
            if H.round is None:
                raise
            ev = ('assert', 'accuracy: %s' % e, '')
        except RecursionError as e:
            ev = ('hang', 'recursion', str(e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            ev = ('exception', '%s: %s' % (type(e).__name__, e), str(tb[-1]) if tb else '')
        finally:
            if steps != FUEL:
                signal.alarm(0)
        # the path's references go before the path does
        return p, ctx, 'end', ev

    def work_item(self, item, deadline):
        """explore depth-first from item for a while; returns a summary"""
        si, prefix, model = item
        stack = [(prefix, model)]
        out = dict(paths=0, aborts=0, reached=0, fails=[], unknown=0, witnesses=[], soft=0, unsupported=None, conds=0, decisions=0, maxdec=0)
        t_end = min(time.time() + SLICE, deadline)
        while stack:
            prefix, model = stack.pop()
            try:
                p, ctx, st, ev = self.run_path(si, prefix, model)
                stack.extend(p.pending)
                if st == 'abort':
                    out['aborts'] += 1
                else:
                    self.finish_path(si, p, ctx, ev, out)
                H.round = None
            except Unsupported as e:
                H.round = None
                out['unsupported'] = '%s (in %s)' % (e, self.scenarios[si][0])
                self.outside(si, H.cur, e, out)
                if os.environ.get('SYMX_DEBUG'):
                    traceback.print_exc()
                H.cur = None
                break
            finally:
                H.cur = None
            if out['fails'] or time.time() > t_end:
                break
        out['pending'] = [(si, pf, m) for pf, m in stack]
        return out

    def outside(self, si, p, e, out):
        """a path that leaves the encodable part: inputs taking it so far are tried on the real build"""
        if p is None or self.tried.get(si, 0) >= 2:
            return
        self.tried[si] = self.tried.get(si, 0) + 1
        try:
            models = p.path_models()
        except Unsupported:
            return
        if models:
            out['fails'].append(dict(scen=self.scenarios[si][0], choices=self.ctx.choices, soft=True, outside=True, kind='assert', label='not encoded: %s' % e, detail='',
                                     models=[self.inputs(self.ctx, m) for m in models]))

    def finish_path(self, si, p, ctx, ev, out):
        out['paths'] += 1
        out['reached'] += p.reached
        out['conds'] += len(p.checks)
        out['decisions'] += len(p.trace)
        out['maxdec'] = max(out['maxdec'], len(p.trace))
        base = dict(scen=self.scenarios[si][0], choices=ctx.choices)
        if H.round is not None or any(A.kind not in ('var', 'inv') for A in dom.ATOMS.values()):
            base['soft'] = True         # enclosures or uninterpreted functions: a counterexample may be an artefact
        fails, unknown = p.discharge()
        for label, models in fails:
            out['fails'].append(dict(base, kind='assert', label=label, detail='', models=[self.inputs(ctx, m) for m in models]))
        if unknown:
            out['unknown' if H.round is None else 'soft'] += 1
        if ev is not None:
            models = p.path_models()
            if models is None:
                return              # the path is infeasible
            out['fails'].append(dict(base, kind=ev[0], label=ev[1], detail=ev[2], models=[self.inputs(ctx, m) for m in models]))
            if not models:
                out['unknown'] += 1
        elif len(out['witnesses']) < 2 and not fails:
            m = p.witness()
            if m is not None:
                obs = []
                try:
                    cache = {}
                    for lab, v in ctx.observed if H.round is None else ():
                        obs.append((lab, ev_obs(v, m, cache)))
                except (OverflowError, ZeroDivisionError):
                    obs = []
                out['witnesses'].append(dict(base, models=[self.inputs(ctx, m)], observed=obs))

    def inputs(self, ctx, m):
        return {n: str(m.get(n, 0)) for n in ctx.inputs}


def ev_obs(v, m, cache):
    if isinstance(v, (list, tuple)):
        return [ev_obs(x, m, cache) for x in v]
    x = lift(v)
    if x is None:
        return None
    r = dom.evaluate(x, m, cache)
    return None if r is None else float(r)


# ---------------------------------------------------------------- worker processes
ENG = None


def worker(conn, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    sys.set_int_max_str_digits(0)
    ENG.stats = core.Stats()
    ENG.lin = core.LinSolver(ENG.stats)
    for w in ENG.worlds.values():
        w.rt.called.clear()
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            os._exit(0)
        if msg is None:
            conn.send((ENG.stats.d(), {c: sorted(w.rt.called) for c, w in ENG.worlds.items()}))
            conn.close()
            os._exit(0)
        item, deadline = msg
        try:
            out = ENG.work_item(item, deadline)
        except BaseException:
            out = dict(error=traceback.format_exc(), pending=[])
        conn.send(out)


GRACE = 90         # seconds a path may go on after the time for new ones is over


class Work:
    """unexplored path prefixes; the scenario worked on least so far comes first"""

    def __init__(self, n, seed):
        self.todo = {i: [(i, [], {})] for i in range(n)}
        self.given = [0] * n
        self.rnd = random.Random(seed)

    def __len__(self):
        return sum(len(l) for l in self.todo.values())

    def take(self):
        i = min((i for i, l in self.todo.items() if l), key=lambda i: (self.given[i], i))
        self.given[i] += 1
        l = self.todo[i]
        if len(l) > 1 and self.given[i] % 4 == 3:     # not only the deepest
            j = self.rnd.randrange(len(l))
            l[j], l[-1] = l[-1], l[j]
        return l.pop()

    def extend(self, i, l):
        self.todo[i].extend(l)

    def items(self):
        return [it for l in self.todo.values() for it in l]


def explore(eng, nproc, budget, on_fail):
    """run all scenarios; on_fail(fail) -> True stops (a confirmed violation)"""
    global ENG
    ENG = eng
    from multiprocessing.connection import wait
    tot = dict(paths=0, aborts=0, reached=0, unknown=0, soft=0, conds=0, decisions=0, maxdec=0, pending=0, scen={}, witnesses=[], unsupported=None, broken=None, late=[])
    work = Work(len(eng.scenarios), eng.seed)
    workers = []
    ctx = mp.get_context('fork')
    for i in range(nproc):
        a, b = ctx.Pipe()
        pr = ctx.Process(target=worker, args=(b, eng.seed), daemon=True)
        pr.start()
        b.close()
        workers.append([a, pr, None])
    deadline = time.time() + budget
    stop = None
    try:
        while True:
            for w in workers:
                if w[2] is None and work and time.time() < deadline and stop is None:
                    it = work.take()
                    w[0].send((it, deadline))
                    w[2] = it
            busy = [w for w in workers if w[2] is not None]
            if not busy:
                break
            for c in wait([w[0] for w in busy], timeout=5):
                w = next(x for x in workers if x[0] is c)
                try:
                    out = c.recv()
                except EOFError:
                    tot['broken'] = 'a worker process ended'
                    w[2] = None
                    stop = 'error'
                    workers.remove(w)
                    break
                it, w[2] = w[2], None
                if 'error' in out:
                    tot['broken'] = out['error']
                    stop = 'error'
                    continue
                s = tot['scen'].setdefault(eng.scenarios[it[0]][0], dict(paths=0, reached=0, unknown=0, soft=0, pending=0, unsupported=None))
                for k in ('paths', 'aborts', 'reached', 'unknown', 'soft', 'conds', 'decisions'):
                    tot[k] += out[k]
                    if k in s: s[k] += out[k]
                tot['maxdec'] = max(tot['maxdec'], out['maxdec'])
                if out['unsupported']:
                    tot['unsupported'] = tot['unsupported'] or out['unsupported']
                    s['unsupported'] = s['unsupported'] or out['unsupported']
                tot['witnesses'] += out['witnesses']
                if stop is None:
                    for f in out['fails']:
                        r = on_fail(f)
                        if r:
                            stop = r
                            break
                work.extend(it[0], out['pending'])
            if stop is not None or time.time() > deadline:
                if not [w for w in workers if w[2] is not None]:
                    break
                if time.time() > deadline + GRACE:
                    # paths that do not come to an end in time stay undecided
                    for w in [w for w in workers if w[2] is not None]:
                        w[1].kill()
                        workers.remove(w)
                        tot['late'].append(eng.scenarios[w[2][0]][0])
                        work.extend(w[2][0], [w[2]])
                    break
        tot['pending'] = len(work)
        for it in work.items():
            tot['scen'].setdefault(eng.scenarios[it[0]][0], dict(paths=0, reached=0, unknown=0, soft=0, pending=0, unsupported=None))['pending'] += 1
    finally:
        stats = core.Stats().d()
        called = {}
        for w in workers:
            try:
                w[0].send(None)
                if w[0].poll(30):
                    st, cl = w[0].recv()
                    for k, v in st.items(): stats[k] += v
                    for c, l in cl.items(): called.setdefault(c, set()).update(l)
            except (OSError, EOFError):
                pass
            if w[1].is_alive():
                w[1].join(2)
                if w[1].is_alive(): w[1].kill()
        tot['stats'] = stats
        tot['called'] = called
        tot['stop'] = stop
    return tot
