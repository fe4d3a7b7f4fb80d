"""C35: computations in two threads."""
import ast, os, sys, threading
from .lib import *

BOUNDS = {'quick': 'two threads, either one first, every schedule with one preemption (two where both compute natively) at any statement of the package; one lag in each thread or a grid that passes zero, from one estimator or two, every kind of '
                   'pair of options and parameters, estimators built, correlators set up and stepped; n = 3, real lags and a real value',
          'thorough': 'two preemptions (three where both compute natively)'}
ASSUMES = ['a thread is interrupted between statements of Python; calls into the extension modules are not (the bindings keep the interpreter lock)', 'the preemptions are at statements of the package']


class Over(BaseException):
    pass


def package(f):
    return f.endswith('.py') and os.path.basename(os.path.dirname(f)) == 'sacf'


LINES = {}


def stops(f):
    """lines of a file at which a thread may be interrupted -> whether each time, or the first time only (interpreters differ in how often they come back to a statement over several lines)"""
    if f not in LINES:
        d = LINES[f] = {}
        for s in ast.walk(ast.parse(open(f).read())):
            if isinstance(s, ast.stmt) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                end = s.test.end_lineno if isinstance(s, ast.If) else s.end_lineno
                d[s.lineno] = end == s.lineno and d.get(s.lineno, True)
    return LINES[f]


RUN = threading.local()
TOOL = []


def watch():
    """LINE events for the package alone, wherever the interpreter can do that; a trace function otherwise"""
    if TOOL or not hasattr(sys, 'monitoring'):
        return
    M = sys.monitoring

    def line(code, at):
        if not package(code.co_filename):
            return M.DISABLE
        f = getattr(RUN, 'at', None)
        if f is not None:
            f(code.co_filename, at)
    M.use_tool_id(4, 'threads')
    M.register_callback(4, M.events.LINE, line)
    M.set_events(4, M.events.LINE)
    TOOL.append(line)


def together(ctx, works, switches):
    """the works, each in a thread of its own, one running at a time; at each statement the package executes the schedule may go over to the other"""
    n = len(works)
    turn = [threading.Semaphore(0) for _ in works]
    main = threading.Semaphore(0)
    done = [False] * n
    out = [None] * n
    errors = []
    left = [switches]
    over = [False]
    watch()

    def stop_at(me):
        hits = {}

        def at(f, line):
            if not left[0] or over[0] or done[1 - me]:
                return
            every = stops(f).get(line)
            if every is None:
                return
            n = hits[line] = hits.get(line, 0) + 1
            if n > 1 and not every:
                return
            if ctx.choose(2, 'thread %d stops at %s %d time %d' % (me, os.path.basename(f), line, n)):
                left[0] -= 1
                turn[1 - me].release()
                turn[me].acquire()
                if over[0]:
                    raise Over()
        return at

    def tracer(at):
        def local(frame, event, arg):
            if event == 'line':
                at(frame.f_code.co_filename, frame.f_lineno)
            return local
        return lambda frame, event, arg: local if package(frame.f_code.co_filename) else None

    def body(me):
        turn[me].acquire()
        try:
            if not over[0]:
                RUN.at = stop_at(me)
                if not TOOL:
                    sys.settrace(tracer(RUN.at))
                try:
                    out[me] = works[me]()
                finally:
                    RUN.at = None
                    if not TOOL:
                        sys.settrace(None)
        except Over:
            pass
        except BaseException as e:
            errors.append(e)
            over[0] = True
        done[me] = True
        rest = [i for i in range(n) if not done[i]]
        (turn[rest[0]] if rest else main).release()

    old = threading.stack_size(64 << 20)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    threading.stack_size(old)
    turn[ctx.choose(2, 'which starts')].release()
    main.acquire()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    return out


def result(r):
    lags, C = r[:2]
    return [list(lags), [list(c) for c in flat(C)]]


def data(ctx, m, name='x'):
    t = [ctx.const(v) for v in (0, 1, 2.5)]
    xs = [[ctx.const((i * 3 + j * 2 + i * i) % 7) for i in range(3)] for j in range(m)]
    xs[0][1] = ctx.real(name)
    not_constant(ctx, xs[0])
    return t, (xs if m > 1 else xs[0])


FIXED = {'native': ({}, 0.5), 'natural': (dict(selection_function='natural', weight_function='gaussian'), 0.75), 'fast': (dict(selection_function='fast', weight_function='fractional'), -0.25),
         'wide': (dict(alpha=3.0), 1.0)}


def call(ctx, s, kind, k, corr=False):
    kw, _ = FIXED[kind]
    return lambda: result(s.autocorrelation(min_lag=k, max_lag=k, lag_resolution=1, return_correlator=corr, **kw))


def pair(ctx, a, b, shared, m=1, switches=2, corr=False):
    """two computations at a time, on one estimator or two"""
    t, x = data(ctx, m)
    s = ctx.SACF(list(t), x)
    r = s if shared else ctx.SACF([ctx.const(v) for v in (0, 0.5, 2, 2.25)], [ctx.const(v) for v in (4, 1, 3, 1)])
    k = ctx.real('k')
    ctx.assume(k > 0)
    ctx.assume(k < 1)
    works = [call(ctx, s, a, k, corr), call(ctx, r, b, FIXED[b][1], corr)]
    alone = [w() for w in works]
    got = together(ctx, works, switches)
    for g, w in zip(got, alone):
        ctx.eq(g, w, 'result in a thread')
    ctx.eq([w() for w in works], alone, 'results afterwards')
    ctx.observe('r', alone)


def building(ctx, what, switches=2):
    """an estimator built while another computes"""
    t, x = data(ctx, 1)
    s = ctx.SACF(list(t), x)
    u, y = [ctx.const(v) for v in (0, 2, 3)], [ctx.const(v) for v in (4, 1, 3)]
    D = ctx.ds_module

    def build():
        if what == 'refused':
            try:
                ctx.SACF(list(u), y[:2])
            except D.BadDataInputException:
                return 'refused'
        e = [ctx.const(1)] * 3
        return result((ctx.SACF(list(u), list(y), e) if what == 'errors' else ctx.SACF(list(u), list(y))).autocorrelation(min_lag=0, max_lag=1, lag_resolution=1))
    k = ctx.real('k')
    ctx.assume(k >= 0)
    ctx.assume(k < 1)
    for works in ([build, call(ctx, s, 'natural', k)], ):
        alone = [w() for w in works]
        got = together(ctx, works, switches)
        for g, w in zip(got, alone):
            if w == 'refused':
                ctx.check(g == w, 'refused in a thread')
            else:
                ctx.eq(g, w, 'result in a thread')


def grids(ctx, a, b, shared, switches=1):
    """several lags, from below zero to above, with zero put in between"""
    t, x = data(ctx, 1)
    s = ctx.SACF(list(t), x)
    r = s if shared else ctx.SACF([ctx.const(v) for v in (0, 0.5, 2, 2.25)], [ctx.const(v) for v in (4, 1, 3, 1)])
    k = ctx.real('k')
    ctx.assume(k > -1)
    ctx.assume(k < 0)

    def walk(s, kind, lo, hi):
        return lambda: result(s.autocorrelation(min_lag=lo, max_lag=hi, lag_resolution=1, **FIXED[kind][0]))
    works = [walk(s, a, k, k + 1), walk(r, b, -0.5, 1)]
    alone = [w() for w in works]
    got = together(ctx, works, switches)
    for g, w in zip(got, alone):
        ctx.eq(g, w, 'result in a thread')


def correlators(ctx, switches=2):
    """correlators set up and walked through find_correlation by each thread"""
    t, x = data(ctx, 1)
    s = ctx.SACF(list(t), x)
    k = ctx.real('k')
    ctx.assume(k > 0)
    ctx.assume(k < 1)

    def walk(lag, alpha, sel, weight):
        def f():
            c = ctx.Correlator(s.data)
            s.set_up_correlation(c, min_lag=lag, max_lag=lag, lag_resolution=1, alpha=alpha)
            s.find_correlation(c, sel, weight)
            return [list(c.lag_timeseries()), [list(v) for v in c.correlations()], [c.min_lag, c.max_lag, c.alpha]]
        return f
    works = [walk(k, 2, 'natural', 'fractional_squared'), walk(-0.5, None, 'fast', 'gaussian')]
    alone = [w() for w in works]
    got = together(ctx, works, switches)
    for g, w in zip(got, alone):
        ctx.eq(g, w, 'result in a thread')


def scenarios(tier):
    big = tier != 'quick'
    n = 2 if big else 1
    out = []
    for i, a in enumerate(FIXED):
        for b in list(FIXED)[i:]:
            for shared in (True, False):
                light = a in ('native', 'wide') and b in ('native', 'wide')
                if shared or a == b or a == 'native':
                    out.append(('%s-%s-%s' % (a, b, 'one' if shared else 'two'), pair, dict(a=a, b=b, shared=shared, switches=n + 1 if light else n)))
    out += [('series', pair, dict(a='natural', b='fast', shared=True, m=2, switches=n)), ('series-native', pair, dict(a='native', b='natural', shared=False, m=2, switches=n)),
            ('returned', pair, dict(a='natural', b='native', shared=True, switches=n, corr=True)), ('correlators', correlators, dict(switches=n)),
            ('grids', grids, dict(a='natural', b='fast', shared=True)), ('grids-native', grids, dict(a='native', b='natural', shared=False))]
    out += [('building-' + w, building, dict(what=w, switches=n)) for w in ('plain', 'errors', 'refused')]
    return out
