"""C31: memory and open files are given back."""
from .lib import *

SHIMS = ('held', 'eio')
BOUNDS = {'quick': 'each piece of work done 4 times over and the live bytes and open files of the native code compared: all option combinations and returned correlators on one object kept '
                   'and on objects dropped (n = 3, all times, data, lags, alpha real, up to 3 series, NaN, errors), one correlator computed, cleared and read, steps, refused inputs and names, '
                   'files read, missing, empty, failing at every byte; 40 series and 300 lags',
          'thorough': 'n = 4'}
ASSUMES = ['alpha and resolution > 0']

OPTIONS = [(s, w) for s in ('natural', 'fast') for w in ('fractional', 'fractional_squared', 'gaussian')]


def steady(ctx, work):
    """the native code holds no more after each repetition"""
    seen = []
    for i in range(4):
        work()
        ctx.collect()
        seen.append(ctx.held())
    for what, h in zip(('memory', 'open files'), zip(*seen)):
        ctx.check(not h[1] < h[2] < h[3], what + ' held grows with every repetition')


FIXED = [0, 1, 2.5, 3.25, 6]


def inputs(ctx, n, m, nan=(), errors=False, real=False):
    t = times(ctx, n) if real else [ctx.const(v) for v in FIXED[:n]]
    xs = [reals(ctx, n, 'x%d_' % j, nan) for j in range(m)]
    args = [t, xs if m > 1 else xs[0]]
    if errors:
        es = [reals(ctx, n, 'e%d_' % j) for j in range(m)]
        args.append(es if m > 1 else es[0])
    return args


def parameters(ctx, unit=False):
    lo, hi, a = (ctx.real(v) for v in ('lo', 'hi', 'alpha'))
    res = ctx.const(1.75) if unit else ctx.real('res')
    ctx.assume(res > 0)
    ctx.assume(a > 0)
    ctx.assume(hi - lo < 2 * res)
    return dict(min_lag=lo, max_lag=hi, lag_resolution=res, alpha=a)


def compute(ctx, n, m, kept, opts=OPTIONS, nan=(), errors=False, real=False):
    args = inputs(ctx, n, m, nan, errors, real)
    par = parameters(ctx, n > 2)
    sel, wt = opts[ctx.choose(len(opts), 'options')]
    ret = bool(ctx.choose(2, 'correlator returned'))
    s = ctx.SACF(*args) if kept else None

    def work():
        o = s if kept else ctx.SACF(*args)
        r = o.autocorrelation(selection_function=sel, weight_function=wt, return_correlator=ret, **par)
        ctx.check(len(r) == 2 + ret, 'result')
        if ret:
            r[2].lag_timeseries()
            r[2].values()

    steady(ctx, work)


def defaults(ctx, n, real=True):
    args = inputs(ctx, n, 1, real=real)
    s = ctx.SACF(*args)
    steady(ctx, lambda: s.autocorrelation())


def build(ctx, n, m, errors):
    args = inputs(ctx, n, m, (), errors)

    def work():
        d = ctx.DataStructure(*args)
        d.timeseries(), d.data(), d.errors(), d.normalised_timeseries(), d.normalised_data(), d.mean_data
        c = ctx.Correlator(d)
        c2 = ctx.Correlator(d)
        it = ctx.CorrelationIterator(ctx.const(1), m)

    steady(ctx, work)


def refused(ctx):
    """inputs, files and names that are not accepted"""
    t = times(ctx, 3)
    x = reals(ctx, 3, 'x')
    s = ctx.SACF(t, x)
    D = ctx.ds_module
    f = ctx.file('# nothing\n')
    calls = [lambda: ctx.SACF(t, x[:2]), lambda: ctx.SACF([], []), lambda: ctx.SACF(t, [x, x[:1]]), lambda: ctx.SACF(t, [x, x], [x, x[:2]]), lambda: ctx.SACF(t, x, x[:1]),
             lambda: ctx.SACF(t, []), lambda: ctx.SACF(t, x, [x, x]), lambda: ctx.SACF(t, 'abc'), lambda: ctx.SACF(t, ['a', 'b', 'c']), lambda: ctx.SACF(t),
             lambda: ctx.SACF(filename=ctx.missing_file()), lambda: ctx.SACF(filename=f),
             lambda: s.autocorrelation(weight_function='none'), lambda: s.autocorrelation(selection_function='none'),
             lambda: s.autocorrelation(alpha='wide'), lambda: s.autocorrelation(max_lag=[1]), lambda: s.data.data(1)]
    k = ctx.choose(len(calls), 'call')
    errors = (D.EmptyDataStructureException, D.BadDataInputException, D.BadDataFileReadException, TypeError, KeyError, ValueError)

    def work():
        try:
            calls[k]()
        except errors:
            pass

    steady(ctx, work)


def reused(ctx, n, m):
    """one correlator, computed again and again"""
    args = inputs(ctx, n, m)
    par = parameters(ctx)
    s = ctx.SACF(*args)
    c = ctx.Correlator(s.data)
    how = ctx.choose(4, 'how')

    def work():
        s.set_up_correlation(c, **par)
        if how != 1:
            c.calculateStandardCorrelation()
        if how in (1, 2):
            s.find_correlation(c, 'fast', 'gaussian')
        if how == 3:
            c.clearCorrelation()
        c.lag_timeseries(), c.correlations(), c.values(), c.normalised_timeseries()

    steady(ctx, work)


def steps(ctx, n, m):
    """iterators, dropped at every stage; the correlator kept"""
    args = inputs(ctx, n, m)
    k = ctx.real('k')
    d = ctx.DataStructure(*args)
    c = ctx.Correlator(d)
    far = ctx.choose(7, 'stage')
    fast = ctx.choose(2, 'selection')

    def work():
        it = ctx.CorrelationIterator(k, m)
        stages = [lambda: (c.fastSelectionFunctionIdx if fast else c.naturalSelectionFunctionIdx)(it), lambda: c.deltaT(it), lambda: c.getGaussianWeights(it), lambda: c.findCorrelation(it),
                  lambda: c.addCorrelationData(it, 5), lambda: c.cleanCorrelationData(2)]
        for f in stages[:far]:
            f()
        it.correlation, it.weights, it.delta_t, it.selection_indices, it.shifted_timeseries

    steady(ctx, work)


def reading(ctx, n, cols, fault):
    rows = [','.join(ctx.number('%s%d' % ('txe'[c], i), 'plain')[0] for c in range(cols)) for i in range(n)]
    s = '# title\n' + '\n'.join(rows) + '\n'
    name = ctx.broken_file(s, min(ctx.choose(len(s) + 1, 'from'), len(s))) if fault else ctx.file(s)
    via = ctx.choose(2, 'via')
    D = ctx.ds_module

    def work():
        try:
            o = ctx.SACF(filename=name) if via else ctx.DataStructure(name)
            ctx.check(not fault, 'file')
        except D.BadDataFileReadException:
            ctx.check(fault, 'bad-file error')

    steady(ctx, work)


def large(ctx, n, m, lags):
    t = [ctx.const(0.5 * i + (0.1 if i % 3 == 1 else 0)) for i in range(n)]
    xs = [[ctx.const((i * i + 3 * i + j) % 7) for i in range(n)] for j in range(m)]
    u = ctx.real('res')
    ctx.assume(u >= 1 / 16)
    ctx.assume(u <= 1 / 16)
    s = ctx.SACF(t, xs)
    native = ctx.choose(2, 'native')

    def work():
        s.autocorrelation(min_lag=0, max_lag=u * lags, lag_resolution=u, weight_function='fractional' if native else 'gaussian', return_correlator=True)

    steady(ctx, work)


def scenarios(tier):
    n = 3 if tier == 'quick' else 4
    out = []
    for kept in (False, True):
        k = 'kept' if kept else 'dropped'
        out += [('options-' + k, compute, dict(n=n, m=1, kept=kept)), ('two-series-' + k, compute, dict(n=2, m=2, kept=kept)),
                ('real-' + k, compute, dict(n=2, m=1, kept=kept, real=True)),
                ('nan-' + k, compute, dict(n=3, m=3, kept=kept, opts=OPTIONS[:1], nan=(1,), errors=True))]
    out += [('defaults', defaults, dict(n=n - 1)), ('defaults-fixed', defaults, dict(n=n, real=False)), ('refused', refused, {}), ('reused', reused, dict(n=n, m=1)), ('reused2', reused, dict(n=2, m=2)),
            ('steps', steps, dict(n=n, m=2)), ('file2', reading, dict(n=3, cols=2, fault=False)), ('file3', reading, dict(n=3, cols=3, fault=False)),
            ('fault2', reading, dict(n=3, cols=2, fault=True)), ('fault3', reading, dict(n=2, cols=3, fault=True)),
            ('many', large, dict(n=20, m=40, lags=20)), ('lags', large, dict(n=8, m=1, lags=300))]
    for m, e in ((1, False), (1, True), (2, False), (3, True)):
        out.append(('build%d%s' % (m, 'e' if e else ''), build, dict(n=n, m=m, errors=e)))
    return out
