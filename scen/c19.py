"""C19: a correlator outlives everything it was made from."""
from .lib import *

BOUNDS = {'quick': 'n <= 3 with times, data and lag real, 1 and 2 series, made by Correlator(...) or returned by autocorrelation, data from lists or from a file, references dropped in every order before every use',
          'thorough': 'n <= 4'}
ASSUMES = ['data not constant']


def use(ctx, cor, t, xs, k):
    T = rel(t)
    ctx.eq(cor.normalised_timeseries(), T, 'stored times')
    ctx.exact(cor.values(), xs, 'stored values')
    ctx.check(cor.N_datasets == len(xs), 'series')
    ctx.check(cor.M_datapoints == len(t), 'samples')
    ctx.eq(cor.alpha, median(ctx, T), 'alpha')
    cor.min_lag = k
    cor.max_lag = k
    cor.lag_resolution = 1
    cor.calculateStandardCorrelation()
    lags = cor.lag_timeseries()
    C = cor.correlations()
    ctx.eq(lags[-1], k, 'lag')
    for x, c in zip(xs, C):
        one_of(ctx, c[-1], natural_estimates(ctx, T, centred(ctx, x), k, median(ctx, T)), 'recomputed')
    it = ctx.CorrelationIterator(k, len(xs))
    cor.fastSelectionFunctionIdx(it)
    cor.deltaT(it)
    cor.getGaussianWeights(it)
    cor.findCorrelation(it)
    cor.clearCorrelation()
    cor.addCorrelationData(it, 0)
    cor.cleanCorrelationData(1)
    for x, c in zip(xs, cor.correlations()):
        one_of(ctx, c[0], fast_estimates(ctx, T, centred(ctx, x), k, median(ctx, T), 'gaussian'), 'recomputed by steps')


def inputs(ctx, n, m):
    t = times(ctx, n)
    xs = [reals(ctx, n, 'x%d_' % j) for j in range(m)]
    for x in xs:
        not_constant(ctx, x)
    return t, xs, (list(t), list(xs[0]) if m == 1 else [list(x) for x in xs])


def direct(ctx, n, m):
    t, xs, a = inputs(ctx, n, m)
    k = ctx.real('k')
    ds = ctx.DataStructure(*a)
    cor = ctx.Correlator(ds)
    del ds
    del a
    ctx.collect()
    use(ctx, cor, t, xs, k)


def returned(ctx, n, m, path):
    t, xs, a = inputs(ctx, n, m)
    k = ctx.real('k')
    s = ctx.SACF(*a)
    opt = {} if path == 'native' else dict(weight_function='gaussian')
    r = s.autocorrelation(min_lag=0, max_lag=0, return_correlator=True, **opt)
    cor = r[2]
    first = ctx.choose(2, 'order')
    if first:
        del s
        ctx.collect()
        del a, r
    else:
        del r, a
        ctx.collect()
        del s
    ctx.collect()
    ctx.eq(cor.correlations(), [[1]] * m, 'results')
    use(ctx, cor, t, xs, k)


def several(ctx, n):
    """two correlators of one estimator; one goes, the other stays"""
    t, xs, a = inputs(ctx, n, 1)
    k = ctx.real('k')
    s = ctx.SACF(*a)
    c1 = s.autocorrelation(min_lag=0, max_lag=0, return_correlator=True)[2]
    c2 = s.autocorrelation(min_lag=0, max_lag=0, return_correlator=True)[2]
    del s
    del a
    ctx.collect()
    if ctx.choose(2, 'which'):
        c1, c2 = c2, c1
    del c2
    ctx.collect()
    use(ctx, c1, t, xs, k)


def replaced(ctx, n):
    """the estimator gets other data while the correlator lives"""
    t, xs, a = inputs(ctx, n, 1)
    k = ctx.real('k')
    s = ctx.SACF(*a)
    cor = s.autocorrelation(min_lag=0, max_lag=0, return_correlator=True)[2]
    s.data = ctx.DataStructure([ctx.const(0), ctx.const(1)], [ctx.const(5), ctx.const(7)])
    ctx.collect()
    s.autocorrelation()
    use(ctx, cor, t, xs, k)


def from_file(ctx):
    rows = []
    t, x = [], []
    for i in range(2):
        a, v = ctx.number('t%d' % i)
        b, w = ctx.number('x%d' % i)
        rows.append(a + ' ' + b)
        t.append(v)
        x.append(w)
    ctx.assume(t[0] < t[1])
    not_constant(ctx, x)
    k = ctx.real('k')
    s = ctx.SACF(filename=ctx.file('\n'.join(rows) + '\n'))
    cor = s.autocorrelation(min_lag=0, max_lag=0, return_correlator=True)[2]
    del s
    ctx.collect()
    use(ctx, cor, t, [x], k)


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for n in (2, 3, 4) if big else (2, 3):
        for m in (1, 2):
            out += [('direct-n%d-m%d' % (n, m), direct, dict(n=n, m=m)), ('returned-n%d-m%d' % (n, m), returned, dict(n=n, m=m, path='native'))]
        out += [('returned-python-n%d' % n, returned, dict(n=n, m=1, path='python'))]
    return out + [('several', several, dict(n=2)), ('replaced', replaced, dict(n=2)), ('file', from_file, dict())]
