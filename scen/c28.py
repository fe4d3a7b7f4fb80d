"""C28: reading changes nothing."""
from .lib import *

BOUNDS = {'quick': 'every ordered pair of readings of a data set and of a correlator (before and after computing, natively and by steps), the lists returned first emptied, '
                   'then all readings, a computation and all readings again; n = 3, 1 and 2 series, a real time, value, error, lag and alpha',
          'thorough': 'every ordered triple'}
ASSUMES = ['alpha > 0']

DS = [lambda d: d.timeseries(), lambda d: d.data(), lambda d: d.errors(), lambda d: d.normalised_timeseries(), lambda d: d.normalised_data(),
      lambda d: d.mean_data, lambda d: d.median_time, lambda d: d.max_time, lambda d: (d.N_datasets, d.M_datapoints)]
COR = [lambda c: c.lag_timeseries(), lambda c: c.correlations(), lambda c: c.normalised_timeseries(), lambda c: c.values(),
       lambda c: (c.min_lag, c.max_lag, c.lag_resolution), lambda c: c.alpha, lambda c: (c.N_datasets, c.M_datapoints),
       lambda c: c.fractionWeightFunction(2), lambda c: c.fractionSquaredWeightFunction(2), lambda c: c.gaussianWeightFunction(2)]


def spoil(v):
    """changes what was returned"""
    if isinstance(v, list):
        for x in v:
            spoil(x)
        v.reverse()
        v.append(99)
        del v[:]


def inputs(ctx, m):
    t = [ctx.real('t0'), 3, 4.5]
    ctx.assume(t[0] < 3)
    xs = [[ctx.real('x'), 1, 4], [2, 0, 5]][:m]
    es = [[ctx.real('e'), 1, 2], [3, 4, 0]][:m]
    not_constant(ctx, xs[0])
    return t, xs, es


def build(ctx, t, xs, es):
    return ctx.SACF(list(t), [list(x) for x in xs] if len(xs) > 1 else list(xs[0]), [list(e) for e in es] if len(es) > 1 else list(es[0]))


def compute(ctx, s, cor, how, a, k):
    cor.alpha = a
    cor.min_lag = k
    cor.max_lag = k + 2
    cor.lag_resolution = 1.5
    if how == 0:
        cor.calculateStandardCorrelation()
    else:
        s.find_correlation(cor, 'natural', 'fractional_squared')


def readings(ctx, m, count, how):
    t, xs, es = inputs(ctx, m)
    a = ctx.real('alpha')
    ctx.assume(a > 0)
    k = ctx.const(-1)
    s = build(ctx, t, xs, es)
    cor = ctx.Correlator(s.data)
    q = build(ctx, t, xs, es)
    ref = ctx.Correlator(q.data)
    z = build(ctx, t, xs, es)
    unread = ctx.Correlator(z.data)
    if how is not None:
        compute(ctx, z, unread, how, a, k)
        compute(ctx, s, cor, how, a, k)
        compute(ctx, q, ref, how, a, k)
    forms = [(f, s.data) for f in DS] + [(f, cor) for f in COR]
    for i in range(count):
        f, o = forms[ctx.choose(len(forms), 'reading%d' % i)]
        spoil(f(o))
    for part, have, want in ((DS, s.data, q.data), (COR, cor, ref)):
        for i, f in enumerate(part):
            v = f(have)
            w = f(want)
            ctx.exact(list(v) if isinstance(v, tuple) else v, list(w) if isinstance(w, tuple) else w, 'reading %d of the %s' % (i, 'data' if part is DS else 'correlator'))
    if how is None:
        for c in (cor, unread):
            c.min_lag = c.max_lag = -1      # the default range may hold very many lags
    for c in (cor, unread):
        c.calculateStandardCorrelation()
    ctx.exact(cor.lag_timeseries(), unread.lag_timeseries(), 'lags computed afterwards')
    ctx.exact(cor.correlations(), unread.correlations(), 'correlations computed afterwards')
    ctx.exact([cor.min_lag, cor.max_lag, cor.lag_resolution, cor.alpha], [unread.min_lag, unread.max_lag, unread.lag_resolution, unread.alpha], 'parameters afterwards')


def iterator(ctx, weight):
    """readings between the steps"""
    t, xs, es = inputs(ctx, 1)
    k = ctx.real('k')
    cor = ctx.Correlator(build(ctx, t, xs, es).data)

    def run(read):
        it = ctx.CorrelationIterator(k, 1)
        for step in ('naturalSelectionFunctionIdx', 'deltaT', weight, 'findCorrelation'):
            if read:
                for _ in range(2):
                    for f in ('correlation', 'shifted_timeseries', 'selection_indices', 'delta_t', 'weights', 'k'):
                        spoil(getattr(it, f))
                    for f in COR:
                        spoil(f(cor))
            getattr(cor, step)(it)
        return [list(it.correlation), list(it.weights), [int(i) for i in it.selection_indices], it.k]
    plain = run(False)
    ctx.exact(run(True), plain, 'steps with readings in between')


def result(ctx, m, how):
    """what autocorrelation returns is what its correlator reports, also after the returned lists were changed"""
    t, xs, es = inputs(ctx, m)
    k = ctx.real('k')
    opt = dict(native={}, steps=dict(weight_function='gaussian'), fast=dict(selection_function='fast'))[how]
    s = build(ctx, t, xs, es)
    kw = dict(min_lag=k, max_lag=k + 1, lag_resolution=1, **opt)
    lags, c, cor = s.autocorrelation(return_correlator=True, **kw)
    L, C = s.autocorrelation(**kw)
    ctx.exact(lags, L, 'lags with and without the correlator')
    ctx.exact(c, C, 'values with and without the correlator')
    ctx.exact(cor.lag_timeseries(), L, 'lags of the correlator')
    ctx.exact(cor.correlations(), C if m > 1 else [C], 'values of the correlator')
    spoil(lags)
    spoil(c)
    ctx.exact(cor.lag_timeseries(), L, 'lags of the correlator later')
    ctx.exact(cor.correlations(), C if m > 1 else [C], 'values of the correlator later')
    keep = list(L), [list(c) for c in C] if m > 1 else list(C)
    spoil(L)
    spoil(C)
    for more in (False, True):
        r = s.autocorrelation(return_correlator=more, **kw)
        ctx.exact(r[0], keep[0], 'lags of a later call')
        ctx.exact(r[1], keep[1], 'values of a later call')
        spoil(r[0])
        spoil(r[1])
    r = s.autocorrelation(**kw)
    ctx.exact(r[0], keep[0], 'lags of the last call')
    ctx.exact(r[1], keep[1], 'values of the last call')


def scenarios(tier):
    n = 3 if tier != 'quick' else 2
    out = [('pair-%d-%s' % (m, how), readings, dict(m=m, count=n, how=how)) for m, how in ((1, None), (1, 0), (2, 0), (2, 1))]
    out += [('iterator-' + w, iterator, dict(weight=w)) for w in ('getFractionWeights', 'getGaussianWeights')]
    out += [('result-%d-%s' % (m, h), result, dict(m=m, how=h)) for m in (1, 2) for h in ('native', 'steps', 'fast')]
    return out
