"""C16: stored data and derived statistics."""
from .lib import *
from . import large
from . import rough

BOUNDS = {'quick': 'all times, data and errors real; 1 <= n <= 5, up to 3 series, with and without errors; a NaN anywhere among values and errors of n <= 4; n = 20 for 2 series with real data',
          'thorough': '1 <= n <= 8, up to 5 series; n = 60'}
ASSUMES = []


def stats(ctx, n, m, errors, flat, via='DataStructure', fixed=False):
    t = [ctx.const(v) for v in irregular(n)] if fixed else times(ctx, n)
    xs = [reals(ctx, n, 'x%d_' % j) for j in range(m)]
    es = [reals(ctx, n, 'e%d_' % j) for j in range(m)] if errors else []
    tin = list(t)
    xin = list(xs[0]) if flat else [list(x) for x in xs]
    ein = (list(es[0]) if flat else [list(e) for e in es]) if errors else None
    if via == 'SACF':
        ds = (ctx.SACF(tin, xin, ein) if errors else ctx.SACF(timeseries=tin, values=xin)).data
    else:
        ds = ctx.DataStructure(tin, xin, ein) if errors else ctx.DataStructure(tin, xin)
    for again in range(2):
        ctx.exact(ds.timeseries(), t, 'times')
        ctx.exact(ds.data(), xs, 'data')
        ctx.exact(ds.errors(), es, 'errors')
        ctx.eq(ds.normalised_timeseries(), rel(t), 'relative times')
        ctx.eq(ds.mean_data, [mean(ctx, x) for x in xs], 'means')
        ctx.eq(ds.normalised_data(), [centred(ctx, x) for x in xs], 'data relative to the mean')
        ctx.exact(ds.max_time, t[-1], 'last time')
        ctx.eq(ds.median_time, median(ctx, rel(t)), 'median of the relative times')
        ctx.check(ds.N_datasets == m, 'number of series')
        ctx.check(ds.M_datapoints == n, 'number of samples')
        cor = ctx.Correlator(ds)
        ctx.eq(cor.normalised_timeseries(), rel(t), 'relative times of the correlator')
        ctx.exact(cor.values(), xs, 'values of the correlator')
        ctx.check(cor.N_datasets == m, 'series of the correlator')
        ctx.check(cor.M_datapoints == n, 'samples of the correlator')
    ctx.observe('mean', ds.mean_data)
    ctx.observe('centred', ds.normalised_data())


def missing(ctx, n, m, flat, via):
    """NaN among the values and among the errors, at places of their own"""
    t = times(ctx, n)
    xs = [reals(ctx, n, 'x%d_' % j, nan=(ctx.choose(n, 'x nan %d' % j),)) for j in range(m)]
    es = [reals(ctx, n, 'e%d_' % j, nan=(ctx.choose(n, 'e nan %d' % j),)) for j in range(m)]
    X = list(xs[0]) if flat else [list(x) for x in xs]
    E = list(es[0]) if flat else [list(e) for e in es]
    ds = ctx.SACF(list(t), X, E).data if via == 'SACF' else ctx.DataStructure(list(t), X, E)
    ctx.exact(ds.timeseries(), t, 'times')
    ctx.exact(ds.data(), xs, 'data')
    ctx.exact(ds.errors(), es, 'errors')
    ctx.eq(ds.mean_data, [mean(ctx, x) for x in xs], 'means')
    ctx.eq(ds.normalised_data(), [centred(ctx, x) for x in xs], 'data relative to the mean')
    ctx.exact(ctx.Correlator(ds).values(), xs, 'values of the correlator')


def sparse(ctx, n):
    """a longer series, some values real"""
    o = ctx.real('o')
    t = [o + ctx.const(v) for v in large.pattern(n)]
    xs = [large.data(ctx, n, (0, n // 2, n - 1), name='x%d_' % j) for j in range(3)]
    ds = ctx.DataStructure(list(t), [list(x) for x in xs], [list(x) for x in xs[::-1]])
    ctx.exact(ds.timeseries(), t, 'times')
    ctx.exact(ds.data(), xs, 'data')
    ctx.exact(ds.errors(), xs[::-1], 'errors')
    ctx.eq(ds.normalised_timeseries(), rel(t), 'relative times')
    ctx.eq(ds.mean_data, [mean(ctx, x) for x in xs], 'means')
    ctx.eq(ds.normalised_data(), [centred(ctx, x) for x in xs], 'data relative to the mean')
    ctx.eq(ds.median_time, median(ctx, rel(t)), 'median of the relative times')
    cor = ctx.Correlator(ds)
    ctx.exact(cor.values(), xs, 'values of the correlator')
    ctx.eq(cor.normalised_timeseries(), rel(t), 'relative times of the correlator')


def vast(ctx, n):
    """more samples than 16 bits count"""
    t = [ctx.const(v) for v in large.pattern(n)]
    x = large.data(ctx, n, (0, n // 2, n - 1))
    ds = ctx.DataStructure(t, x, x[::-1])
    ctx.exact(ds.timeseries(), t, 'times')
    ctx.exact(ds.data(), [x], 'data')
    ctx.exact(ds.errors(), [x[::-1]], 'errors')
    ctx.eq(ds.normalised_timeseries(), t, 'relative times')
    ctx.eq(ds.mean_data, [mean(ctx, x)], 'mean')
    ctx.eq(ds.normalised_data(), [centred(ctx, x)], 'data relative to the mean')
    ctx.eq(ds.median_time, median(ctx, t), 'median of the relative times')
    ctx.check(ds.M_datapoints == n, 'number of samples')
    ctx.exact(ds.max_time, t[-1], 'last time')
    cor = ctx.Correlator(ds)
    ctx.check(cor.M_datapoints == n, 'samples of the correlator')
    ctx.exact(cor.values(), [x], 'values of the correlator')
    ctx.eq(cor.normalised_timeseries(), t, 'relative times of the correlator')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for n in range(1, 9 if big else 6):
        for m in range(1, 6 if big else 4):
            for e in (False, True):
                out.append(('n%d-m%d%s' % (n, m, '-errors' if e else ''), stats, dict(n=n, m=m, errors=e, flat=False)))
        out.append(('n%d-flat' % n, stats, dict(n=n, m=1, errors=False, flat=True)))
        out.append(('n%d-flat-errors' % n, stats, dict(n=n, m=1, errors=True, flat=True)))
        out.append(('n%d-SACF' % n, stats, dict(n=n, m=1, errors=n % 2 == 0, flat=True, via='SACF')))
        out.append(('n%d-SACF-two' % n, stats, dict(n=n, m=2, errors=n % 2 == 1, flat=False, via='SACF')))
    out += rough.offsets(rough.statistics, ((1, 0), (1, 1e6), (1e-6, 1e7), (1e6, 1e6)))
    out.append(('rounded-statistics-nan', rough.statistics, dict(amp=1, off=1e5, nan=(1,))))
    for via in ('DataStructure', 'SACF'):
        out += [('missing-%d-%d%s-%s' % (n, m, '-flat' if flat else '', via), missing, dict(n=n, m=m, flat=flat, via=via))
                for n, m, flat in ((2, 1, True), (4, 1, True), (3, 1, False), (3, 2, False)) + (((3, 3, False),) if big else ())]
    k = 60 if big else 20
    out.append(('n%d' % k, stats, dict(n=k, m=2, errors=True, flat=False, fixed=True)))
    out.append(('n%d' % (k + 1), stats, dict(n=k + 1, m=1, errors=False, flat=True, fixed=True)))
    out.append(('vast', vast, dict(n=70000)))
    for k in (100, 301, 1100, 5000):
        out.append(('large%d' % k, sparse, dict(n=k)))
    return out
