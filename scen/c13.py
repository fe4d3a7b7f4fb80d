"""C13: a reused correlator behaves like a fresh one."""
from .lib import *
from . import large

BOUNDS = {'quick': 'sequences of up to 3 operations out of: set parameters (two real-valued settings), compute natively, compute by steps (two weights), clear; '
                   'then a computation by one of three methods; 1 and 2 series, n = 3; grids of at most 4 lags',
          'thorough': 'sequences of up to 4 operations'}
ASSUMES = ['lag_resolution > 0', 'alpha > 0']


def compute(ctx, s, cor, how):
    if how == 0:
        cor.calculateStandardCorrelation()
    elif how == 1:
        s.find_correlation(cor, 'natural', 'gaussian')
    else:
        s.find_correlation(cor, 'fast', 'fractional')


def sequence(ctx, length, m, symbolic):
    t = [ctx.const(v) for v in (0, 1, 3)]
    xs = [[ctx.const(v) for v in r] for r in ([1, 4, 2], [0, 3, 5])][:m]
    a = ctx.real('a')
    ctx.assume(a > 0)
    ctx.assume(a < 10)
    ctx.assume(2 * a >= 1)
    settings = [dict(min_lag=-1, max_lag=2, lag_resolution=1, alpha=1), dict(min_lag=a, max_lag=a + 1, lag_resolution=2 * a if symbolic else 1, alpha=a),
                dict(min_lag=2, max_lag=1, lag_resolution=1, alpha=2)]
    s = ctx.SACF(t, xs if m > 1 else xs[0])
    cor = ctx.Correlator(s.data)
    cur = dict(min_lag=cor.min_lag, max_lag=cor.max_lag, lag_resolution=cor.lag_resolution, alpha=cor.alpha)
    cleared = True
    for i in range(length):
        op = ctx.choose(7, 'op%d' % i)
        if op < 3:
            held = cor.lag_timeseries(), cor.correlations()
            for p, v in settings[op].items():
                setattr(cor, p, v)
            cur = settings[op]
            ctx.exact(cor.lag_timeseries(), held[0], 'lags held after setting parameters')
            ctx.exact(cor.correlations(), held[1], 'correlations held after setting parameters')
        elif op == 3:
            cor.clearCorrelation()
            cleared = True
        else:
            compute(ctx, s, cor, op - 4)
            cleared = False
        if cleared:
            ctx.check(len(cor.lag_timeseries()) == 0, 'no lags after a clear')
            for row in cor.correlations():
                ctx.check(len(row) == 0, 'no correlations after a clear')
    how = ctx.choose(3, 'last')
    compute(ctx, s, cor, how)
    f = ctx.Correlator(s.data)
    for p, v in cur.items():
        setattr(f, p, v)
    compute(ctx, s, f, how)
    ctx.eq(cor.lag_timeseries(), f.lag_timeseries(), 'lags')
    ctx.eq(cor.correlations(), f.correlations(), 'correlations')
    ctx.check(len(cor.correlations()) == m, 'series')
    ctx.observe('C', cor.correlations())


def twice(ctx, n, how, clear):
    """the same computation twice on symbolic data"""
    t = times(ctx, n)
    xs = [reals(ctx, n, 'x'), reals(ctx, n, 'y')]
    for x in xs:
        not_constant(ctx, x)
    k = ctx.real('k')
    l = ctx.real('l')
    s = ctx.SACF(list(t), [list(x) for x in xs])
    cor = ctx.Correlator(s.data)
    cor.min_lag = k
    cor.max_lag = k
    compute(ctx, s, cor, how)
    if clear:
        cor.clearCorrelation()
    cor.min_lag = l
    cor.max_lag = l
    compute(ctx, s, cor, how)
    f = ctx.Correlator(s.data)
    f.min_lag = l
    f.max_lag = l
    compute(ctx, s, f, how)
    ctx.eq(cor.lag_timeseries(), f.lag_timeseries(), 'lags')
    ctx.eq(cor.correlations(), f.correlations(), 'correlations')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for n in range(1, 5 if big else 4):
        out.append(('seq%d' % n, sequence, dict(length=n, m=1, symbolic=n < 3)))
        out.append(('seq%d-two-series' % n, sequence, dict(length=n, m=2, symbolic=n < 2)))
    for p in ('native', 'steps'):
        out += [('long-%s-%d' % (p, i), large.reused, dict(counts=c, path=p)) for i, c in enumerate(((1100, 5, 130), (3, 300, 1200), (70, 70, 71)))]
    for how in range(3):
        out.append(('twice-%d' % how, twice, dict(n=2, how=how, clear=False)))
        out.append(('twice-clear-%d' % how, twice, dict(n=2, how=how, clear=True)))
    return out
