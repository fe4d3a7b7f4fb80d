"""C03: shape of the weight functions, and of the weights of a whole lag."""
from .lib import *
from . import rough

BOUNDS = {'quick': 'every real distance >= 0 and alpha > 0; weights of a whole lag: n <= 3 with all times, lag and alpha real, n = 9 on fixed times',
          'thorough': 'weights of a whole lag: n <= 4 with all times real, n = 16 on fixed times'}
ASSUMES = ['alpha > 0', 'distances >= 0']

KINDS = {'fractional': ('fractionWeightFunction', 'getFractionWeights'),
         'fractional_squared': ('fractionSquaredWeightFunction', 'getFractionSquaredWeights'),
         'gaussian': ('gaussianWeightFunction', 'getGaussianWeights')}


def correlator(ctx, t, alpha):
    cor = ctx.Correlator(ctx.DataStructure(list(t), [ctx.const(i) for i in range(len(t))]))
    cor.alpha = alpha
    return cor


def value(ctx, kind):
    a = ctx.real('alpha')
    ctx.assume(a > 0)
    d = ctx.real('d')
    ctx.assume(d >= 0)
    f = getattr(correlator(ctx, [ctx.const(0), ctx.const(1)], a), KINDS[kind][0])
    w = f(d)
    ctx.eq(w, WEIGHTS[kind](ctx, d, a), 'formula')
    ctx.le(w, 1, 'at most 1')
    ctx.le(0, w, 'at least 0')
    ctx.eq(f(ctx.const(0)), 1, 'one at zero')
    ctx.observe('w', w)


def far(ctx, kind, lo, hi):
    """distances from lo to hi alpha, where the weights are small: the formula holds relatively"""
    a = ctx.real('alpha')
    ctx.assume(a > ctx.const(1) / 1024)
    ctx.assume(a < 1024)
    d = ctx.real('d')
    ctx.assume(d > lo * a)
    ctx.assume(d < hi * a)
    w = getattr(correlator(ctx, [ctx.const(0), ctx.const(1)], a), KINDS[kind][0])(d)
    ctx.rel(w, WEIGHTS[kind](ctx, d, a), 'formula')
    ctx.observe('w', w)


def monotone(ctx, kind):
    a = ctx.real('alpha')
    ctx.assume(a > 0)
    d = ctx.real('d')
    e = ctx.real('e')
    ctx.assume(d >= 0)
    ctx.assume(d <= e)
    f = getattr(correlator(ctx, [ctx.const(0), ctx.const(1)], a), KINDS[kind][0])
    ctx.le(f(e), f(d), 'never increases')


def lag(ctx, kind, n, fixed=None):
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n, first=0)
    a = ctx.real('alpha')
    ctx.assume(a > 0)
    k = ctx.real('k')
    cor = correlator(ctx, t, a)
    it = ctx.CorrelationIterator(k, 1)
    cor.naturalSelectionFunctionIdx(it)
    cor.deltaT(it)
    d = list(it.delta_t)
    getattr(cor, KINDS[kind][1])(it)
    w = list(it.weights)
    ctx.check(len(w) == len(d), 'one weight per distance')
    for x, y in zip(d, w):
        ctx.eq(y, WEIGHTS[kind](ctx, x, a), 'weight of the distance')
    ctx.observe('w', w)


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for k in KINDS:
        out += [(k, value, dict(kind=k)), (k + '-monotone', monotone, dict(kind=k))]
        for n in (2, 3, 4) if big else (2, 3):
            out.append(('%s-lag-n%d' % (k, n), lag, dict(kind=k, n=n)))
        for scale in (1e-6, 1, 1e6):
            for near in (1e-5, 1, 2.5):
                out.append(('rounded-%s-%g-%g' % (k, scale, near), rough.weight, dict(kind=k, scale=scale, near=near)))
        for lo, hi in ((4, 8), (8, 15), (15, 25), (25, 35)) if k == 'gaussian' else ((8, 100), (100, 1000), (1000, 10 ** 6), (10 ** 6, 10 ** 9)):
            out.append(('%s-far-%d' % (k, lo), far, dict(kind=k, lo=lo, hi=hi)))
        out.append((k + '-lag-fixed', lag, dict(kind=k, n=0, fixed=irregular(16 if big else 9))))
    return out
