"""C26: results stored step by step are reported at their positions."""
from .lib import *
from . import large

BOUNDS = {'quick': 'up to 3 stored results with real lags at positions 0 to 4 in every order, then a cut at every length up to 6, and again; 1 to 6 series; 300 positions forwards and backwards',
          'thorough': 'up to 4 stored results; 1200 positions'}
ASSUMES = []
SELS = ('naturalSelectionFunctionIdx', 'fastSelectionFunctionIdx')
WS = ('getFractionWeights', 'getGaussianWeights', 'getFractionSquaredWeights')


def stored(ctx, m, k, cor, pos, sel=0, w=0):
    it = ctx.CorrelationIterator(k, m)
    getattr(cor, SELS[sel])(it)
    cor.deltaT(it)
    getattr(cor, WS[w])(it)
    cor.findCorrelation(it)
    vals = list(it.correlation)
    ctx.check(len(vals) == m, 'one correlation per series')
    cor.addCorrelationData(it, pos)
    ctx.eq(list(it.correlation), vals, 'storing leaves the iterator')
    ctx.eq(it.k, k, 'storing leaves the iterator')
    return k, vals


def expect(ctx, cor, mem, m, n, label):
    L = list(cor.lag_timeseries())
    C = [list(c) for c in cor.correlations()]
    ctx.check(len(L) == n, label + ': lags')
    ctx.check(len(C) == m, label + ': series')
    for c in C:
        ctx.check(len(c) == n, label + ': values')
    for p, (k, vals) in mem.items():
        if p < n:
            ctx.eq(L[p], k, label + ': lag')
            for c, v in zip(C, vals):
                ctx.eq(c[p], v, label + ': value')


def setting(ctx, m, n=3):
    t = [ctx.const(v) for v in (0, 1, 2.5, 3)[:n]]
    xs = [[ctx.const(v) for v in r[:n]] for r in ([1, 4, 2, -3], [0, 3, 5, 1], [2, -1, -4, 0], [7, 1, 2, 2], [0, -6, 1, 3], [5, 5, 4, -1])][:m]
    return ctx.Correlator(ctx.DataStructure(t, [list(x) for x in xs] if m > 1 else list(xs[0])))


def order(ctx, count, m, top=5, again=True):
    cor = setting(ctx, m)
    mem = {}
    for i in range(count):
        p = ctx.choose(top, 'position%d' % i)
        k = ctx.real('k%d' % i)
        ctx.assume(k > 0.25 + i)
        ctx.assume(k < 0.3 + i)
        mem[p] = stored(ctx, m, k, cor, p, i % 2, i % 3)
    n = ctx.choose(top + 2, 'kept')
    cor.cleanCorrelationData(n)
    expect(ctx, cor, mem, m, n, 'after the cut')
    if again:
        mem = {p: v for p, v in mem.items() if p < n}
        p = ctx.choose(top, 'position after')
        mem[p] = stored(ctx, m, -2, cor, p)
        q = ctx.choose(2, 'longer')
        k = max(p + 1, n) if q else p + 1
        cor.cleanCorrelationData(k)
        expect(ctx, cor, mem, m, k, 'after more')


def any_lag(ctx, n, m, sel, w):
    """one real lag, real data"""
    t = times(ctx, n)
    xs = [reals(ctx, n, 'x%d_' % j) for j in range(m)]
    for x in xs:
        not_constant(ctx, x)
    cor = ctx.Correlator(ctx.DataStructure(list(t), [list(x) for x in xs] if m > 1 else list(xs[0])))
    k = ctx.real('k')
    mem = {2: stored(ctx, m, k, cor, 2, sel, w)}
    mem[0] = stored(ctx, m, 0, cor, 0, sel, w)
    cor.cleanCorrelationData(3)
    expect(ctx, cor, mem, m, 3, 'stored')


def many(ctx, count, m, how):
    cor = setting(ctx, m, 2)
    h = ctx.real('h')
    ctx.assume(h > 0)
    ctx.assume(h < ctx.const(1) / 4096)
    ps = list(range(count))
    if how == 'backwards':
        ps.reverse()
    elif how == 'scattered':
        ps = [(p * 7 + 3) % count for p in ps]
    mem = {}
    for i, p in enumerate(ps):
        mem[p] = stored(ctx, m, h * (i + 1), cor, p)
    cor.cleanCorrelationData(count)
    expect(ctx, cor, mem, m, count, 'stored')
    cor.cleanCorrelationData(count // 3)
    expect(ctx, cor, mem, m, count // 3, 'cut')
    cor.clearCorrelation()
    expect(ctx, cor, {}, m, 0, 'cleared')
    mem = {3: stored(ctx, m, h, cor, 3)}
    cor.cleanCorrelationData(4)
    expect(ctx, cor, mem, m, 4, 'again')


def far(ctx, pos, m):
    """a position beyond 16 bits"""
    cor = setting(ctx, m, 2)
    k = ctx.real('k')
    ctx.assume(k > 0.25)
    ctx.assume(k < 0.3)
    mem = {2: stored(ctx, m, k, cor, 2)}
    mem[pos] = stored(ctx, m, -k, cor, pos)
    mem[pos + 1] = stored(ctx, m, 0, cor, pos + 1)
    cor.cleanCorrelationData(pos + 2)
    expect(ctx, cor, mem, m, pos + 2, 'stored')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for m in (1, 2, 3):
        for c in (1, 2):
            out.append(('order%d-%d' % (c, m), order, dict(count=c, m=m)))
        out.append(('order3-%d' % m, order, dict(count=3, m=m, again=big)))
        if big:
            out.append(('order4-%d' % m, order, dict(count=4, m=m, again=False)))
        for how in ('forwards', 'backwards', 'scattered'):
            out.append(('%s-%d' % (how, m), many, dict(count=1200 if big else 300, m=m, how=how)))
    for m in (4, 6):
        out.append(('order2-%d' % m, order, dict(count=2, m=m)))
        out.append(('scattered-%d' % m, many, dict(count=100, m=m, how='scattered')))
    out.append(('far', far, dict(pos=70000, m=2)))
    for sel in (0, 1):
        for w in (0, 1, 2):
            out.append(('any-%d-%d' % (sel, w), any_lag, dict(n=2, m=2 if w else 1, sel=sel, w=w)))
    return out
