"""C32: an iterator can be used again for another lag."""
from .lib import *
from .c27 import SEL, WGT, setting

BOUNDS = {'quick': 'one iterator taken through up to three lags, the last lag and alpha real (the one before -1, 0, 3/4, or real for n = 3), data of 2 samples with all times and values real and of 5 on fixed times with a real value; every combination of '
                   'selections and weights after others, cut off after any number of its steps; on one correlator or on two of different data, 1 and 2 series; grids of 30 lags on 24 samples',
          'thorough': 'n = 3 with all times real; 8 samples on fixed times; 80 lags on 60 samples'}
ASSUMES = ['alpha > 0']

FIELDS = ('shifted_timeseries', 'selection_indices', 'delta_t', 'weights', 'correlation')
OPS = [(s, w) for s in SEL for w in WGT]
FEW = [('natural', 'fractional'), ('fast', 'gaussian')]


def go(cor, it, sel, weight, upto=4, store=None):
    done = [lambda: getattr(cor, SEL[sel])(it), lambda: cor.deltaT(it), lambda: getattr(cor, WGT[weight])(it), lambda: cor.findCorrelation(it)]
    for f in done[:upto]:
        f()
    if store is not None:
        cor.addCorrelationData(it, store)


def same(ctx, cor, it, other, sel, weight):
    """the steps on it and on an iterator not used before, compared after each"""
    for f in (lambda i: getattr(cor, SEL[sel])(i), cor.deltaT, lambda i: getattr(cor, WGT[weight])(i), cor.findCorrelation):
        f(it)
        f(other)
        for name in FIELDS:
            ctx.eq(list(getattr(it, name)), list(getattr(other, name)), name)
    ctx.exact(it.k, other.k, 'lag')


def stored(ctx, cor, its):
    """the results of its, each stored in turn"""
    out = []
    for it in its:
        cor.clearCorrelation()
        cor.addCorrelationData(it, 0)
        cor.cleanCorrelationData(1)
        out.append([list(cor.lag_timeseries()), [list(c) for c in cor.correlations()]])
    ctx.eq(out[1], out[0], 'stored')


def again(ctx, n, m, sel, weight, fixed=False, before=None, real=False):
    """another lag before, up to any step"""
    t, xs, cor = setting(ctx, n, m, fixed)
    a = ctx.real('alpha')
    ctx.assume(a > 0)
    cor.alpha = a
    l = ctx.real('l') if real else ctx.const([-1, 0, 0.75][ctx.choose(3, 'l')])
    k = ctx.real('k')
    it = ctx.CorrelationIterator(l, m)
    s, w = (before or OPS)[ctx.choose(len(before or OPS), 'before')]
    upto = ctx.choose(4, 'steps before') + 1
    go(cor, it, s, w, upto, 0 if upto == 4 else None)
    it.k = k
    ctx.exact(it.k, k, 'lag set')
    new = ctx.CorrelationIterator(k, m)
    same(ctx, cor, it, new, sel, weight)
    if upto == 4:
        cor.addCorrelationData(it, 0)
        ctx.exact(cor.lag_timeseries()[0], k, 'lag stored in place of the earlier one')
        ctx.eq([c[0] for c in cor.correlations()], list(new.correlation), 'values stored in place of the earlier ones')
    stored(ctx, cor, (new, it))
    ctx.observe('c', list(it.correlation))


def moved(ctx, sel, weight, n, first):
    """used on one correlator, then on another of more or fewer samples"""
    t, xs, cor = setting(ctx, n, 1, True)
    u = [ctx.const(v) for v in (0, 2, 3.5)]
    other = ctx.Correlator(ctx.DataStructure(list(u), [ctx.const(v) for v in (1, 5, 2)]))
    if first:
        cor, other = other, cor
    k, l = ctx.real('k'), ctx.const([-1, 0, 0.75][ctx.choose(3, 'l')])
    it = ctx.CorrelationIterator(l, 1)
    s, w = FEW[ctx.choose(len(FEW), 'before')]
    go(other, it, s, w, ctx.choose(4, 'steps before') + 1)
    it.k = k
    same(ctx, cor, it, ctx.CorrelationIterator(k, 1), sel, weight)


def through(ctx, sel, weight, n, m, count=3):
    """a whole grid with one iterator, against autocorrelation"""
    t, xs, cor = setting(ctx, n, m, True)
    h = ctx.const(1.25)
    if count == 3:
        lo = ctx.real('lo')
        ctx.assume(lo < 1)
    else:
        lo = -7 * h
    s = ctx.SACF(list(t), [list(x) for x in xs] if m > 1 else list(xs[0]))
    lags, C = s.autocorrelation(min_lag=lo, max_lag=lo + (count - 1) * h, lag_resolution=h, selection_function=sel, weight_function=weight)
    it = ctx.CorrelationIterator(0, m)
    order = list(range(len(lags)))
    way = ctx.choose(3, 'order')
    order = (order, order[::-1], order[::2] + order[1::2])[way]
    for i in order:
        it.k = lags[i]
        go(cor, it, sel, weight, 4, i)
    cor.cleanCorrelationData(len(lags))
    ctx.eq(list(cor.lag_timeseries()), list(lags), 'lags')
    ctx.eq([list(c) for c in cor.correlations()], [list(c) for c in C] if m > 1 else [list(C)], 'correlations')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for sel, w in OPS:
        b = '%s-%s' % (sel, w)
        out += [(b + '-n2', again, dict(n=2, m=1, sel=sel, weight=w, before=None if big else FEW)),
                (b + '-two', again, dict(n=3, m=2, sel=sel, weight=w, fixed=True, before=None if big else FEW)),
                (b + '-fixed', again, dict(n=8 if big else 5, m=1, sel=sel, weight=w, fixed=True, before=FEW if w == 'gaussian' else None)),
                (b + '-shrinks', moved, dict(n=5, sel=sel, weight=w, first=True)),
                (b + '-grows', moved, dict(n=5, sel=sel, weight=w, first=False)),
                (b + '-grid', through, dict(n=4, m=2, sel=sel, weight=w)),
                (b + '-long', through, dict(n=60 if big else 24, m=1, sel=sel, weight=w, count=80 if big else 30)),
                (b + '-real', again, dict(n=3, m=1, sel=sel, weight=w, fixed=True, before=FEW[:1], real=True))]
        if big:
            out.append((b + '-n3', again, dict(n=3, m=1, sel=sel, weight=w, before=[('natural', 'fractional')])))
    return out
