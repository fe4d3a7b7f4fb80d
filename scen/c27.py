"""C27: the step operations on an iterator."""
from .lib import *

BOUNDS = {'quick': 'n <= 3 with all times, data, alpha and the lag real, 1 to 3 series; n = 7 on fixed times; both selections, three weights; lag set at construction or afterwards; '
                   'two iterators stepped in turn on one correlator, alpha changed between the steps',
          'thorough': 'n <= 4; n = 14 on fixed times'}
ASSUMES = ['alpha > 0']

SEL = {'natural': 'naturalSelectionFunctionIdx', 'fast': 'fastSelectionFunctionIdx'}
WGT = {'fractional': 'getFractionWeights', 'fractional_squared': 'getFractionSquaredWeights', 'gaussian': 'getGaussianWeights'}


def setting(ctx, n, m, fixed):
    t = [ctx.const(v) for v in irregular(n)] if fixed else times(ctx, n)
    if fixed:
        xs = [[ctx.const((3 * i * i + 2 * j + i) % 7) for i in range(n)] for j in range(m)]
        xs[0][n // 2] = ctx.real('x')
    else:
        xs = [reals(ctx, n, 'x%d_' % j) for j in range(m)]
    for x in xs:
        not_constant(ctx, x)
    ds = ctx.DataStructure(list(t), [list(x) for x in xs])
    return t, xs, ctx.Correlator(ds)


def selected(ctx, T, it, k, sel):
    """checks what the selection left in the iterator; the partners"""
    m = kept(ctx, T, k, strict=sel == 'fast')
    ctx.eq(list(it.shifted_timeseries), [T[i] + k for i in range(m)], 'shifted times of the kept samples')
    idx = [int(v) for v in it.selection_indices]
    if sel == 'natural':
        want = natural_pairs(ctx, T, k)
        ctx.check(len(idx) == len(want), 'one partner for each kept sample')
        for i, o in zip(idx, want):
            ctx.check(i in o, 'partner')
    else:
        ctx.check(idx in (fast_pairs(ctx, T, k) or [[]]), 'partners')
    return idx


def distances(ctx, T, k, idx):
    out = []
    for i, j in enumerate(idx):
        d = T[i] + k - T[j]
        out.append(-d if ctx.sure(d < 0) else d)
    return out


def values(ctx, xs, w, idx):
    out = []
    for x in xs:
        c = centred(ctx, x)
        out.append(ctx.div(total([w[i] * c[i] * c[j] for i, j in enumerate(idx)]), sumsq(ctx, c)))
    return out


def steps(ctx, n, m, sel, weight, fixed=False, later=False):
    t, xs, cor = setting(ctx, n, m, fixed)
    T = rel(t)
    k = ctx.real('k')
    a = ctx.real('alpha')
    ctx.assume(a > 0)
    cor.alpha = a
    it = ctx.CorrelationIterator(ctx.const(17) if later else k, m)
    for name in ('shifted_timeseries', 'selection_indices', 'delta_t', 'weights'):
        ctx.check(len(getattr(it, name)) == 0, 'nothing there before the first step')
    ctx.eq(list(it.correlation), [0] * m, 'zero for each series before the first step')
    if later:
        it.k = k
    ctx.exact(it.k, k, 'the lag of the iterator')
    getattr(cor, SEL[sel])(it)
    idx = selected(ctx, T, it, k, sel)
    cor.deltaT(it)
    D = distances(ctx, T, k, idx)
    ctx.eq(list(it.delta_t), D, 'distances')
    ctx.check([int(v) for v in it.selection_indices] == idx, 'partners after deltaT')
    getattr(cor, WGT[weight])(it)
    w = [WEIGHTS[weight](ctx, d, a) for d in D]
    ctx.eq(list(it.weights), w, 'weights')
    cor.findCorrelation(it)
    ctx.eq(list(it.correlation), values(ctx, xs, w, idx), 'correlation of each series')
    ctx.eq(list(it.weights), w, 'weights after findCorrelation')
    ctx.check([int(v) for v in it.selection_indices] == idx, 'partners after findCorrelation')
    ctx.exact(it.k, k, 'the lag of the iterator at the end')
    ctx.check(len(cor.lag_timeseries()) == 0, 'no result in the correlator before it is stored')
    ctx.observe('c', list(it.correlation))


def in_turn(ctx, n, sel, weight, fixed):
    """two iterators, each step done on both, alpha changed in between"""
    t, xs, cor = setting(ctx, n, 1, fixed)
    T = rel(t)
    ks = [ctx.real('k'), ctx.const(1) / 2]
    al = [ctx.real('alpha'), ctx.const(3)]
    ctx.assume(al[0] > 0)
    its = [ctx.CorrelationIterator(k, 1) for k in ks]
    for it in its:
        getattr(cor, SEL[sel])(it)
    idx = [selected(ctx, T, it, k, sel) for it, k in zip(its, ks)]
    for it in its[::-1]:
        cor.deltaT(it)
    D = [distances(ctx, T, k, i) for k, i in zip(ks, idx)]
    for it, a in zip(its, al):
        cor.alpha = a
        getattr(cor, WGT[weight])(it)
    w = [[WEIGHTS[weight](ctx, d, a) for d in ds] for ds, a in zip(D, al)]
    for it in its[::-1]:
        cor.findCorrelation(it)
    for it, v, i in zip(its, w, idx):
        ctx.eq(list(it.weights), v, 'weights')
        ctx.eq(list(it.correlation), values(ctx, xs, v, i), 'correlation')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for sel in SEL:
        for w in WGT:
            name = '%s-%s' % (sel, w)
            out.append((name + '-n2', steps, dict(n=2, m=2, sel=sel, weight=w)))
            out.append((name + '-n2-later', steps, dict(n=2, m=1, sel=sel, weight=w, later=True)))
            out.append((name + '-fixed', steps, dict(n=14 if big else 7, m=3, sel=sel, weight=w, fixed=True)))
            out.append((name + '-turn', in_turn, dict(n=5, sel=sel, weight=w, fixed=True)))
            if w == 'fractional' or big:
                out.append((name + '-n3', steps, dict(n=3, m=1, sel=sel, weight=w)))
                out.append((name + '-turn-n2', in_turn, dict(n=2, sel=sel, weight=w, fixed=False)))
                if big:
                    out.append((name + '-n4', steps, dict(n=4, m=1, sel=sel, weight=w)))
    return out
