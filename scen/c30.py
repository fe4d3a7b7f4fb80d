"""C30: a file is read whole or rejected."""
from .lib import *
from .c18 import SEPS, FORMS, NOISE

SHIMS = ('eio',)
BOUNDS = {'quick': 'every byte of files of up to 4 rows (2 or 3 columns, with a comment, title and blank line, both line ends, with and without a final line end) as the point from '
                   'which reading fails, and files of 400 and 3000 rows failing at 6 places; a directory; the numbers real',
          'thorough': 'files of up to 5 rows'}
ASSUMES = ['a failing read is reported to the program by the operating system (EIO, EISDIR)']


def rejected(ctx, name, via, ds_module):
    try:
        ctx.DataStructure(name) if via == 'DataStructure' else ctx.SACF(filename=name)
    except ds_module.BadDataFileReadException:
        ctx.check(True, 'bad-file error')
        return
    ctx.fail('a file that could not be read to its end was accepted')


def text(ctx, n, cols, end, final, title):
    lines = []
    if title:
        lines += ['# time flux', 'time,flux', '']
    for i in range(n):
        cells = [ctx.number('%s%d' % ('txe'[c], i), FORMS[(i + c) % len(FORMS)])[0] for c in range(cols)]
        lines.append(SEPS[(i + cols) % len(SEPS)].join(cells))
    return end.join(lines) + (end if final else '')


def cut(ctx, n, cols, via, title=False):
    """reading fails from some byte on"""
    D = ctx.ds_module
    s = text(ctx, n, cols, ['\n', '\r\n'][ctx.choose(2, 'line end')], bool(ctx.choose(2, 'final')), title)
    at = min(ctx.choose(len(s) + 1, 'from'), len(s))    # the replay may write the numbers shorter
    rejected(ctx, ctx.broken_file(s, at), via, D)
    # the same file once it can be read
    ds = ctx.DataStructure(ctx.file(s))
    ctx.check(ds.M_datapoints == n, 'rows')


def long(ctx, n, cols, via):
    """reading fails in a long file, also beyond the first block read"""
    D = ctx.ds_module
    rows = [' '.join(repr(round(i * 0.5 + c, 2)) for c in range(cols)) for i in range(n)]
    s = '\n'.join(rows) + '\n'
    at = [0, 1, len(s) // 2, len(s) - len(rows[-1]) - 1, len(s) - 1, len(s)][ctx.choose(6, 'from')]
    rejected(ctx, ctx.broken_file(s, at), via, D)


def directory(ctx, via):
    rejected(ctx, ctx.directory(), via, ctx.ds_module)


def after(ctx):
    """a failed reading leaves nothing behind"""
    D = ctx.ds_module
    s = text(ctx, 3, 3, '\n', True, False)
    at = min(ctx.choose(len(s) + 1, 'from'), len(s))
    rejected(ctx, ctx.broken_file(s, at), 'SACF', D)
    f = ctx.file('1 2\n3 4\n')
    ds = ctx.DataStructure(f)
    ctx.eq(ds.timeseries(), [1.0, 3.0], 'times')
    ctx.eq(ds.data(), [[2.0, 4.0]], 'data')
    ctx.eq(ds.errors(), [], 'errors')


def scenarios(tier):
    n = 4 if tier == 'quick' else 5
    out = []
    for via in ('DataStructure', 'SACF'):
        out += [('directory-' + via, directory, dict(via=via)), ('cut2-' + via, cut, dict(n=n, cols=2, via=via)), ('cut3-' + via, cut, dict(n=3, cols=3, via=via))]
    out += [('title', cut, dict(n=2, cols=2, via='DataStructure', title=True)), ('after', after, {}),
            ('long2', long, dict(n=400, cols=2, via='DataStructure')), ('long3', long, dict(n=3000, cols=3, via='SACF'))]
    return out
