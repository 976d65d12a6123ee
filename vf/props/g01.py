import itertools, os, warnings

import matplotlib
matplotlib.use('Agg')
import numpy as np
from matplotlib import pyplot as plt, colors as mc

from pwtools import mpl, num
from vf.core import Registry

reg = Registry('G01', 'Figures, twin axes, extra axis lines, legends and style sequences are built through the plotting helpers with '
               'random data, labels and settings; the oracle reads lines, labels, ticks, colours and files back from matplotlib')

LAB = ['a', 'b$_2$', 'Etot', 'x y', 'long label', 'E-F', '1']


def line(ctx, ax, label=None):
    n = ctx.ri(2, 6)
    x, y = np.sort(ctx.rng.normal(size=n)), ctx.rng.normal(size=n)
    kw = {} if label is None else dict(label=label)
    l, = ax.plot(x, y, **kw)
    return l, x, y


@reg.scenario(quick=60, thorough=600)
def plots(ctx):
    """Plot containers: figures, legends collected over axes, saved files"""
    try:
        kind = ctx.pick(['new', 'given', 'prepared', 'refused'])
        proj = ctx.choice(['2d', '2d', '3d'])
        ctx.note(kind=kind, proj=proj)
        if kind == 'refused':
            fig, ax = mpl.fig_ax()
            ctx.raises(Exception, mpl.Plot, fig)
            ctx.raises(Exception, mpl.Plot, None, ax)
            ctx.raises(Exception, mpl.Plot, projection='4d')
            ctx.raises(AssertionError, mpl.prepare_plots, ['a'], projection='4d')
            return
        kw = dict(dpi=ctx.ri(20, 60))
        if ctx.coin():
            kw['figsize'] = (ctx.ri(2, 5), ctx.ri(2, 5))
        if kind == 'given':
            fig, ax = (mpl.fig_ax if proj == '2d' else mpl.fig_ax3d)(**kw)
            pls = {None: mpl.Plot(fig, ax, projection=ctx.choice(['2d', '3d', 'whatever']))}
            ctx.check(pls[None].fig is fig and pls[None].ax is ax, 'given figure and axis used')
        elif kind == 'new':
            pls = {None: mpl.Plot(projection=proj, **kw) if proj == '3d' or ctx.coin() else mpl.Plot(**kw)}
        else:
            names = list(ctx.choice([['etot', 'ekin', 'a'], [3, 1, 2], ['x']]))
            pls = mpl.prepare_plots(names, projection=proj, **kw)
            ctx.same(list(pls), names, 'names in order')
            ctx.check(len(set(id(p.fig) for p in pls.values())) == len(names), 'one figure each')
        for p in pls.values():
            ctx.check(p.ax.get_figure() is p.fig and p.fig.axes == [p.ax], 'one axis in the figure')
            ctx.check((p.ax.name == '3d') == (proj == '3d'), 'projection', got=p.ax.name)
            ctx.close(p.fig.dpi, kw['dpi'], 'dpi')
            if 'figsize' in kw:
                ctx.close(p.fig.get_size_inches(), kw['figsize'], 'size')
            if proj == '3d':
                continue
            # axes with labelled, unlabelled and bar entries
            axs, want = {}, {}
            p.ax2 = p.ax.twinx()
            p.axfoo = p.ax.twinx()
            for nm in ('ax', 'ax2', 'axfoo'):
                ax = getattr(p, nm)
                want[nm] = []
                for i in range(ctx.ri(0, 3)):
                    lab = '%s %s%d' % (ctx.choice(LAB), nm, i)
                    if ctx.coin(0.2):
                        line(ctx, ax)
                    if ctx.coin(0.2):
                        h = ax.bar([1, 2, 3], ctx.rng.random(3), label=lab)
                    else:
                        h = line(ctx, ax, lab)[0]
                    want[nm].append((h, lab))
                # matplotlib lists bars after lines
                w = ax.get_legend_handles_labels()
                ctx.check(sorted(w[1]) == sorted(l for _, l in want[nm]), 'entries of one axis')
                want[nm] = list(zip(*w))
            use = [str(x) for x in ctx.rng.permutation(['ax', 'ax2', 'axfoo'])[:ctx.ri(1, 3)]]
            exp = [e for nm in use for e in want[nm]]
            for got in (p.collect_legends(use), mpl.collect_legends(*[getattr(p, nm) for nm in use])):
                hs, ls = list(got[0]), list(got[1])
                ctx.check(len(got) == 2 and ls == [l for _, l in exp] and all(a is b for a, (b, _) in zip(hs, exp)) and len(hs) == len(exp),
                          'legend entries of all axes in order', got=ls, want=[l for _, l in exp])
            hs, ls = p.collect_legends()
            ctx.check(list(ls) == [l for _, l in want['ax']], 'default: entries of ax')
            host = ctx.choice(['ax', 'ax2'])
            title = ctx.choice([None, 'T'])
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                # empty legends warn
                leg = p.legend(use, legaxname=host, title=title) if ctx.coin() else p.legend(axnames=use, legaxname=host, title=title)
                ctx.check(getattr(p, host).get_legend() is leg and all(getattr(p, a).get_legend() is None for a in ('ax', 'ax2', 'axfoo') if a != host),
                          'legend on the named axis')
                ctx.same([t.get_text() for t in leg.get_texts()], [l for _, l in exp], 'legend texts')
                ctx.same(leg.get_title().get_text(), title or '', 'legend keywords')
                leg = p.legend(loc='upper left')
                ctx.check(p.ax.get_legend() is leg, 'plain legend on ax')
                ctx.same([t.get_text() for t in leg.get_texts()], [l for _, l in want['ax']], 'plain legend texts')
            d = ctx.tmp()
            base = os.path.join(d, ctx.choice(['fig', 'a.b', 'x_1']))
            ext = ctx.choice([None, ['png'], ['pdf', 'svg'], ['svg', 'png']])
            skw = dict(dpi=25)
            p.savefig(base, **skw) if ext is None else p.savefig(base, ext=ext, **skw)
            ext = ext or ['png']
            ctx.same(sorted(os.listdir(d)), sorted(os.path.basename(base) + '.' + e for e in ext), 'files written')
            for e in ext:
                b = open(base + '.' + e, 'rb').read()
                ctx.check({'png': b.startswith(b'\x89PNG'), 'pdf': b.startswith(b'%PDF'), 'svg': b'<svg' in b}[e], 'file format', got=b[:20], ext=e)
                if e == 'png':
                    w, h = int.from_bytes(b[16:20], 'big'), int.from_bytes(b[20:24], 'big')
                    ctx.check(np.abs(np.array([w, h]) - 25 * p.fig.get_size_inches()).max() <= 1, 'keywords for saving', got=(w, h))
                os.unlink(base + '.' + e)
    finally:
        plt.close('all')


@reg.scenario(quick=60, thorough=600)
def colours(ctx):
    """colour of axes; colour transitions; style lists and cycles"""
    kind = ctx.pick(['ax', 'smooth', 'styles', 'data', 'clean'])
    ctx.note(kind=kind)
    try:
        if kind == 'ax':
            fig, ax = mpl.fig_ax()
            other = ax.twinx()
            col = ctx.choice(['b', 'tab:red', (0.1, 0.2, 0.3), '#aabbcc'])
            axis = ctx.choice(['x', 'y', 'both'])
            kw = dict(axis=axis)
            spine = 'left'
            if ctx.coin():
                spine = kw['spine_loc'] = ctx.choice(['left', 'right', 'top', 'bottom', None])
            inv = None
            if ctx.coin():
                inv = kw['spine_invisible'] = ctx.choice([s for s in ('left', 'right', 'top', 'bottom') if s != spine])
            ax.set_xlabel('x'); ax.set_ylabel('y')
            before = dict((s, ax.spines[s].get_edgecolor()) for s in ('left', 'right', 'top', 'bottom'))
            lab0 = dict((a, getattr(ax, a + 'axis').label.get_color()) for a in 'xy')
            mpl.color_ax(ax, col, **kw)
            rgba = mc.to_rgba(col)
            for a in 'xy':
                lab = getattr(ax, a + 'axis').label.get_color()
                ctx.check(mc.to_rgba(lab) == (rgba if axis in (a, 'both') else mc.to_rgba(lab0[a])), 'label colour', axis=a, got=lab)
                tick = mc.to_rgba(getattr(ax, a + 'axis').get_ticklabels()[0].get_color())
                ctx.check((tick == rgba) == (axis in (a, 'both')), 'colour of the tick labels', axis=a, got=tick)
                mt = mc.to_rgba(getattr(ax, a + 'axis').get_major_ticks()[0].tick1line.get_color())
                ctx.check((mt == rgba) == (axis in (a, 'both')), 'colour of the ticks', axis=a, got=mt)
            for s in before:
                want = rgba if s == spine else mc.to_rgba('none') if s == inv else before[s]
                ctx.check(ax.spines[s].get_edgecolor() == want, 'spine colour', spine=s, got=ax.spines[s].get_edgecolor(), want=want)
            ctx.check(mc.to_rgba(other.yaxis.label.get_color()) == mc.to_rgba('k'), 'other axis unchanged')
        elif kind == 'smooth':
            n = ctx.ri(2, 30)
            z = [mpl.smooth_color(i, n) for i in range(n)]
            ctx.close(z, np.linspace(0, 1, n), 'equal steps from 0 to 1', rtol=1e-12, atol=1e-15)
            ctx.same([z[0], z[-1]], [0.0, 1.0], 'ends')
            f = ctx.choice([lambda z: (z, 0, 1 - z), lambda z: z, lambda z: str(z)])
            ctx.same(mpl.smooth_color_func(n, f), [f(i / (n - 1.0)) for i in range(n)], 'function of the transition')
        elif kind == 'styles':
            one = dict(colors=mpl.colors, markers=mpl.markers, linestyles=mpl.linestyles)
            ctx.check(all(len(set(v)) == len(v) for v in one.values()), 'no repetition')
            fig, ax = mpl.fig_ax()
            for a, b in [('colors', 'markers'), ('colors', 'linestyles'), ('markers', 'colors'), ('linestyles', 'colors')]:
                lst = getattr(mpl, '%s_%s' % (a, b))
                ctx.same(list(lst), [x + y for x in one[a] for y in one[b]], 'combined styles')
                for s in [lst[i] for i in ctx.rng.permutation(len(lst))[:5]]:
                    l, = ax.plot([0, 1], [0, 1], s)
                    parts = {a: None, b: None}
                    for x in one[a]:
                        for y in one[b]:
                            if x + y == s:
                                parts = {a: x, b: y}
                    ctx.check(mc.to_rgba(l.get_color()) == mc.to_rgba(parts['colors']), 'style means its colour', got=s)
                    if 'markers' in parts:
                        ctx.same(l.get_marker(), parts['markers'], 'style means its marker')
                    if 'linestyles' in parts:
                        ctx.same(l.get_linestyle(), parts['linestyles'], 'style means its line')
            for sh, nm in [('cc', 'colors'), ('cm', 'markers'), ('ccm', 'colors_markers'), ('ccl', 'colors_linestyles'), ('cmc', 'markers_colors'),
                           ('clc', 'linestyles_colors')]:
                ctx.check(getattr(mpl, sh) is getattr(mpl, 'cycle_' + nm), 'shortcut')
                lst = list(getattr(mpl, nm))
                k = ctx.ri(1, 3 * len(lst))
                got = list(itertools.islice(getattr(mpl, sh), k + len(lst)))
                st = lst.index(got[0])
                ctx.same(got, [lst[(st + i) % len(lst)] for i in range(len(got))], 'cycle runs through the list again and again')
        elif kind == 'data':
            n = ctx.ri(2, 9)
            D = mpl.get_2d_testdata(n) if n != 20 or ctx.coin() else mpl.get_2d_testdata()
            ctx.check(D.X.shape == (n, n), 'size')
            ctx.close(D.Z, np.sin(D.X) + np.cos(D.Y), 'values', rtol=1e-12, atol=1e-12)
            ctx.check(D.X.min() == D.Y.min() == -5 and D.X.max() == D.Y.max() == 5, 'range')
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                x, y = ctx.rng.normal(size=n), ctx.rng.normal(size=3)
                a = mpl.meshgridt(x, y)
                ctx.check(any(issubclass(x.category, DeprecationWarning) for x in w), 'deprecation warning')
            ctx.same([np.array(v) for v in a], [np.array(v) for v in np.meshgrid(x, y, indexing='ij')], 'grid')
        else:
            fig, ax = mpl.fig_ax3d(clean=True) if ctx.coin() else mpl.fig_ax3d()
            mpl.clean_ax3d(ax)
            for a in (ax.xaxis, ax.yaxis, ax.zaxis):
                ctx.check(mc.to_rgba(a.pane.get_facecolor()) == (1., 1., 1., 1.), 'white panes', got=a.pane.get_facecolor())
            fig.canvas.draw()
    finally:
        plt.close('all')


@reg.scenario(quick=40, thorough=400)
def axis_lines(ctx):
    """extra axis lines next to a host axis"""
    try:
        num_ = ctx.choice([None, 7])
        fig, host = mpl.make_axes_grid_fig() if num_ is None else mpl.make_axes_grid_fig(num_)
        ctx.check(host.get_figure() is fig and fig.axes == [host], 'host axis in the figure')
        if num_:
            ctx.same(fig.number, num_, 'figure number')
        l0, x0, y0 = line(ctx, host, 'host')
        cnt = dict(left=1, right=1, top=1, bottom=1)
        pars, lines = [], []
        n = ctx.sz(1, 4, 12)
        ctx.note(n=n)
        for i in range(n):
            loc = ctx.choice(sorted(cnt))
            off, ws = ctx.choice([0, 30, 55]), ctx.choice([0.0, 0.02, 0.05])
            ticks = ctx.choice([None, [0.0, 1.0, 2.5]])
            lab = 'L%d' % i
            old = np.array(host.get_position())
            default = ctx.coin(0.3) and loc == 'bottom'
            f, h, p = mpl.new_axis(fig, host, off=off, wsadd=ws, label=lab, ticks=ticks, **({} if default else dict(loc=loc)))
            ctx.check(f is fig and h is host and p is not host and p in host.parasites, 'returns figure, host and new axis')
            cnt[loc] += 1
            key = '%s%d' % (loc, 2)
            ctx.check(key in p.axis.keys(), 'axis line named', got=list(p.axis.keys()))
            ctx.check(all(not p.axis[k].get_visible() for k in ('left', 'right', 'top', 'bottom')), 'own frame of the new axis hidden')
            al = p.axis[key]
            ctx.check(al.get_visible(), 'axis line visible')
            vert = loc in ('left', 'right')
            ctx.same(p.get_ylabel() if vert else p.get_xlabel(), lab, 'label')
            if ticks is not None:
                ctx.close((p.yaxis if vert else p.xaxis).get_majorticklocs(), ticks, 'ticks')
            new = np.array(host.get_position())
            want = old.copy()
            ix = dict(left=(0, 0), bottom=(0, 1), right=(1, 0), top=(1, 1))[loc]
            want[ix] += -ws if loc in ('right', 'top') else ws
            ctx.close(new, want, 'space for the line', rtol=1e-5, atol=1e-5)
            pars.append((p,) + line(ctx, p, lab))
            lines.append((al, loc, off))
        fig.canvas.draw()
        for al, loc, off in lines:
            # where the line is drawn: outside of the host axes, `off` points away
            v = al.line.get_transform().transform(al.line.get_path().vertices)
            dim = 0 if loc in ('left', 'right') else 1
            side = host.bbox.extents.reshape(2, 2)[0 if loc in ('left', 'bottom') else 1, dim]
            out = (v[:, dim] - side) * (-1 if loc in ('left', 'bottom') else 1) * 72 / fig.dpi
            ctx.close(out, np.full(len(out), float(off)), 'distance from the host axes', rtol=0, atol=0.1)
        for p, l, x, y in pars + [(host, l0, x0, y0)]:
            ctx.check(l in p.get_lines(), 'line on its axis')
            ctx.close(l.get_xydata(), np.array([x, y]).T, 'data of the line')
        d = ctx.tmp()
        fig.savefig(os.path.join(d, 'f.png'), dpi=30)
    finally:
        plt.close('all')
