'''
Figures are made by the real matplotlib, but a saved figure is not rendered: what it shows is
written to its file instead (through open(), so that crashes and disk errors strike as for any
other file). Showing a figure does nothing, or closes it, as a user does with the window.
Installed once; the figures that are open belong to a simulated process.
'''
import collections
import json
import os

FORMATS = ('.pdf', '.eps', '.png', '.ps', '.svg', '.jpg', '.jpeg', '.tif', '.tiff')


def install():
    from . import kernel
    import matplotlib.backend_bases
    import matplotlib.figure
    import matplotlib.pyplot as plt

    real_save = matplotlib.figure.Figure.savefig
    real_draw = matplotlib.backend_bases.FigureCanvasBase.draw_idle
    real_show = plt.show

    def savefig(self, fname, *args, **kwargs):
        if kernel.active() is None:
            return real_save(self, fname, *args, **kwargs)
        fname = os.fspath(fname)
        ext = os.path.splitext(fname)[1]
        if ext and ext.lower() not in FORMATS:
            raise ValueError('Format {!r} is not supported'.format(ext[1:]))
        text = json.dumps(content(self), sort_keys=True)
        with open(fname if ext else fname + '.png', 'w') as f:
            f.write(text)

    def draw_idle(self, *args, **kwargs):
        if kernel.active() is None:
            return real_draw(self, *args, **kwargs)

    def show(*args, **kwargs):
        sim = kernel.active()
        if sim is None:
            return real_show(*args, **kwargs)
        if getattr(sim, 'shown', None) is not None and opened():
            sim.shown.append(content(list(opened().values())[-1].canvas.figure))
        if getattr(sim, 'windows_closed', False):
            plt.close('all')
    matplotlib.figure.Figure.savefig = savefig
    matplotlib.backend_bases.FigureCanvasBase.draw_idle = draw_idle
    plt.show = show


def none_open():
    return collections.OrderedDict()


def opened():
    from matplotlib._pylab_helpers import Gcf
    return Gcf.figs


def open_instead(figures):
    from matplotlib._pylab_helpers import Gcf
    Gcf.figs = figures


def numbers(values):
    import numpy as np
    with np.errstate(all='ignore'):
        return np.ma.filled(np.ma.asarray(values, dtype=float), np.nan).tolist()


def content(figure):
    '''What a figure shows, as plain data'''
    return {'axes': [axes_content(a) for a in figure.axes],
            'texts': [t.get_text() for t in figure.texts]}


def axes_content(axes):
    import matplotlib.collections as mc
    import matplotlib.container as mk
    import matplotlib.patches as mp
    out = {'points': [], 'bars': [], 'rectangles': [], 'images': [], 'fills': [],
           'fill_colours': [], 'at': [float(v) for v in axes.get_position().bounds]}
    in_bars = set()
    for box in axes.containers:
        if isinstance(box, mk.BarContainer):
            in_bars.update(id(p) for p in box.patches)
            out['bars'].append([[p.get_x(), p.get_x() + p.get_width(), p.get_height()]
                                for p in box.patches])
    for line in axes.lines:
        out['points'].append(numbers(line.get_xydata()))
    for many in axes.collections:
        if isinstance(many, mc.PathCollection):
            out['points'].append(numbers(many.get_offsets()))
        elif isinstance(many, mc.PolyCollection):
            out['fills'].append([numbers(p.vertices) for p in many.get_paths()])
            out['fill_colours'].append(numbers(many.get_facecolor()))
    for p in axes.patches:
        if isinstance(p, mp.Rectangle) and id(p) not in in_bars:
            out['rectangles'].append([p.get_x(), p.get_y(), p.get_width(), p.get_height()])
    for image in axes.images:
        out['images'].append(numbers(image.get_array()))
    out['xlim'] = [float(v) for v in axes.get_xlim()]
    out['texts'] = [t.get_text() for t in axes.texts]
    out['text_at'] = [[float(v) for v in t.get_position()] for t in axes.texts]
    out['title'] = axes.get_title()
    out['labels'] = [axes.get_xlabel(), axes.get_ylabel()]
    return out
