"""A windowless matplotlib backend whose windows behave like live ones.

Timers run while show() is called, so animations play to their end, and each
window's last picture is kept in `pictures` when show() returns.
"""
from matplotlib._pylab_helpers import Gcf
from matplotlib.backend_bases import FigureManagerBase, TimerBase
from matplotlib.backends.backend_agg import FigureCanvasAgg

DPI = 200
timers = []
pictures = []


class Timer(TimerBase):
    def _timer_start(self):
        if self not in timers:
            timers.append(self)

    def _timer_stop(self):
        if self in timers:
            timers.remove(self)

    def _timer_set_interval(self):
        pass


def play():
    while timers:
        for t in list(timers):
            t._on_timer()


def picture(fig):
    """(RGB array, function from points in space to pixel columns and rows)"""
    import numpy as np
    from mpl_toolkits.mplot3d import proj3d
    dpi = fig.dpi
    fig.set_dpi(DPI)
    try:
        fig.canvas.draw()
        img = np.asarray(fig.canvas.buffer_rgba())[..., :3].copy()
        return img, project(fig, proj3d)
    finally:
        fig.set_dpi(dpi)


def project(fig, proj3d=None):
    """Points in space to fractions of the picture's width and height."""
    import numpy as np
    from mpl_toolkits.mplot3d import proj3d
    axes = [a for a in fig.axes if hasattr(a, 'get_proj')]
    ax = axes[0]
    M = ax.get_proj()
    one = ax.transData.transform([(0, 0), (1, 0), (0, 1)])
    size = np.array([fig.bbox.width, fig.bbox.height])
    o, ex, ey = one[0], one[1] - one[0], one[2] - one[0]
    return dict(M=np.array(M), o=o / size, ex=ex / size, ey=ey / size,
                elev=float(ax.elev), azim=float(ax.azim))


class Manager(FigureManagerBase):
    def show(self):
        pass

    @classmethod
    def pyplot_show(cls, *, block=None):
        for m in Gcf.get_all_fig_managers():
            m.canvas.draw()
        play()
        del pictures[:]
        for m in Gcf.get_all_fig_managers():
            pictures.append(picture(m.canvas.figure))


class FigureCanvas(FigureCanvasAgg):
    manager_class = Manager
    required_interactive_framework = None
    _timer_cls = Timer

    def draw_idle(self, *a, **k):
        self.draw()


FigureManager = Manager
