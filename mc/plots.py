"""A stand-in for matplotlib that records what is drawn (matplotlib itself is not installed here)."""
import sys
import types

import numpy as np


class Axes:
    def __init__(self, fig):
        self.fig, self.curves, self.x, self.y = fig, [], None, None

    def plot(self, x, y, *style, **kw):
        self.curves.append((np.array(x, float), np.array(y, float), kw.get("label")))
        return [(self, len(self.curves) - 1)]

    def set_xlabel(self, t, **k):
        self.x = t

    def set_ylabel(self, t, **k):
        self.y = t

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None

    transAxes = "axes"


class Figure:
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self))
        return self.axes[-1]

    subplots = None

    def gca(self):
        return self.axes[-1] if self.axes else self.add_subplot()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Recorder:
    """with Recorder() as rec: ... ; rec.figures, rec.shown"""

    def __enter__(self):
        self.figures, self.shown, self.current = [], 0, None
        plt = types.ModuleType("matplotlib.pyplot")

        def figure(*a, **k):
            self.current = Figure()
            self.figures.append(self.current)
            return self.current

        def axes():
            return (self.current or figure()).gca()

        def subplots(rows=1, cols=1, *a, **k):
            f = figure()
            ax = [f.add_subplot() for _ in range(rows * cols)]
            return f, (ax[0] if len(ax) == 1 else np.array(ax).reshape(rows, cols) if min(rows, cols) > 1 else np.array(ax))

        def show(*a, **k):
            self.shown += 1

        plt.figure, plt.subplots, plt.show, plt.gca, plt.gcf = figure, subplots, show, axes, lambda: self.current
        plt.plot = lambda *a, **k: axes().plot(*a, **k)
        plt.xlabel, plt.ylabel = lambda t, **k: axes().set_xlabel(t), lambda t, **k: axes().set_ylabel(t)
        plt.__getattr__ = lambda name: (lambda *a, **k: None)
        top = types.ModuleType("matplotlib")
        top.pyplot = plt
        top.use = lambda *a, **k: None
        self.keep = {n: sys.modules.get(n) for n in ("matplotlib", "matplotlib.pyplot")}
        sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = top, plt
        return self

    def __exit__(self, *a):
        for n, m in self.keep.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
