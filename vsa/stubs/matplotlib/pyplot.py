"""Stand-in for matplotlib.pyplot: records what is drawn, draws nothing."""
import numpy as np

CALLS = []


class Thing:
    def __getattr__(self, name):
        return Any(name)


class Any:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        CALLS.append({'name': self.name, 'args': a, 'kw': k})
        return Thing()

    def __getattr__(self, name):
        return Any(name)


class Axes:
    def __init__(self, projection=None):
        self.projection = projection

    def _mesh(self, name, a, k):
        x, y, z = a[0], a[1], a[2]
        if np.ndim(z) != 2:
            raise TypeError('Incompatible X, Y inputs to %s' % name)
        if np.ndim(x) == 1 and np.ndim(y) == 1:
            nx, ny = len(x), len(y)
            rows, cols = np.shape(z)
            if name == 'pcolormesh' and not ((nx == cols or nx == cols + 1) and (ny == rows or ny == rows + 1)):
                raise TypeError('Dimensions of C are incompatible with X and/or Y')
            if name != 'pcolormesh' and not (nx == cols and ny == rows):
                raise TypeError('Length of x must match number of columns in z')
        CALLS.append({'name': name, 'args': a, 'kw': k})
        return Thing()

    def pcolormesh(self, *a, **k):
        return self._mesh('pcolormesh', a, k)

    def contourf(self, *a, **k):
        return self._mesh('contourf', a, k)

    def contour(self, *a, **k):
        return self._mesh('contour', a, k)

    def imshow(self, *a, **k):
        if np.ndim(a[0]) not in (2, 3):
            raise TypeError('Invalid shape for image data')
        alpha = k.get('alpha')
        if alpha is not None and np.ndim(alpha) > 0 and np.shape(alpha) != np.shape(a[0])[:2]:
            raise RuntimeError('Alpha has the wrong shape for the image')
        CALLS.append({'name': 'imshow', 'args': a, 'kw': k})
        return Thing()

    def __getattr__(self, name):
        return Any('ax.' + name)


def subplots(*a, **k):
    kw = k.get('subplot_kw')
    p = None
    if kw is not None:
        p = kw.get('projection')
    CALLS.append({'name': 'subplots', 'args': a, 'kw': k})
    return Thing(), Axes(p)


def axes(*a, **k):
    CALLS.append({'name': 'axes', 'args': a, 'kw': k})
    return Axes(k.get('projection'))


def colorbar(*a, **k):
    CALLS.append({'name': 'colorbar', 'args': a, 'kw': k})
    return Thing()
