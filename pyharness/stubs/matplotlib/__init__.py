"""Stand-in for matplotlib: importable, draws nothing. Calls on pyplot are recorded in `calls`."""
import importlib.abc, importlib.machinery, sys, types
calls = []


class Anything:
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return Anything()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()

    def __getitem__(self, i):
        return Anything()

    def __iter__(self):
        return iter([Anything() for _ in range(16)])

    def __len__(self):
        return 16


class Recorder(Anything):
    """An attribute of the axes: a call is recorded like that of the function of pyplot"""

    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        calls.append((self.name, a, k))
        return Anything()


# ------------------------------------------------------------------------------------- what is drawn
class Collection:
    """Keeps what it is given"""
    _A = _alpha = None

    def __init__(self, *args, **kwargs):
        self.offsets, self.kwargs, self.array, self.axes = kwargs.pop('offsets', None), kwargs, None, None
        self.position3d = None

    def set_array(self, a):
        self.array = a

    def get_offsets(self):
        return self.offsets

    def set_offsets(self, v):
        self.offsets = v

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *a, **k: None


class LineCollection(Collection):
    def __init__(self, segments, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.segments = segments


class Patch(Anything):
    """A polygon which is added to the axes"""

    def __init__(self, xy, closed=True, **kwargs):
        self.xy, self.closed, self.kwargs = xy, closed, kwargs


class Axes(Anything):
    def __init__(self, name='rectilinear'):
        self.name, self.drawn = name, []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Recorder(name)

    def add_collection(self, c, *a, **k):
        self.drawn.append(c)
        return c

    add_collection3d = add_collection

    def get_xlim(self):
        return 0.0, 1.0

    get_ylim = get_zlim = get_xlim

    def get_xticks(self):
        import numpy as np
        return np.linspace(0, 1, 3)

    get_yticks = get_xticks

    def has_data(self):
        return bool(self.drawn)

    def get_legend_handles_labels(self):
        return [], []

    def get_figure(self):
        return types.SimpleNamespace(bbox_inches=types.SimpleNamespace(width=4.0, height=4.0), bbox=types.SimpleNamespace(width=400.0, height=400.0))

    def get_position(self):
        return types.SimpleNamespace(width=0.8, height=0.8)


def to_rgb(c):
    named = dict(white=(1, 1, 1), black=(0, 0, 0), red=(1, 0, 0), green=(0, 0.5, 0), blue=(0, 0, 1))
    if isinstance(c, str):
        if c in named:
            return named[c]
        if c.startswith('#'):
            return tuple(int(c[i:i + 2], 16) / 255 for i in (1, 3, 5))
        return (float(c),) * 3
    return tuple(c)[:3]


class ListedColormap:
    def __init__(self, colors, *a, **k):
        self.colors = [to_rgb(c) for c in colors]


class BoundaryNorm:
    def __init__(self, boundaries, ncolors, *a, **k):
        self.boundaries, self.ncolors = boundaries, ncolors


def project(xs, ys, zs, M):
    import numpy as np
    xs, ys, zs = np.broadcast_arrays(*(np.asarray(v, float) for v in (xs, ys, zs)))
    return tuple(np.asarray(M, float) @ np.stack([xs, ys, zs])) + (np.ones(len(xs), bool),)


current_axes = [None]
SPECIAL = {
    'matplotlib.pyplot': dict(Polygon=Patch, gca=lambda *a, **k: current_axes[0] or Anything(), xlim=lambda *a, **k: (0.0, 1.0), ylim=lambda *a, **k: (0.0, 1.0)),
    'matplotlib.patches': dict(Polygon=Patch),
    'matplotlib.collections': dict(Collection=Collection, LineCollection=LineCollection),
    'mpl_toolkits.mplot3d.art3d': dict(Line3DCollection=LineCollection, juggle_axes=lambda xs, ys, zs, zdir: (xs, ys, zs), zalpha=lambda colors, zs: colors),
    'mpl_toolkits.mplot3d': dict(proj3d=types.SimpleNamespace(proj_transform_clip=project, proj_transform=project)),
    'matplotlib.colors': dict(colorConverter=types.SimpleNamespace(to_rgb=to_rgb, to_rgba=lambda c, *a: to_rgb(c) + (1,), to_rgba_array=lambda c, *a: c), to_rgb=to_rgb,
                              ListedColormap=ListedColormap, BoundaryNorm=BoundaryNorm),
}


class Module(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in SPECIAL.get(self.__name__, ()):
            return SPECIAL[self.__name__][name]
        if name[:1].isupper():
            return type(name, (Anything,), {})

        def f(*a, **k):
            calls.append((name, a, k))
            return Anything()
        return f


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.startswith(('matplotlib.', 'mpl_toolkits')):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        return Module(spec.name)

    def exec_module(self, module):
        pass


sys.meta_path.insert(0, Finder())
rcParams = {}


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return Anything()
