"""Stand-ins for matplotlib axes that only record what they are asked to draw."""


class FakeArtist:
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *args, **kwargs: None


class _Recorder:
    def __init__(self):
        self.calls = []

    def _note(self, name, args, kwargs):
        from .values import enc

        self.calls.append((name, enc(args), tuple((k, enc(v)) for k, v in sorted(kwargs.items()))))
        return FakeArtist()


def make_axes(dim, base=None):
    """A stub axes; the 3D one passes isinstance checks against Axes3D."""
    if dim == 2:
        base = object
    elif base is None:
        from mpl_toolkits.mplot3d import Axes3D

        base = Axes3D

    class FakeAxes(base):
        def __init__(self):
            object.__setattr__(self, 'recorder', _Recorder())

        def __repr__(self):
            return f'FakeAxes({dim})'

        def __getattr__(self, name):
            if name.startswith('__') or name in ('recorder', 'figure', 'stale'):
                raise AttributeError(name)
            return lambda *args, **kwargs: self.recorder._note(name, args, kwargs)

    for name in ('scatter', 'plot', 'plot_surface', 'plot_wireframe', 'quiver', 'arrow', 'add_patch', 'add_artist',
                 'text', 'annotate', 'fill', 'axhline', 'axline', 'set_xlim', 'set_ylim', 'set_zlim', 'add_collection3d',
                 'plot_trisurf', 'get_xlim', 'get_ylim', 'get_zlim', 'add_line', 'add_collection', 'autoscale_view'):
        def method(self, *args, _name=name, **kwargs):
            return self.recorder._note(_name, args, kwargs)

        setattr(FakeAxes, name, method)
    return FakeAxes()
