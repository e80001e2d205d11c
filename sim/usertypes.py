"""Classes a user derives from those of the library; importable by name, as pickling requires."""

from skspatial import objects

for _name in ('Vector', 'Point', 'Points', 'Line', 'LineSegment', 'Plane', 'Circle', 'Sphere', 'Cylinder', 'Triangle'):
    globals()[f'My{_name}'] = type(f'My{_name}', (getattr(objects, _name),), {'__module__': __name__, '__doc__': 'Derived.'})
