"""Specifications of values, canonical encodings of results, and fingerprints of operands."""

import math
import re

import numpy as np

from . import boot

ATTRS = {
    'Line': ('point', 'direction', 'vector', 'dimension'),
    'LineSegment': ('point_a', 'point_b', 'dimension'),
    'Plane': ('point', 'normal', 'vector', 'dimension'),
    'Circle': ('point', 'radius', 'dimension'),
    'Sphere': ('point', 'radius', 'dimension'),
    'Cylinder': ('point', 'vector', 'radius', 'dimension'),
    'Triangle': ('point_a', 'point_b', 'point_c', 'dimension'),
    'Vector': ('dimension',),
    'Point': ('dimension',),
    'Points': ('dimension',),
}
ARRAYS = ('Vector', 'Point', 'Points')
_ADDRESS = re.compile(r'0x[0-9a-fA-F]+')


def scrub(text):
    return _ADDRESS.sub('0x', text)


def classes():
    import skspatial.objects as objects

    return objects


# --------------------------------------------------------------------------------------------------------------
# Specifications -> objects.

def build_array(spec):
    values = np.array(spec['v'], dtype=spec.get('dt'))
    layout = spec.get('lay')
    if layout == 's2' and values.ndim >= 1 and values.shape[-1]:
        wide = np.zeros(values.shape[:-1] + (2 * values.shape[-1],), dtype=values.dtype)
        wide[..., ::2] = values
        values = wide[..., ::2]
    elif layout == 'rev':
        values = values[..., ::-1].copy()[..., ::-1]
    elif layout == 'F' and values.ndim == 2:
        values = np.asfortranarray(values)
    elif layout == 'ro':
        values.flags.writeable = False
    return values


class Lazy:
    """A lazily evaluated array_like: reading it is a step, at which the run may be interrupted or switched."""

    def __init__(self, values):
        self.values = values

    def __array__(self, dtype=None, copy=None):
        if boot.sim is not None:
            boot.sim.read(Lazy.__array__.__code__)
        return np.array(self.values, dtype=dtype)

    def __repr__(self):
        return f'Lazy({self.values})'


class Broken:
    """Stands for an operand whose own constructor rejects it."""

    def __repr__(self):
        return 'Broken()'


def build(spec, pool=None):
    """Make the value a specification describes; references are looked up in the pool."""
    try:
        # Operands are made before the call under test, whatever its caller makes of floating-point errors.
        with np.errstate(divide='warn', over='warn', under='ignore', invalid='warn'):
            return _build(spec, pool)
    except (ValueError, TypeError, AttributeError, ArithmeticError, Warning):
        return Broken()


def maker(spec):
    """The class that makes the object: the library's, or one that a user derived from it."""
    if spec.get('sub'):
        from . import usertypes

        return getattr(usertypes, 'My' + spec['c'])
    return getattr(classes(), spec['c'])


def _build(spec, pool=None):
    k = spec['k']
    if k == 'num':
        value = spec['v']
        return np.dtype(spec['dt']).type(value) if 'dt' in spec else value
    if k == 'lit':
        return spec['v']
    if k == 'list':
        return _thaw_list(spec['v'])
    if k == 'tuple':
        return _thaw_tuple(spec['v'])
    if k == 'arr':
        array = build_array(spec)
        c = spec.get('c', 'ndarray')
        if c == 'ndarray':
            return array
        value = maker(spec)(array)
        if 'lay' in spec and isinstance(value, np.ndarray) and not np.shares_memory(value, array):
            # The constructor made a copy, as for Points; a view keeps the layout.
            value = array.view(type(value))
        return value
    if k == 'obj':
        value = maker(spec)(*[build(a, pool) for a in spec['a']])
        for name, x in sorted(spec.get('x', {}).items()):
            setattr(value, name, x)
        return value
    if k == 'lazy':
        return Lazy(_thaw_list(spec['v']))
    if k == 'axes':
        from .fakes import make_axes

        return make_axes(spec['d'])
    if k == 'many':
        return [build(a, pool) for a in spec['v']]
    if k == 'ref':
        value = pool[spec['n']]
        for name in spec.get('path', ()):
            value = getattr(value, name)
        return value
    raise ValueError(k)


def _thaw_list(v):
    return [_thaw_list(x) for x in v] if isinstance(v, (list, tuple)) else v


def _thaw_tuple(v):
    return tuple(_thaw_tuple(x) for x in v) if isinstance(v, (list, tuple)) else v


def names_in(spec, out=None):
    """Names of the pool objects a specification or operation refers to."""
    out = set() if out is None else out
    if isinstance(spec, dict):
        if spec.get('k') == 'ref':
            out.add(spec['n'])
        for v in spec.values():
            names_in(v, out)
    elif isinstance(spec, (list, tuple)):
        for v in spec:
            names_in(v, out)
    return out


# --------------------------------------------------------------------------------------------------------------
# Results -> canonical encodings.

def is_spatial(x):
    return type(x).__module__.startswith(('skspatial.', 'sim.usertypes'))


def attributes(x):
    names = list(ATTRS.get(type(x).__name__.removeprefix('My'), ()))
    for name in vars(x):
        if not name.startswith('_') and name not in names:
            names.append(name)
    return names


def enc(x, depth=0):
    if x is None or x is True or x is False:
        return ('c', x)
    t = type(x)
    if t is float:
        return ('f', x.hex() if math.isfinite(x) else repr(x))
    if t is int:
        return ('i', x)
    if t is str:
        return ('s', scrub(x))
    if t is bytes:
        return ('b', x)
    if isinstance(x, np.ndarray):
        body = x.tobytes() if x.dtype != object else tuple(enc(y, depth + 1) for y in np.asarray(x).ravel().tolist())
        extra = ()
        if is_spatial(x):
            extra = tuple((n, _attr(x, n, depth)) for n in attributes(x))
        return ('a', t.__name__, x.dtype.str, x.shape, body, extra)
    if isinstance(x, np.generic):
        return ('g', x.dtype.str, x.tobytes() if x.dtype != object else repr(x))
    if t in (list, tuple):
        return (t.__name__, tuple(enc(y, depth + 1) for y in x))
    if t is dict:
        return ('d', tuple((enc(k), enc(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, BaseException):
        return ('exc', t.__module__ + '.' + t.__qualname__, scrub(str(x)))
    if is_spatial(x) and depth < 6 and not callable(x):
        return ('o', t.__name__, tuple((n, _attr(x, n, depth)) for n in attributes(x)))
    if callable(x):
        return ('fn',)
    if isinstance(x, tuple):
        return ('nt', t.__name__, tuple(enc(y, depth + 1) for y in x))
    return ('x', t.__name__, scrub(repr(x)))


def _attr(x, name, depth):
    try:
        return enc(getattr(x, name), depth + 1)
    except BaseException as error:
        if not isinstance(error, Exception):
            raise
        return ('raise', type(error).__name__)


def same(a, b):
    """Equality of encodings, up to the last bits of floating-point numbers."""
    if a == b:
        return True
    if type(a) is not type(b):
        return False
    if not isinstance(a, tuple) or len(a) != len(b) or not a or a[0] != b[0]:
        return False
    tag = a[0]
    if tag == 'a' and isinstance(a[4], bytes) and isinstance(b[4], bytes):
        if a[1:4] != b[1:4] or not same(a[5], b[5]):
            return False
        return _near(np.frombuffer(a[4], dtype=a[2]), np.frombuffer(b[4], dtype=b[2]))
    if tag == 'g' and a[1] == b[1] and isinstance(a[2], bytes):
        return _near(np.frombuffer(a[2], dtype=a[1]), np.frombuffer(b[2], dtype=b[1]))
    if tag == 'f':
        return _near(np.array([_unhex(a[1])]), np.array([_unhex(b[1])]))
    if tag in ('i', 's', 'b', 'c', 'fn', 'exc', 'x'):
        return False
    return len(a) == len(b) and all(x == y or same(x, y) for x, y in zip(a, b))


def native(e):
    """The encoding with every array in the byte order of this machine: pickling in NumPy does not keep the order."""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == 'a' and isinstance(e[4], bytes) and e[2][:1] == '>':
        t = np.dtype(e[2])
        body = np.frombuffer(e[4], dtype=t).astype(t.newbyteorder('=')).tobytes()
        return ('a', e[1], t.newbyteorder('=').str, e[3], body, native(e[5]))
    if e[0] == 'g' and isinstance(e[2], bytes) and e[1][:1] == '>':
        t = np.dtype(e[1])
        return ('g', t.newbyteorder('=').str, np.frombuffer(e[2], dtype=t).astype(t.newbyteorder('=')).tobytes())
    if e[0] in ('s', 'x', 'exc'):
        return tuple(_native_text(x) if isinstance(x, str) else native(x) for x in e)
    return tuple(native(x) for x in e)


def _native_text(text):
    """Text that quotes types, without their byte order."""
    text = re.sub(r"dtype\('[<>=]([fiu]\d+)'\)", lambda m: f"dtype('{np.dtype(m.group(1)).name}')", text)
    return re.sub(r",\s*dtype='>[a-z]\d+'|>(?=[fiu]\d)|<(?=[fiu]\d)", '', text)


def _unhex(text):
    try:
        return float.fromhex(text)
    except ValueError:
        return float(text)


def _near(x, y):
    if x.dtype.kind not in 'fc' or x.shape != y.shape:
        return False
    scale = np.maximum(np.abs(x), np.abs(y)).max(initial=0.0)
    eps = 1e-14 if x.dtype.itemsize >= 8 else 1e-6
    with np.errstate(all='ignore'):
        return bool(np.array_equal(x, y, equal_nan=True) or (np.abs(x - y) <= eps * scale).all())


def show(e, limit=300):
    """A short human-readable form of an encoding."""
    text = _show(e)
    return text if len(text) <= limit else text[:limit] + '...'


def _show(e):
    if not isinstance(e, tuple) or not e:
        return repr(e)
    tag = e[0]
    if tag == 'ret':
        return f'returned {_show(e[1])}'
    if tag == 'raise' and len(e) == 2 and isinstance(e[1], tuple):
        return f'raised {_show(e[1])}'
    if tag == 'exc':
        return f'{e[1].removeprefix("builtins.")}({e[2]!r})'
    if tag == 'a':
        values = np.frombuffer(e[4], dtype=e[2]).reshape(e[3]).tolist() if isinstance(e[4], bytes) else _show(e[4])
        extra = '' if not e[5] else ' ' + ' '.join(f'{n}={_show(v)}' for n, v in e[5])
        return f'{e[1]}<{e[2]}>({values}{extra})'
    if tag == 'g':
        value = np.frombuffer(e[2], dtype=e[1])[0].item() if isinstance(e[2], bytes) else e[2]
        return f'{value!r}<{e[1]}>'
    if tag == 'f':
        return repr(_unhex(e[1]))
    if tag in ('i', 'c', 's', 'b'):
        return repr(e[1])
    if tag == 'o':
        return f'{e[1]}({", ".join(f"{n}={_show(v)}" for n, v in e[2])})'
    if tag in ('tuple', 'list'):
        return f'{tag}({", ".join(_show(x) for x in e[1])})'
    return repr(e)


# --------------------------------------------------------------------------------------------------------------
# Fingerprints: what an onlooker can see of an operand.

def fingerprint(x, depth=0):
    t = type(x)
    if isinstance(x, np.ndarray):
        body = x.tobytes() if x.dtype != object else repr(x)
        seen = (t.__name__, x.dtype.str, x.shape, x.strides, x.flags.writeable, body)
        if is_spatial(x):
            seen += tuple((n, _finger_attr(x, n, depth)) for n in attributes(x))
        owner = x.base
        if isinstance(owner, np.ndarray):
            while isinstance(owner.base, np.ndarray):
                owner = owner.base
            # The array it is a view of, with the elements around the view.
            around = owner.tobytes() if owner.dtype != object and x.nbytes < owner.nbytes <= 4096 else None
            seen += (owner.shape, owner.strides, owner.flags.writeable, around)
        return seen
    if t is list or t is tuple:
        return (t.__name__,) + tuple(fingerprint(y, depth + 1) for y in x)
    if t is dict:
        return ('dict',) + tuple((k, fingerprint(v, depth + 1)) for k, v in x.items())
    if t is float:
        return ('float', x.hex() if x == x else 'nan')
    if isinstance(x, np.generic):
        return (t.__name__, x.tobytes() if x.dtype != object else repr(x))
    if x is None or t in (int, str, bool, bytes):
        return (t.__name__, x)
    if t is Lazy:
        return ('Lazy', fingerprint(x.values, depth + 1))
    if is_spatial(x) and depth < 6 and not callable(x):
        return (t.__name__,) + tuple((n, _finger_attr(x, n, depth)) for n in attributes(x))
    return (t.__name__,)


def _finger_attr(x, name, depth):
    try:
        return fingerprint(getattr(x, name), depth + 1)
    except Exception as error:
        return ('raise', type(error).__name__)


def arrays_in(x, out=None, depth=0):
    """All arrays reachable from a result or operand."""
    out = [] if out is None else out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)) and depth < 6:
        for y in x:
            arrays_in(y, out, depth + 1)
    elif is_spatial(x) and depth < 6 and not callable(x):
        for n in attributes(x):
            try:
                arrays_in(getattr(x, n), out, depth + 1)
            except Exception:
                pass
    return out


# --------------------------------------------------------------------------------------------------------------
# In-place changes made by the owner of an object.

def write(array, step):
    """Perform the in-place change on an array (of the library or of the model)."""
    how = step['how']
    if how == 'set':
        array[tuple(step['i'])] = step['v']
    elif how == 'fill_row':
        array[...] = np.array(step['v'], dtype=array.dtype)
    elif how == 'iadd':
        array += np.array(step['v']).astype(array.dtype)
    elif how == 'imul':
        array *= np.array(step['v']).astype(array.dtype)
    elif how == 'out':
        np.add(array, np.array(step['v']).astype(array.dtype), out=array)
    elif how == 'flip':
        array[...] = np.array(array[::-1])
    elif how == 'copyto':
        np.copyto(array, np.array(step['v']).astype(array.dtype))
    elif how == 'put':
        array.put(step['flat'], step['v'])
    else:
        raise ValueError(how)


def write_list(obj, step):
    for i in step['i'][:-1]:
        obj = obj[i]
    obj[step['i'][-1]] = step['v']


def change(obj, step):
    """Perform the in-place change of an object of the pool, or of one of its attributes."""
    if step['do'] == 'scalar':
        setattr(obj, step['attr'], step['v'])
        return
    if 'attr' in step:
        obj = getattr(obj, step['attr'])
    if isinstance(obj, list):
        write_list(obj, step)
    else:
        write(obj, step)
