""" Snapshots of observable state: what public attributes of an object say, all the way down.

A snapshot is a number; `parts` gives the numbers of the attributes / items of one object, to say where it changed. """
import types
from collections.abc import Mapping as MappingABC, Set as SetABC
from fractions import Fraction
import numpy as np

SIMPLE = (bool, int, float, str, bytes, Fraction, complex)
NAMED = (type, types.FunctionType, types.MethodType, types.BuiltinFunctionType, types.ModuleType)
SLOTS = {}

def attributes(x):
    cls = type(x)
    slots = SLOTS.get(cls)
    if slots is None:
        slots = []
        for c in cls.__mro__:
            s = c.__dict__.get('__slots__', ())
            slots.extend([s] if isinstance(s, str) else s)
        SLOTS[cls] = slots = tuple(s for s in slots if not s.startswith('_'))
    out = [(s, getattr(x, s)) for s in slots if hasattr(x, s)]
    d = getattr(x, '__dict__', None)
    if d: out.extend((k, v) for k, v in d.items() if not k.startswith('_'))
    return out

def parts(x, seen):
    """ The pieces of the public state of x, as (label, number). """
    if isinstance(x, np.ndarray): return [('shape', hash(x.shape)), ('items', hash(repr(x.tolist())))]
    if isinstance(x, (list, tuple)): return [(i, snap(y, seen)) for i, y in enumerate(x)]
    if isinstance(x, MappingABC): return sorted((snap(k, seen), snap(v, seen)) for k, v in x.items())
    if isinstance(x, SetABC): return sorted((snap(y, seen), 0) for y in x)
    return sorted((k, snap(v, seen)) for k, v in attributes(x))

def snap(x, seen):
    """ A number for the public state of x. seen: object -> number within one pass. """
    if x is None or isinstance(x, SIMPLE): return hash((type(x).__name__, x))
    got = seen.get(id(x))
    if got is not None: return got[0]
    seen[id(x)] = (hash(type(x).__name__), x)
    if isinstance(x, (np.ndarray, list, tuple, MappingABC, SetABC)): out = hash((type(x).__name__, tuple(parts(x, seen))))
    elif isinstance(x, NAMED): out = hash(getattr(x, '__name__', '?'))
    elif hasattr(x, '__next__'): out = 1
    elif type(x).__module__.split('.')[0] == 'curver': out = hash((type(x).__name__, tuple(parts(x, seen))))
    else: out = hash((type(x).__name__, repr(x) if type(x).__repr__ is not object.__repr__ else ''))
    seen[id(x)] = (out, x)
    return out

class Watch:
    """ Remembers the state of objects. """
    def __init__(self): self.items = []
    def add(self, label, x, seen=None):
        seen = {} if seen is None else seen
        self.items.append((label, x, snap(x, seen), parts(x, seen)))
    def check(self):
        """ The first object that changed: (label, where), or None. """
        seen = {}
        for label, x, before, pieces in self.items:
            if snap(x, seen) == before: continue
            now = dict(parts(x, {}))
            where = [str(k) for k, v in pieces if now.get(k) != v and v != hash(('NoneType', None))]
            if type(x).__module__.split('.')[0] == 'curver':
                if where: return label, 'attribute ' + ', '.join(where)
                continue  # Only new attributes, or ones that were None: nothing observable was lost.
            return label, f'now {x!r:.200}'
        return None
