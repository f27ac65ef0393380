""" Canonical, comparable, printable form of anything the public API returns. """
import itertools
from collections.abc import Mapping as MappingABC, Set as SetABC
from fractions import Fraction
from numbers import Integral, Rational

import numpy as np
import curver
from curver import kernel as K

try:
    from realalg import RealAlgebraic
except ImportError:  # pragma: no cover
    RealAlgebraic = ()

GENERATOR_ITEMS = 12
ORDERED = False  # Does the order of the items of a dictionary matter?

def skey(c): return repr(c)

def tri(T): return ('T',) + tuple(tuple(t.labels) for t in T)

def tri_short(T):
    return ('t', T.zeta, hash(tuple(int(x) for x in T.signature)))

class Raw:
    """ Stands for tri_short of a triangulation. """
    def __init__(self, T): self.T = T

def canon(x, depth=0):
    """ Return a nested tuple of strings and ints that describes the value of x. """
    if depth > 12: return '...'
    d = depth + 1
    if x is None or isinstance(x, (bool, np.bool_)): return repr(bool(x)) if x is not None else 'None'
    if isinstance(x, Integral): return int(x)
    if isinstance(x, str): return 's:' + x
    if isinstance(x, float): return repr(float(x))
    if isinstance(x, Rational): return ('Q', int(x.numerator), int(x.denominator))
    if isinstance(x, (bytes, complex)): return repr(x)
    if x is NotImplemented: return 'NotImplemented'
    if RealAlgebraic and isinstance(x, RealAlgebraic): return ('RA', repr(x), int(x * 10**12))
    if isinstance(x, np.ndarray): return ('arr', tuple(x.shape), tuple(canon(y, d) for y in x.flatten().tolist()))
    if isinstance(x, Raw): return tri_short(x.T)
    if isinstance(x, K.Triangulation): return tri(x)
    if isinstance(x, K.Lamination): return (type(x).__name__, tri_short(x.triangulation), tuple(canon(y, d) for y in x))
    if isinstance(x, K.Encoding):
        return (type(x).__name__, tri_short(x.source_triangulation), tri_short(x.target_triangulation), tuple(canon(m, d) for m in x))
    if isinstance(x, K.Move): return (type(x).__name__, tri_short(x.source_triangulation), tri_short(x.target_triangulation), canon(x.package(), d))
    if isinstance(x, K.HomologyClass): return ('HC', tri_short(x.triangulation), tuple(canon(y, d) for y in x))
    if isinstance(x, K.Edge): return ('e', int(x.label))
    if isinstance(x, K.Triangle): return ('tri', tuple(int(l) for l in x.labels))
    if isinstance(x, K.Permutation): return ('perm', tuple(int(y) for y in x))
    if isinstance(x, K.FiniteSubgroup): return ('fs', canon(dict((i, x[i]) for i in x), d))
    if isinstance(x, K.PartialLinearFunction): return ('PL', canon(x.action, d), canon(x.condition, d))
    if isinstance(x, K.MappingClassGroup): return ('mcg', tri_short(x.triangulation), canon(dict(x.mapping_classes), d), canon(dict(x.curves), d), canon(dict(x.arcs), d))
    if isinstance(x, K.CurveGraph): return ('cg', tri_short(x.triangulation))
    if isinstance(x, K.UnionFind): return ('uf', tuple(sorted((tuple(sorted((canon(y, d) for y in c), key=skey)) for c in x), key=skey)))
    if isinstance(x, K.StraightLineProgram): return ('slp', len(x), tuple(canon(y, d) for y in itertools.islice(iter(x), 64)))
    if isinstance(x, BaseException): return ('EXC', type(x).__name__)
    if isinstance(x, MappingABC) or type(x).__name__ == 'OrderedDict':
        if ORDERED: return ('od',) + tuple((canon(k, d), canon(v, d)) for k, v in x.items())
        return ('d',) + tuple(sorted(((canon(k, d), canon(v, d)) for k, v in x.items()), key=skey))
    if isinstance(x, SetABC): return ('S',) + tuple(sorted((canon(y, d) for y in x), key=skey))
    if isinstance(x, tuple) and hasattr(x, '_fields'): return ('nt', type(x).__name__) + tuple(canon(y, d) for y in x)
    if isinstance(x, (list, tuple)): return ('l',) + tuple(canon(y, d) for y in x)
    if hasattr(x, '__next__'):
        out = [canon(y, d) for y in itertools.islice(x, GENERATOR_ITEMS)]
        return ('gen',) + tuple(out)
    if hasattr(x, 'nodes') and hasattr(x, 'edges') and hasattr(x, 'adj'):
        return ('graph', tuple(sorted(((canon(n, d), canon(dict(a), d)) for n, a in x.nodes(data=True)), key=skey)), tuple(sorted((canon(tuple(e), d) for e in x.edges(data=True)), key=skey)))
    if isinstance(x, type): return ('type', x.__name__)
    if callable(x): return ('callable', getattr(x, '__name__', '?'))
    if type(x).__module__.startswith('curver') and hasattr(x, '__dict__'):
        return (type(x).__name__, canon({k: v for k, v in vars(x).items() if not k.startswith('_')}, d))
    if type(x).__module__.startswith('realalg'): return (type(x).__name__, repr(x))
    return ('?', type(x).__name__, repr(x) if not _default_repr(x) else '')

def _default_repr(x):
    return type(x).__repr__ is object.__repr__

def outcome(function, *args):
    """ Return the canonical form of the result or exception of function(*args).

    The canonicalisation of lazily produced results happens inside, so an exception there is part of the outcome. """
    try:
        return canon(function(*args))
    except Exception as error:  # pylint: disable=broad-except
        return ('EXC', type(error).__name__)
