""" Worlds: named pools of cold (never queried) curver objects described by plain data.

A world is generated once (genworlds.py) and committed as JSON; build(spec) makes its objects anew in any process
through the public constructors, so two builds are equal objects which share nothing. """
import pickle
from fractions import Fraction
import curver
from curver import kernel as K

def weight(w):
    return Fraction(w) if isinstance(w, str) else w

def decode_item(item):
    if item is None or isinstance(item, int): return item
    if 'rel' in item:
        n = len(item['rel']) // 2
        return dict((i - n, l) for i, l in enumerate(item['rel']))  # labels -n .. n-1
    if 'map' in item: return dict((int(k), v) for k, v in item['map'])
    if 'mf' in item: return set(item['mf'])
    if 'tw' in item: return (item['tw'][0], item['tw'][1])
    raise ValueError(item)

def encode_item(item):
    """ The inverse of decode_item for the packages that moves give. """
    if item is None: return None
    if isinstance(item, (int, K.Edge)): return int(getattr(item, 'label', item))
    if isinstance(item, dict): return {'map': sorted([int(getattr(k, 'label', k)), int(getattr(v, 'label', v))] for k, v in item.items())}
    if isinstance(item, (set, frozenset)): return {'mf': sorted(int(getattr(e, 'label', e)) for e in item)}
    if isinstance(item, tuple) and len(item) == 2: return {'tw': [int(getattr(item[0], 'label', item[0])), int(item[1])]}
    raise ValueError(item)

def make(spec, objs):
    kind = spec[0]
    if kind == 'T': return K.Triangulation.from_tuple([tuple(t) for t in spec[1]])
    if kind == 'lam': return objs[spec[1]]([weight(w) for w in spec[2]])
    if kind == 'hc': return K.HomologyClass(objs[spec[1]], list(spec[2]))
    if kind == 'enc': return objs[spec[1]].encode([decode_item(i) for i in spec[2]])
    if kind == 'mcg':
        return K.MappingClassGroup(curves=dict((n, objs[spec[1]](list(w))) for n, w in spec[2]), arcs=dict((n, objs[spec[1]](list(w))) for n, w in spec[3]))
    if kind == 'crush': return objs[spec[1]].crush()
    if kind == 'fs':
        h = objs[spec[1]].encode([decode_item(i) for i in spec[2]])
        return K.FiniteSubgroup(dict((i, h**i) for i in range(spec[3])), [1] if spec[3] > 1 else [0])
    if kind == 'perm': return K.Permutation(list(spec[1]))
    if kind == 'uf':
        U = K.UnionFind(list(range(spec[1])))
        for a, b in spec[2]: U.union(a, b)
        return U
    if kind == 'slp': return K.SLP([list(x) if isinstance(x, list) else x for x in spec[1]])
    if kind == 'cg': return K.CurveGraph(objs[spec[1]])
    raise ValueError(kind)

def build(world, names=None):
    """ Return {name: object}. If names is given build only these and what they need. """
    specs = dict((name, spec) for name, spec in world['objs'])
    wanted = None
    if names is not None:
        wanted = set()
        stack = [n for n in names if n in specs]
        while stack:
            n = stack.pop()
            if n in wanted: continue
            wanted.add(n)
            spec = specs[n]
            if len(spec) > 1 and isinstance(spec[1], str) and spec[1] in specs: stack.append(spec[1])
    objs = {}
    for name, spec in world['objs']:
        if wanted is None or name in wanted:
            objs[name] = make(spec, objs)
    return objs

def chill(world, objs):
    """ Equal objects, sharing what the given ones share, which have never been asked anything: pickles hold values only. """
    kinds = dict((name, spec[0]) for name, spec in world['objs'])
    some = dict((n, o) for n, o in objs.items() if kinds[n] in ('T', 'lam', 'hc', 'enc', 'fs'))
    try: cold = pickle.loads(pickle.dumps(some))
    except Exception: return objs  # pylint: disable=broad-except
    return dict(objs, **cold)
