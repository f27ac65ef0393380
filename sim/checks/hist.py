""" Histories of moves on plain data: what C08 and C09 have in common. """
import engine, plain, world as W
from fractions import Fraction

def number(w):
    """ Weights are whole numbers unless they are written as strings. """
    return Fraction(w) if isinstance(w, str) else w

def spell(w):
    return str(w) if isinstance(w, Fraction) else w

def decode(items): return [W.decode_item(i) for i in items]

def encode(item):
    if item is None or isinstance(item, int): return item
    if isinstance(item, dict): return {'map': sorted([k, v] for k, v in item.items())}
    if isinstance(item, (set, frozenset)): return {'mf': sorted(item)}
    return {'tw': list(item)}

def tri_of(T): return plain.Tri([list(t.labels) for t in T])

def make_tri(P):
    from curver import kernel as K
    return K.Triangulation.from_tuple([tuple(t) for t in P.triples])

def new_item(R, tri, twists=True, power=3):
    """ A random move that makes sense on this triangulation. """
    every = range(-tri.zeta, tri.zeta)
    flippable = [e for e in every if tri.flippable(e)]
    r = R.random()
    if r < .4 or not twists and r < .7: return R.choice(flippable)
    if r < .52:
        out, used = set(), set()
        R.shuffle(flippable)
        want = R.choice([1, 2, 2, 3, 4])
        for e in flippable:
            two = {min(tri.triangle(e)), min(tri.triangle(~e))}
            if not two & used and len(out) < want: out.add(e); used |= two
        return out
    if r < .62 or not twists:
        if R.random() < .1: return None
        p = list(range(tri.zeta))
        if R.random() < .8: R.shuffle(p)
        m = dict((i, p[i] if R.random() < .5 else ~p[i]) for i in range(tri.zeta))
        if R.random() < .3: m = dict((i, x) if R.random() < .5 else (~i, ~x) for i, x in m.items())
        if R.random() < .3: m = plain.perm_of(m, tri.zeta)
        return m
    e = R.choice(list(every))
    p = R.choice([-1, 1]) * R.choice([1, 1, 2, R.randint(1, power)])
    return (e, p)

def new_history(R, tri, n, **kw):
    items = []
    for _ in range(n):
        item = new_item(R, tri, **kw)
        items.append(item)
        tri = plain.act(tri, item)[0]
    return items

def closed_history(R, tri, n):
    """ A history that comes back to where it began: twists carried along some flips, or an unfolded twist. """
    r = R.random()
    if r < .25:
        e = R.randrange(-tri.zeta, tri.zeta)
        out = list(plain.expand(tri, e, R.random() < .5))
        if out: return out
    pre = new_history(R, tri, R.randint(0, 3))
    now = tri
    for item in pre: now = plain.act(now, item)[0]
    mid = []
    while len(mid) < n:
        item = new_item(R, now)
        if isinstance(item, tuple): mid.append(item)
    return pre + mid + plain._undo(tri, pre)

def tracked(R, world, tri, n, kinds=('lam', 'hc')):
    """ n laminations and classes of the world, on T: [kind, numbers]. """
    out = []
    pool = [[s[0], list(s[2])] for _, s in world['objs'] if s[0] in kinds and s[1] == 'T']
    for _ in range(n):
        r = R.random()
        if r < .75 or 'lam' not in kinds: out.append(R.choice(pool))
        elif r < .85: out.append(['lam', [-R.randint(1, 3) if R.random() < .4 else 0 for _ in range(tri.zeta)]])
        elif r < .92: out.append(['lam', _vertex_link(tri, R.choice(tri.vertices()), R.randint(1, 3))])
        else: out.append(['lam', [str(Fraction(R.randint(0, 5), R.choice([1, 2, 3]))) for _ in range(tri.zeta)]])
    return out

def _vertex_link(tri, star, m):
    w = [0] * tri.zeta
    for x in star: w[plain.norm(x)] += m
    return w

def build(T, spec):
    """ The curver object of a tracked thing. """
    from curver import kernel as K
    if spec[0] == 'hc': return K.HomologyClass(T, list(spec[1]))
    return T([number(w) for w in spec[1]])

def numbers(x): return list(x)

class Bad(Exception):
    """ A violation: (class, text). """

def inexact(w): return [v for v in w if not isinstance(v, int)]
