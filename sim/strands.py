""" Laminations followed strand by strand on a plain triangulation (plain.Tri): their components, how often these meet, and
what is left of the surface when it is cut along them. Shares nothing with curver; for laminations of small integral weight. """
from plain import norm

class Strands:
    """ The strands of a lamination with integral weights. """
    def __init__(self, tri, weights):
        self.tri, self.w = tri, list(weights)
        self.n = [max(x, 0) for x in self.w]
        self.corner = {}
        for t in tri.triples:
            x, y, z = t
            xy, yz, zx, tx, ty, tz = tri.corners(self.w, x, y, z)
            assert all(isinstance(v, int) for v in (xy, yz, zx, tx, ty, tz)), 'not integral'
            # For each side: strands around its tail, strands to the vertex opposite it, strands around its head.
            self.corner[x], self.corner[y], self.corner[z] = (zx, tx, xy), (xy, ty, yz), (yz, tz, zx)
    def onward(self, m, p):
        """ Where the strand entering the triangle of m at position p along m goes: the next crossing, or None if it ends. """
        tri = self.tri
        near, mid, far = self.corner[m]
        n = self.n[norm(m)]
        if p < near: return ~tri.prev(m), p
        if p < near + mid: return None
        q = n - 1 - p
        y = tri.next[m]
        return ~y, self.n[norm(y)] - 1 - q
    def components(self):
        """ [(multiplicity, path)]; a path is ('edge', e), ('curve', crossings) or ('arc', crossings); the paths are pairwise different. """
        out = [(-w, ('edge', e)) for e, w in enumerate(self.w) if w < 0]
        seen = set()
        found = {}
        for e in range(self.tri.zeta):
            for p in range(self.n[e]):
                if (e, p) in seen: continue
                cross, at = [], (e, p)
                closed = False
                while at is not None:
                    m, q = at
                    seen.add((m, q) if m >= 0 else (~m, self.n[~m] - 1 - q))
                    cross.append(m)
                    at = self.onward(m, q)
                    if at == (e, p): closed = True; break
                if not closed:  # Backwards from where we began.
                    back, at = [], self.onward(~e, self.n[e] - 1 - p)
                    while at is not None:
                        m, q = at
                        seen.add((m, q) if m >= 0 else (~m, self.n[~m] - 1 - q))
                        back.append(m)
                        at = self.onward(m, q)
                    cross = [~m for m in reversed(back)] + cross
                path = ('curve' if closed else 'arc', cross)
                key = tuple(weights_of(self.tri, path))
                if key in found: found[key][0] += 1
                else: found[key] = [1, path]
        return out + [tuple(v) for v in found.values()]

def weights_of(tri, path):
    w = [0] * tri.zeta
    if path[0] == 'edge': w[path[1]] = -1
    else:
        for m in path[1]: w[norm(m)] += 1
    return w

def turn(tri, m, after):
    """ How a path that has just crossed m goes on: 1 right, -1 left, 0 into the vertex opposite. """
    if after is None: return 0
    if after == ~tri.next[m]: return 1
    assert after == ~tri.prev(m)
    return -1

class _Walk:
    """ A path with something before and after each crossing. """
    def __init__(self, path, reverse=False):
        self.closed = path[0] == 'curve'
        self.c = [~m for m in reversed(path[1])] if reverse else list(path[1])
        self.n = len(self.c)
    def at(self, i):
        if self.closed: return self.c[i % self.n]
        return self.c[i] if 0 <= i < self.n else None

def ends(tri, path):
    """ For an arc which is not an edge: the last crossing before each of its ends. """
    return [path[1][-1], ~path[1][0]] if path[0] == 'arc' else []

def meet(tri, one, two):
    """ How often two different paths meet, when they are pulled tight. """
    if one[0] == 'edge' or two[0] == 'edge':
        if one[0] == two[0]: return 0
        if two[0] == 'edge': one, two = two, one
        return weights_of(tri, two)[one[1]]
    total = 0
    a = _Walk(one)
    places = {}
    for i, m in enumerate(a.c): places.setdefault(m, []).append(i)
    for reverse in (False, True):
        b = _Walk(two, reverse)
        for j, m in enumerate(b.c):
            for i in places.get(m, ()):
                ba, bb = a.at(i - 1), b.at(j - 1)
                if ba is not None and ba == bb: continue  # Not the beginning of what they have in common.
                k = 0
                while True:
                    fa, fb = a.at(i + k + 1), b.at(j + k + 1)
                    if fa is None or fb is None or fa != fb: break
                    k += 1
                    assert k <= a.n + b.n, 'the paths are the same'
                last = a.at(i + k)
                f = turn(tri, last, fa) - turn(tri, last, fb)
                g = turn(tri, ~m, None if ba is None else ~ba) - turn(tri, ~m, None if bb is None else ~bb)
                if f * g > 0: total += 1
    # Pairs that have only a triangle in common.
    for p, q in ((one, two), (two, one)):
        for x in ends(tri, p):  # into the triangle of x, to the vertex opposite
            y, z = tri.next[x], tri.prev(x)
            w = _Walk(q)
            for j in range(w.n):
                m, after = w.at(j), w.at(j + 1)
                if (m, after) in ((y, ~z), (z, ~y)): total += 1
            if p is one: total += sum(1 for x2 in ends(tri, q) if x2 in (y, z))
    return total

def intersection(tri, ones, twos):
    """ The intersection number of two laminations given by their components. """
    total = 0
    for n, p in ones:
        for k, q in twos:
            if weights_of(tri, p) != weights_of(tri, q): total += n * k * meet(tri, p, q)
    return total

def tail_star(tri):
    """ {oriented edge: number of the vertex at its tail}. """
    return dict((x, i) for i, star in enumerate(tri.vertices()) for x in star)

def end_vertices(tri, path):
    at = tail_star(tri)
    if path[0] == 'edge': return [at[path[1]], at[~path[1]]]
    return [at[tri.prev(x)] for x in ends(tri, path)]

def is_link(tri, path):
    """ Does this curve go around a vertex? """
    if path[0] != 'curve': return False
    w = weights_of(tri, path)
    for star in tri.vertices():
        v = [0] * tri.zeta
        for x in star: v[norm(x)] += 1
        if v == w: return True
    return False

def regions(tri, comps):
    """ What is left when the surface is cut along these components (once along each): [(Euler characteristic, vertices inside, component)].
    Vertices inside count as part of it. """
    w = [0] * tri.zeta
    for _, p in comps:
        for i, v in enumerate(weights_of(tri, p)): w[i] += v
    s = Strands(tri, w)
    touched = set(v for _, p in comps if p[0] != 'curve' for v in end_vertices(tri, p))
    at = tail_star(tri)
    parent = {}
    def find(x):
        while parent[x] != x: x = parent[x]
        return x
    def join(x, y): parent[find(x)] = find(y)
    pieces = {}  # (side, gap) -> the piece of the triangle of side next to it; gaps run from the tail of side
    count = 0
    corner_piece = {}
    for t in tri.triples:
        local = {}
        def piece(key):
            nonlocal count
            if key not in local:
                local[key] = count; parent[count] = count; count += 1
            return local[key]
        for i in range(3):
            x = t[i]
            near, mid, far = s.corner[x]
            n = s.n[norm(x)]
            for g in range(n + 1):
                # Gap g is between strands g - 1 and g.
                if g < near: key = ('corner', i, g)  # cut off at the tail of x, g strands away from the vertex
                elif n - g < far: key = ('corner', (i + 1) % 3, n - g)
                elif mid == 0: key = 'middle'
                else: key = ('fan', i, g - near)
                pieces[x, g] = key
        mids = [s.corner[x][1] for x in t]
        for i in range(3):
            x = t[i]
            n = s.n[norm(x)]
            for g in range(n + 1):
                key = pieces[x, g]
                if any(mids):
                    j = next(k for k in range(3) if mids[k])
                    # Strands run from side j into the vertex opposite; what is outermost beside them touches the other two sides.
                    if key == 'middle' and i == (j + 1) % 3: key = ('fan', j, mids[j])
                    elif key == 'middle' and i == (j + 2) % 3: key = ('fan', j, 0)
                pieces[x, g] = piece(key)
            corner_piece[x] = pieces[x, 0]  # the piece at the tail of x in the triangle of x
    gaps = []
    for e in range(tri.zeta):
        if s.w[e] < 0: continue
        for g in range(s.n[e] + 1):
            a, b = pieces[e, g], pieces[~e, s.n[e] - g]
            join(a, b); gaps.append(a)
    chi, inside, comp = {}, {}, {}
    which = tri.components()
    for (x, _), p in pieces.items(): comp[find(p)] = which[x]
    for p in range(count): chi[find(p)] = chi.get(find(p), 0) + 1
    for a in gaps: chi[find(a)] -= 1
    for i, star in enumerate(tri.vertices()):
        if i in touched: continue
        r = find(corner_piece[star[0]])
        chi[r] += 1; inside[r] = inside.get(r, 0) + 1
    return [(chi[r], inside.get(r, 0), comp[r]) for r in chi]

def surfaces(tri):
    """ {component: (genus, vertices)}. """
    which = tri.components()
    out = {}
    for c in set(which.values()):
        V = sum(1 for star in tri.vertices() if which[star[0]] == c)
        F = sum(1 for t in tri.triples if which[t[0]] == c)
        E = sum(1 for e in range(tri.zeta) if which[e] == c)
        out[c] = ((2 - (V - E + F)) // 2, V)
    return out
