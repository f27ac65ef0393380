""" A plain model of the histories of moves, written from the definitions and sharing nothing with curver.

A triangulation is a set of triples of labels (x and ~x are the two orientations of an edge, triples are anticlockwise),
a lamination is the list of its weights, a homology class is a list of coefficients of a chain of edges. What a flip
does to a lamination is found by following its strands through the square; what it does to a chain by pushing the chain
off the edge; what a twist does to the edges by drawing the twisted paths and pulling them tight. """
from fractions import Fraction

def half(x):
    if isinstance(x, int): return x // 2 if x % 2 == 0 else Fraction(x, 2)
    return x / 2

def norm(x): return x if x >= 0 else ~x

class Tri:
    """ A labelled triangulation. """
    def __init__(self, triples):
        rot = lambda t: min((tuple(t[i:]) + tuple(t[:i]) for i in range(3)), key=lambda u: u[0])
        self.triples = tuple(sorted(rot(list(t)) for t in triples))
        self.zeta = len(self.triples) * 3 // 2
        self.next = {}
        for a, b, c in self.triples: self.next[a], self.next[b], self.next[c] = b, c, a
        assert sorted(self.next) == list(range(-self.zeta, self.zeta)), triples
    def __eq__(self, other): return self.triples == other.triples
    def triangle(self, x): return (x, self.next[x], self.next[self.next[x]])
    def prev(self, x): return self.next[self.next[x]]
    def acw(self, x):
        """ The next edge out of the tail of x, anticlockwise. """
        return ~self.prev(x)
    def star(self, x):
        """ The edges out of the tail of x, anticlockwise from x. """
        out = [x]
        while self.acw(out[-1]) != x: out.append(self.acw(out[-1]))
        return out
    def same_triangle(self, x, y): return y in self.triangle(x)
    def flippable(self, x): return not self.same_triangle(x, ~x)
    def loop(self, x): return ~x in self.star(x)
    def components(self):
        seen, out = {}, 0
        for x in range(-self.zeta, self.zeta):
            if x in seen: continue
            stack = [x]
            while stack:
                y = stack.pop()
                if y in seen: continue
                seen[y] = out
                stack.extend([~y, self.next[y]])
            out += 1
        return seen
    def vertices(self):
        left, out = set(self.next), []
        while left:
            s = self.star(min(left)); out.append(s); left -= set(s)
        return out

    # --- flips
    def square(self, e):
        """ a, b, c, d where (e, a, b) and (~e, c, d) are the triangles at e. """
        return self.next[e], self.prev(e), self.next[~e], self.prev(~e)
    def flip(self, e):
        a, b, c, d = self.square(e)
        rest = [t for t in self.triples if e not in t and ~e not in t]
        return Tri(rest + ([(e, d, a), (~e, b, c)] if e >= 0 else [(~e, d, a), (e, b, c)]))
    def relabel(self, m): return Tri([tuple(m[x] for x in t) for t in self.triples])

    # --- laminations
    def corners(self, w, x, y, z):
        """ Strands of the triangle (x, y, z): those cutting off corners xy, yz, zx and those running from a side into the vertex opposite: (xy, yz, zx, x, y, z). """
        a, b, c = (max(w[norm(s)], 0) for s in (x, y, z))
        if a > b + c: return b, 0, c, a - b - c, 0, 0
        if b > a + c: return a, c, 0, 0, b - a - c, 0
        if c > a + b: return 0, b, a, 0, 0, c - a - b
        return half(a + b - c), half(b + c - a), half(c + a - b), 0, 0, 0
    def consistent(self, w):
        """ Is this the weight of a lamination in which strands can be followed (and whole ones if the weights are whole)? """
        for x, y, z in self.triples:
            cs = self.corners(w, x, y, z)
            if all(isinstance(w[norm(s)], int) for s in (x, y, z)) and not all(isinstance(v, int) for v in cs): return False
        return True
    def flip_weights(self, w, e):
        """ The weights after flipping e: follow the strands that cross e from one triangle into the other. """
        a, b, c, d = self.square(e)
        ea, ab, be, te, ta, tb = self.corners(w, e, a, b)
        ec, cd, de, te2, tc, td = self.corners(w, ~e, c, d)
        # Seen from the head of e: near it are the corners ea and de, far from it are be and ec.
        one = [('a', ea), ('r', te), ('b', be)]
        two = [('d', de), ('s', te2), ('c', ec)]
        across, along = 0, 0
        i = j = 0
        left = [n for _, n in one], [n for _, n in two]
        while i < 3 and j < 3:
            n = min(left[0][i], left[1][j])
            if n:
                pair = one[i][0] + two[j][0]
                if pair in ('ac', 'bd'): across += n
                elif pair == 'rs': along += n
                left[0][i] -= n; left[1][j] -= n
            if left[0][i] == 0: i += 1
            if j < 3 and left[1][j] == 0: j += 1
        across += ab + cd + ta + tb + tc + td + max(-w[norm(e)], 0)
        assert not (across and along), 'strands cross'
        out = list(w)
        out[norm(e)] = -along if along else across
        return out
    # --- chains
    def flip_chain(self, h, e):
        """ Push the chain off e onto the other two sides of a triangle. """
        a, b, _, _ = self.square(e)
        out = list(h)
        k = out[norm(e)] * (1 if e >= 0 else -1)
        out[norm(e)] = 0
        for s in (a, b): out[norm(s)] -= k if s >= 0 else -k
        return out
    def boundaries(self):
        out = []
        for t in self.triples:
            v = [0] * self.zeta
            for s in t: v[norm(s)] += 1 if s >= 0 else -1
            out.append(v)
        return out
    def homologous(self, h, g):
        """ Do these chains differ by triangles? """
        v = [Fraction(x) - y for x, y in zip(h, g)]
        rows = []
        for r in self.boundaries():
            r = [Fraction(x) for x in r]
            for p, q in rows:
                if r[p]: r = [x - r[p] * y for x, y in zip(r, q)]
            p = next((i for i, x in enumerate(r) if x), None)
            if p is None: continue
            r = [x / r[p] for x in r]
            rows = [(i, [x - q[p] * y for x, y in zip(q, r)] if q[p] else q) for i, q in rows] + [(p, r)]
        for p, q in rows:
            if v[p]: v = [x - v[p] * y for x, y in zip(v, q)]
        return not any(v)

    # --- paths between vertices
    # A path is (h, crossings, k): it leaves the tail of h just anticlockwise of h, each crossing m enters the triangle of m
    # through m, and it ends at the tail of k just anticlockwise of k.
    def tighten(self, path):
        h, cross, k = path[0], [], path[2]
        for m in path[1]:
            if cross and cross[-1] == ~m: cross.pop()
            else: cross.append(m)
        again = True
        while again and cross:
            again = False
            m = cross[0]  # leaves triangle(h) through ~m
            if ~m == h: h = self.next[m] ; cross.pop(0); again = True                        # clockwise over h: now just clockwise of h
            elif ~m == self.prev(h): h = m; cross.pop(0); again = True                        # anticlockwise
            elif cross:
                m = cross[-1]  # enters triangle(k) through m
                if m == k: k = self.next[~m]; cross.pop(); again = True
                elif m == self.prev(k): k = ~m; cross.pop(); again = True
        return h, cross, k
    def weights_of(self, path):
        h, cross, k = self.tighten(path)
        w = [0] * self.zeta
        if not cross:
            assert k in self.triangle(h) and k != h, 'trivial path'
            w[norm(h if k == self.next[h] else k)] = -1  # from the tail of h to the tail of next(h) along h; else backwards along k
        for m in cross: w[norm(m)] += 1
        return w
    def chain_of(self, path):
        h, cross, k = path
        out = [0] * self.zeta
        here = h
        def go(to):
            nonlocal here
            assert to in self.triangle(here)
            while here != to:
                out[norm(here)] += 1 if here >= 0 else -1
                here = self.next[here]
        for m in cross:
            go(self.next[~m])  # the head of ~m is the tail of m
            here = m
        go(k)
        return out

    def twist_path(self, a, i, right=True):
        """ The image of edge i under the twist about the curve just left of the loop a. """
        star = self.star(a)
        xs = star[1:star.index(~a)]
        if not right: sides = (1, -1)
        cross = []
        def turn(x, way):
            """ Cross the edges of the curve, once round, beginning after x. way +1: anticlockwise around the vertex. """
            j = xs.index(x)
            order = xs[j + 1:] + xs[:j] if way > 0 else xs[:j][::-1] + xs[j + 1:][::-1]
            cross.extend(y if way > 0 else ~y for y in order)
        start, end = i, None
        sign = 1 if right else -1
        if i in xs:
            # Leaving the vertex and turning right is to go clockwise around it.
            if right: start = self.prev_out(i)
            turn(i, -sign)
        side = None
        if i in xs: side = 'left' if right else 'right'  # the side on which the path comes back to the edge
        if ~i in xs:
            if side is not None: cross.extend(self._along(i, side, 'right' if right else 'left'))
            else: start = self.prev_out(i) if right else i
            turn(~i, sign)
            side = 'left' if right else 'right'
        if side is None: side = 'left'; start = i
        end = self._end(i, side)
        return start, cross, end
    def prev_out(self, x):
        """ The edge out of the tail of x just clockwise of x. """
        return self.next[~x]
    def _end(self, i, side):
        """ The corner at the head of i, on its left or on its right. """
        return self.next[i] if side == 'left' else ~i
    def _along(self, i, side, want):
        """ Crossing from one side of i to the other. """
        if side == want: return []
        return [~i] if side == 'left' else [i]
    def halftwist_path(self, e, i, right=True):
        """ The image of edge i under the half twist about e, which joins distinct vertices. """
        if norm(i) == norm(e): return ~i, [], self.next[~i]
        xs, ys = self.star(e)[1:], self.star(~e)[1:]
        def end(x):
            """ What the end of an edge at the tail of x is replaced by, seen coming in along x: (on the right of x?, crossings, corner). """
            s, o = (xs, e) if x in xs else (ys, ~e)
            j = s.index(x)
            # Coming in and turning right is to go anticlockwise until the side of e is reached.
            if right: return [y for y in s[j + 1:]], ~o
            return [~y for y in s[:j][::-1]], self.prev_out(~o)
        mine = set(xs + ys)
        if i not in mine and ~i not in mine: return i, [], self.next[i]
        if i in mine and ~i in mine:
            c1, k1 = end(i); c2, k2 = end(~i)
            out = [~m for m in c1[::-1]]
            # Coming in along i to its tail and turning right leaves from the left of i as seen going out along it; arriving at the head on its right.
            if right: out += self._along(i, 'left', 'right')
            else: out += self._along(i, 'right', 'left')
            return k1, out + c2, k2
        if i in mine:
            c1, k1 = end(i)
            return k1, [~m for m in c1[::-1]], self._end(i, 'left' if right else 'right')
        c2, k2 = end(~i)
        return (self.prev_out(i) if right else i), c2, k2

# --- twists as flips, certified by the drawn paths
class ModelError(Exception):
    """ The model cannot do what it is asked. """

def peripheral_twist(tri, a):
    star = tri.star(a)
    return star.index(~a) == 2

def _spread(tri, m):
    """ Extend {x: y} to a label map of tri onto to which preserves triangles, identical on components that are not met. """
    src, to = tri
    m = dict(m)
    stack = list(m)
    while stack:
        x = stack.pop()
        for y, z in ((~x, ~m[x]), (src.next[x], to.next[m[x]])):
            if y in m:
                if m[y] != z: return None
            else:
                m[y] = z; stack.append(y)
    comp = src.components()
    met = set(comp[x] for x in m)
    for x in src.next:
        if comp[x] not in met: m[x] = x
    if sorted(m.values()) != sorted(m): return None
    return m if src.relabel(m) == to else None

def _certified(tri, items, path):
    """ Do the items send every edge to where the drawn paths go? """
    def run(w, kind):
        now = tri
        for item in items:
            now, lam, hom = elementary(now, item)
            w = (lam if kind == 0 else hom)(w)
        return now, w
    for i in range(tri.zeta):
        p = path(i)
        now, w = run([-1 if j == i else 0 for j in range(tri.zeta)], 0)
        if now != tri or w != tri.weights_of(p): return False
        _, h = run([1 if j == i else 0 for j in range(tri.zeta)], 1)
        if not tri.homologous(h, tri.chain_of(p)): return False
    return True

_EXPANSIONS = {}
def expand(tri, e, right):
    """ The twist (e joins a vertex to itself) or half twist at e as flips and a relabelling. """
    key = (tri.triples, e, right)
    if key in _EXPANSIONS: return _EXPANSIONS[key]
    out = None
    if tri.loop(e):
        if peripheral_twist(tri, e): out = []
        else:
            path = lambda i: tri.twist_path(e, i, right)
            items, now = [], tri
            for _ in range(len(tri.star(e))):
                m = _spread((now, tri), {e: e})
                if m is not None and items:
                    for full in (items + [m], _undo(tri, items + [m])):
                        if _certified(tri, full, path): out = full; break
                if out is not None: break
                f = now.prev(e)
                if not now.flippable(f): break
                items.append(f); now = now.flip(f)
    else:
        path = lambda i: tri.halftwist_path(e, i, right)
        pre, now, x = [], tri, e
        while len(now.star(x)) > 1:
            f = now.prev(x); pre.append(f); now = now.flip(f)
        base, items = now, []
        while len(now.star(~x)) > 1:
            f = now.prev(~x); items.append(f); now = now.flip(f)
        m = _spread((now, base), {x: ~x})
        if m is not None:
            for mid in (items + [m], _undo(base, items + [m])):
                full = pre + mid + _undo(tri, pre)
                if _certified(tri, full, path): out = full; break
    if out is None: raise ModelError(f'no expansion of the twist at {e} of {tri.triples}')
    _EXPANSIONS[key] = out
    return out

def _undo(tri, items): return [inverse_item(tri, i) for i in reversed(items)]

# --- histories
def perm_of(item, zeta):
    """ The full label map of a relabelling. """
    m = dict(item)
    for i in range(zeta):
        if i in m and ~i not in m: m[~i] = ~m[i]
        elif ~i in m and i not in m: m[i] = ~m[~i]
    return m

def elementary(tri, item):
    """ The triangulation after an elementary item: a flip, a set of flips, or a relabelling (a full dict); and how it acts. """
    if item is None: return tri, lambda w: list(w), lambda h: list(h)
    if isinstance(item, int): item = {item}
    if isinstance(item, (set, frozenset)):
        steps = []
        now = tri
        for e in sorted(item):
            steps.append((now, e))
            now = now.flip(e)
        def lam(w):
            for t, e in steps: w = t.flip_weights(w, e)
            return w
        def hom(h):
            for t, e in steps: h = t.flip_chain(h, e)
            return h
        return now, lam, hom
    m = perm_of(item, tri.zeta)
    def lam(w):
        out = [None] * tri.zeta
        for i in range(tri.zeta): out[norm(m[i])] = w[i]
        return out
    def hom(h):
        out = [None] * tri.zeta
        for i in range(tri.zeta): out[norm(m[i])] = h[i] if m[i] >= 0 else -h[i]
        return out
    return tri.relabel(m), lam, hom

def inverse_item(tri, item):
    """ The item that undoes an elementary item or a twist. """
    if item is None: return None
    if isinstance(item, int): return ~item
    if isinstance(item, (set, frozenset)): return set(~e for e in item)
    if isinstance(item, tuple): return (item[0], -item[1])
    return dict((v, k) for k, v in perm_of(item, tri.zeta).items())

def act(tri, item):
    """ As elementary, but for any item: (e, p) is a twist or a half twist to the power p. """
    if not isinstance(item, tuple): return elementary(tri, item)
    e, p = item
    once = []
    now = tri
    for sub in expand(tri, e, p > 0):
        step = elementary(now, sub)
        once.append(step); now = step[0]
    def lam(w):
        for _ in range(abs(p)):
            for _, f, _ in once: w = f(w)
        return w
    def hom(h):
        for _ in range(abs(p)):
            for _, _, g in once: h = g(h)
        return h
    return tri, lam, hom

def play(tri, items, lams, homs):
    """ All states of a history: [(triangulation, weights, chains)]. """
    out = [(tri, [list(w) for w in lams], [list(h) for h in homs])]
    for item in items:
        now, ws, hs = out[-1]
        nxt, lam, hom = act(now, item)
        out.append((nxt, [lam(w) for w in ws], [hom(h) for h in hs]))
    return out
