""" Sessions of the curver viewer in the simulated window system, and what its canvases ought to show. """
import json, math, random, sys
import core, simtk, world as W

SIZES = {'Small': (2, 3, 10), 'Medium': (4, 5, 12), 'Large': (6, 7, 14)}   # label -> line width, dot radius, font size
LABELS = ['None', 'Index', 'Geometric', 'Projective geometric']
FLAGS = ['Smooth', 'Show internal edges', 'Show edge orientations']
START = {'size': 'Small', 'label': 'None', 'Smooth': True, 'Show internal edges': False, 'Show edge orientations': False}
PANS = {'Up': (0, 1), 'Down': (0, -1), 'Left': (1, 0), 'Right': (-1, 0)}
IN, OUT, FIT = ('plus', 'equal'), ('minus', 'underscore'), ('0',)

def load():
    """ Import the viewer against the simulated window system. """
    if 'curver.application' not in sys.modules:
        simtk.install()
        import curver.application  # pylint: disable=unused-import
    import curver
    return curver

# ---------------------------------------------------------------- sessions
class Session:
    """ One run of the viewer: start(*arguments) with a script of events; watch(session, event or None) is called after each. """
    def __init__(self, arguments, events, watch=None, faults=None, colours=1):
        self.arguments, self.events, self.watch = arguments, list(events), watch
        self.at = 0
        self.display = simtk.Display(self.step, faults)
        self.colours = colours
        self.outcome = None
        self.opened = False
        self.stop = False
    root = property(lambda self: self.display.roots[-1])
    def note(self):
        found = [w for w in descendants(self.root) if isinstance(w, simtk.Notebook)]
        return found[0] if found else None
    def canvases(self): return list(self.note().pages)
    def names(self): return [str(o.get('text', '')) for o in self.note().page_opts]
    def current(self): return self.note().index('current')
    def window(self):
        c = self.canvases()[0]
        return c.winfo_width(), c.winfo_height()
    def menu(self): return self.root.opts.get('menu')
    def run(self):
        curver = load()
        random.seed(self.colours)
        try:
            curver.application.start(*self.arguments)
            self.outcome = ('returned',)
        except (simtk.SimUnsupported, core.HarnessError): raise
        except Exception as error:  # pylint: disable=broad-except
            self.outcome = ('raised', type(error).__name__, str(error)[:200])
        finally:
            self.left = sum(not r.destroyed for r in self.display.roots)  # windows still there
            self.display.close()
        return self
    def step(self, display):
        """ The event loop asks for the next event. """
        if not self.opened:
            self.opened = True
            self.look(None)
        if self.stop or self.at >= len(self.events): return None
        event = self.events[self.at]
        self.at += 1
        self.before(event)
        perform(self, event)
        self.look(event)
        return True
    def before(self, event): pass
    def look(self, event):
        if self.watch is None: return
        try: self.watch(self, event)
        except Exception as error:
            import traceback
            self.broken = traceback.format_exc()
            raise core.HarnessError(self.broken) from error

def descendants(w):
    for c in w.children_:
        yield c
        yield from descendants(c)

def perform(session, event):
    root, display = session.root, session.display
    kind = event[0]
    if kind == 'key': root.dispatch('<Key>', keysym=event[1], mods=tuple(event[2]) if len(event) > 2 else ())
    elif kind == 'menu':
        menu = session.menu()
        if menu is None or not menu.invoke_path(list(event[1])): display.errors.append(('NoMenuEntry', '/'.join(event[1]), 'menu'))
    elif kind == 'tab':
        note = session.note()
        i = event[1] % len(note.pages)
        if note.selected != i: display.callback(note.select, i)
    elif kind == 'cycle':
        note = session.note()
        if note.traversal: display.callback(note.select, (note.selected + event[1]) % len(note.pages))
    elif kind == 'resize':
        root.size = (max(event[1], root.minimum[0]), max(event[2], root.minimum[1]))
        for c in session.canvases(): root.deliver('<Configure>', c, width=c.winfo_width(), height=c.winfo_height())
    elif kind == 'expose':
        for c in session.canvases(): root.deliver('<Expose>', c)
    elif kind == 'mouse':
        c = session.canvases()[session.current()]
        root.deliver(event[1], c, x=event[2], y=event[3], num=1)
    elif kind == 'export':
        display.answers = [event[1]]
        display.faults['postscript'] = [event[2]] if event[2] else []
        if session.menu() is None or not session.menu().invoke_path(['File', 'Export image...']): display.errors.append(('NoMenuEntry', 'File/Export image...', 'menu'))
        display.answers = []
        display.faults['postscript'] = []
    elif kind == 'close':
        if event[1] == 'wm':
            f = root.protocols.get('WM_DELETE_WINDOW')
            if f: display.callback(f)
            else: root._destroy()
        elif event[1] == 'key': root.dispatch('<Key>', keysym='w', mods=('Control',))
        elif session.menu() is None or not session.menu().invoke_path(['File', 'Exit']): display.errors.append(('NoMenuEntry', 'File/Exit', 'menu'))
    else: raise core.HarnessError(f'event {event}')

# ---------------------------------------------------------------- options
def options_after(options, event):
    """ The model of the options: what they are after the event. """
    if event is None or event[0] != 'menu' or event[1][0] != 'Settings': return options
    path = event[1]
    if path[1] == 'Sizes': return dict(options, size=path[2])
    if path[1] == 'Edge label': return dict(options, label=path[2])
    if path[1] in FLAGS: return dict(options, **{path[1]: not options[path[1]]})
    return options

def direct(options):
    """ The shortest sequence of events that leads to the options. """
    out = []
    if options['label'] != START['label']: out.append(('menu', ['Settings', 'Edge label', options['label']]))
    if options['size'] != START['size']: out.append(('menu', ['Settings', 'Sizes', options['size']]))
    for f in FLAGS:
        if options[f] != START[f]: out.append(('menu', ['Settings', f]))
    return out

def highlighted(session):
    """ The options as the menu shows them. """
    out = {}
    menu = session.menu()
    sizes, labels = set(), set()
    for kind, path, e in menu.paths() if menu is not None else ():
        var = e.get('variable', e.get('var'))
        if kind == 'radiobutton' and var is not None:
            on = str(var.get()) == str(e.get('value', e.get('label')))
            if on: (sizes if path[-2] == 'Sizes' else labels).add(path[-1])
        elif kind == 'checkbutton' and var is not None: out[path[-1]] = bool(var.get())
    out['size'] = '|'.join(sorted(sizes)); out['label'] = '|'.join(sorted(labels))
    return out

# ---------------------------------------------------------------- looking at a canvas
class Look:
    """ The items of a canvas, sorted by what they are to the user. """
    def __init__(self, canvas):
        self.all = [(i.kind, tuple(i.coords), i.look(), i.hidden()) for i in canvas.items]
        self.faces, self.curves, self.lines, self.ovals, self.texts, self.other = [], [], [], [], [], []
        self.order = []
        for n, (kind, xy, o, hidden) in enumerate(self.all):
            pts = list(zip(xy[::2], xy[1::2]))
            if kind == 'polygon' and len(pts) == 3: group, layer = self.faces, 0
            elif kind == 'line' and len(pts) == 2: group, layer = self.lines, 1
            elif kind == 'oval': group, layer = self.ovals, 2
            elif kind in ('polygon', 'line'): group, layer = self.curves, 3
            elif kind == 'text': group, layer = self.texts, 4
            else: group, layer = self.other, 5
            group.append((pts, o, hidden))
            self.order.append(layer)
        self.dots = [((p[0][0] + p[1][0]) / 2, (p[0][1] + p[1][1]) / 2) for p, _, _ in self.ovals]
        self.points = self.dots

def fit(a, b):
    """ The similarity z -> f z + t (f > 0) that takes the points a to the points b; None if there is none. """
    if len(a) != len(b): return None
    if not a: return 1.0, 0.0, 0.0
    n = len(a)
    ax, ay = sum(p[0] for p in a) / n, sum(p[1] for p in a) / n
    bx, by = sum(p[0] for p in b) / n, sum(p[1] for p in b) / n
    va = sum((p[0] - ax)**2 + (p[1] - ay)**2 for p in a)
    if va == 0: return None
    f = sum((p[0] - ax) * (q[0] - bx) + (p[1] - ay) * (q[1] - by) for p, q in zip(a, b)) / va
    if not f > 0: return None
    return f, bx - f * ax, by - f * ay

def close(p, q, tol): return abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol

def moved(p, m): return (m[0] * p[0] + m[1], m[0] * p[1] + m[2])

SLACK = 2.0  # how far from the middle of an edge its label may be

def same_picture(a, b, labels=True):
    """ Does b show the same as a, up to where on the screen and how large it is? None or what differs. """
    m = fit(a.dots, b.dots)
    if m is None: return f'{len(a.dots)} vertices against {len(b.dots)}'
    tol = 1e-6 * (1 + max([abs(c) for p in a.dots + b.dots for c in p] + [0]))* max(1.0, m[0])
    if a.order != b.order: return f'{len(b.all)} items against {len(a.all)}, or another stacking order'
    for name in ('faces', 'lines', 'ovals', 'curves', 'texts', 'other'):
        diff = same_items(name, getattr(a, name), getattr(b, name), m, tol)
        if diff: return diff
    return None

def same_place(a, b):
    """ Is it also at the same place? """
    m = fit(a.dots, b.dots)
    return None if abs(m[0] - 1) < 1e-9 and abs(m[1]) < 1e-6 and abs(m[2]) < 1e-6 else f'moved by {m}'

def same_items(name, a, b, m, tol):
    """ Are these the same items, in any order? (Within a layer items are told apart by where they are.) """
    if len(a) != len(b): return f'{len(b)} {name} against {len(a)}'
    if name == 'texts':  # the backing of a label is beside its middle, by so many pixels at every scale: only count it here
        backing = [[repr(sorted(o.items())) for pts, o, hidden in items if o['fill'] != 'black'] for items in (a, b)]
        if sorted(backing[0]) != sorted(backing[1]): return 'texts: the backing of the labels differs'
        a, b = [i for i in a if i[1]['fill'] == 'black'], [i for i in b if i[1]['fill'] == 'black']
    slack = tol
    cell = 4 * slack
    grid = {}
    def middle(pts): return sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts)
    for n, (pts, o, hidden) in enumerate(b):
        x, y = middle(pts)
        grid.setdefault((int(x // cell), int(y // cell)), []).append(n)
    used = set()
    for pts, o, hidden in a:
        goal = [moved(p, m) for p in pts]
        x, y = middle(goal)
        near = [n for i in (-1, 0, 1) for j in (-1, 0, 1) for n in grid.get((int(x // cell) + i, int(y // cell) + j), ()) if n not in used]
        found, why = None, None
        for n in near:
            other, o2, hidden2 = b[n]
            if o != o2:
                why = ', '.join(f'{k} {o2.get(k)!r} against {o.get(k)!r}' for k in sorted(set(o) | set(o2)) if o.get(k) != o2.get(k))
                continue
            if not same_points(name, pts, goal, other, slack):
                why = why or f'at {other} against {goal}'
                continue
            found = n
            break
        if found is None: return f'{name}: ' + (why or f'nothing at {goal}')
        used.add(found)
    return None

def same_points(name, pts, goal, other, slack):
    if len(goal) != len(other): return False
    if name == 'faces': return all(any(close(p, q, slack) for q in other) for p in goal)
    if name == 'ovals':
        (a, b), (c, d) = pts, other
        return close(((c[0] + d[0]) / 2, (c[1] + d[1]) / 2), ((goal[0][0] + goal[1][0]) / 2, (goal[0][1] + goal[1][1]) / 2), slack) and close((b[0] - a[0], b[1] - a[1]), (d[0] - c[0], d[1] - c[1]), 1e-6 + slack * 1e-3)
    return all(close(p, q, slack) for p, q in zip(goal, other))

# ---------------------------------------------------------------- the model
def shown_lamination(obj):
    """ What is shown for an object, from first principles: its triangulation and the weights of the lamination on it. """
    from curver import kernel as K
    if isinstance(obj, K.MappingClassGroup): return obj.triangulation, None
    if isinstance(obj, K.Triangulation): return obj, None
    if isinstance(obj, K.Lamination): return obj.triangulation, [obj(i) for i in range(obj.zeta)]
    T = obj.source_triangulation
    l = obj(T.as_lamination())
    return T, [l(i) for i in range(T.zeta)]

def expected_label(kind, index, weights, scale):
    if kind == 'None': return ''
    if kind == 'Index': return str(index)
    if kind == 'Geometric': return str(weights[index])
    total = float(sum(weights)) * scale
    return float(weights[index]) / total if total else 0.0

class Tab:
    """ What is known about one tab: the object, and which side of which face is which edge. """
    def __init__(self, name, obj):
        self.name, self.obj = name, obj
        self.T, weights = shown_lamination(obj)
        self.weights = weights if weights is not None else [0] * self.T.zeta
        self.last = None     # the last Look

def label_clusters(look, centres, tol):
    """ The texts at each of the given points; and the texts that belong to none. """
    at = [[] for _ in centres]
    lost = []
    for n, (pts, o, hidden) in enumerate(look.texts):
        best = min(range(len(centres)), key=lambda i: (centres[i][0] - pts[0][0])**2 + (centres[i][1] - pts[0][1])**2) if centres else None
        if best is None or not close(centres[best], pts[0], tol + SLACK): lost.append((pts, o))
        else: at[best].append((n, pts[0], o, hidden))
    return at, lost

class Wrong(Exception):
    """ The canvas does not show what it should: (class, text). """

def check_look(look, tab, options, indices=None):
    """ Check a canvas against the model; raise Wrong. Returns {side of face: index} if the labels show the indices. """
    T, weights = tab.T, tab.weights
    line, dot, font = SIZES[options['size']]
    scale = 1 + max([abs(c) for p in look.dots for c in p] + [0])
    tol = 1e-7 * scale
    if look.other: raise Wrong('strange items', f'{look.other[0]}')
    n_comp = len(T.components())
    if len(look.faces) != T.zeta * 2 // 3: raise Wrong('faces', f'{len(look.faces)} faces for {T.zeta * 2 // 3} triangles')
    if len(look.dots) != T.zeta * 2 // 3 + 2 * n_comp: raise Wrong('vertices', f'{len(look.dots)} vertices for {T.zeta * 2 // 3} triangles in {n_comp} components')
    last = -1
    for layer in look.order:
        if layer < last: raise Wrong('stacking', 'an item is drawn below one that it should cover')
        last = layer
    for (p, q), o, hidden in look.ovals:
        r = ((q[0] - p[0]) / 2, (q[1] - p[1]) / 2)
        if hidden or not close(r, (dot, dot), 1e-6 * scale): raise Wrong('dots', f'a dot of radius {r} instead of {dot}')
    # faces and sides
    def vertex(p):
        for i, d in enumerate(look.dots):
            if close(p, d, tol): return i
        raise Wrong('faces', f'{p} is not a vertex')
    sides = {}
    faces = []
    for pts, o, hidden in look.faces:
        if hidden: raise Wrong('faces', 'a face is hidden')
        vs = [vertex(p) for p in pts]
        if len(set(vs)) != 3: raise Wrong('faces', 'a face is degenerate')
        a, b, c = [look.dots[v] for v in vs]
        if (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) > 0: vs = vs[::-1]
        faces.append(vs)
        for i in range(3):
            s = (vs[i], vs[(i + 1) % 3])
            sides.setdefault(tuple(sorted(s)), []).append((len(faces) - 1, i, s))
    inner = set(s for s, where in sides.items() if len(where) == 2)
    if any(len(where) > 2 for where in sides.values()): raise Wrong('faces', 'three faces at one side')
    if len(sides) + len(inner) != 2 * T.zeta or len(inner) != len(faces) - n_comp: raise Wrong('faces', f'{len(sides)} sides, {len(inner)} inside')
    # edges
    full, half = {}, {}
    for (p, q), o, hidden in look.lines:
        i = vertex(p)
        j = next((k for k, d in enumerate(look.dots) if close(q, d, tol)), None)
        if float(o['width']) != line: raise Wrong('line width', f'an edge of width {o["width"]} instead of {line}')
        if j is not None:
            key = tuple(sorted((i, j)))
            full.setdefault(key, []).append((i, j, o, hidden))
        else:
            found = None
            for key in sides:
                if i in key:
                    k = key[0] + key[1] - i
                    d = look.dots[k]
                    for fr in (.55,):
                        if close(q, (look.dots[i][0] + fr * (d[0] - look.dots[i][0]), look.dots[i][1] + fr * (d[1] - look.dots[i][1])), .03 * (abs(d[0] - look.dots[i][0]) + abs(d[1] - look.dots[i][1])) + tol):
                            # the direction decides
                            cross = (q[0] - look.dots[i][0]) * (d[1] - look.dots[i][1]) - (q[1] - look.dots[i][1]) * (d[0] - look.dots[i][0])
                            err = abs(cross)
                            if found is None or err < found[0]: found = (err, key, i, k)
            if found is None: raise Wrong('edges', f'a line from {p} to {q} is along no side')
            half.setdefault(found[1], []).append((found[2], found[3], o, hidden))
    arrows = {}
    colours = {}
    for s, where in sides.items():
        visible = [l for l in full.get(s, []) if not l[3]]
        want = s not in inner or options['Show internal edges']
        if bool(visible) != want: raise Wrong('visibility', f'{"an inner" if s in inner else "an outer"} edge is {"shown" if visible else "not shown"}')
        starts = [l for l in half.get(s, []) if not l[3]]
        if not want and starts: raise Wrong('visibility', 'half of a hidden edge is shown')
        heads = [l for l in starts + visible if l[2]['arrow'] != 'none']
        if want:
            if options['Show edge orientations']:
                if len(heads) != 1: raise Wrong('arrows', f'{len(heads)} arrows on one edge')
                if tuple(heads[0][2]['arrowshape']) != {'Small': (12, 15, 5), 'Medium': (16, 20, 6), 'Large': (24, 30, 9)}[options['size']]: raise Wrong('arrows', f'arrow shape {heads[0][2]["arrowshape"]}')
                a, b = heads[0][:2]
                arrows[s] = (a, b) if heads[0][2]['arrow'] == 'last' else (b, a)
            elif heads: raise Wrong('arrows', 'an arrow although orientations are not to be shown')
        colours[s] = set(l[2]['fill'] for l in visible + starts)
        if len(colours[s]) > 1: raise Wrong('colours', f'one edge in colours {sorted(colours[s])}')
    for s in list(full) + list(half):
        if s not in sides: raise Wrong('edges', 'a line which is the side of no face')
    # curves
    for pts, o, hidden in look.curves:
        if hidden: raise Wrong('curves', 'part of the lamination is hidden')
        if float(o['width']) != line: raise Wrong('line width', f'a curve of width {o["width"]} instead of {line}')
        if (str(o['smooth']) != '0') != options['Smooth']: raise Wrong('smooth', f'smooth is {o["smooth"]} but the option is {options["Smooth"]}')
    # labels
    order = sorted(sides)
    centres = [((look.dots[a][0] + look.dots[b][0]) / 2, (look.dots[a][1] + look.dots[b][1]) / 2) for a, b in order]
    if len(centres) > 1 and min(math.dist(p, q) for n, p in enumerate(centres) for q in centres[:n]) < 4 * SLACK:  # too small to tell the labels apart
        return dict(faces=faces, sides=sides, inner=inner, indices=indices)
    at, lost = label_clusters(look, centres, tol)
    if lost: raise Wrong('labels', f'{lost[0][1]["text"]!r} is at {lost[0][0][0]}, on no edge')
    shown = {}
    for s, texts in zip(order, at):
        said = set(str(o['text']) for _, _, o, hidden in texts if not hidden)
        if not said: said = {''}
        if len(said) > 1: raise Wrong('labels', f'several labels on one edge: {sorted(said)}')
        shown[s] = said.pop()
        if any(font_of(o) != font for _, _, o, _ in texts): raise Wrong('labels', f'label in size {[font_of(o) for _, _, o, _ in texts][0]} instead of {font}')
        if shown[s] != '':
            top = max(texts)
            if top[2]['fill'] != 'black': raise Wrong('labels', 'the background of a label covers it')
            if not close(top[1], centres[order.index(s)], 1e-6 * scale): raise Wrong('labels', 'a label is beside the middle of its edge')
            if len(texts) != 13: raise Wrong('labels', f'a label is drawn {len(texts)} times')
    if options['label'] == 'None':
        if any(shown.values()): raise Wrong('labels', f'labels {sorted(set(shown.values()))[:3]} although none are to be shown')
    if options['label'] == 'Index':
        try: found = dict((s, int(v)) for s, v in shown.items())
        except ValueError: raise Wrong('labels', f'{sorted(shown.values())[:4]} are not indices') from None
        check_gluing(T, faces, found, inner, arrows)
        for s in sides:
            for t in sides:
                if s < t and s not in inner and t not in inner and (colours[s] == colours[t]) != (found[s] == found[t]): raise Wrong('colours', f'edges {found[s]} and {found[t]}: colours {colours[s]} and {colours[t]}')
        if indices is not None and found != indices: raise Wrong('labels', 'the indices moved to other edges')
        indices = found
    elif indices is not None and options['label'] == 'Geometric':
        for s, v in shown.items():
            want = str(weights[indices[s]])
            if v != want: raise Wrong('labels', f'edge {indices[s]} is labelled {v!r} instead of {want!r}')
    elif indices is not None and options['label'] == 'Projective geometric':
        ok = False
        for k in (1, 2):
            try: ok = ok or all(abs(float(v) - expected_label(options['label'], indices[s], weights, k)) < 1e-9 for s, v in shown.items())
            except ValueError: pass
        if not ok: raise Wrong('labels', f'projective labels {sorted(shown.values())[:4]}... for the weights {[str(w) for w in weights]}')
    if indices is not None and arrows and options['label'] != 'Index': check_gluing(T, faces, indices, inner, arrows)
    return dict(faces=faces, sides=sides, inner=inner, indices=indices)

def font_of(o): return o['font']

def check_gluing(T, faces, indices, inner, arrows):
    """ Do the faces, with sides named by indices (and directed by arrows), form the triangulation? """
    def rotations(t): return min(t, t[1:] + t[:1], t[2:] + t[:2])
    got = sorted(rotations(tuple(indices[tuple(sorted((vs[i], vs[(i + 1) % 3])))] for i in range(3))) for vs in faces)
    ways = [sorted(rotations(tuple(int(l) if l >= 0 else ~int(l) for l in t.labels)) for t in T), sorted(rotations(tuple(int(l) if l >= 0 else ~int(l) for l in t.labels)[::-1]) for t in T)]
    if got not in ways: raise Wrong('gluing', f'the faces shown are {got}, not {ways[0]}')
    if not arrows: return
    directed = []
    for vs in faces:
        out = []
        for i in range(3):
            a, b = vs[i], vs[(i + 1) % 3]
            s = tuple(sorted((a, b)))
            out.append((indices[s], None if s not in arrows else arrows[s] == (a, b)))
        directed.append(out)
    for index in set(indices.values()):
        ways = [d for f in directed for i, d in f if i == index]
        if len(ways) != 2: raise Wrong('gluing', f'edge {index} is shown on {len(ways)} sides')
        if None not in ways and ways[0] == ways[1]: raise Wrong('gluing', f'edge {index}: the arrows do not match')

# ---------------------------------------------------------------- curves
def check_curves(look, tab, info):
    """ Does what is drawn meet each edge as often as the lamination does? (Only where everything is drawn.) """
    faces, indices = info['faces'], info['indices']
    W_ = tab.weights
    scale = 1 + max([abs(c) for p in look.dots for c in p] + [0])
    tol = 1e-6 * scale
    meets = [[[] for _ in range(3)] for _ in faces]
    arcs = [[0] * 3 for _ in faces]
    ends = [[0] * 3 for _ in faces]
    for pts, o, hidden in look.curves:
        home = None
        mid = (sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts))
        for n, vs in enumerate(faces):
            tri = [look.dots[v] for v in vs]
            if inside(mid, tri): home = n; break
        if home is None: raise Wrong('curves', 'a piece of the lamination is in no face')
        vs = faces[home]
        where = []
        for p in (pts[0], pts[-1]):
            v = next((i for i in range(3) if close(p, look.dots[vs[i]], tol)), None)
            if v is not None: where.append(('v', v)); continue
            for i in range(3):
                a, b = look.dots[vs[i]], look.dots[vs[(i + 1) % 3]]
                l2 = (b[0] - a[0])**2 + (b[1] - a[1])**2
                fr = ((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / l2
                d = abs((p[0] - a[0]) * (b[1] - a[1]) - (p[1] - a[1]) * (b[0] - a[0])) / math.sqrt(l2)
                if d < tol and 0 < fr < 1: where.append(('s', i, fr)); break
            else: raise Wrong('curves', f'an end of a piece of the lamination is neither on an edge nor a vertex: {p}')
        for w in where:
            if w[0] == 's': meets[home][w[1]].append(w[2])
        kinds = [w[0] for w in where]
        if kinds == ['v', 'v']:
            i = next(i for i in range(3) if set((i, (i + 1) % 3)) == set((where[0][1], where[1][1])))
            arcs[home][i] += 1
        elif 'v' in kinds:
            v = next(w[1] for w in where if w[0] == 'v'); s = next(w[1] for w in where if w[0] == 's')
            if v in (s, (s + 1) % 3): raise Wrong('curves', 'a piece from a side to a vertex of it')
    by_index = {}
    for n, vs in enumerate(faces):
        for i in range(3):
            s = tuple(sorted((vs[i], vs[(i + 1) % 3])))
            by_index.setdefault(indices[s], []).append((sorted(meets[n][i]), arcs[n][i]))
    for index, both in by_index.items():
        w = W_[index]
        for m, _ in both:
            if len(m) != max(w, 0): raise Wrong('curves', f'edge {index} of weight {w} is met {len(m)} times')
        if sum(a for _, a in both) != max(-w, 0): raise Wrong('curves', f'{sum(a for _, a in both)} arcs along edge {index} of weight {w}')
        if len(both) == 2:
            a, b = both[0][0], sorted(1 - x for x in both[1][0])
            if any(abs(x - y) > 1e-6 for x, y in zip(a, b)): raise Wrong('curves', f'the pieces do not fit together across edge {index}')

def strips(ws):
    """ The strips of a face whose sides have these weights: [(side or corner opposite a side, kind, width)]. """
    ws = [max(w, 0) for w in ws]
    for i in range(3):
        if ws[i] > ws[i - 1] + ws[i - 2]: return [(i, 'end', ws[i] - ws[i - 1] - ws[i - 2]), (i - 1 + 3 * (i == 0), 'corner', ws[i - 2]), (i - 2 + 3 * (i < 2), 'corner', ws[i - 1])]
    return [(i, 'corner', (sum(ws) - 2 * ws[i]) / 2) for i in range(3)]

def check_thick(look, tab, info):
    """ Where bands are drawn instead of strands: is there a band for each kind of strand, as wide as there are many of them, beside each other? """
    from fractions import Fraction
    faces, indices = info['faces'], info['indices']
    def number(w):
        try: return Fraction(w)
        except (TypeError, ValueError): return Fraction(float(w))
    weights = [number(w) for w in tab.weights]
    master = max(abs(w) for w in weights)
    scale = 1 + max([abs(c) for p in look.dots for c in p] + [0])
    tol = 1e-6 * scale
    found = {}
    along = {}
    for pts, o, hidden in look.curves:
        mid = (sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts))
        home = next((n for n, vs in enumerate(faces) if inside(mid, [look.dots[v] for v in vs])), None)
        if home is None: raise Wrong('curves', 'a band of the lamination is in no face')
        vs = faces[home]
        corners, sides, free = set(), {}, []
        for p in pts:
            v = next((i for i in range(3) if close(p, look.dots[vs[i]], tol)), None)
            if v is not None: corners.add(v); continue
            for i in range(3):
                a, b = look.dots[vs[i]], look.dots[vs[(i + 1) % 3]]
                l2 = (b[0] - a[0])**2 + (b[1] - a[1])**2
                fr = ((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / l2
                d = abs((p[0] - a[0]) * (b[1] - a[1]) - (p[1] - a[1]) * (b[0] - a[0])) / math.sqrt(l2)
                if d < tol and 0 < fr < 1: sides.setdefault(i, []).append(fr); break
            else: free.append(p)
        if len(corners) == 2 and not sides:
            i = next(i for i in range(3) if corners == {i, (i + 1) % 3})
            a, b, c = look.dots[vs[i]], look.dots[vs[(i + 1) % 3]], look.dots[vs[(i + 2) % 3]]
            m, g = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2), ((a[0] + b[0] + c[0]) / 3, (a[1] + b[1] + c[1]) / 3)
            out = max([math.dist(p, m) for p in free] + [0]) / math.dist(m, g)
            along.setdefault(indices[tuple(sorted((vs[i], vs[(i + 1) % 3])))], []).append(out)
        elif len(corners) == 1 and len(sides) == 1:
            v, i = min(corners), min(sides)
            if v in (i, (i + 1) % 3): raise Wrong('curves', 'a band from a side to a vertex of it')
            if (home, i, 'end') in found: raise Wrong('curves', 'two bands for the same strands')
            found[home, i, 'end'] = {i: (min(sides[i]), max(sides[i]))}
        elif not corners and len(sides) == 2:
            i = 3 - sum(sides)
            if (home, i, 'corner') in found: raise Wrong('curves', 'two bands for the same strands')
            found[home, i, 'corner'] = dict((j, (min(f), max(f))) for j, f in sides.items())
        else: raise Wrong('curves', f'a band that touches {len(corners)} vertices and {len(sides)} sides')
    width = None
    for n, vs in enumerate(faces):
        ws = [weights[indices[tuple(sorted((vs[i], vs[(i + 1) % 3])))]] for i in range(3)]
        want = dict(((i, kind), w) for i, kind, w in strips(ws) if w > 0)
        got = set((i, kind) for m, i, kind in found if m == n)
        if got != set(want): raise Wrong('curves', f'a face with weights {[str(w) for w in ws]} has the bands {sorted(got)} instead of {sorted(want)}')
        for i in range(3):  # Along each side: the corner where it begins, what ends opposite, the corner where it ends.
            if ws[i] <= 0: continue
            at = -ws[i] / 2
            for key in (((i + 1) % 3, 'corner'), (i, 'end'), ((i + 2) % 3, 'corner')):
                if key not in want: continue
                lo, hi = found[(n,) + key][i]
                if width is None and want[key] * 10**6 > master: width = (hi - lo) / float(want[key] / master)
                goal = [.5 + float(x / master) * (width or 0) for x in (at, at + want[key])]
                if width is not None and (abs(lo - goal[0]) > 1e-6 or abs(hi - goal[1]) > 1e-6): raise Wrong('curves', f'a face with weights {[str(w) for w in ws]}: the band {key} is at {lo:.4f} to {hi:.4f} of side {i} instead of {goal[0]:.4f} to {goal[1]:.4f}')
                at += want[key]
    if width is not None and not 0 < width <= 1: raise Wrong('curves', f'the widest band takes {width} of its edge')
    for index, w in enumerate(weights):
        out = sorted(along.get(index, []))
        if w >= 0:
            if out: raise Wrong('curves', f'a band along edge {index} of weight {w}')
            continue
        half = -w // 2
        want = sorted(float(h / master) for h in (half, -w - half) if h)
        if len(out) != len(want): raise Wrong('curves', f'{len(out)} bands along edge {index} of weight {w}')
        if any(abs(x - y) > 1e-6 for x, y in zip(out, want)): raise Wrong('curves', f'the bands along edge {index} of weight {w} reach out {out} instead of {want}')

def inside(p, tri):
    signs = []
    for i in range(3):
        a, b = tri[i], tri[(i + 1) % 3]
        signs.append((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]))
    return all(s >= -1e-9 for s in signs) or all(s <= 1e-9 for s in signs)
