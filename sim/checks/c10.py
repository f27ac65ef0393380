""" C10: the viewer always shows what it was asked to show. """
import json, math
import core, viewer, simtk
from core import rng, digest
from checks.common import Result, drop_each

ID = 'C10'
RULE = ('a run is one session of the real viewer in a simulated window system: seeded objects in a seeded way of passing them, then a seeded history of user, window manager and fault events; '
        'after every event every canvas is compared with an independent model of what it should show, and at probes and at the end with a fresh session brought directly to the same options. '
        'Non-trivial: at least three events that change something; distinct by objects and history.')
REAL = ['curver.application', 'curver.kernel']
STUB = ['tkinter (windows, canvases, menus, variables, fonts, event loop)', 'file dialogs', 'message boxes', 'window manager and user']
ASSUMPTIONS = ['the simulated canvas behaves as Tk documents it; text extents are approximate', 'the viewer is opened on at least one object',
    'where a picture is on the screen is compared up to translation and scale, which are checked event by event']
CASES = {'quick': 240, 'thorough': 16000}
RUNS = {'quick': 8, 'thorough': 12}
KEYS = ['plus', 'equal', 'minus', 'underscore', '0', 'Up', 'Down', 'Left', 'Right']
IDLE = ['F1', 'a', 'Tab', 'Return', 'space', 'Shift_L', '1', 'w', 'q', 'BackSpace', 'Prior', 'parenright']
ZOOM = {'Zoom in': 'plus', 'Zoom out': 'minus', 'Zoom to drawing': '0'}
Wrong = viewer.Wrong

# ---------------------------------------------------------------- objects
def showable(objs):
    """ The names of the objects a viewer can draw in reasonable time. """
    from curver import kernel as K
    out = []
    for n, o in objs.items():
        if isinstance(o, (K.Triangulation, K.MappingClassGroup)): out.append(n)
        elif isinstance(o, (K.Lamination, K.MappingClass)):
            weights = viewer.shown_lamination(o)[1]
            top, total = max(abs(float(w)) for w in weights), sum(abs(float(w)) for w in weights)
            if total < 500 or 1000 < top < 1e200: out.append(n)
    return out

def derived(objs, recipe):
    """ Objects made from those of the world: multiples, fractions, images under powers. """
    from fractions import Fraction
    base, kind, k = recipe
    o = objs[base]
    if kind == 'times': return o * k
    if kind == 'fraction': return o.triangulation([Fraction(w) * Fraction(k[0], k[1]) for w in o])
    if kind == 'image': return (objs[k[0]]**k[1])(o)
    if kind == 'power': return o**k
    raise core.HarnessError(kind)

def invent(R, objs, names):
    """ A recipe for a derived object that can be drawn; None if there is none. """
    from curver import kernel as K
    for _ in range(5):
        base = R.choice(names)
        o = objs[base]
        if isinstance(o, K.MappingClass): recipe = [base, 'power', R.choice([-2, -1, 0, 2])]
        elif isinstance(o, K.Lamination):
            maps = [n for n in names if isinstance(objs[n], K.MappingClass) and objs[n].source_triangulation == o.triangulation]
            c = R.random()
            if c < .3 and maps: recipe = [base, 'image', [R.choice(maps), R.choice([1, 1, 2, -1, 8])]]
            elif c < .6: recipe = [base, 'fraction', R.choice([[1, 2], [1, 3], [2, 3], [5, 1], [7, 2]])]
            else: recipe = [base, 'times', R.choice([0, 2, 3, 400])]
        else: continue
        try: new = derived(objs, recipe)
        except Exception: continue  # pylint: disable=broad-except
        if showable({'x': new}): return recipe
    return None

def arguments(form, pairs):
    """ How the objects are passed: (arguments of start, the names of the tabs). """
    objs = [o for _, o in pairs]
    names = [n for n, _ in pairs]
    numbers = [str(i) for i in range(len(objs))]
    if form == 'args': return objs, numbers
    if form == 'list': return [list(objs)], numbers
    if form == 'dict':
        order = sorted(range(len(names)), key=lambda i: names[i])
        return [dict(pairs)], [names[i] for i in order]
    if form == 'pairs': return [tuple(p) for p in pairs], names
    if form == 'lists': return [list(p) for p in pairs] if len(pairs) > 1 else [[tuple(p) for p in pairs]], names
    if form == 'listpairs': return [[tuple(p) for p in pairs]], names
    raise core.HarnessError(form)

FORMS = ['args', 'args', 'list', 'dict', 'pairs', 'lists', 'listpairs']

# ---------------------------------------------------------------- sessions
def random_events(R, n, tabs, export=.04):
    out = []
    scale = [0] * tabs
    at = 0
    style = R.choice(['mixed', 'mixed', 'options', 'moves', 'burst'])
    while len(out) < n:
        c = R.random()
        if style == 'options': c = R.choice([c, .1])
        elif style == 'moves': c = R.choice([c, .5])
        if c < .3:
            k = R.random()
            if k < .35: e = ('menu', ['Settings', 'Edge label', R.choice(viewer.LABELS)])
            elif k < .6: e = ('menu', ['Settings', 'Sizes', R.choice(sorted(viewer.SIZES))])
            else: e = ('menu', ['Settings', R.choice(viewer.FLAGS)])
        elif c < .62:
            e = ('key', R.choice(KEYS)) if R.random() < .7 else ('menu', ['Settings', 'Zoom', R.choice(sorted(ZOOM))])
            z = e[1] if e[0] == 'key' else ZOOM[e[1][-1]]
            if z in viewer.IN: scale[at] += 1
            elif z in viewer.OUT: scale[at] -= 1
            elif z == '0': scale[at] = 0
            if abs(scale[at]) > 15: e = ('key', '0'); scale[at] = 0
        elif c < .74: e = ('tab', R.randrange(tabs)); at = e[1]
        elif c < .78: e = ('cycle', R.choice([1, -1])); at = (at + e[1]) % tabs
        elif c < .86: e = ('resize', R.choice([300, 301, 450, 700, 701, 900, 1200, 1920]), R.choice([300, 333, 500, 501, 700, 1080]))
        elif c < .88: e = ('expose',)
        elif c < .91: e = ('mouse', R.choice(['<Motion>', '<Button-1>', '<ButtonRelease-1>', '<B1-Motion>', '<MouseWheel>', '<Enter>']), R.randrange(700), R.randrange(500))
        elif c < .95: e = ('key', R.choice(IDLE))
        elif c < .95 + export: e = ('export', R.choice(['', ()]), None)
        else: e = ('menu', ['Help', R.choice(['Help', 'About'])])
        out.append(e)
        if style == 'burst' and R.random() < .2: out.extend([e] * R.randint(1, 4))
    if style == 'burst':
        out = [e for e in out if not (e[0] == 'key' and e[1] in viewer.OUT)]  # repeated, these would shrink the picture too far
    return out[:n] + [('close', R.choice(['wm', 'key', 'menu']))]

def kind_of(event):
    """ What the event should do to the position of the picture on the current tab. """
    z = None
    if event is not None and event[0] == 'key': z = event[1]
    if event is not None and event[0] == 'menu' and event[1][:2] == ['Settings', 'Zoom']: z = ZOOM[event[1][2]]
    if z in viewer.IN: return 'in'
    if z in viewer.OUT: return 'out'
    if z == '0': return 'fit'
    if z in viewer.PANS: return z
    return None

class Watch:
    """ Checks a session after every event. """
    def __init__(self, pairs, names, probes=(), deep=True):
        self.tabs = [viewer.Tab(n, dict(pairs)[n] if n in dict(pairs) else pairs[int(n)][1]) for n in names]
        self.names = names
        self.options = dict(viewer.START)
        self.bad = None
        self.probes = set(probes)
        self.seen = []       # [(options, tab, looks)]
        self.at = 0
        self.n = -1
        self.changes = 0
        self.final = None
        self.checked = 0
        self.states = set()
        self.boxes = None
        self.drawn = {'strands': 0, 'bands': 0}
        self.deep = deep
    def __call__(self, session, event):
        self.n += 1
        if self.bad is not None: return
        try: self.check(session, event)
        except Wrong as error:
            self.bad = (error.args[0], f'after event {self.n} {event}: {error.args[1]}')
            session.stop = True
    def check(self, session, event):
        d = session.display
        if d.errors:
            e = d.errors[0]
            raise Wrong('event failed: ' + e[0], f'{e[0]}: {e[1]} in {e[2]}')
        if event is not None and event[0] == 'close':
            if not session.root.destroyed: raise Wrong('close', 'the window is still open')
            return
        if session.root.destroyed: raise Wrong('close', 'the window closed by itself')
        self.options = viewer.options_after(self.options, event)
        if event is not None and event[0] == 'tab': self.at = event[1] % len(self.tabs)
        if event is not None and event[0] == 'cycle': self.at = (self.at + event[1]) % len(self.tabs)
        if session.names() != self.names: raise Wrong('tabs', f'the tabs are {session.names()} instead of {self.names}')
        if session.current() != self.at: raise Wrong('tabs', f'tab {session.current()} is shown instead of {self.at}')
        h = viewer.highlighted(session)
        if h != self.options: raise Wrong('menu', f'the menus say {h} instead of {self.options}')
        move = kind_of(event)
        canvases = session.canvases()
        boxes = [c.bbox('all') for c in canvases]
        looks = [viewer.Look(c) for c in canvases]
        optional = event is None or (event[0] == 'menu' and event[1][0] == 'Settings' and event[1][1] != 'Zoom')
        for i, (tab, look) in enumerate(zip(self.tabs, looks)):
            last = tab.last
            if last is not None:
                if not optional and (i != self.at or move is None):
                    if look.all != last.all: raise Wrong('bystander', f'tab {i} changed')
                    continue
                m = viewer.fit(last.dots, look.dots)
                if m is None: raise Wrong('vertices', f'{len(look.dots)} vertices instead of {len(last.dots)}')
                self.follow(last, look, m)
                self.where(m, move if i == self.at else None, session, self.boxes[i])
            else: self.placed(boxes[i], session)
            info = viewer.check_look(look, tab, self.options, getattr(tab, 'indices', None))
            self.checked += 1
            tab.indices = info['indices']
            if self.deep and tab.indices is not None and not getattr(tab, 'drawn', False):
                strands = max(abs(w) for w in tab.weights) <= 1000 and all(w == int(w) for w in tab.weights) and integral(tab)
                (viewer.check_curves if strands else viewer.check_thick)(look, tab, info)
                self.drawn['strands' if strands else 'bands'] += 1
                tab.drawn = True
            tab.last = look
        self.boxes = boxes
        if event is not None and (optional or move is not None or event[0] in ('tab', 'cycle', 'resize')): self.changes += 1
        self.states.add(digest((self.names, sorted(self.options.items()), self.at, [round(math.log(viewer.fit(looks[0].dots, l.dots)[0]), 2) if viewer.fit(looks[0].dots, l.dots) else 0 for l in looks[1:2]], session.window())))
        if self.n in self.probes: self.seen.append((dict(self.options), self.at, looks))
        self.final = (dict(self.options), self.at, looks)
    def follow(self, last, look, m):
        """ Everything that is drawn moves with the vertices. """
        tol = 1e-7 * (1 + max([abs(c) for p in last.dots + look.dots for c in p] + [0])) * max(1.0, m[0])
        for name, a, b in (('faces', last.faces, look.faces), ('edges', last.lines, look.lines), ('curves', last.curves, look.curves)):
            if len(a) != len(b): raise Wrong(name, f'{len(b)} {name} instead of {len(a)}')
            for (p, _, _), (q, _, _) in zip(a, b):
                if len(p) != len(q) or not all(viewer.close(viewer.moved(x, m), y, tol) for x, y in zip(p, q)): raise Wrong('moved', f'{name} did not move with the vertices')
        if not all(viewer.close(viewer.moved(x, m), y, tol) for x, y in zip(last.dots, look.dots)): raise Wrong('moved', 'the vertices did not move together')
    def where(self, m, move, session, box):
        """ Did the picture move as the event says? box: around the picture before the event. """
        f, tx, ty = m
        w, h = session.window()
        eps = 1e-6 * (1 + abs(tx) + abs(ty))
        if move is None:
            if abs(f - 1) > 1e-9 or abs(tx) > eps or abs(ty) > eps: raise Wrong('moved', f'the picture moved by {m}')
        elif move in ('in', 'out'):
            if not (1.01 < f < 1.5 if move == 'in' else .5 < f < .99): raise Wrong('zoom', f'zooming {move} scaled by {f}')
            x, y = tx / (1 - f), ty / (1 - f)
            if abs(x - w / 2) > 45 or abs(y - h / 2) > 45: raise Wrong('zoom', f'zooming is about ({x}, {y}) in a window of {w} x {h}')
        elif move == 'fit':
            x, y = viewer.moved(((box[0] + box[2]) / 2, (box[1] + box[3]) / 2), m)
            r = f * max(box[2] - box[0], box[3] - box[1]) / min(w, h)
            if abs(x - w / 2) > 45 or abs(y - h / 2) > 45: raise Wrong('zoom', f'zooming to the drawing puts its middle at ({x}, {y}) in a window of {w} x {h}')
            if not .55 <= r <= 1.02: raise Wrong('zoom', f'zooming to the drawing fills {r} of the window')
        else:
            dx, dy = viewer.PANS[move]
            if abs(f - 1) > 1e-9: raise Wrong('moved', f'{move} scaled by {f}')
            if abs(tx - 5 * dx) > eps or abs(ty - 5 * dy) > eps: raise Wrong('moved', f'{move} moved the picture by ({tx}, {ty})')
    def placed(self, box, session):
        """ A new picture fits its window. """
        w, h = session.window()
        x, y = (box[0] + box[2]) / 2, (box[1] + box[3]) / 2
        r = max(box[2] - box[0], box[3] - box[1]) / min(w, h)
        if abs(x - w / 2) > 45 + w / 50 or abs(y - h / 2) > 45 + h / 50 or not .5 <= r <= 1.02: raise Wrong('placed', f'the picture is around ({x}, {y}) and fills {r} of a window of {w} x {h}')

def integral(tab):
    """ Is every strand of it drawn? """
    from curver import kernel as K
    return not isinstance(tab.obj, K.Lamination) or isinstance(tab.obj, K.IntegralLamination)

def opening(spec):
    return {k: list(v) for k, v in spec.get('opening', {}).items()}

_CACHE = {}
def prepare_objects(spec):
    import world as W, engine
    key = (spec['world'],)
    if key not in _CACHE: _CACHE[key] = W.build(engine.world_by_id(spec['world']))
    objs = _CACHE[key]
    out = []
    for name, recipe in spec['items']: out.append((name, objs[recipe] if isinstance(recipe, str) else derived(objs, recipe)))
    return out

def run(spec):
    """ One session: (bad, watch, session). """
    viewer.load()
    pairs = prepare_objects(spec)
    args, names = arguments(spec['form'], pairs)
    named = pairs if spec['form'] in ('dict', 'pairs', 'lists', 'listpairs') else [(str(i), o) for i, (_, o) in enumerate(pairs)]
    watch = Watch(named, names, spec.get('probes', ()))
    s = viewer.Session(args, [tuple(e) for e in spec['events']], watch, opening(spec), spec.get('colours', 1)).run()
    bad = watch.bad
    if bad is None and s.outcome != ('returned',): bad = ('the viewer failed', f'{s.outcome[1]}: {s.outcome[2]}')
    if bad is None and s.left: bad = ('close', 'the window is still there after closing')
    if bad is None and not s.opened: bad = ('the viewer failed', 'no event loop')
    if bad is None:
        looked = list(watch.seen) + ([watch.final] if watch.final else [])
        for n, (options, at, looks) in enumerate(looked):
            steps = viewer.direct(options)
            rng('fresh', n, len(looked)).shuffle(steps)
            last = []
            def grab(session, event, _n=len(steps)):
                if session.at == _n: last[:] = [viewer.Look(c) for c in session.canvases()]
            opened = {k: v for k, v in opening(spec).items() if k == 'wait_visibility'}
            viewer.Session(args, steps, grab, opened, spec.get('colours', 1)).run()
            if len(last) != len(looks): bad = ('fresh', f'{len(looks)} pictures against {len(last)} in a fresh viewer'); break
            for i, (a, b) in enumerate(zip(last, looks)):
                diff = viewer.same_picture(a, b)
                if diff is not None: bad = ('differs from a fresh viewer', f'tab {i}, options {options}: {diff}'); break
            if bad: break
    return bad, watch, s

def make(R, wid, objs, names, n_events):
    k = R.choice([1, 1, 2, 2, 3, 4])
    items = []
    labels = R.sample(['a', 'b', 'curve', 'f', 'Lamination 1', 'x y', 'z_0', '10', '9'], k)
    for i in range(k):
        recipe = R.choice(names) if R.random() < .7 else (invent(R, objs, names) or R.choice(names))
        items.append([labels[i], recipe])
    form = R.choice(FORMS)
    spec = {'world': wid, 'items': items, 'form': form, 'events': random_events(R, n_events, k), 'colours': R.randrange(1000)}
    spec['probes'] = sorted(R.sample(range(1, n_events + 1), min(2, n_events)))
    o = {}
    if R.random() < .2: o['wait_visibility'] = [[R.choice([300, 500, 1024, 1920]), R.choice([300, 400, 1080])]]
    if o: spec['opening'] = o
    return spec

def case(seed, tier, index):
    import engine, world as W
    out = Result()
    R = rng('C10', seed, index)
    ws = engine.worlds()
    wid = ws[R.randrange(len(ws))]['id']
    viewer.load()
    objs = _CACHE[(wid,)] = W.build(engine.world_by_id(wid))
    names = showable(objs)
    for r in range(RUNS[tier]):
        n = R.choice([3, 8, 20, 20, 40, 80])
        spec = make(R, wid, objs, names, n)
        bad, watch, s = core.within(100, spec, run, spec)
        out.evals += 1
        out.steps += watch.n
        out.count('canvases_checked', watch.checked)
        out.count('events', watch.n)
        for k, v in watch.drawn.items(): out.count('laminations drawn in ' + k, v)
        for f in s.display.struck: out.fault(f.split(':')[0])
        for e in spec['events']:
            out.fault('event ' + e[0] if e[0] not in ('menu', 'key') else 'event ' + e[0] + ' ' + (e[1] if e[0] == 'key' else e[1][1]))
        out.states |= watch.states
        if watch.changes >= 3: out.distinct.add(digest((spec['world'], spec['items'], spec['form'], spec['events'])))
        if len(out.samples) < 2: out.samples.append(json.dumps(spec)[:600])
        if bad: out.bad.append((bad[0], bad[1], spec))
    return out

def execute(spec):
    bad, _, _ = core.within(100, spec, run, spec)
    return bad

def shrink(spec):
    for rest in drop_each(spec['events']): yield dict(spec, events=rest, probes=[])
    if 'opening' in spec: yield {k: v for k, v in spec.items() if k != 'opening'}
    if len(spec['items']) > 1:
        for i in range(len(spec['items'])): yield dict(spec, items=spec['items'][:i] + spec['items'][i + 1:])
    if spec['form'] != 'args': yield dict(spec, form='args')
