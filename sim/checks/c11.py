""" C11: failures of the viewer's surroundings are reported and contained. """
import json, os, shutil, tempfile
import core, viewer, simtk
from core import rng, digest
from checks import c10
from checks.common import Result, drop_each

ID = 'C11'
RULE = ('a run is one session of the real viewer in a simulated window system with faults: the window system fails or the window is closed while the viewer opens, the icon is missing or unusable, objects that cannot be '
        'shown are among those passed, saving a picture fails at opening, in the middle of writing or in the drawing backend, dialogs are cancelled, in between the events of C10. After each event: was the failure '
        'reported, is every canvas as it was, did nothing else get written; and everything shown later is compared with the same session in a world without faults. Non-trivial: at least one fault struck; distinct by objects and history.')
REAL = c10.REAL
STUB = c10.STUB + ['disk (errors on opening and writing)']
ASSUMPTIONS = c10.ASSUMPTIONS + ['a picture that could not be saved may leave a partial file under the name chosen']
CASES = {'quick': 240, 'thorough': 16000}
RUNS = {'quick': 8, 'thorough': 12}
EXPORT_FAULTS = ['denied', 'missing', 'isdir', 'readonly', 'toolong', 'nofds', 'full', 'io', 'oserror', 'memory']
REFUSED = ['int', 'none', 'string', 'encoding', 'homology', 'edge', 'float', 'class', 'mapping', 'huge']
Wrong = viewer.Wrong

def refused(kind, objs):
    """ Something that the viewer cannot show. """
    from curver import kernel as K
    T = objs['T']
    if kind == 'int': return 5
    if kind == 'none': return None
    if kind == 'string': return 'curve'
    if kind == 'float': return .5
    if kind == 'class': return K.Triangulation
    if kind == 'edge': return T.edges[0]
    if kind == 'homology': return K.HomologyClass(T, [0] * T.zeta)
    if kind == 'mapping':
        f = T.encode_flip(next(e for e in T.edges if T.is_flippable(e)))
        return f if not isinstance(f, K.MappingClass) else (f, 1, 2)
    if kind == 'encoding': return next((o for o in objs.values() if isinstance(o, K.Encoding) and not isinstance(o, K.MappingClass)), 7)
    if kind == 'huge': return T.lamination([10**400] * T.zeta, promote=False)
    raise core.HarnessError(kind)

class Watch:
    """ Checks what became of faults, and records what is shown. """
    def __init__(self, folder):
        self.folder = folder
        self.bad = None
        self.n = -1
        self.looks = {}      # event number -> (looks, tab, options shown)
        self.errors = {}     # event number -> first error
        self.states = set()
    def before(self, session, event):
        self.dialogs = len(session.display.dialogs)
        self.files = listing(self.folder)
        self.asked = session.display.asked
        self.struck = len(session.display.struck)
        self.pictures = [c.itemlist() for c in session.canvases()] if event[0] == 'export' else None
    def __call__(self, session, event):
        self.n += 1
        if self.bad is not None: return
        d = session.display
        if d.errors:
            self.errors[self.n] = d.errors[0]
            if event is not None and event[0] == 'export': self.bad = ('event failed: ' + d.errors[0][0], f'event {self.n} {event}: {d.errors[0]}')
            d.errors.clear()
        try:
            if event is not None and event[0] == 'export': self.exported(session, event)
            elif event is not None and event[0] != 'close' and listing(self.folder) != self.files: raise Wrong('files', f'this wrote {sorted(listing(self.folder))}')
        except Wrong as error: self.bad = self.bad or (error.args[0], f'after event {self.n} {event}: {error.args[1]}')
        if self.bad is not None:
            session.stop = True
            return
        if session.root.destroyed: return
        if event is None or event[0] == 'export' or self.n % 8 == 0 or self.n >= len(session.events) - 1:
            self.looks[self.n] = ([viewer.Look(c) for c in session.canvases()], session.current(), viewer.highlighted(session), session.names())
            self.states.add(digest((session.window(), session.current(), sorted(viewer.highlighted(session).items()), [c.itemlist()[-1:] for c in session.canvases()])))
    def opened_ok(self, session): return session.opened
    def exported(self, session, event):
        d = session.display
        if self.bad is not None: return
        path, fault = event[1], event[2]
        new = d.dialogs[self.dialogs:]
        told = [x for x in new if x[0] in simtk.ERROR_DIALOGS]
        files = listing(self.folder)
        if [c.itemlist() for c in session.canvases()] != self.pictures: raise Wrong('view changed', 'exporting changed what is shown')
        if d.asked != self.asked + 1: raise Wrong('export', f'the user was asked for a file name {d.asked - self.asked} times')
        extra = [f for f in files if f not in self.files and f != path]
        if not path:
            if new: raise Wrong('cancel', f'cancelling showed {new}')
            if files != self.files: raise Wrong('cancel', 'cancelling wrote a file')
        elif len(d.struck) > self.struck or not os.path.isdir(os.path.dirname(path)) or os.path.isdir(path):
            if not told: raise Wrong('not reported', f'saving the picture failed ({fault}) and nobody was told')
            if extra: raise Wrong('files', f'a failed export wrote {extra}')
            if len(d.struck) > self.struck and fault not in ('full', 'io', 'oserror') and files.get(path) != self.files.get(path): raise Wrong('files', 'the file was overwritten although opening it failed')
        else:
            if new: raise Wrong('false report', f'saving the picture worked but the user was shown {new}')
            if extra: raise Wrong('files', f'the export also wrote {extra}')
            if path not in files: raise Wrong('not written', 'saving the picture reported nothing but wrote nothing')
            with simtk.REAL_OPEN(path) as f: text = f.read()
            note = session.note()
            now = [c.postscript(colormode='color') for c in session.canvases()]
            body = lambda t: t.split('\n', 3)[3]
            if body(text) != body(now[note.index('current')]):
                which = [i for i, t in enumerate(now) if body(t) == body(text)]
                raise Wrong('wrong picture', f'the file shows tab {which} instead of {note.index("current")}' if which else 'the file does not show the picture')

def listing(folder):
    if folder is None: return {}
    out = {}
    for base, _, names in os.walk(folder):
        for n in names:
            p = os.path.join(base, n)
            st = os.stat(p)
            with simtk.REAL_OPEN(p) as f: out[p] = (st.st_size, hash(f.read()))
    return out

class Session(viewer.Session):
    def before(self, event):
        if self.watch and not self.root.destroyed: self.watch.before(self, event)

def materialise(events, folder):
    """ Put the files of the exports into the scratch folder. """
    out = []
    for e in events:
        e = tuple(e)
        if e[0] == 'export' and isinstance(e[1], str) and e[1].startswith('@'):
            e = ('export', os.path.join(folder, e[1][1:]), e[2])
        elif e[0] == 'export' and not e[1]: e = ('export', () if e[1] != '' else '', e[2])
        out.append(e)
    return out

def run(spec):
    import builtins
    viewer.load()
    folder = tempfile.mkdtemp(prefix='curver-sim-', dir='/tmp')
    simtk.SCRATCH[0] = folder
    builtins.open = simtk.sim_open
    cwd = os.getcwd()
    try:
        os.mkdir(os.path.join(folder, 'work'))
        os.chdir(os.path.join(folder, 'work'))
        os.mkdir(os.path.join(folder, 'folder'))
        with simtk.REAL_OPEN(os.path.join(folder, 'old.ps'), 'w') as f: f.write('an older picture')
        return _run(spec, folder)
    finally:
        os.chdir(cwd)
        builtins.open = simtk.REAL_OPEN
        simtk.SCRATCH[0] = None
        shutil.rmtree(folder)

def _run(spec, folder):
    pairs = c10.prepare_objects(spec)
    objs = c10._CACHE[(spec['world'],)]
    struck = []
    # First: openings that have to fail, each in its own session.
    for kind, how in spec.get('failing', ()):
        faults = c10.opening(spec)
        bads = list(pairs)
        if kind == 'refused':
            at, what = how
            bads.insert(at % (len(bads) + 1), ('bad', refused(what, objs)))
        else: faults = dict(faults, **{kind: [how]})
        args, _ = c10.arguments('args' if kind == 'refused' and spec['form'] in ('pairs', 'lists') else spec['form'], bads)
        s = Session(args, [], None, faults, 1)
        s.run()
        struck.extend(s.display.struck)
        if kind == 'refused':
            struck.append('refused:' + how[1])
            if s.outcome[0] != 'raised': return ('not refused', f'a viewer opened on {how[1]!r}'), None, struck
            if s.left: return ('window left behind', f'after {kind} {how} there is a window'), None, struck
        if s.display.errors: return ('event failed', f'{s.display.errors[0]}'), None, struck
    args, _ = c10.arguments(spec['form'], pairs)
    events = materialise(spec['events'], folder)
    watch = Watch(folder)
    s = Session(args, events, watch, c10.opening(spec), spec.get('colours', 1)).run()
    struck.extend(s.display.struck)
    bad = watch.bad
    if bad is not None: return bad, watch, struck
    # The same session in a world without faults.
    twin = Watch(None)
    calm = [('export', '', None) if e[0] == 'export' else e for e in events]
    t = Session(args, calm, twin, {k: v for k, v in c10.opening(spec).items() if k == 'wait_visibility'}, spec.get('colours', 1)).run()
    if t.outcome != s.outcome: bad = ('the viewer failed', f'it {s.outcome} with faults and {t.outcome} without (opening: {spec.get("opening")})')
    elif t.left < s.left: bad = ('close', 'the window is still there after closing')
    elif watch.opened_ok(s) != twin.opened_ok(t): bad = ('the viewer failed', 'no event loop')
    elif {k: v for k, v in watch.errors.items() if k not in twin.errors}: bad = ('event failed', f'{watch.errors} which all work in a world without faults')
    else:
        for n, (looks, at, options, names) in sorted(watch.looks.items()):
            if n not in twin.looks: bad = ('the viewer failed', f'event {n} is not reached without faults'); break
            looks2, at2, options2, names2 = twin.looks[n]
            if (at, options, names) != (at2, options2, names2): bad = ('view changed', f'after event {n} the tab, options and names are {(at, options, names)} but without faults {(at2, options2, names2)}'); break
            for i, (a, b) in enumerate(zip(looks2, looks)):
                diff = viewer.same_picture(a, b) or viewer.same_place(a, b)
                if diff is not None: bad = ('view changed', f'after event {n}, tab {i}, compared with a world without faults: {diff}'); break
            if bad: break
    return bad, watch, struck

def make(R, wid, objs, names, n):
    spec = c10.make(R, wid, objs, names, n)
    spec.pop('probes')
    events = spec['events'][:-1]
    for _ in range(R.choice([1, 2, 3, 6])):
        c = R.random()
        if c < .15: e = ('export', R.choice(['', ()]), None)
        elif c < .3: e = ('export', R.choice(['@new.ps', '@old.ps', '@picture', '@a b.ps']), None)
        elif c < .4: e = ('export', R.choice(['@nowhere/x.ps', '@folder']), None)
        else: e = ('export', R.choice(['@new.ps', '@old.ps', '@x.ps']), R.choice(EXPORT_FAULTS))
        events.insert(R.randrange(len(events) + 1), e)
    spec['events'] = events + [spec['events'][-1]]
    o = {}
    if R.random() < .4: o['PhotoImage'] = [R.choice(['missing', 'corrupt', 'memory', 'denied'])]
    if R.random() < .3: o['iconphoto'] = ['unsupported']
    spec['opening'] = o
    failing = []
    for _ in range(R.choice([0, 0, 1, 1, 2])):
        c = R.random()
        if c < .75: failing.append(['refused', [R.randrange(4), R.choice(REFUSED)]])
        elif c < .9: failing.append(['wait_visibility', 'closed'])
        else: failing.append(['Tk', 'no display'])
    spec['failing'] = failing
    return spec

def case(seed, tier, index):
    import engine, world as W
    out = Result()
    R = rng('C11', seed, index)
    ws = engine.worlds()
    wid = ws[R.randrange(len(ws))]['id']
    viewer.load()
    objs = c10._CACHE[(wid,)] = W.build(engine.world_by_id(wid))
    names = c10.showable(objs)
    for r in range(RUNS[tier]):
        spec = make(R, wid, objs, names, R.choice([2, 5, 12, 25, 50]))
        bad, watch, struck = core.within(100, spec, run, spec)
        out.evals += 1
        for f in struck: out.fault(f)
        if watch is not None:
            out.steps += watch.n
            out.states |= watch.states
            out.count('events', watch.n)
            out.count('pictures_compared', sum(len(l[0]) for l in watch.looks.values()))
        out.count('exports', sum(e[0] == 'export' for e in spec['events']))
        out.count('cancelled', sum(e[0] == 'export' and not e[1] for e in spec['events']))
        if struck: out.distinct.add(digest((spec['world'], spec['items'], spec['form'], spec['events'], spec['failing'])))
        if len(out.samples) < 2: out.samples.append(json.dumps(spec)[:600])
        if bad: out.bad.append((bad[0], bad[1], spec))
    return out

def execute(spec): return core.within(100, spec, run, spec)[0]

def shrink(spec):
    for rest in drop_each(spec['events']): yield dict(spec, events=rest)
    for i in range(len(spec.get('failing', ()))): yield dict(spec, failing=spec['failing'][:i] + spec['failing'][i + 1:])
    if spec.get('opening'):
        yield dict(spec, opening={})
        for k in spec['opening']: yield dict(spec, opening={x: v for x, v in spec['opening'].items() if x != k})
    if len(spec['items']) > 1:
        for i in range(len(spec['items'])): yield dict(spec, items=spec['items'][:i] + spec['items'][i + 1:])
    if spec['form'] != 'args': yield dict(spec, form='args')
