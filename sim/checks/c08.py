""" C08: all routes through a history of moves agree. """
import copy, functools, json, pickle, random
import core, engine, inject, plain, simsys, zygote
import world as W
from core import digest
from checks.common import Result, drop_each
from checks import hist
from checks.hist import Bad

ID = 'C08'
RULE = ('a case draws a history of moves and things to carry along it, and plays it on the plain model; each run takes the same things along one route (one at a time, at once, in batches, '
        'in slices, rewritten, undone and redone, with detours, to a power, checkpointed and resumed after a crash in another interpreter) with interruptions of its steps, and compares every '
        'state it passes with the model. Non-trivial: at least two moves; distinct by history, route and faults.')
REAL = ['curver.kernel', 'pickle', 'networkx', 'numpy']
STUB = ['crash (the process is discarded; only the bytes of the checkpoint survive)', 'source of interruptions', 'clock', 'locks', 'reference: a model of triangulations, strands, chains and drawn twists on plain lists']
ASSUMPTIONS = ['histories have at most 40 moves and powers which the model can replay, except that huge powers appear where they cancel']
CASES = {'quick': 130, 'thorough': 9000}
ROUTES = {'quick': 5, 'thorough': 9}
FAULTED = {'quick': 2, 'thorough': 4}

def prepare(seed, tier):
    zygote.start([(4242, 777), (99 + seed, 313)])

# --- the routes; each yields the states it passes
class Run:
    """ Carries out operations, again if they are interrupted. """
    def __init__(self, spec, states, kinds):
        self.spec, self.states, self.kinds = spec, states, kinds
        self.R = core.rng('route', spec['rseed'])
        self.items = hist.decode(spec['items'])
        self.struck = []
        self.inside = False
        self.looks = 0
    def do(self, fn):
        while True:
            self.inside = True
            try: return fn()
            except BaseException as error:
                if error.args != ('injected',): raise
                if len(self.struck) > len(self.spec['faults']) + 1: raise Bad(f'{self.spec["route"]}/never again', f'{type(error).__name__} is raised again and again after the interruption') from None
                self.struck.append(type(error).__name__)
            finally: self.inside = False
    def compare(self, where, i, T, xs):
        """ Are these what the model has after i moves? """
        self.check(where, self.states[i], T, xs)
    def check(self, where, state, T, xs):
        self.looks += 1
        tri, ws, _ = state
        name = f'{self.spec["route"]}{"/" + self.spec["form"] if self.spec.get("form") else ""}'
        if hist.tri_of(T) != tri: raise Bad(f'{name}/triangulation', f'{where}: the triangulation is {[list(t.labels) for t in T]}, the model has {[list(t) for t in tri.triples]}')
        for x, w, kind, src in zip(xs, ws, self.kinds, self.spec['things']):
            if x.triangulation is not T and x.triangulation != T: raise Bad(f'{name}/elsewhere', f'{where}: the image is on another triangulation')
            if kind is None:
                if not tri.homologous(list(x), w): raise Bad(f'{name}/homology', f'{where}: the class {src[1]} became {list(x)}, the model has {[hist.spell(v) for v in w]}')
            else:
                if list(x) != w: raise Bad(f'{name}/weights', f'{where}: the {kind} {src[1]} became {[hist.spell(v) for v in x]}, the model has {[hist.spell(v) for v in w]}')
                if type(x).__name__ != kind: raise Bad(f'{name}/kind', f'{where}: a {kind} became a {type(x).__name__}')

def single(run, T, item):
    """ One move, through one of the ways to ask for it. """
    r = run.R.random()
    if r < .5: return run.do(lambda: T.encode([item]))
    if isinstance(item, int): return run.do(lambda: T.encode_flip(item))
    if isinstance(item, set): return run.do(lambda: T.encode_multiflip(set(item)))
    if isinstance(item, dict): return run.do(lambda: T.encode_relabel_edges(dict(item)))
    if item is None: return run.do(T.id_encoding)
    e, p = item
    if T.vertex_lookup[e] == T.vertex_lookup[~e]:
        if r < .75 or abs(p) > 9: return run.do(lambda: T.edge_curve(e).encode_twist(power=p))
        return run.do(lambda: T.edge_curve(e).encode_twist())**p
    if r < .75 or abs(p) > 9: return run.do(lambda: T.edge_arc(e).encode_halftwist(power=p))
    return run.do(lambda: T.edge_arc(e).encode_halftwist())**p

def onward(run, h, xs): return [run.do(lambda x=x: h(x)) for x in xs]

def batch(run, T, i, j): return run.do(lambda: T.encode(run.items[i:j][::-1]))

def cuts(run, n):
    k = min(n - 1, run.R.choice([1, 1, 2, 3])) if n > 1 else 0
    at = sorted(run.R.sample(range(1, n), k)) if k else []
    return [0] + at + [n]

def steps(run, T, xs):
    for i, item in enumerate(run.items):
        h = single(run, T, item)
        xs = onward(run, h, xs); T = h.target_triangulation
        run.compare(f'after move {i + 1} {hist.encode(item)}', i + 1, T, xs)

def moves(run, T, xs):
    """ Move by move, through the moves of each encoding. """
    for i, item in enumerate(run.items):
        h = single(run, T, item)
        for move in reversed(list(h)): xs = [run.do(lambda x=x, move=move: move(x)) for x in xs]; T = move.target_triangulation
        run.compare(f'after the moves of {hist.encode(item)}', i + 1, T, xs)

def whole(run, T, xs):
    h = batch(run, T, 0, None)
    run.compare('at the end', -1, h.target_triangulation, onward(run, h, xs))

def product(run, T, xs):
    hs, now = [], T
    for item in run.items:
        hs.append(single(run, now, item)); now = hs[-1].target_triangulation
    while len(hs) > 1:
        i = run.R.randrange(len(hs) - 1)
        hs[i:i + 2] = [run.do(lambda: hs[i + 1] * hs[i])]
    run.compare('at the end', -1, hs[0].target_triangulation, onward(run, hs[0], xs))

def batches(run, T, xs):
    at = cuts(run, len(run.items))
    for i, j in zip(at, at[1:]):
        h = batch(run, T, i, j)
        xs = onward(run, h, xs); T = h.target_triangulation
        run.compare(f'after {j} moves', j, T, xs)

def slices(run, T, xs):
    h = batch(run, T, 0, None)
    n = len(h)
    i, j = sorted([run.R.randint(0, n), run.R.randint(0, n)])
    if run.R.random() < .3: i, j = sorted([i, n]), None
    if j is None: i, j = i[0], n
    a, b, c = run.do(lambda: h[:i]), run.do(lambda: h[i:j]), run.do(lambda: h[j:])
    ys = onward(run, a, onward(run, b, onward(run, c, xs)))
    run.compare(f'in slices cut at {i} and {j} of {n}', -1, a.target_triangulation, ys)
    g = run.do(lambda: a * b * c)
    run.compare(f'by the product of slices cut at {i} and {j} of {n}', -1, g.target_triangulation, onward(run, g, xs))

FORMS = ['flip_mapping', 'combine_isometries', 'simplify', 'package', 'encode', 'pickle', 'copy', 'deepcopy', 'inverse', 'promote', 'identity', 'none', 'nested', 'combine_flip', 'flip_combine', 'slice_all']
def rewritten(form, h):
    K = core.import_curver().kernel
    if form == 'flip_mapping': return h.flip_mapping()
    if form == 'combine_isometries': return h.combine_isometries()
    if form == 'simplify': return h.simplify()
    if form == 'package': return h.source_triangulation.encode(h.package())
    if form == 'encode': return h.source_triangulation.encode(list(h))
    if form == 'pickle': return pickle.loads(pickle.dumps(h))
    if form == 'copy': return copy.copy(h)
    if form == 'deepcopy': return copy.deepcopy(h)
    if form == 'inverse': return h.inverse().inverse()
    if form == 'promote': return h.promote()
    if form == 'identity': return h.target_triangulation.id_encoding() * h * h.source_triangulation.id_encoding()
    if form == 'none': return h * None
    if form == 'nested': return h.source_triangulation.encode([h, None])
    if form == 'combine_flip': return h.flip_mapping().combine_isometries()
    if form == 'flip_combine': return h.combine_isometries().flip_mapping()
    return h[:]

def rewrite(run, T, xs):
    at = cuts(run, len(run.items)) if run.R.random() < .5 else [0, len(run.items)]
    for i, j in zip(at, at[1:]):
        h = batch(run, T, i, j)
        g = run.do(lambda: rewritten(run.spec['form'], h))
        if g.source_triangulation != T: raise Bad(f'rewrite/{run.spec["form"]}/source', f'{run.spec["form"]} of moves {i} to {j} starts elsewhere')
        form = run.spec['form']
        K = core.import_curver().kernel
        if form in ('flip_mapping', 'combine_flip') and not all(isinstance(m, (K.EdgeFlip, K.Isometry)) for m in g):
            raise Bad(f'rewrite/{form}/form', f'{form} has other moves: {[type(m).__name__ for m in g]}')
        if form in ('combine_isometries', 'combine_flip') and any(isinstance(m, K.Isometry) for m in list(g)[1:]):
            raise Bad(f'rewrite/{form}/form', f'{form} has isometries that are not at the front: {[type(m).__name__ for m in g]}')
        xs = onward(run, g, xs); T = g.target_triangulation
        run.compare(f'by {form} of moves {i} to {j}', j, T, xs)

def undo(run, T, xs):
    """ Forwards and backwards at random, by inverses of what was done. """
    n = len(run.items)
    at, stack = 0, []
    for _ in range(run.R.randint(4, 9)):
        if stack and (at == n or run.R.random() < .45):
            i, h = stack.pop()
            r = run.R.random()
            if r < .2 and stack:  # Two batches at once.
                i2, h2 = stack.pop()
                g = run.do(lambda: (h * h2).inverse()); i = i2
            elif r < .4: g = run.do(lambda: ~h)
            elif r < .6: g = run.do(lambda: h.source_triangulation.encode([h]).inverse())
            else: g = run.do(h.inverse)
            xs = onward(run, g, xs); T = g.target_triangulation; at = i
            run.compare(f'back to {at} moves', at, T, xs)
        elif at < n:
            j = run.R.randint(at + 1, min(n, at + 3))
            h = batch(run, T, at, j)
            stack.append((at, h))
            xs = onward(run, h, xs); T = h.target_triangulation; at = j
            run.compare(f'on to {at} moves', at, T, xs)

def linear(run, T, xs):
    """ The partial linear functions of the batches. """
    K = core.import_curver().kernel
    at = cuts(run, len(run.items)) if run.R.random() < .5 else [0, len(run.items)]
    for i, j in zip(at, at[1:]):
        h = batch(run, T, i, j)
        if run.R.random() < .3: h = run.do(h.flip_mapping)
        ys = onward(run, h, xs)
        for x, y in zip(xs, ys):
            if not isinstance(x, K.MultiCurve): continue
            f = run.do(lambda: h.pl_action(x))
            got = list(run.do(lambda: f(x.geometric)))
            if got != list(y.geometric): raise Bad('linear/value', f'the partial linear function of moves {i} to {j} takes {list(x)} to {got}, the moves to {list(y)}')
            if x.geometric not in f: raise Bad('linear/outside', f'the partial linear function of moves {i} to {j} at {list(x)} is not defined there')
            two = [2 * v for v in x.geometric]
            if list(run.do(lambda: f(two))) != [2 * v for v in y.geometric]: raise Bad('linear/scale', f'the partial linear function of moves {i} to {j} at {list(x)} is not linear')
        xs, T = ys, h.target_triangulation
        run.compare(f'after {j} moves', j, T, xs)

def matrices(run, T, xs):
    """ Homology matrices compose as the maps do, and act as they do. """
    import numpy as np
    at = cuts(run, len(run.items))
    hs = []
    now = T
    for i, j in zip(at, at[1:]):
        hs.append(batch(run, now, i, j)); now = hs[-1].target_triangulation
    h = batch(run, T, 0, None)
    M = run.do(h.homology_matrix)
    N = functools.reduce(lambda p, g: run.do(g.homology_matrix).dot(p), hs[1:], run.do(hs[0].homology_matrix))
    if not np.array_equal(M, N): raise Bad('matrices/product', f'the homology matrix of {len(run.items)} moves is {M.tolist()}, that of its batches cut at {at} is {N.tolist()}')
    I = run.do(lambda: h.inverse().homology_matrix())
    if not np.array_equal(M.dot(I), np.identity(len(M), dtype=object)): raise Bad('matrices/inverse', 'the homology matrix of the inverse is not the inverse')
    K = core.import_curver().kernel
    src, tgt = run.do(T.homology_basis), run.do(h.target_triangulation.homology_basis)
    tri = run.states[-1][0]
    for k, hc in enumerate(src):
        image = run.do(lambda: h(hc))
        want = [sum(int(M[i][k]) * list(b)[e] for i, b in enumerate(tgt)) for e in range(T.zeta)]
        if not tri.homologous(list(image), want): raise Bad('matrices/action', f'column {k} of the homology matrix is not the image of basis element {list(hc)}')
    Q = run.do(h.intersection_matrix)
    for i, arc in enumerate(run.do(T.edge_arcs)):
        w = run.spec['edge_images'][i]
        if list(Q[i]) != w: raise Bad('matrices/intersection', f'row {i} of the intersection matrix is {list(Q[i])}, the model has {w}')
    if [int(v) for v in run.do(h.self_image)] != run.spec['self_image']: raise Bad('matrices/self_image', 'self_image is not the image of the triangulation')
    run.compare('at the end', -1, h.target_triangulation, onward(run, h, xs))

def power(run, T, xs):
    """ Powers of a history that comes back. """
    h = batch(run, T, 0, None)
    for k in run.spec['powers']:
        state = run.spec['power_states'][str(k)]
        r = run.R.random()
        if r < .35:
            g = run.do(lambda: h**k); ys = onward(run, g, xs)
        elif r < .7: ys = [run.do(lambda x=x: h(x, power=k)) for x in xs]
        elif r < .85:
            g = run.do(lambda: (h.inverse() if k < 0 else h).simplify()); ys = xs
            for _ in range(abs(k)): ys = onward(run, g, ys)
        else:
            g = run.do(lambda: h**(k + 2)); f = run.do(lambda: h**-2)
            ys = onward(run, g * f, xs)
        run.check(f'to the power {k}', state, T, ys)

def detour(run, T, xs):
    """ The same history with moves which cancel put in, some of enormous power. """
    for n, items in enumerate(run.spec['detours']):
        full = hist.decode(items)
        if run.R.random() < .5:
            h = run.do(lambda: T.encode(full[::-1]))
            if run.R.random() < .3: h = run.do(lambda: pickle.loads(pickle.dumps(h)))
            ys = onward(run, h, xs); end = h.target_triangulation
        else:
            ys, end = xs, T
            for item in full:
                g = single(run, end, item)
                ys = onward(run, g, ys); end = g.target_triangulation
        run.compare(f'with the detour {json.dumps(items)}', -1, end, ys)

def closing(run, T, xs):
    """ The last relabelling of a history that comes back given by the image of a single edge. """
    last = run.items[-1]
    for k in run.R.sample(sorted(last), min(3, len(last))):
        h = run.do(lambda: T.encode([{k: last[k]}] + run.items[:-1][::-1]))
        run.compare(f'closed up by {k} -> {last[k]}', -1, h.target_triangulation, onward(run, h, xs))
    mid = run.do(lambda: T.encode(run.items[:-1][::-1]))
    found = [m.encode() * mid for m in run.do(lambda: mid.target_triangulation.isometries_to(T))]
    if not any(m.self_image() == h.self_image() and all(m(x) == h(x) for x in xs) for m in found): raise Bad('closing/isometries', 'the closing isometry is not among isometries_to')

def equal(run, T, xs):
    """ Differently made maps are equal, have equal hashes, and differ from others. """
    h = batch(run, T, 0, None)
    at = cuts(run, len(run.items))
    g, now = None, T
    for i, j in zip(at, at[1:]):
        f = batch(run, now, i, j); now = f.target_triangulation
        g = f * g
    form = run.spec['form']
    g = run.do(lambda: rewritten(form, g))
    if not run.do(lambda: h == g) or run.do(lambda: h != g): raise Bad(f'equal/{form}', f'{len(run.items)} moves and their {form} in batches cut at {at} are not equal')
    if run.do(lambda: hash(h)) != run.do(lambda: hash(g)): raise Bad(f'equal/{form}/hash', f'{len(run.items)} moves and their {form} in batches cut at {at} have different hashes')
    other = hist.decode(run.spec['other'])
    f = run.do(lambda: T.encode(other[::-1]))
    if run.do(lambda: f == h) or not run.do(lambda: h != f): raise Bad('equal/different', f'is equal to the different history {run.spec["other"]}')
    run.compare('at the end', -1, g.target_triangulation, onward(run, g, xs))

def crash(run, T, xs):
    """ Runs until the crash; what is written to the checkpoint is all that survives. """
    n = len(run.items)
    k = run.spec['crash_at']
    form = run.spec['form']
    if k:
        h = batch(run, T, 0, k)
        ys = onward(run, h, xs); now = h.target_triangulation
    else: h, ys, now = T.id_encoding(), xs, T
    run.compare(f'before the crash at {k}', k, now, ys)
    rest = run.do(lambda: now.encode(run.items[k:][::-1])) if k < n and form != 'items' else None
    proto = run.R.randint(0, 5)
    if form == 'images': data = (ys, None, None)
    elif form == 'map': data = (xs, h, None)
    elif form == 'rest': data = (ys, None, rest)
    elif form == 'both': data = (xs, h, rest)
    elif form == 'inverse': data = (ys, run.do(h.inverse), None)
    elif form == 'package': data = (xs, (T, h.package(), None if rest is None else rest.package()), None)
    else: data = (ys, None, None)
    run.out = run.do(lambda: pickle.dumps(data, proto))

def resume(spec, states, kinds, data):
    """ Runs in the interpreter that takes over. """
    run = Run(dict(spec, rseed=spec['rseed'] + 1), states, kinds)
    k, form = spec['crash_at'], spec['form']
    xs, h, rest = pickle.loads(data)
    n = len(run.items)
    T = xs[0].triangulation
    if form in ('images', 'items', 'rest'): run.compare('from the checkpoint', k, T, xs)
    if form == 'inverse':
        back = onward(run, h, xs)
        run.compare(f'taken back after the crash at {k}', 0, h.target_triangulation, back)
    elif form == 'map':
        xs = onward(run, h, xs); T = h.target_triangulation
        run.compare(f'by the checkpointed map after the crash at {k}', k, T, xs)
    elif form == 'both':
        g = rest * h if rest is not None else h
        run.compare(f'by the checkpointed maps after the crash at {k}', -1, g.target_triangulation, onward(run, g, xs))
        return run.looks
    elif form == 'package':
        T0, one, two = h
        g = T0.encode(one); T = g.target_triangulation
        xs = onward(run, g, xs)
        run.compare(f'by the checkpointed package after the crash at {k}', k, T, xs)
        if two is not None:
            g = T.encode(two)
            run.compare(f'by the checkpointed packages after the crash at {k}', -1, g.target_triangulation, onward(run, g, xs))
        return run.looks
    if k < n:
        g = rest if rest is not None else T.encode(run.items[k:][::-1])
        run.compare(f'resumed after the crash at {k}', -1, g.target_triangulation, onward(run, g, xs))
    return run.looks

ROUTE = dict(steps=steps, moves=moves, whole=whole, product=product, batches=batches, slices=slices, rewrite=rewrite, undo=undo, linear=linear, matrices=matrices, power=power, detour=detour, closing=closing, equal=equal, crash=crash)

# --- runs
def model(spec):
    """ The states of the model along the history, and what else the route is compared with. """
    tri = plain.Tri(spec['tri'])
    items = hist.decode(spec['items'])
    start = [[hist.number(v) for v in t[1]] for t in spec['things']]
    states = [(tri, start, None)]
    acts = []
    for item in items:
        now = states[-1][0]
        nxt, lam, hom = plain.act(now, item)
        acts.append((lam, hom))
        states.append((nxt, [(hom if t[0] == 'hc' else lam)(w) for t, w in zip(spec['things'], states[-1][1])], None))
    extra = {}
    if spec['route'] == 'matrices':
        images = []
        for i in range(tri.zeta + 1):
            w = [-1 if j == i or i == tri.zeta else 0 for j in range(tri.zeta)]
            for lam, _ in acts: w = lam(w)
            images.append(w)
        extra = {'edge_images': images[:-1], 'self_image': images[-1]}
    elif spec['route'] == 'power':
        if states[-1][0] != tri: raise plain.ModelError('the history does not come back')
        out = {}
        for k in spec['powers']:
            seq = items if k > 0 else plain._undo(tri, items)
            ws = start
            for _ in range(abs(k)):
                now = tri
                for item in seq:
                    now, lam, hom = plain.act(now, item)
                    ws = [(hom if t[0] == 'hc' else lam)(w) for t, w in zip(spec['things'], ws)]
            out[str(k)] = (tri, ws, None)
        extra = {'power_states': out}
    elif spec['route'] == 'closing' and (states[-1][0] != tri or not isinstance(items[-1], dict) or len(set(tri.components().values())) > 1): raise plain.ModelError('nothing to close')
    elif spec['route'] == 'equal':
        ends = []
        for seq in (items, hist.decode(spec['other'])):
            now, acts2 = tri, []
            for item in seq:
                now, lam, _ = plain.act(now, item); acts2.append(lam)
            images = []
            for i in range(tri.zeta):
                w = [-1 if j == i else 0 for j in range(tri.zeta)]
                for lam in acts2: w = lam(w)
                images.append(w)
            ends.append((now.triples, images))
        if ends[0] == ends[1]: raise plain.ModelError('the other history is not different')
    return states, extra

def go(spec, states, extra, profile, budget):
    """ One run, in a forked copy. """
    simsys.install_clock()
    random.seed(12345)
    K = core.import_curver().kernel
    T = hist.make_tri(states[0][0])
    things = [hist.build(T, t) for t in spec['things']]
    kinds = [None if t[0] == 'hc' else type(x).__name__ for t, x in zip(spec['things'], things)]
    run = Run(dict(spec, **extra), states, kinds)
    exc = engine.exceptions()
    if profile: mon = inject.Monitor(limit=2_500_000, profile=True)
    else:
        mon = engine.Disturber(limit=budget)
        for place, name in spec['faults']:
            def strike(_e=exc[name]):
                if not run.inside or engine.swallowed(): return
                raise _e('injected')
            mon.arm(0, engine.Place.of(place), strike)
    bad = None
    mon.start()
    try:
        try: ROUTE[spec['route']](run, T, things)
        finally: mon.stop()
    except Bad as error: bad = error.args
    except inject.StepLimit as error: bad = (f'{spec["route"]}/stuck', f'no end after {mon.count} lines, at {error}')
    except simsys.Deadlock: bad = (f'{spec["route"]}/deadlock', 'deadlock')
    except Exception as error:  # pylint: disable=broad-except
        import traceback
        where = traceback.extract_tb(error.__traceback__)[-1]
        bad = (f'{spec["route"]}{"/" + spec["form"] if spec.get("form") else ""}/raised/{type(error).__name__}', f'{type(error).__name__}: {str(error)[:160]} (at {where.filename.split("/")[-1]}:{where.name})')
    prof = None
    if profile:
        prof = sorted((engine.code_key(code), line, n, len(engine.line_offsets(code, line)), 1 if line in engine.info(code).writes else 0) for (code, line), n in mon.profile.items())
    return bad, run.struck, run.looks, mon.count, prof, kinds, getattr(run, 'out', None)

def one(spec, states, extra, profile=False, budget=40_000_000):
    out = core.judged(spec, go, spec, states, extra, profile, budget)
    bad, struck, looks, count, prof, kinds, data = out
    if bad is None and spec['route'] == 'crash':
        bad, more = zygote.SERVERS[spec['server'] % len(zygote.SERVERS)].judged(spec, 'checks.c08', 'resumed', spec, pickle.dumps(states), kinds, data)
        looks += more
    return bad, struck, looks, count, prof

def resumed(spec, states, kinds, data):
    simsys.install_clock()
    mon = engine.Disturber(limit=40_000_000)
    mon.start()
    try:
        try: return None, resume(spec, pickle.loads(states), kinds, data)
        finally: mon.stop()
    except Bad as error: return error.args, 0
    except inject.StepLimit as error: return ('crash/stuck', f'resuming does not end: {error}'), 0
    except Exception as error:  # pylint: disable=broad-except
        return (f'crash/{spec["form"]}/raised/{type(error).__name__}', f'resuming: {type(error).__name__}: {str(error)[:160]}'), 0

def execute(spec):
    try: states, extra = model(spec)
    except (plain.ModelError, AssertionError, KeyError, IndexError): return None
    bad = one(spec, states, extra)[0]
    return None if bad is None else (bad[0], describe(spec, bad))

def describe(spec, bad):
    fs = [(f[1], *f[0][:2]) for f in spec['faults']]
    return f'{bad[1]} [history {json.dumps(spec["items"])}' + (f', interrupted {fs}' if fs else '') + ']'

def shrink(spec):
    for rest in drop_each(spec['faults']): yield dict(spec, faults=rest)
    if spec['route'] not in ('detour', 'equal', 'closing'):
        for rest in drop_each(spec['items']):
            if rest: yield dict(spec, items=rest, **({'crash_at': min(spec['crash_at'], len(rest))} if 'crash_at' in spec else {}))
    if len(spec['things']) > 1:
        for rest in drop_each(spec['things']):
            if rest: yield dict(spec, things=rest)
    for i, item in enumerate(spec['items']):
        if isinstance(item, dict) and 'tw' in item and abs(item['tw'][1]) > 1 and spec['route'] not in ('detour', 'equal', 'closing', 'power'):
            yield dict(spec, items=spec['items'][:i] + [{'tw': [item['tw'][0], 1 if item['tw'][1] > 0 else -1]}] + spec['items'][i + 1:])
    if spec.get('detours') and len(spec['detours']) > 1:
        for d in spec['detours']: yield dict(spec, detours=[d])
    if spec.get('powers') and len(spec['powers']) > 1:
        for k in spec['powers']: yield dict(spec, powers=[k])

def with_detours(R, tri, items, states):
    """ The items with moves that cancel put in between, and powers taken apart. """
    out = []
    for i, item in enumerate(items + [None]):
        now = states[i][0]
        while R.random() < .3:
            r = R.random()
            if r < .5:
                e = R.randrange(-now.zeta, now.zeta)
                p = R.choice([-1, 1]) * R.choice([1, 2, 3, 7, 40, 12345, 10**6, 10**12 + 7])
                q = R.choice([-p, -p, None])
                if q is None: q = R.choice([-1, 1]) * R.randint(1, 10**6)
                out += [(e, p), (e, q)] + ([(e, -p - q)] if p + q else [])
            else:
                x = hist.new_item(R, now)
                out += [x, plain.inverse_item(now, x)]
        if i == len(items): break
        if isinstance(item, tuple) and R.random() < .6:
            p = R.choice([0, 1, -1, item[1], R.randint(-9, 9), 10**5, -10**9])
            for k in (p, item[1] - p):
                if k: out.append((item[0], k))
        elif isinstance(item, set) and len(item) > 1 and R.random() < .5: out += R.sample(sorted(item), len(item))
        elif isinstance(item, tuple) and abs(item[1]) == 1 and R.random() < .5: out += plain.expand(now, item[0], item[1] > 0)
        else: out.append(item)
    return out

def new_spec(R, route, wid, tri, world, tier):
    n = R.choice([1, 2, 3, 4, 6, 9]) if tier == 'quick' else R.choice([1, 2, 4, 8, 12, 20, 40])
    if route in ('power', 'closing'): items = hist.closed_history(R, tri, R.randint(1, 3))
    else: items = hist.new_history(R, tri, n, power=R.choice([2, 3, 9]))
    kinds = ('lam',) if route == 'linear' else ('lam', 'hc')
    spec = {'world': wid, 'tri': [list(t) for t in tri.triples], 'items': [hist.encode(i) for i in items], 'things': hist.tracked(R, world, tri, R.randint(1, 4), kinds), 'route': route, 'rseed': R.randrange(10**6), 'faults': []}
    return spec, items

def case(seed, tier, index):
    R = core.rng(ID, seed, index)
    res = Result()
    world = R.choice(engine.worlds())
    tri = plain.Tri([list(t) for t in dict(world['objs'])['T'][1]])
    names = sorted(ROUTE)
    for r in range(ROUTES[tier]):
        route = names[(index * ROUTES[tier] + r) % len(names)]
        spec, items = new_spec(R, route, world['id'], tri, world, tier)
        if route == 'closing' and not isinstance(items[-1], dict): route = spec['route'] = 'power'
        if route == 'closing' and len(set(tri.components().values())) > 1: route = spec['route'] = 'steps'
        if route == 'power': spec['powers'] = sorted(R.sample([-3, -2, -1, 1, 2, 3, 4], 2))
        if route in ('rewrite', 'equal'): spec['form'] = R.choice(FORMS)
        if route == 'crash': spec.update(form=R.choice(['images', 'items', 'map', 'rest', 'both', 'inverse', 'package']), crash_at=R.randint(0, len(items)), server=R.randrange(2))
        if route == 'equal':
            end = tri
            for item in items: end = plain.act(end, item)[0]
            other = list(items)
            other.insert(R.randint(0, len(items)), (0, 1))
            at = tri
            other = list(items)
            i = R.randint(0, len(items))
            for item in items[:i]: at = plain.act(at, item)[0]
            other.insert(i, (R.randrange(-at.zeta, at.zeta), R.choice([-2, -1, 1, 2])))
            spec['other'] = [hist.encode(x) for x in other]
        try: states, extra = model(spec)
        except plain.ModelError:
            res.count('cases the model cannot play'); continue
        if route == 'detour':
            spec['detours'] = [[hist.encode(x) for x in with_detours(R, tri, items, states)]]
        bad, struck, looks, count, prof = one(spec, states, extra, profile=True)
        if bad is not None and bad[0].endswith('/stuck'):  # Long rather than endless?
            res.count('runs too long to disturb')
            prof = None
            bad, struck, looks, _, _ = one(spec, states, extra)
        runs = [(spec, bad, struck, looks)]
        if bad is None and prof:
            for _ in range(FAULTED[tier]):
                faults = [[engine.pick_place(R, prof).to_json(), R.choice(list(engine.exceptions()))] for _ in range(R.choice([1, 1, 2, 3]))]
                again = dict(spec, faults=faults)
                bad, struck, looks, _, _ = one(again, states, extra, budget=20 * count + 20000)
                runs.append((again, bad, struck, looks))
                if bad is not None: break
        for s, bad, struck, looks in runs:
            res.evals += 1
            res.steps += count
            res.count('route ' + s['route']); res.count('states compared with the model', looks)
            for k in struck: res.fault(k)
            if s['route'] == 'crash': res.fault('crash and restart in another interpreter')
            if len(s['items']) > 1: res.distinct.add(digest((s['items'], s['route'], s.get('form'), s['faults'], s['rseed'])))
            res.states.add(digest((s['items'], s['tri'])))
            if bad is not None: res.bad.append((bad[0], describe(s, bad), s))
        if index % 97 == 0 and not res.samples: res.samples.append(runs[-1][0])
        if res.bad: break
    return res
