""" C09: topological invariants are conserved along histories. """
import functools, json, math, pickle, random
import core, engine, inject, plain, simsys, strands, zygote
import world as W
from core import digest
from checks.common import Result, drop_each
from checks import hist, c08
from checks.hist import Bad

ID = 'C09'
RULE = ('a run carries up to five laminations along a history of moves and measures them and pairs of them on the way: on the carried objects, on objects made afresh from the weights of the model, and on '
        'objects restored in another interpreter after a crash; moves and measurements are interrupted and repeated. Every measurement is compared with what following strands on plain data gives at the '
        'beginning, or, where there is no such oracle, with an undisturbed measurement at the beginning. Non-trivial: measured after at least two moves; distinct by history, measurements and faults.')
REAL = ['curver.kernel', 'pickle', 'networkx', 'numpy']
STUB = ['crash (the process is discarded; only pickled laminations survive)', 'source of interruptions', 'clock', 'locks', 'reference: strands, their meeting points and the regions they leave, on plain lists']
ASSUMPTIONS = ['laminations begin with at most a few hundred strands (times a multiplicity)', 'topological types, boundary unions, relative twisting and fillings by pairs are compared with their values at the beginning']
CASES = {'quick': 80, 'thorough': 9000}
RUNS = {'quick': 3, 'thorough': 5}
FAULTED = {'quick': 2, 'thorough': 4}

prepare = c08.prepare

# --- measurements
def canonical(v):
    if isinstance(v, (list, tuple)): return [canonical(x) for x in v]
    return v

def parcel(lams):
    """ Laminations with multiplicities, to be compared with images: ('lams', [[multiplicity, weights]]). """
    return ('lams', sorted(([m, list(x)] for m, x in lams), key=repr))

SINGLE = ['class', 'empty', 'num', 'peripheral?', 'nonperipheral?', 'filling', 'polygonal', 'type', 'closed type', 'components', 'peripheral', 'non_peripheral', 'multiarc', 'multicurve', 'skeleton', 'boundary', 'integral', 'triple', 'conjugate', 'shortened']
KNOWN = ['class', 'num', 'peripheral?', 'nonperipheral?', 'filling', 'polygonal', 'components', 'peripheral', 'non_peripheral', 'multiarc', 'multicurve', 'skeleton', 'triple', 'conjugate']
CURVES = ['separating', 'crush', 'vertex cycle']
ARCS = ['distinct', 'triangulation', 'vertices']
PAIRS = ['intersection', 'intersection', 'intersection', 'no common', 'sum']
CURVE_PAIRS = ['fills with', 'boundary union', 'twisted']
TRIPLES = ['twisting', 'both']

def measure(xs, what):
    """ A measurement of some of the laminations: ('value', v) or ('lams', ...). """
    K = core.import_curver().kernel
    name, args = what[0], [xs[i] for i in what[1:]]
    x = args[0]
    val = lambda v: ('value', canonical(v))
    if name == 'class': return val(type(x).__name__)
    if name == 'empty': return val([x.is_empty(), bool(x)])
    if name == 'integral': return val(x.is_integral())
    if name == 'num': return val(x.num_components())
    if name == 'peripheral?': return val(x.is_peripheral())
    if name == 'nonperipheral?': return val(x.is_non_peripheral())
    if name == 'filling': return val(x.is_filling())
    if name == 'polygonal': return val(x.is_polygonalisation())
    if name == 'type': return val(x.topological_type())
    if name == 'closed type': return val(x.topological_type(closed=True))
    if name == 'components': return parcel([(m, c) for c, m in x.components().items()])
    if name == 'peripheral': return parcel([(1, x.peripheral())])
    if name == 'non_peripheral': return parcel([(1, x.non_peripheral())])
    if name == 'multiarc': return parcel([(1, x.multiarc())])
    if name == 'multicurve': return parcel([(1, x.multicurve())])
    if name == 'skeleton': return parcel([(1, x.skeleton())])
    if name == 'boundary': return parcel([(1, x.boundary())])
    if name == 'triple': return val((x + x + x).num_components())
    if name == 'conjugate':  # Shortened elsewhere and back.
        short, h = x.shorten()
        return parcel([(1, h.inverse()(short))])
    if name == 'shortened':  # The short form has the same components, and all of them are parallel to edges or vertices.
        short, h = x.shorten()
        if h(x) != short: return val('another lamination')
        n = sum(m for _, (m, _) in list(short.parallel_components().items()) + list(short.peripheral_components().items()))
        return val([short.is_short(), type(short).__name__, n])
    if name == 'separating': return val(x.is_separating())
    if name == 'crush': return val(sorted((S.g, S.p) for S in x.crush().target_triangulation.surface().values()))
    if name == 'vertex cycle':
        c = x.vertex_cycle()
        return val([isinstance(c, K.Curve), all(v > 0 for v, w in zip(x, c) if w > 0)])
    if name == 'distinct': return val(x.has_distinct_endpoints())
    if name == 'triangulation': return val(x.is_triangulation())
    if name == 'vertices': return val(len(x.vertices()))
    y = args[1]
    if name == 'intersection': return val(x.intersection(y))
    if name == 'no common': return val(x.no_common_component(y))
    if name == 'sum': return val(x.intersection(*args[1:]))
    if name == 'fills with': return val(x.fills_with(y))
    if name == 'boundary union': return parcel([(1, x.boundary_union(y))])
    if name == 'twisted':
        n = x.num_components() % 3 + 1
        return val([n, x.encode_twist(power=n)(y).intersection(y), x.encode_twist(power=-n)(y).intersection(y)])
    z = args[2]
    if name == 'twisting': return val(x.relative_twisting(y, z))
    if name == 'both': return val(x.intersection(y, z))
    raise AssertionError(name)

def outcome(xs, what):
    try: return measure(xs, what)
    except (ValueError, AssertionError, NotImplementedError) as error: return ('raised', type(error).__name__)

# --- what following the strands gives
class Plain:
    """ What is known about the laminations from their strands. """
    def __init__(self, tri, weights):
        self.tri = tri
        self.parts = [self.split(w) for w in weights]
    def split(self, w):
        """ Components with multiplicities, or None if they cannot be followed. """
        if not all(isinstance(v, int) for v in w) or not self.tri.consistent(w): return None
        g = functools.reduce(math.gcd, w, 0)
        if g > 1 and self.tri.consistent([v // g for v in w]): w = [v // g for v in w]
        elif g > 1 and g % 2 == 0 and self.tri.consistent([2 * v // g for v in w]): g //= 2; w = [v // g for v in w]
        else: g = 1
        if sum(v for v in w if v > 0) > 500: return None
        return [(m * g, p) for m, p in strands.Strands(self.tri, w).components()]
    def known(self, what):
        """ The right answer, or None if strands do not tell. """
        tri, name = self.tri, what[0]
        parts = [self.parts[i] for i in what[1:]]
        if any(p is None for p in parts): return None
        a = parts[0]
        val = lambda v: ('value', v)
        weights = lambda p: strands.weights_of(tri, p)
        def together(ps):
            w = [0] * tri.zeta
            for m, p in ps:
                for i, v in enumerate(weights(p)): w[i] += m * v
            return ('lams', [[1, w]])
        link = functools.lru_cache(None)(lambda i: strands.is_link(tri, a[i][1]))
        curves = [q for q in a if q[1][0] == 'curve']
        arcs = [q for q in a if q[1][0] != 'curve']
        proper = [q for i, q in enumerate(a) if not (q[1][0] == 'curve' and link(i))]
        if name == 'class':
            n = sum(m for m, _ in a)
            if not a: return None
            return val(('Curve' if n == 1 else 'MultiCurve') if not arcs else ('Arc' if n == 1 else 'MultiArc') if not curves else 'IntegralLamination')
        if name == 'empty': return val([not a, bool(a)])
        if name == 'num': return val(sum(m for m, _ in a))
        if name == 'triple': return val(3 * sum(m for m, _ in a))
        if name == 'peripheral?': return val(not proper)
        if name == 'nonperipheral?': return val(len(proper) == len(a))
        if name == 'components': return ('lams', sorted(([m, weights(p)] for m, p in a), key=repr))
        if name == 'peripheral': return together([q for i, q in enumerate(a) if q not in proper])
        if name == 'non_peripheral': return together(proper)
        if name == 'multiarc': return together(arcs)
        if name == 'multicurve': return together(curves)
        if name == 'skeleton': return together([(1, p) for _, p in a])
        if name == 'conjugate': return together(a)
        if name == 'separating': return val(len(strands.regions(tri, [(1, p) for _, p in proper])) > len(strands.surfaces(tri)))
        if name == 'polygonal': return val(not curves and all(chi == 1 and v == 0 for chi, v, _ in strands.regions(tri, arcs)))
        if name == 'filling':
            if any(p[0] == 'curve' for _, p in proper): return val(False)
            if len(proper) != len(a): return None  # Peripheral curves among them: compared with the beginning.
            surf, comp = strands.surfaces(tri), tri.components()
            met = set(comp[m] for _, p in arcs for m in ([p[1]] if p[0] == 'edge' else p[1]))
            return val(all((c not in met and surf[c] == (0, 3)) or (chi == 1 and v <= 1) for chi, v, c in strands.regions(tri, arcs))) if a else None
        if name == 'distinct':
            vs = [v for m, p in a for v in strands.end_vertices(tri, p)]
            return val(len(set(vs)) == 2 * sum(m for m, _ in a))
        if name == 'vertices': return val(len(set(v for _, p in a for v in strands.end_vertices(tri, p))))
        if name == 'triangulation': return val(len(arcs) == tri.zeta and all(m == 1 for m, _ in arcs))
        if name in ('intersection', 'sum', 'both'): return val(sum(strands.intersection(tri, a, b) for b in parts[1:]))
        if name == 'no common': return val(not any(weights(p) == weights(q) for _, p in a for _, q in parts[1]))
        if name == 'twisted':
            b = parts[1]
            if any(p[0] != 'curve' for _, p in a + b) or len(a) != 1: return None
            i = strands.intersection(tri, a, b)
            m = a[0][0]
            n = m % 3 + 1
            return val([n, m * n * (i // m)**2, m * n * (i // m)**2])
        return None

# --- runs
class Run(c08.Run):
    def __init__(self, spec, states, expected):
        super().__init__(dict(spec, route='history'), states, ['?'] * len(spec['things']))
        self.expected = expected
    def check(self, where, state, T, xs):
        tri, ws, _ = state
        if hist.tri_of(T) != tri: raise Bad('elsewhere', f'{where}: the triangulation is {[list(t.labels) for t in T]}, the model has {[list(t) for t in tri.triples]}')
        for x, w in zip(xs, ws):
            if list(x) != w: raise Bad('weights', f'{where}: {list(x)} instead of {[hist.spell(v) for v in w]}')
    def look(self, at, who, what, T, xs):
        self.looks += 1
        if who == 'fresh':
            ws = self.states[at][1]
            ys = [self.do(lambda w=w: T(list(w))) for w in ws]
        else: ys = xs
        got = self.do(lambda: outcome(ys, what))
        want = self.expected(at, what)
        if got[0] == 'lams': got = ('lams', sorted(got[1], key=repr))
        if got != want:
            things = [self.spec['things'][i][1] for i in what[1:]]
            raise Bad(f'{what[0]}/{who}', f'{what[0]} of {things}, {who} after {at} moves: {show(got)}, should be {show(want)}')

def show(v):
    s = repr(v[1] if isinstance(v, (list, tuple)) and len(v) == 2 else v)
    return s if len(s) < 260 else s[:260] + '...'

def along(run, spec, T, xs, start, stop):
    """ Carry the laminations from one step to another and measure them on the way. """
    at = start
    def looks(who_ok):
        for step, who, what in spec['measures']:
            if step == at and who in who_ok: run.look(at, who, what, T, xs)
    looks(('carried', 'fresh'))
    while at < stop:
        waits = sorted(set(m[0] for m in spec['measures'] if at < m[0] <= stop) | {stop})
        n = min(waits[0] - at, 1 if run.R.random() < .6 else 3)
        h = c08.single(run, T, run.items[at]) if n == 1 else c08.batch(run, T, at, at + n)
        xs = c08.onward(run, h, xs); T = h.target_triangulation; at += n
        run.check(f'after {at} moves', run.states[at], T, xs)
        looks(('carried', 'fresh'))
    return T, xs

def expectation(spec, states, reference):
    """ What a measurement after some moves should give. """
    def expected(at, what):
        want = reference[json.dumps(what)]
        if want[0] != 'lams': return tuple(want)
        return ('lams', sorted(([m, states[at][2][tuple(hist.spell(v) for v in w)]] for m, w in want[1]), key=repr))
    return expected

def go(spec, states, reference, profile, budget):
    """ One run, in a forked copy; up to the crash if there is one. """
    simsys.install_clock()
    random.seed(12345)
    T = hist.make_tri(states[0][0])
    xs = [hist.build(T, t) for t in spec['things']]
    run = Run(spec, states, expectation(spec, states, reference))
    exc = engine.exceptions()
    if profile: mon = inject.Monitor(limit=3_000_000, profile=True)
    else:
        mon = engine.Disturber(limit=budget)
        for place, name in spec['faults']:
            def strike(_e=exc[name]):
                if not run.inside or engine.swallowed(): return
                raise _e('injected')
            mon.arm(0, engine.Place.of(place), strike)
    bad, data = None, None
    n = len(spec['items'])
    stop = spec.get('crash_at')
    mon.start()
    try:
        try:
            T, xs = along(run, spec, T, xs, 0, n if stop is None else stop)
            if stop is not None: data = pickle.dumps(xs, run.R.randint(0, 5))
        finally: mon.stop()
    except Bad as error: bad = error.args
    except inject.StepLimit as error: bad = ('stuck', f'no end after {mon.count} lines, at {error}')
    except simsys.Deadlock: bad = ('deadlock', 'deadlock')
    except Exception as error:  # pylint: disable=broad-except
        import traceback
        where = traceback.extract_tb(error.__traceback__)[-1]
        bad = (f'raised/{type(error).__name__}', f'{type(error).__name__}: {str(error)[:160]} (at {where.filename.split("/")[-1]}:{where.name})')
    prof = None
    if profile: prof = sorted((engine.code_key(code), line, k, len(engine.line_offsets(code, line)), 1 if line in engine.info(code).writes else 0) for (code, line), k in mon.profile.items())
    return bad, run.struck, run.looks, mon.count, prof, data

def resumed(spec, states, reference, data):
    simsys.install_clock()
    states = pickle.loads(states)
    run = Run(spec, states, expectation(spec, states, reference))
    mon = engine.Disturber(limit=40_000_000)
    mon.start()
    try:
        try:
            xs = pickle.loads(data)
            at = spec['crash_at']
            run.check('restored', states[at], xs[0].triangulation, xs)
            along(run, spec, xs[0].triangulation, xs, at, len(spec['items']))
            return None, run.looks
        finally: mon.stop()
    except Bad as error: return ('resumed/' + error.args[0], 'resumed: ' + error.args[1]), 0
    except inject.StepLimit as error: return ('stuck', f'resuming does not end: {error}'), 0
    except Exception as error:  # pylint: disable=broad-except
        return (f'resumed/raised/{type(error).__name__}', f'resuming: {type(error).__name__}: {str(error)[:160]}'), 0

def one(spec, states, reference, profile=False, budget=40_000_000):
    bad, struck, looks, count, prof, data = core.judged(spec, go, spec, states, reference, profile, budget)
    if bad is None and data is not None:
        bad, more = zygote.SERVERS[spec['server'] % len(zygote.SERVERS)].judged(spec, 'checks.c09', 'resumed', spec, pickle.dumps(states), reference, data)
        looks += more
    return bad, struck, looks, count, prof

def at_start(spec, whats, limit):
    """ Undisturbed measurements at the beginning; each on laminations of its own. """
    simsys.install_clock()
    T = hist.make_tri(plain.Tri(spec['tri']))
    out = {}
    for what in whats:
        xs = [hist.build(T, t) for t in spec['things']]
        mon = inject.Monitor(limit=limit)
        mon.start()
        try:
            try: out[json.dumps(what)] = outcome(xs, what)
            finally: mon.stop()
        except inject.StepLimit: pass
        except Exception as error: out[json.dumps(what)] = ('failed', f'{type(error).__name__}: {str(error)[:100]}')  # pylint: disable=broad-except
    return out

def prepare_run(spec, limit=400_000):
    """ (states, reference, spec without the measurements which take too long, problem). """
    tri = plain.Tri(spec['tri'])
    items = hist.decode(spec['items'])
    start = [[hist.number(v) for v in t[1]] for t in spec['things']]
    whats = [json.loads(s) for s in dict.fromkeys(json.dumps(m[2]) for m in spec['measures'])]
    know = Plain(tri, start)
    reference = core.judged(spec, at_start, spec, whats, limit)
    problem = None
    for what in whats:
        key = json.dumps(what)
        known = know.known(what)
        if known is None: continue
        if key in reference and tuple(reference[key]) != known:
            things = [spec['things'][i][1] for i in what[1:]]
            problem = (f'{what[0]}/at the beginning', f'{what[0]} of {things}: {show(reference[key])}, should be {show(known)}')
        if key in reference: reference[key] = known
    spec = dict(spec, measures=[m for m in spec['measures'] if json.dumps(m[2]) in reference])
    later = set(json.dumps(m[2]) for m in spec['measures'] if m[0] >= 0)
    follow = dict((tuple(hist.spell(v) for v in w), w) for k, v in reference.items() if k in later and v[0] == 'lams' for _, w in v[1])
    states = [(tri, start, dict(follow))]
    for item in items:
        now, ws, more = states[-1]
        nxt, lam, _ = plain.act(now, item)
        states.append((nxt, [lam(w) for w in ws], dict((k, lam(w)) for k, w in more.items())))
    return states, reference, spec, problem

def execute(spec):
    try: states, reference, spec, problem = prepare_run(spec)
    except (plain.ModelError, AssertionError, KeyError, IndexError): return None
    bad = problem or one(spec, states, reference)[0]
    return None if bad is None else (bad[0], describe(spec, bad))

def describe(spec, bad):
    fs = [(f[1], *f[0][:2]) for f in spec['faults']]
    return f'{bad[1]} [history {json.dumps(spec["items"])}' + (f', interrupted {fs}' if fs else '') + (f', crash after {spec["crash_at"]}' if 'crash_at' in spec else '') + ']'

def shrink(spec):
    for rest in drop_each(spec['faults']): yield dict(spec, faults=rest)
    for rest in drop_each(spec['measures']):
        if rest: yield dict(spec, measures=rest)
    if 'crash_at' in spec: yield dict((k, v) for k, v in spec.items() if k != 'crash_at')
    n = len(spec['items'])
    for rest in drop_each(list(range(n))):
        steps = dict((old, sum(1 for i in rest if i < old)) for old in range(n + 1))
        out = dict(spec, items=[spec['items'][i] for i in rest], measures=[[steps.get(m[0], -1)] + m[1:] for m in spec['measures']])
        if 'crash_at' in spec: out['crash_at'] = steps[spec['crash_at']]
        yield out
    for i, item in enumerate(spec['items']):
        if isinstance(item, dict) and 'tw' in item and abs(item['tw'][1]) > 1:
            yield dict(spec, items=spec['items'][:i] + [{'tw': [item['tw'][0], 1 if item['tw'][1] > 0 else -1]}] + spec['items'][i + 1:])

def new_things(R, world, tri):
    out = hist.tracked(R, world, tri, R.randint(2, 4), ('lam',))
    loops = [e for e in range(-tri.zeta, tri.zeta) if tri.loop(e) and len(tri.star(e)) > 2]
    for _ in range(R.randint(1, 2)):
        if loops and R.random() < .7:
            e = R.choice(loops)
            star = tri.star(e)
            w = [0] * tri.zeta
            for x in star[1:star.index(~e)]: w[plain.norm(x)] += 1
        else: w = _edge(R, tri)
        for _ in range(R.choice([0, 1, 2, 3])):  # A mapping class: there and back.
            loop = R.choice(list(range(-tri.zeta, tri.zeta)))
            try: _, lam, _ = plain.act(tri, (loop, R.choice([-1, 1])))
            except plain.ModelError: continue
            nw = lam(w)
            if sum(v for v in nw if v > 0) <= 200: w = nw
        out.append(['lam', w])
    if R.random() < .25:
        t = R.choice(out)
        if all(isinstance(v, int) for v in t[1]): out.append(['lam', [R.choice([2, 3, 10**9]) * v for v in t[1]]])
    if R.random() < .5:  # With curves around some of the vertices.
        whole = [t[1] for t in out if all(isinstance(v, int) and v >= 0 for v in t[1]) and any(t[1])]
        w = list(R.choice(whole)) if whole else [0] * tri.zeta
        for star in R.sample(tri.vertices(), min(len(tri.vertices()), R.choice([1, 1, 2]))):
            m = R.choice([1, 2, 2, 3])
            for x in star: w[plain.norm(x)] += m
        out.append(['lam', w])
    if R.random() < .35:  # Several components.
        w = _random_lamination(R, tri)
        if w is not None: out.append(['lam', w])
    R.shuffle(out)
    return out[:5]

def _edge(R, tri):
    w = [0] * tri.zeta
    for e in R.sample(range(tri.zeta), R.choice([1, 1, 2, min(3, tri.zeta), tri.zeta])): w[e] = -R.choice([1, 1, 1, 2, 3])
    return w

def _random_lamination(R, tri):
    for _ in range(300):
        w = [R.choice([-2, -1, 0, 0, 1, 2, 2, 3, 4, 6]) if R.random() < .8 else 0 for _ in range(tri.zeta)]
        if R.random() < .3: w = [abs(v) for v in w]
        if tri.consistent(w): return w
    return None

def new_measures(R, kinds, n, crash_at):
    """ kinds: the class of each lamination. """
    names = list(range(len(kinds)))
    whole = [i for i in names if kinds[i] not in ('Lamination',)]
    curves = [i for i in names if kinds[i] in ('Curve', 'MultiCurve')]
    single = [i for i in names if kinds[i] == 'Curve']
    arcs = [i for i in names if kinds[i] in ('Arc', 'MultiArc')]
    def pick():
        r = R.random()
        if not whole: return [R.choice(['empty', 'integral', 'class', 'peripheral?', 'nonperipheral?', 'peripheral', 'non_peripheral']), R.choice(names)]
        if r < .38: return [R.choice(SINGLE), R.choice(whole)]
        if r < .44: return [R.choice(['empty', 'integral', 'class', 'peripheral?', 'nonperipheral?', 'peripheral', 'non_peripheral']), R.choice(names)]
        if r < .52 and curves: return [R.choice(CURVES), R.choice(curves)]
        if r < .58 and arcs: return [R.choice(ARCS), R.choice(arcs)]
        if r < .82: return [R.choice(PAIRS), R.choice(whole), R.choice(whole)]
        if r < .90 and curves: return [R.choice(CURVE_PAIRS), R.choice(curves), R.choice(whole)]
        if r < .95 and single: return ['twisting', R.choice(single), R.choice(whole), R.choice(whole)]
        return ['both', R.choice(whole), R.choice(whole), R.choice(whole)]
    whats = [pick() for _ in range(R.randint(2, 5))]
    out = []
    for what in whats:
        for step in sorted(set([n] + [R.randint(0, n) for _ in range(R.choice([0, 1, 2]))])):
            out.append([step, R.choice(['carried', 'carried', 'fresh']), what])
            if what[0] == 'intersection' and R.random() < .6: out.append([step, out[-1][1], [what[0], what[2], what[1]]])
    for i in whole:  # Some more, only at the beginning.
        for name in R.sample(KNOWN, 4): out.append([-1, 'fresh', [name, i]])
    for _ in range(2):
        if whole: out.append([-1, 'fresh', ['intersection', R.choice(whole), R.choice(whole)]])
    if crash_at is not None: out.append([crash_at, 'carried', whats[0]])
    R.shuffle(out)
    return out

def classes_of(spec):
    simsys.install_clock()
    T = hist.make_tri(plain.Tri(spec['tri']))
    out = []
    for t in spec['things']:
        try: out.append(type(hist.build(T, t)).__name__)
        except ValueError: out.append(None)
    return out

def case(seed, tier, index):
    R = core.rng(ID, seed, index)
    res = Result()
    world = R.choice(engine.worlds())
    tri = plain.Tri([list(t) for t in dict(world['objs'])['T'][1]])
    for _ in range(RUNS[tier]):
        n = R.choice([1, 2, 3, 5, 8]) if tier == 'quick' else R.choice([1, 3, 6, 12, 20, 35])
        try: items = hist.new_history(R, tri, n, power=R.choice([2, 3, 9]))
        except plain.ModelError: res.count('cases the model cannot play'); continue
        spec = {'world': world['id'], 'tri': [list(t) for t in tri.triples], 'items': [hist.encode(i) for i in items], 'things': new_things(R, world, tri), 'rseed': R.randrange(10**6), 'faults': []}
        kinds = core.forked(classes_of, spec)
        spec['things'] = [t for t, k in zip(spec['things'], kinds) if k is not None]
        kinds = [k for k in kinds if k is not None]
        if not kinds: continue
        if R.random() < .35: spec.update(crash_at=R.randint(0, n), server=R.randrange(2))
        spec['measures'] = new_measures(R, kinds, n, spec.get('crash_at'))
        full = spec
        try: states, reference, spec, problem = prepare_run(spec, 400_000)
        except plain.ModelError: res.count('cases the model cannot play'); continue
        res.count('measurements that take too long', len(full['measures']) - len(spec['measures']))
        if problem is not None:
            res.bad.append((problem[0], describe(spec, problem), full))
            break
        bad, struck, looks, count, prof = one(spec, states, reference, profile=True)
        if bad is not None and bad[0] == 'stuck':
            res.count('runs too long to disturb')
            prof = None
            bad, struck, looks, _, _ = one(spec, states, reference)
        runs = [(spec, bad, struck, looks)]
        if bad is None and prof:
            for _ in range(FAULTED[tier]):
                again = dict(spec, faults=[[engine.pick_place(R, prof).to_json(), R.choice(list(engine.exceptions()))] for _ in range(R.choice([1, 1, 2, 3]))])
                bad, struck, looks, _, _ = one(again, states, reference, budget=20 * count + 20000)
                runs.append((again, bad, struck, looks))
                if bad is not None: break
        for s, bad, struck, looks in runs:
            res.evals += 1
            res.steps += count
            res.count('measurements', looks)
            for m in s['measures']: res.count('measured: ' + m[2][0])
            for k in struck: res.fault(k)
            if 'crash_at' in s: res.fault('crash and restart in another interpreter')
            if len(s['items']) > 1: res.distinct.add(digest((s['items'], s['measures'], s['faults'], s['rseed'])))
            for step, who, what in s['measures']: res.states.add(digest((s['items'][:step], what, who, [s['things'][i] for i in what[1:]])))
            if bad is not None: res.bad.append((bad[0], describe(s, bad), s))
        if index % 97 == 0 and not res.samples: res.samples.append(runs[-1][0])
        if res.bad: break
    return res
