""" C12: incremental partitions track exactly what was joined. """
import copy, json, pickle
import core, engine, inject, simsys
from core import digest
from checks.common import Result, drop_each

ID = 'C12'
RULE = ('a run is a seeded history of joins (of two items, of many, of none, of unknown items) and lookups issued by several callers in turn on one or two partitions, with interruptions '
        'inside joins and lookups followed by retries, lookups overtaken by other lookups in a second simulated thread, containers of items the caller goes on using, and checkpoint / crash / restore; after every step the partition is '
        'compared with a reachability model. Non-trivial: at least one join and one fault or ten steps; distinct by the history.')
REAL = ['curver.kernel.UnionFind', 'pickle', 'copy', 'CPython threads']
STUB = ['thread scheduler', 'locks', 'source of interruptions', 'crash (only the pickle survives)']
ASSUMPTIONS = ['joins are issued by one caller at a time (a UnionFind makes no promise about a join running at the same time as anything else); lookups may overlap with lookups',
    'interruptions happen at line or byte code boundaries']
CASES = {'quick': 640, 'thorough': 40000}
RUNS = {'quick': 30, 'thorough': 60}

class Model:
    """ Which chains of joins connect what: plain sets, merged. """
    def __init__(self, items):
        self.cls = dict((x, frozenset([x])) for x in items)
    def join(self, a, b):
        new = self.cls[a] | self.cls[b]
        for x in new: self.cls[x] = new
    def partition(self): return set(self.cls.values())
    def copy(self):
        m = Model([]); m.cls = dict(self.cls); return m

def make_items(spec):
    from curver import kernel as K
    kind, n = spec[:2]
    if kind == 'int': return list(range(n))
    if kind == 'str': return ['x' * (i % 3) + str(i) for i in range(n)]
    if kind == 'tuple': return [(i % 3, i) for i in range(n)]
    if kind == 'edge': return [K.Edge(i - n // 2) for i in range(n)]
    if kind == 'mixed': return [i if i % 3 else (i,) if i % 2 else str(i) for i in range(n)]
    if kind == 'frozen': return [frozenset(range(i)) for i in range(n)]
    raise ValueError(kind)

def given(spec):
    """ The items as the caller hands them over: in some container, perhaps some of them more than once. """
    items, how = make_items(spec), spec[2] if len(spec) > 2 else 'list'
    if how == 'twice': return items + items[::2]
    if how == 'again': return [x for x in items for _ in range(1 + len(repr(x)) % 2)]
    return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'dict': dict.fromkeys}[how](items)

def meddle(container, k):
    """ The caller goes on using its own container. """
    if isinstance(container, list): [container.reverse, container.clear, lambda: container.append(('new', k)), lambda: container and container.pop(0)][k % 4]()
    elif isinstance(container, set): [container.clear, lambda: container.add(('new', k))][k % 2]()
    elif isinstance(container, dict): [container.clear, lambda: container.update({('new', k): None})][k % 2]()

def guarded(fn, fault, budget):
    exc = engine.exceptions()
    struck = [False]
    mon = engine.Disturber(limit=budget)
    mon.counting = True
    if fault is not None:
        def strike(_e=exc[fault[1]]):
            struck[0] = True
            raise _e('injected')
        mon.arm(0, engine.Place.of(fault[0]), strike)
    mon.start()
    try:
        try: out = ('value', fn())
        finally: mon.stop()
    except inject.StepLimit: out = ('stuck', 'no end in sight')
    except BaseException as error:  # pylint: disable=broad-except
        if error.args == ('injected',): out = ('injected', type(error).__name__)
        else: out = ('error', type(error).__name__, str(error)[:100])
    return out, struck[0]

def observe(uf, items, budget):
    """ (partition, problem) as the partition presents itself. """
    out, _ = guarded(lambda: ([list(g) for g in uf], len(uf), [uf(x) for x in items], str(uf)), None, budget)
    if out[0] != 'value': return None, f'looking at it ended in {out}'
    groups, size, roots, _ = out[1]
    part = set(frozenset(g) for g in groups)
    if sum(len(g) for g in groups) != len(items): return part, f'iteration gives {sum(len(g) for g in groups)} items of {len(items)}'
    if size != len(groups): return part, f'length is {size} but iteration gives {len(groups)} classes'
    by_root = {}
    for x, r in zip(items, roots): by_root.setdefault(r, set()).add(x)
    if set(map(frozenset, by_root.values())) != part: return part, 'lookups and iteration disagree'
    if any(r not in c for r, c in by_root.items()): return part, 'the representative of a class is not in it'
    return part, None

def run(spec):
    """ Perform a history: (bad, struck). """
    from curver import kernel as K
    items = make_items(spec['items'])
    n = len(items)
    budget = 4000 + 60 * n * n
    parts = []
    for _ in range(spec.get('parts', 1)):
        container = given(spec['items'])
        parts.append([K.UnionFind(container), Model(items), container])
    again = make_items(spec['items'])  # Equal to the items, but perhaps other objects.
    struck = []
    steps_done = []
    def check(p, what):
        part, problem = observe(parts[p][0], items, budget)
        if problem: return ('broken', f'after {json.dumps(what)}: {problem}')
        if part != parts[p][1].partition(): return ('wrong', f'after {json.dumps(what)}: classes {sorted(map(len, part))} expected {sorted(map(len, parts[p][1].partition()))}')
        return None
    for step in spec['steps']:
        kind, p = step[0], step[1] % len(parts)
        uf, model = parts[p][:2]
        if kind in ('join', 'join2'):
            args, fault = step[2], step[3]
            todo = [(items, again)[k % 2][i] if i < n else ('unknown', i) for k, i in enumerate(args)]
            bad_item = any(i >= n for i in args)
            if kind == 'join2': fn = lambda: uf.union2(*todo)
            else: fn = lambda: uf.union(*todo)
            out, hit = guarded(fn, fault, budget)
            if hit: struck.append(fault[1])
            full = model.copy()
            if kind == 'join2' and not bad_item: full.join(*todo)
            elif kind == 'join' and not bad_item:
                for x in todo: full.join(todo[0], x)
            if out[0] == 'value' and not bad_item: parts[p][1] = full
            elif out[0] == 'injected' or bad_item:
                if bad_item and out[0] == 'value': return ('accepted', f'{json.dumps(step)}: an unknown item was joined'), struck
                if bad_item and out[0] == 'error' and out[1] != 'KeyError': return ('other-error', f'{json.dumps(step)}: {out}'), struck
                if out[0] == 'stuck': return ('stuck', f'{json.dumps(step)}: {out}'), struck
                # Some of the requested joins may have been done: adopt what is there if it is between before and after.
                if bad_item and kind == 'join':
                    known = [x for x, i in zip(todo, args) if i < n]
                    for x in known: full.join(known[0], x)
                part, problem = observe(uf, items, budget)
                if problem: return ('broken', f'after {json.dumps(step)}: {problem}'), struck
                if not all(any(a <= b for b in part) for a in model.partition()): return ('lost', f'after {json.dumps(step)}: joins made before were lost'), struck
                if not all(any(a <= b for b in full.partition()) for a in part): return ('invented', f'after {json.dumps(step)}: items were joined that nobody asked to join'), struck
                m = Model([])
                m.cls = dict((x, c) for c in part for x in c)
                parts[p][1] = m
                if not bad_item and step[4]:  # Repeat.
                    out, _ = guarded(fn, None, budget)
                    if out[0] != 'value': return ('retry-failed', f'repeating {json.dumps(step)}: {out}'), struck
                    parts[p][1] = full
            else: return (out[0], f'{json.dumps(step)}: {out}'), struck
        elif kind == 'find':
            x = (items, again)[len(steps_done) % 2][step[2] % n]
            out, hit = guarded(lambda: uf(x), step[3], budget)
            if hit: struck.append(step[3][1])
            if out[0] == 'value':
                if out[1] not in model.cls or out[1] not in model.cls[x]: return ('wrong', f'{json.dumps(step)}: the representative is of another class'), struck
            elif out[0] != 'injected': return (out[0], f'{json.dumps(step)}: {out}'), struck
        elif kind == 'look':
            fn = [lambda: list(uf), lambda: len(uf), lambda: str(uf), lambda: repr(uf)][step[2] % 4]
            out, hit = guarded(fn, step[3], budget)
            if hit: struck.append(step[3][1])
            if out[0] in ('stuck', 'error'): return (out[0], f'{json.dumps(step)}: {out}'), struck
        elif kind == 'unknown':
            out, _ = guarded(lambda: uf(('unknown', 1)), None, budget)
            if out[:2] != ('error', 'KeyError'): return ('unknown', f'{json.dumps(step)}: {out}'), struck
        elif kind == 'race':
            xs, ys, place = step[2], step[3], step[4]
            got = [[], []]
            errors = []
            def body(t, zs):
                def go():
                    try:
                        for z in zs: got[t].append(uf(items[z % n]) if z >= 0 else set(frozenset(g) for g in uf))
                    except BaseException as error: errors.append(f'{type(error).__name__}: {error}')  # pylint: disable=broad-except
                return go
            sched = simsys.Scheduler([body(0, xs), body(1, ys)])
            mon = engine.Disturber(limit=budget)
            mon.counting = True
            mon.thread = lambda: sched.current
            def switch():
                if sched.switch(1): struck.append('overtaken')
            mon.arm(0, engine.Place.of(place), switch)
            mon.start()
            try: sched.run(0)
            finally: mon.stop()
            if errors: return ('race-failed', f'{json.dumps(step)}: {errors[0]}'), struck
            for t, zs in enumerate((xs, ys)):
                for z, r in zip(zs, got[t]):
                    if z < 0 and r != model.partition(): return ('wrong', f'{json.dumps(step)}: iteration gave other classes'), struck
                    if z >= 0 and r not in model.cls[items[z % n]]: return ('wrong', f'{json.dumps(step)}: the representative is of another class'), struck
        elif kind == 'caller': meddle(parts[p][2], step[2])
        elif kind == 'restart':
            try: parts[p][0] = [lambda u: pickle.loads(pickle.dumps(u)), copy.deepcopy][step[2] % 2](uf)
            except Exception as error: return ('cannot-restart', f'{json.dumps(step)}: {type(error).__name__}: {error}'), struck
            struck.append('crash and restart')
        steps_done.append(kind)
        for q in range(len(parts)):
            bad = check(q, step)
            if bad: return bad, struck
    return None, struck

def execute(spec):
    simsys.install_clock()
    return core.within(100, spec, run, spec)[0]

def shrink(spec):
    for rest in drop_each(spec['steps']): yield dict(spec, steps=rest)
    if spec.get('parts', 1) > 1: yield dict(spec, parts=1)
    for i, s in enumerate(spec['steps']):
        if s[0] == 'join' and len(s[2]) > 2: yield dict(spec, steps=spec['steps'][:i] + [s[:2] + [s[2][:2]] + s[3:]] + spec['steps'][i + 1:])
        if s[0] in ('join', 'join2', 'find', 'look') and s[3] is not None: yield dict(spec, steps=spec['steps'][:i] + [s[:3] + [None] + s[4:]] + spec['steps'][i + 1:])
    if spec['items'][2:] not in ([], ['list']): yield dict(spec, items=spec['items'][:2])
    if spec['items'][0] != 'int': yield dict(spec, items=['int'] + spec['items'][1:])

def profiles(R):
    """ Where joins and lookups go. """
    from curver import kernel as K
    def prof(fn):
        mon = inject.Monitor(limit=10**6, profile=True)
        mon.start()
        try: fn()
        except Exception: pass  # pylint: disable=broad-except
        except inject.StepLimit: pass  # The runs will tell.
        finally: mon.stop()
        return sorted((engine.code_key(code), line, n, len(engine.line_offsets(code, line)), 2 if line in engine.info(code).writes else 0) for (code, line), n in mon.profile.items())
    n = 9
    def fresh():
        u = K.UnionFind(list(range(n)))
        for _ in range(R.randint(0, 7)): u.union2(R.randrange(n), R.randrange(n))
        return u
    deep = K.UnionFind(list(range(8)))
    for a, b in ((0, 1), (2, 3), (4, 5), (6, 7), (0, 2), (4, 6), (0, 4)): deep.union2(a, b)
    def lookups():
        for x in range(8): deep(x)
    u, v, w = fresh(), fresh(), fresh()
    def joins():
        for _ in range(6): u.union(R.randrange(n), R.randrange(n), R.randrange(n))
    def look(): list(w), len(w), str(w)  # pylint: disable=expression-not-assigned
    return {'join': prof(joins), 'find': prof(lookups), 'look': prof(look)}

def case(seed, tier, index):
    R = core.rng(ID, seed, index)
    res = Result()
    simsys.install_clock()
    prof = profiles(R)
    exc = list(engine.exceptions())
    for _ in range(RUNS[tier]):
        n = R.choice([1, 2, 3, 5, 8, 8, 12, 20, 33])
        items = [R.choice(['int', 'int', 'str', 'tuple', 'edge', 'mixed', 'frozen']), n, R.choice(['list', 'list', 'list', 'tuple', 'set', 'frozenset', 'dict', 'twice', 'again'])]
        parts = R.choice([1, 1, 2])
        style = R.choice(['random', 'chain', 'pairs', 'star'])
        faulty = R.choice([0, .2, .5])
        steps = []
        def fault(kind): return [engine.pick_place(R, prof[kind]).to_json(), R.choice(exc)] if prof[kind] and R.random() < faulty else None
        for k in range(R.choice([3, 8, 15, 30])):
            p = R.randrange(parts)
            r = R.random()
            if r < .3:
                a, b = R.randrange(n), R.randrange(n)
                if style == 'chain': a, b = k % n, (k + 1) % n
                elif style == 'pairs':  # Like a tournament: deep trees.
                    step = 1 << R.randint(0, 4)
                    a = R.randrange(n) // (2 * step) * 2 * step; b = min(a + step, n - 1)
                elif style == 'star': a = 0
                if R.random() < .5: a, b = b, a
                steps.append(['join2', p, [a, b], fault('join'), R.random() < .7])
            elif r < .5:
                args = [R.randrange(n) for _ in range(R.choice([0, 1, 2, 3, 3, 5]))]
                if args and R.random() < .06: args[R.randrange(len(args))] = n + 3
                steps.append(['join', p, args, fault('join'), R.random() < .7])
            elif r < .75: steps.append(['find', p, R.randrange(n), fault('find')])
            elif r < .83: steps.append(['look', p, R.randrange(4), fault('look')])
            elif r < .86: steps.append(['unknown', p])
            elif r < .95: steps.append(['race', p, [R.randrange(-1, n) for _ in range(3)], [R.randrange(-1, n) for _ in range(5)], engine.pick_place(R, prof['find']).to_json()])
            elif r < .97: steps.append(['caller', p, R.randrange(4)])
            else: steps.append(['restart', p, R.randrange(2)])
        spec = {'items': items, 'parts': parts, 'steps': steps}
        bad, struck = core.within(100, spec, run, spec)
        res.evals += 1
        res.steps += 40 * len(steps)
        for s in struck: res.fault(s)
        res.count('joins', sum(1 for s in steps if s[0].startswith('join')))
        res.count('lookups', sum(1 for s in steps if s[0] in ('find', 'look', 'race')))
        if any(s[0].startswith('join') for s in steps) and (struck or len(steps) >= 10): res.distinct.add(digest(spec))
        for s in steps: res.states.add(digest((items, s)))
        if index % 97 == 0 and not res.samples: res.samples.append(spec)
        if bad is not None:
            res.bad.append((bad[0], bad[1], spec))
            break
    return res
