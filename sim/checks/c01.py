""" C01: threads sharing objects get single-threaded answers. """
import json, random
import core, engine, inject, simsys
from core import digest
from checks.common import Result, drop_each
from checks import pools
from checks.c02 import budget_of

ID = 'C01'
RULE = ('a case picks a query on a world; each run has two or three threads issue it (or other queries about the same objects) on shared cold or warmed objects '
        'under a seeded schedule: one to three pre-emptions at seeded lines / byte code instructions, or a random switch every few lines; queries are repeated after the '
        'join. A run is non-trivial when at least one pre-emption happened inside a query; runs are distinct by (queries, places of the pre-emptions).')
REAL = ['curver.kernel', 'curver.load', 'networkx', 'realalg', 'numpy', 'CPython threads']
STUB = ['thread scheduler (one thread runs at a time; switches at chosen lines/instructions)', 'locks', 'clock']
ASSUMPTIONS = ['pre-emption happens at line or byte code boundaries of curver code, not inside its dependencies', 'sequentially consistent memory (CPython with a global interpreter lock)']
CASES = {'quick': 300, 'thorough': 12000}
RUNS = {'quick': 30, 'thorough': 40}
EXCLUDE = ('G.random', 'G.random_letters', 'G.random_none', 'G.random_of', 'G.word_in')  # They seed the one generator that all threads share, so that interleaving them changes what they draw.

def run(spec, budget):
    """ Perform the run; in a forked copy of a process with a cold world. """
    case = CASE
    random.seed(12345)
    simsys.install_clock()
    results = []
    def ask(inst, who):
        try:
            value = case.canon.canon(case.ops.call(inst, case.objs))
            got = ('value', digest(value), engine.short(value))
        except inject.StepLimit as error: got = ('stuck', str(error), '')
        except simsys.Deadlock: got = ('deadlock', '', '')
        except BaseException as error:  # pylint: disable=broad-except
            value = ('EXC', type(error).__name__)
            got = ('value', digest(value), engine.short(value) + ' ' + str(error)[:80])
        results.append((who, inst, got))
        return got[0] == 'value'
    for inst in spec.get('pre', []):
        ask(inst, 'pre')
    n = len(spec['threads'])
    def body(i):
        def go():
            for inst in spec['threads'][i]:
                if not ask(inst, 'thread'): break
        return go
    sched = simsys.Scheduler([body(i) for i in range(n)])
    trace = []
    mon = engine.Disturber(limit=budget)
    mon.thread = lambda: sched.current
    for tid, place, to in spec.get('switches', []):
        place = engine.Place.of(place)
        def strike(_p=place, _t=tid, _to=to):
            if sched.switch(_to): trace.append([_t, _p.to_json(), _to])
        mon.arm(tid, place, strike)
    if spec.get('quantum'):
        seed, mean = spec['quantum'][:2]
        if len(spec['quantum']) > 2: mon.hot = set((tuple(k), line) for k, line in spec['quantum'][2])
        R = core.rng('quantum', seed)
        left = [R.randint(1, 2 * mean)]
        occ = {}
        def quantum(code, line):
            me = sched.current
            k = (me, code, line)
            occ[k] = occ.get(k, 0) + 1
            left[0] -= 1
            if left[0] <= 0:
                left[0] = R.randint(1, 2 * mean)
                to = R.randrange(n)
                if to != me and len(trace) < 400:
                    at = [me, [list(engine.code_key(code)), line, None, occ[k]], to]
                    trace.append(at)
                    if not sched.switch(to): trace.remove(at)
        mon.quantum = quantum
    mon.start()
    try:
        sched.run(spec.get('first', 0))
        mon.quantum = None
        for inst in spec.get('post', []):
            ask(inst, 'post')
    finally: mon.stop()
    return results, trace, sched.deadlock

def judge(case, out):
    results, trace, deadlock = out
    for who, inst, got in results:
        want = case.oracle(inst)
        if got[0] == 'value' and got[1] == want[0]: continue
        kind = got[0] if got[0] != 'value' else 'failed' if got[2].startswith("('EXC'") else 'wrong'
        return (f'{who}/{kind}/{inst[0]}', f'{inst[0]} ({who}) with {len(trace)} switches {[(t[0], *t[1][:2]) for t in trace[:3]]}: expected {want[1][:120]}, got {got[2][:120] or got[1]}')
    if deadlock: return ('deadlock', 'threads blocked for ever')
    return None

def everything(spec): return spec.get('pre', []) + [i for t in spec['threads'] for i in t] + spec.get('post', [])

def execute(spec):
    global CASE
    CASE = engine.Case(spec['world'], sorted(set(n for inst in everything(spec) for n in pools.needs(inst))), spec.get('cold'))
    budget = sum(budget_of(CASE.oracle(inst)) for inst in everything(spec))
    return judge(CASE, core.judged(spec, run, spec, budget))

def shrink(spec):
    if spec.get('quantum'):
        for field in ('post', 'pre'):
            if spec.get(field):
                for rest in drop_each(spec[field]): yield dict(spec, **{field: rest})
        return
    if spec.get('post'):
        for rest in drop_each(spec['post']): yield dict(spec, post=rest)
    if spec.get('pre'):
        for rest in drop_each(spec['pre']): yield dict(spec, pre=rest)
    for rest in drop_each(spec['switches']): yield dict(spec, switches=rest)
    for i, t in enumerate(spec['threads']):
        for rest in drop_each(t):
            if rest or len(spec['threads']) > 2: yield dict(spec, threads=spec['threads'][:i] + [rest] + spec['threads'][i + 1:])
    for i, (tid, (key, line, k, occ), to) in enumerate(spec['switches']):
        if occ > 1: yield dict(spec, switches=spec['switches'][:i] + [[tid, [key, line, k, 1], to]] + spec['switches'][i + 1:])
        if k is not None: yield dict(spec, switches=spec['switches'][:i] + [[tid, [key, line, None, occ], to]] + spec['switches'][i + 1:])

def make(R, c, focal, related, tier, mode=None):
    n = 2 if R.random() < .8 else 3
    threads = []
    mode = mode or R.choices(['hot', 'window', 'other'], [.25, .35, .4])[0]
    same = [i for i in related if i[0] == focal[0]]
    for i in range(n):
        r = R.random()
        first = focal if i == 0 or r < .5 else R.choice(same) if same and r < .6 else R.choice(related or [focal])
        rest = [R.choice(related) for _ in range(R.choice([0, 1, 2, 3]) if mode == 'hot' else R.choice([0, 0, 0, 1]))] if related else []
        threads.append([first] + rest)
    spec = {'threads': threads, 'first': 0, 'post': []}
    if related and R.random() < .2: spec['pre'] = [R.choice(related)]
    if mode == 'hot':  # Switch often, but only around statements which write to something that others can see.
        profs = [c.oracle(t[0], profile=True)[3] for t in threads]
        level = 2 if R.random() < .8 else 1
        writes = sorted(set((p[0], p[1]) for prof in profs for p in prof if p[4] >= level))
        if not writes: return None
        at = set(R.sample(writes, min(len(writes), R.choice([1, 2, 4]))))
        for prof in profs: at |= set((k, engine.following(prof, k, l)) for k, l in list(at))
        spec['quantum'] = [R.getrandbits(32), R.choice([1, 1, 2]), sorted(at)]
    elif mode == 'window':  # Stop just before a write, let another thread run past one, do the write, let the other continue.
        prof0 = c.oracle(threads[0][0], profile=True)[3]
        to = R.randrange(1, n)
        prof1 = c.oracle(threads[to][0], profile=True)[3]
        level = 2 if R.random() < .8 else 1
        w0, w1 = [p for p in prof0 if p[4] >= level], [p for p in prof1 if p[4] >= level]
        if not w0 or not w1: return None
        a = R.choice(w0)
        near = [p for p in w1 if p[0] == a[0]]
        b = R.choice(near if near and R.random() < .8 else w1)
        oa = 1 if R.random() < .6 else R.randint(1, a[2])
        ob = oa if oa <= b[2] and R.random() < .7 else R.randint(1, b[2])
        lb = b[1]
        for _ in range(R.choice([0, 1, 1, 2])): lb = engine.following(prof1, b[0], lb)
        la = a[1]
        for _ in range(R.choice([1, 1, 2])): la = engine.following(prof0, a[0], la)
        spec['switches'] = [[0, [a[0], a[1], None, oa], to], [to, [b[0], lb, None, ob], 0]]
        if R.random() < .8: spec['switches'].append([0, [a[0], la, None, oa if la != a[1] else oa + 1], to])
        if R.random() < .3: spec['switches'].append([to, engine.pick_place(R, prof1).to_json(), 0])
    elif R.random() < .15:
        spec['quantum'] = [R.getrandbits(32), R.choice([1, 2, 3, 5, 10, 25])]
    else:
        switches = []
        prof0 = c.oracle(threads[0][0], profile=True)[3]
        if not prof0: return None
        p = engine.pick_place(R, prof0)
        to = R.randrange(1, n)
        switches.append([0, p.to_json(), to])
        if R.random() < .75:
            prof1 = c.oracle(threads[to][0], profile=True)[3]
            if prof1:
                q = engine.pick_place(R, prof1, near=p)
                back = 0 if R.random() < .8 else R.randrange(n)
                switches.append([to, q.to_json(), back])
                if R.random() < .4: switches.append([0, engine.pick_place(R, prof0, near=q).to_json(), R.randrange(1, n)])
        spec['switches'] = switches
    spec['post'] = sorted(set(json.dumps(t[0]) for t in threads))
    spec['post'] = [json.loads(s) for s in spec['post']] + R.sample(related, min(len(related), R.randint(0, 2)))
    return spec

def case(seed, tier, index):
    global CASE
    R = core.rng(ID, seed, index)
    res = Result()
    wid, focal, related = pools.pick(R, index, tier, 8, EXCLUDE)
    cold = R.random() < 0.7
    CASE = c = engine.Case(wid, sorted(set(n for inst in [focal] + related for n in pools.needs(inst))), cold)
    for _ in range(RUNS[tier]):
        spec = make(R, c, focal, related, tier) or make(R, c, focal, related, tier, 'other')
        if spec is None: continue
        spec['world'] = wid
        spec['cold'] = cold
        budget = sum(budget_of(c.oracle(inst)) for inst in everything(spec))
        out = core.judged(spec, run, spec, budget)
        results, trace, _ = out
        res.evals += 1
        res.count('queries', len(results))
        res.count('preemptions', len(trace))
        res.count('quantum_runs', 1 if spec.get('quantum') else 0)
        res.steps += sum(c.oracle(r[1])[2] for r in results)
        if trace:
            res.fault('preemption', len(trace))
            res.distinct.add(digest((spec['threads'], trace[:20])))
            res.states.add(digest([(t[0], t[1][:2], t[2]) for t in trace[:20]]))
        if index % 97 == 0 and trace and not res.samples: res.samples.append(spec)
        v = judge(c, out)
        if v is not None:
            if spec.get('quantum'):
                flat = dict(spec, switches=trace)
                del flat['quantum']
                again = judge(c, core.judged(flat, run, flat, budget))
                if again is not None and again[0] == v[0]: spec = flat
            res.bad.append((v[0], v[1], spec))
            break
    return res
