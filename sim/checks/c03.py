""" C03: queries never modify what they are given. """
import json, random
import core, engine, inject, simsys, snap
from core import digest
from checks.common import Result, drop_each
from checks import pools

ID = 'C03'
RULE = ('a case picks a query of the catalogue; each run performs it and a few other queries about the same objects, some of them interrupted at seeded places, and after each '
        'compares the public state of every object of the world, of every object returned so far and of every container passed so far with what it was. A run is non-trivial '
        'when the focal query was reached; distinct by queries, places and exceptions.')
REAL = ['curver.kernel', 'curver.load', 'networkx', 'realalg', 'numpy']
STUB = ['clock', 'locks', 'source of interruptions']
ASSUMPTIONS = ['attributes whose name starts with an underscore are not observable', 'union-find partitions are meant to be modified by joins and are not covered here (C12)']
CASES = {'quick': 500, 'thorough': 16000}
RUNS = {'quick': 12, 'thorough': 24}

def run(spec, budgets):
    case = CASE
    exc = engine.exceptions()
    simsys.install_clock()
    objs = case.objs
    struck_list = []
    late = snap.Watch()
    bad = None
    for i, ((inst, fault), budget) in enumerate(zip(spec['steps'], budgets)):
        random.seed(12345)
        struck = [False]
        mon = engine.Disturber(limit=budget)
        if fault is not None:
            def strike(_e=exc[fault[1]]):
                if engine.swallowed(): return
                struck[0] = True
                raise _e('injected')
            mon.arm(0, engine.Place.of(fault[0]), strike)
        fn, args = case.ops.decode_args(inst, objs)
        given = snap.Watch()
        for j, a in enumerate(args):
            if isinstance(a, (list, dict, set)):
                given.add(f'argument {j} of {inst[0]}', a)
                late.add(f'argument {j} of {inst[0]}', a)
        result = None
        mon.start()
        try:
            try:
                result = fn(*args)
                case.canon.canon(result)
            finally: mon.stop()
        except BaseException: pass  # pylint: disable=broad-except
        struck_list.append(struck[0])
        bad = given.check()
        if bad: break
        if result is not None and not hasattr(result, '__next__') and len(late.items) < 8: late.add(f'result of {inst[0]}', result)
    bad = bad or case.watch.check() or late.check()
    return (None if bad is None else (len(struck_list) - 1,) + bad), struck_list

def watch(c):
    """ Remember the state of all objects of the world but those that are meant to change. """
    kinds = dict((n, s[0]) for n, s in c.world['objs'])
    c.watch = snap.Watch()
    seen = {}
    for n, o in sorted(c.objs.items()):
        if kinds[n] != 'uf': c.watch.add('@' + n, o, seen)

def judge(spec, out):
    bad, _ = out
    if bad is None: return None
    i, label, d = bad
    what = label if label[0] != '@' else '@' + label.strip('@0123456789')
    d = d if d.startswith('attribute') else ''
    return (f'{what} {d}', f'{json.dumps(spec["steps"][:i + 1])} modified {label}: {bad[2]}')

def execute(spec):
    global CASE
    CASE = engine.Case(spec['world'], sorted(set(n for s, _ in spec['steps'] for n in pools.needs(s))), spec.get('cold'))
    watch(CASE)
    return judge(spec, core.judged(spec, run, spec, [20 * CASE.oracle(s)[2] + 20000 for s, _ in spec['steps']]))

def shrink(spec):
    for rest in drop_each(spec['steps']):
        if rest: yield dict(spec, steps=rest)
    for i, (inst, fault) in enumerate(spec['steps']):
        if fault is not None:
            yield dict(spec, steps=spec['steps'][:i] + [[inst, None]] + spec['steps'][i + 1:])
            key, line, k, occ = fault[0]
            if k is not None: yield dict(spec, steps=spec['steps'][:i] + [[inst, [[key, line, None, occ], fault[1]]]] + spec['steps'][i + 1:])
            if occ > 1: yield dict(spec, steps=spec['steps'][:i] + [[inst, [[key, line, k, 1], fault[1]]]] + spec['steps'][i + 1:])

def case(seed, tier, index):
    global CASE
    R = core.rng(ID, seed, index)
    res = Result()
    wid, focal, related = pools.pick(R, index, tier, 8)
    related += pools.variants(R, wid, [focal], tier)
    cold = R.random() < .4
    CASE = c = engine.Case(wid, sorted(set(n for inst in [focal] + related for n in pools.needs(inst))), cold)
    watch(c)
    kinds = list(engine.exceptions())
    for r in range(RUNS[tier]):
        steps = []
        insts = [R.choice(related) for _ in range(R.choice([0, 1, 2]) if related else 0)] + [focal] + [R.choice(related) for _ in range(R.choice([0, 1, 3]) if related else 0)]
        for inst in insts:
            fault = None
            if r >= 2 and R.random() < (.7 if inst is focal else .2):
                prof = c.oracle(inst, profile=True)[3]
                if prof: fault = [engine.pick_place(R, prof).to_json(), R.choice(kinds)]
            steps.append([inst, fault])
        spec = {'world': wid, 'cold': cold, 'steps': steps}
        out = core.judged(spec, run, spec, [20 * c.oracle(s)[2] + 20000 for s, _ in steps])
        res.evals += 1
        res.count('queries', len(out[1]))
        res.steps += sum(c.oracle(s)[2] for s, _ in steps)
        for (s, f), hit in zip(steps, out[1]):
            if hit: res.fault(f[1]); res.states.add(digest((s[0], f[0][:2])))
        res.distinct.add(digest((cold, steps)))
        if index % 97 == 0 and not res.samples: res.samples.append(spec)
        v = judge(spec, out)
        if v is not None:
            res.bad.append((v[0], v[1], spec))
            break
    return res
