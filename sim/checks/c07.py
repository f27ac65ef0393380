""" C07: runs are reproducible. """
import json, random
import core, engine, inject, simsys, zygote
from core import digest
from checks.common import Result, drop_each
from checks import pools

ID = 'C07'
RULE = ('a run is a seeded program (10 to 25 queries on the objects of a world, random words and random mapping classes drawn from a seeded generator state, some of them interrupted and repeated) '
        'performed in four interpreters with different string hash seeds, memory layouts, address spaces, garbage collection, environments and clocks, and compared step by step; the draws are also repeated from the saved generator state '
        'after unrelated queries. Non-trivial: all four finished; distinct by program.')
REAL = ['curver.kernel', 'curver.load', 'random', 'networkx', 'realalg', 'numpy', 'CPython hashing and memory allocation']
STUB = ['clock (different start, skew, speed and stalls in each interpreter)', 'locks']
ASSUMPTIONS = ['same version of Python and of the dependencies, same machine', 'sets are compared as sets; lists, tuples, dictionaries and generators in their order']
CASES = {'quick': 250, 'thorough': 16000}
RUNS = {'quick': 3, 'thorough': 8}
CLOCKS = [(None, 0.0), (86400.0 * 365 * 40, 3600.0), (5.0, -4e9), (2.0e9, 0.25)]

def prepare(seed, tier):
    zygote.start([(17, 91), (987654321, 640), (500 + seed, 7)])

def admissible(G, spec):
    pos, neg = sorted(G.pos_mapping_classes), sorted(G.neg_mapping_classes)
    if spec.get('letters') is not None: return spec['letters']
    return (pos if spec.get('positive', True) else []) + (neg if spec.get('negative', True) else [])

def draw(G, spec, canon):
    """ A random word or a random mapping class. """
    kwargs = dict((k, spec[k]) for k in ('positive', 'negative', 'letters') if spec.get(k) is not None)
    if spec.get('class'): return G(spec['length'], **kwargs)
    return G.random_word(spec['length'], **kwargs)

def program(spec, clock):
    """ Perform the program: [(digest, text)], problem or None. """
    c = engine.Case(spec['world'], names_of(spec), spec.get('cold'))
    c.canon.ORDERED = True
    start, skew = CLOCKS[clock]
    simsys.install_clock(start, skew, *spec['ticks'][clock])
    random.seed(spec['seed'])
    exc = engine.exceptions()
    out = []
    problem = None
    struck = []
    def guarded(fn, fault):
        mon = engine.Disturber(limit=spec['budget'])
        if fault is not None:
            def strike(_e=exc[fault[1]]):
                if engine.swallowed(): return
                struck.append(fault[1])
                raise _e('injected')
            mon.arm(0, engine.Place.of(fault[0]), strike)
        mon.start()
        try:
            try: return c.canon.canon(fn())
            finally: mon.stop()
        except inject.StepLimit: return ('STUCK',)
        except BaseException as error:  # pylint: disable=broad-except
            if error.args == ('injected',): return ('INJECTED', type(error).__name__)
            if not isinstance(error, Exception): raise
            return ('EXC', type(error).__name__)
    for step in spec['steps']:
        if step[0] == 'ask':
            value = guarded(lambda: c.ops.call(step[1], c.objs), step[2])
        elif step[0] == 'draw':
            G = c.objs[step[1]]
            state = random.getstate()
            words = [None]
            if not step[2].get('class'):
                def go():
                    words[0] = draw(G, step[2], c.canon)
                    return list(words[0])
            else: go = lambda: draw(G, step[2], c.canon)
            value = guarded(go, step[3])
            after = random.getstate()
            if value[0] == 'INJECTED':  # Again, from the same state.
                random.setstate(state)
                value = guarded(go, None)
                after = random.getstate()
            letters = admissible(G, step[2])
            if words[0] is not None:
                if len(words[0]) != step[2]['length']: problem = ('length', f'{json.dumps(step)} gave {len(words[0])} letters')
                if not all(w in letters for w in words[0]): problem = ('letters', f'{json.dumps(step)} gave {words[0]}')
            elif letters and value[0] == 'EXC': problem = ('refused', f'{json.dumps(step)} raised {value[1]}')
            random.setstate(state)
            for inst in step[4]: guarded(lambda i=inst: c.ops.call(i, c.objs), None)
            random.setstate(state)
            again = guarded(go, None)
            if again != value: problem = ('not-repeated', f'{json.dumps(step)} from the same state gave {engine.short(value, 100)} and then {engine.short(again, 100)}')
            elif random.getstate() != after: problem = ('state', f'{json.dumps(step)} left the generator in another state the second time')
        out.append((digest(value), engine.short(value, 200)))
    out.append((digest(random.getstate()), 'state of the random number generator'))
    return out, problem, struck

def names_of(spec):
    out = set()
    for s in spec['steps']:
        if s[0] == 'ask': out |= set(pools.needs(s[1]))
        else:
            out.add(s[1])
            for i in s[4]: out |= set(pools.needs(i))
    return sorted(out)

def perform(spec, where=(0, 1, 2, 3)):
    first, problem, struck = core.judged(spec, program, spec, 0, timeout=200)
    if problem is not None: return (f'{problem[0]}', problem[1]), struck
    for i in range(1, 4):
        if i not in where: continue
        other, problem, _ = zygote.SERVERS[i - 1].judged(spec, 'checks.c07', 'program', spec, i)
        if problem is not None: return (f'{problem[0]}', problem[1]), struck
        for k, (a, b) in enumerate(zip(first, other)):
            if a[0] != b[0]:
                what = spec['steps'][k][1] if k < len(spec['steps']) and spec['steps'][k][0] == 'ask' else ['draw']
                return (f'differs/{what[0]}', f'{json.dumps(spec["steps"][k][:3]) if k < len(spec["steps"]) else "end"}: {a[1][:150]} in one interpreter, {b[1][:150]} in another'), struck
    return None, struck

def execute(spec): return perform(spec)[0]

def shrink(spec):
    for rest in drop_each(spec['steps']):
        if rest: yield dict(spec, steps=rest)
    for i, s in enumerate(spec['steps']):
        at = 2 if s[0] == 'ask' else 3
        if s[at] is not None: yield dict(spec, steps=spec['steps'][:i] + [s[:at] + [None] + s[at + 1:]] + spec['steps'][i + 1:])
        if s[0] == 'draw' and s[4]: yield dict(spec, steps=spec['steps'][:i] + [s[:4] + [[]]] + spec['steps'][i + 1:])
    if spec.get('cold'): yield dict(spec, cold=False)
    for i, t in enumerate(spec['ticks']):
        if t != [1e-4, 0]: yield dict(spec, ticks=spec['ticks'][:i] + [[1e-4, 0]] + spec['ticks'][i + 1:])

def case(seed, tier, index):
    R = core.rng(ID, seed, index)
    res = Result()
    wid, focal, related = pools.pick(R, index, tier, 14)
    world = engine.world_by_id(wid)
    groups = [n for n, s in world['objs'] if s[0] == 'mcg']
    insts = [focal] + related
    cold = R.random() < .4
    c = engine.Case(wid, sorted(set(n for i in insts for n in pools.needs(i)) | set(groups)), cold)
    exc = list(engine.exceptions())
    for _ in range(RUNS[tier]):
        steps = []
        budget = 200000
        for _ in range(R.randint(5, 12)):
            if R.random() < .25:
                group = R.choice(groups); G = c.objs[group]
                draw_spec = {'length': R.choice([0, 1, 2, 3, 5, 8, 20, 50])}
                r = R.random()
                if r < .2: draw_spec['positive'] = False
                elif r < .4: draw_spec['negative'] = False
                elif r < .6:
                    draw_spec['letters'] = R.sample(sorted(G), min(len(G.mapping_classes), R.randint(1, 4)))
                elif r < .63: draw_spec.update(positive=False, negative=False)
                if R.random() < .3:
                    draw_spec['class'] = True
                    draw_spec['length'] = min(draw_spec['length'], 6)
                fault = None
                if R.random() < .3:
                    prof = c.oracle(['G.random', '@' + group, 5], profile=True)[3]
                    if prof: fault = [engine.pick_place(R, prof).to_json(), R.choice(exc)]
                steps.append(['draw', group, draw_spec, fault, R.sample(related, min(len(related), R.choice([0, 1, 2])))])
            else:
                inst = R.choice(insts) if R.random() < .8 else focal
                fault = None
                if R.random() < .15:
                    prof = c.oracle(inst, profile=True)[3]
                    if prof: fault = [engine.pick_place(R, prof).to_json(), R.choice(exc)]
                steps.append(['ask', inst, fault])
            for i in ([steps[-1][1]] if steps[-1][0] == 'ask' else steps[-1][4]): budget += 20 * c.oracle(i)[2]
        ticks = [[1e-4, 0]] + [[R.choice([0, 1e-7, 1e-3, .3, 7, 4000]), R.choice([0, 0, 3, 40])] for _ in range(3)]
        spec = {'world': wid, 'cold': cold, 'ticks': ticks, 'seed': R.randrange(10**6), 'budget': budget, 'steps': steps}
        bad, struck = perform(spec)
        res.evals += 4
        res.count('interpreters compared', 4)
        res.count('draws', sum(1 for s in steps if s[0] == 'draw'))
        res.count('queries', len(steps))
        for s in struck: res.fault(s)
        res.steps += 4 * sum(c.oracle(s[1])[2] for s in steps if s[0] == 'ask')
        res.distinct.add(digest(spec))
        for s in steps: res.states.add(digest((wid, s[:3])))
        if index % 97 == 0 and not res.samples: res.samples.append(spec)
        if bad is not None:
            res.bad.append((bad[0], bad[1], spec))
            break
    return res
