""" C02: an interrupted query leaves nothing behind. """
import json, random
import core, engine, inject, simsys
from core import digest
from checks.common import Result, drop_each
from checks import pools

ID = 'C02'
RULE = ('a case picks a query of the catalogue on a world and a set of other queries about the same objects; each run interrupts it (or a short history of '
        'queries) at seeded lines / byte code instructions with a seeded exception, retries it and asks other queries. A run is non-trivial when at least one '
        'injected exception struck inside curver code; runs are distinct by (queries, places, exceptions).')
REAL = ['curver.kernel', 'curver.load', 'networkx', 'realalg', 'numpy']
STUB = ['clock', 'locks', 'source of interruptions (exceptions raised from monitoring callbacks)']
ASSUMPTIONS = ['interruptions are delivered at line or byte code boundaries of curver code, not inside its dependencies',
    'an interruption that arrives while networkx builds a graph from edges is not injected: networkx swallows it (bare except in networkx/convert.py)',
    'interruptions are single: none is delivered inside the handling of another one']
CASES = {'quick': 500, 'thorough': 24000}

def run(spec):
    """ Perform the steps; runs in a forked copy of a process with a cold world. """
    case = CASE
    exc = engine.exceptions()
    out = []
    random.seed(12345)
    simsys.install_clock()
    for inst, fault, budget in spec:
        struck = [False]
        mon = engine.Disturber(limit=budget)
        if fault is not None:
            place = engine.Place.of(fault[0])
            def strike(_e=exc[fault[1]]):
                if engine.swallowed(): return
                struck[0] = True
                raise _e('injected')
            mon.arm(0, place, strike)
        mon.start()
        try:
            try:
                value = case.canon.canon(case.ops.call(inst, case.objs))
            finally: mon.stop()
            got = ('value', digest(value), engine.short(value))
        except inject.StepLimit as error: got = ('stuck', str(error), '')
        except simsys.Deadlock: got = ('deadlock', '', '')
        except BaseException as error:  # pylint: disable=broad-except
            if type(error).__name__ in exc and error.args == ('injected',): got = ('injected', type(error).__name__, '')
            else:
                value = ('EXC', type(error).__name__)
                got = ('value', digest(value), engine.short(value) + ' ' + str(error)[:80])
        out.append((got, struck[0]))
        if got[0] in ('stuck', 'deadlock'): break
    return out, simsys.CLOCK.now - 1.6e9

def judge(case, steps, out):
    """ Return None or (class, text). """
    struck_before = False
    for (inst, fault, _), (got, struck) in zip(steps, out):
        want = case.oracle(inst)
        ok = got[0] == 'value' and got[1] == want[0]
        if struck and got[0] == 'injected': ok = True
        if not ok:
            when = 'interrupted' if struck else 'after' if struck_before else 'plain'
            kind = got[0] if got[0] != 'value' else 'failed' if got[2].startswith("('EXC'") else 'wrong'
            fs = [f for _, f, _ in steps if f is not None]
            return (f'{when}/{kind}/{inst[0]}', f'{inst[0]} {when} interruption {[(f[1], *f[0][:2]) for f in fs]}: expected {want[1][:120]}, got {got[0]} {got[2][:120] or got[1]}')
        struck_before = struck_before or struck
    return None

def execute(spec):
    global CASE
    names = sorted(set(n for inst, _ in spec['steps'] for n in pools.needs(inst)))
    CASE = engine.Case(spec['world'], names, spec.get('cold'))
    steps = [(inst, fault, budget_of(CASE.oracle(inst))) for inst, fault in spec['steps']]
    out, _ = core.judged(spec, run, steps)
    return judge(CASE, steps, out)

def budget_of(oracle): return 20 * oracle[2] + 20000

def shrink(spec):
    for rest in drop_each(spec['steps']):
        if rest: yield dict(spec, steps=rest)
    for i, (inst, fault) in enumerate(spec['steps']):
        if fault is not None:
            yield dict(spec, steps=spec['steps'][:i] + [[inst, None]] + spec['steps'][i + 1:])
            key, line, k, occ = fault[0]
            if k is not None: yield dict(spec, steps=spec['steps'][:i] + [[inst, [[key, line, None, occ], fault[1]]]] + spec['steps'][i + 1:])
            if occ > 1: yield dict(spec, steps=spec['steps'][:i] + [[inst, [[key, line, k, 1], fault[1]]]] + spec['steps'][i + 1:])

RUNS = {'quick': 24, 'thorough': 40}

def case(seed, tier, index):
    global CASE
    R = core.rng(ID, seed, index)
    res = Result()
    wid, focal, related = pools.pick(R, index, tier, 10)
    insts = [focal] + related
    cold = R.random() < 0.5
    CASE = c = engine.Case(wid, sorted(set(n for inst in insts for n in pools.needs(inst))), cold)
    kinds = list(engine.exceptions())
    c.oracle(focal, profile=True)
    for _ in range(RUNS[tier]):
        steps = []
        n_faults = R.choice([1, 1, 1, 2, 2, 3])
        for j in range(n_faults):
            inst = focal if R.random() < .75 or not related else R.choice(related)
            prof = c.oracle(inst, profile=True)
            if prof[3]: fault = [engine.pick_place(R, prof[3]).to_json(), R.choice(kinds)]
            else: fault = None
            steps.append([inst, fault])
        last = steps[-1][0]
        steps.append([last, None])
        for inst in R.sample(related, min(len(related), R.randint(1, 4))): steps.append([inst, None])
        if last != focal: steps.append([focal, None])
        full = [(inst, fault, budget_of(c.oracle(inst))) for inst, fault in steps]
        out, clock = core.judged({'world': wid, 'cold': cold, 'steps': steps}, run, full)
        res.evals += 1
        res.clock += clock
        res.steps += sum(c.oracle(s[0])[2] for s, o in zip(steps, out) if not o[1])
        struck = [(s[1][1], tuple(s[1][0][0]), *s[1][0][1:]) for s, o in zip(steps, out) if o[1]]
        for kind, *_ in struck: res.fault(kind)
        if struck:
            res.distinct.add(digest(steps))
            for s in struck: res.states.add(digest((focal[0], s[0], s[1:3])))
        res.count('queries_after_fault', len(out) - len(struck))
        if index % 97 == 0 and len(res.samples) < 1 and struck: res.samples.append({'world': wid, 'cold': cold, 'steps': steps})
        v = judge(c, full, out)
        if v is not None:
            res.bad.append((v[0], v[1], {'world': wid, 'cold': cold, 'steps': steps[:len(out)]}))
            break
    return res
