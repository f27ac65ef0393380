""" C04: answers do not depend on what was asked before. """
import json, random
import core, engine, inject, simsys
from core import digest
from checks.common import Result, drop_each
from checks import pools

ID = 'C04'
RULE = ('a case draws a few objects of a world and some queries about them; each run is a seeded history of 15-60 of those queries (repeats, the same query with other '
        'arguments, failing queries) with objects replaced by equal fresh ones part way, and every answer is compared with the answer in a fresh process image; answers '
        'already given are looked at again at the end. A run is non-trivial when it asks at least two different queries about one object; distinct by the sequence of queries.')
REAL = ['curver.kernel', 'curver.load', 'networkx', 'realalg', 'numpy']
STUB = ['clock', 'locks']
ASSUMPTIONS = ['the answer of the same code to the same query, asked first in a fresh process image, is what the answer should be']
CASES = {'quick': 330, 'thorough': 10000}
RUNS = {'quick': 10, 'thorough': 20}

def run(spec, budgets):
    case = CASE
    simsys.install_clock(tick=spec.get('tick', 1e-4))
    out = []
    held = []
    specs = dict(case.world['objs'])
    objs = dict(case.objs)
    objs['!memo'] = {}
    for step, budget in zip(spec['steps'], budgets):
        if step[0] == '!fresh':  # Replace an object by an equal one built anew.
            name = step[1]
            try: objs[name] = case.W.make(specs[name], objs)
            except Exception: pass  # pylint: disable=broad-except
            objs['!memo'] = {}
            out.append(None)
            continue
        random.seed(12345)
        mon = engine.Disturber(limit=budget)
        mon.start()
        try:
            try:
                fn, args = case.ops.decode_args(step, objs)
                result = fn(*args)
                value = case.canon.canon(result)
                if not hasattr(result, '__next__') and len(held) < 60: held.append((len(out), step, result, digest(value)))
            except Exception as error:  # pylint: disable=broad-except
                value = ('EXC', type(error).__name__)
            finally: mon.stop()
            got = ('value', digest(value), engine.short(value))
        except inject.StepLimit as error: got = ('stuck', str(error), '')
        except simsys.Deadlock: got = ('deadlock', '', '')
        out.append(got)
        if got[0] != 'value': break
    changed = []
    for i, step, result, before in held:
        try: after = case.canon.canon(result)
        except Exception as error: after = ('EXC', type(error).__name__)  # pylint: disable=broad-except
        if digest(after) != before and 'gen' not in repr(after): changed.append((i, step, engine.short(after)))
    return out, changed, simsys.CLOCK.now - 1.6e9

def judge(case, steps, res):
    out, changed, _ = res
    for i, (step, got) in enumerate(zip(steps, out)):
        if got is None: continue
        want = case.oracle(step)
        if got[0] == 'value' and got[1] == want[0]: continue
        kind = got[0] if got[0] != 'value' else 'failed' if got[2].startswith("('EXC'") else 'wrong'
        return (f'{kind}/{step[0]}', f'step {i}: {json.dumps(step)} after {i} others: expected {want[1][:140]}, got {got[2][:140] or got[1]}')
    for i, step, after in changed:
        want = case.oracle(step)
        return (f'changed/{step[0]}', f'the answer of step {i}: {json.dumps(step)} was {want[1][:140]} and became {after[:140]}')
    return None

def execute(spec):
    global CASE
    names = sorted(set(n for s in spec['steps'] for n in (pools.needs(s) if s[0] != '!fresh' else [s[1]])))
    CASE = engine.Case(spec['world'], names, spec.get('cold'))
    return judge(CASE, spec['steps'], core.judged(spec, run, spec, [budget(CASE, s) for s in spec['steps']]))

def budget(c, s): return 0 if s[0] == '!fresh' else 20 * c.oracle(s)[2] + 20000

def shrink(spec):
    for rest in drop_each(spec['steps']):
        if rest: yield dict(spec, steps=rest)
    if spec.get('cold'): yield dict(spec, cold=False)

def batch(steps):
    """ The answers to queries in turn, and how much curver code they ran; ones that are slow are left out. """
    simsys.install_clock()
    objs = dict(CASE.objs)
    objs['!memo'] = {}
    out, total = [], 0
    for step in steps:
        random.seed(12345)
        mon = inject.Monitor(limit=pools.DERIVED_LINES)
        mon.start()
        try:
            try: answer = digest(CASE.canon.outcome(CASE.ops.call, step, objs))
            finally: mon.stop()
        except (inject.StepLimit, simsys.Deadlock): answer = None
        total += mon.count
        out.append(answer)
    return out, total

def family(seed, tier, index, R, res):
    """ Everything about one object, then the same about what is made from it; suspicions are put to the usual judge. """
    global CASE
    w = R.choice(engine.worlds())
    wid = w['id']
    fill = pools._kind_pool(wid, tier)
    kind = R.choice(['PERIODIC', 'H', 'H', 'MAP', 'C', 'MC', 'IL', 'MA', 'A', 'T', 'HC', 'LAM'])
    if kind not in fill: kind = 'H'
    name = R.choice(fill[kind])
    kinds = [k for k in fill if name in fill[k]]
    CASE = c = engine.Case(wid, sorted(n for n, s in w['objs'] if s[0] in ('T', 'lam', 'hc', 'enc')), R.random() < .5)
    ask = pools.unary(wid, name, kinds, tier, 0)
    ask = R.sample(ask, min(len(ask), 30))
    first, lines = core.forked(batch, ask, timeout=120)
    ask = [q for q, a in zip(ask, first) if a is not None]
    if kind in ('PERIODIC', 'H'): made = [['!', 'H.pow', name, k] for k in R.sample([-6, -4, -3, -2, -1, 2, 3, 4, 5, 6, 8, 10], 6)] + [['!', 'E.inverse', name]]
    else: made = []
    for _ in range(6):
        d = pools.derive(R, wid, name, kinds, tier)
        if d and d not in made: made.append(d)
    fresh = []
    for d in made:
        qs = [[q[0], d] + q[2:] for q in ask]
        answers, lines = core.forked(batch, qs, timeout=120)
        fresh.append([(q, a) for q, a in zip(qs, answers) if a is not None])
    for r in range(4):
        mine = R.sample(ask, len(ask) if r == 0 else R.randint(0, len(ask)))
        steps = mine + [q for part in R.sample(fresh, len(fresh)) for q, _ in part]
        want = dict((json.dumps(q), a) for part in fresh for q, a in part)
        answers, lines = core.forked(batch, steps, timeout=300)
        res.evals += 1
        res.steps += lines
        res.count('queries', len(steps))
        res.count('queries about answers', len(steps) - len(mine))
        res.distinct.add(digest(steps))
        for a, b in zip(steps, steps[1:]): res.states.add(digest((a, b)))
        odd = [i for i, (q, a) in enumerate(zip(steps, answers)) if i >= len(mine) and a is not None and a != want[json.dumps(q)]]
        if odd:
            res.count('suspicions')
            spec = {'world': wid, 'cold': False, 'steps': mine + [steps[i] for i in odd[:5]]}
            v = judge(c, spec['steps'], core.judged(spec, run, spec, [budget(c, s) for s in spec['steps']]))
            if v is None:
                spec['steps'] = steps[:odd[0] + 1]
                v = judge(c, spec['steps'], core.judged(spec, run, spec, [budget(c, s) for s in spec['steps']]))
            if v is not None:
                res.bad.append((v[0], v[1], spec))
                break
    return res

def rename(inst):
    def go(a):
        if isinstance(a, str) and a.startswith('@'): return '@b.' + a[1:]
        if isinstance(a, list): return [go(x) for x in a]
        return a
    return [inst[0]] + [go(a) for a in inst[1:]]

def mixed(seed, tier, index, R, res):
    """ The same kinds of queries about objects of two surfaces, or about the same numbers on two triangulations. """
    global CASE
    wid, focal, related = pools.pick(R, R.randrange(10**6), tier, 14)
    w = engine.world_by_id(wid)
    zeta = len(dict(w['objs'])['T'][1]) * 3 // 2
    if R.random() < .6:
        both = wid + '+' + R.choice(['T1', 'T1', 'T2'])
        pool = [i for group in pools.index_of(tier)[1][wid].values() for i in group]
    else:
        others = [x for x in engine.worlds() if x['id'] != wid and (R.random() < .2 or len(dict(x['objs'])['T'][1]) * 3 // 2 == zeta)]
        other = R.choice(others)['id']
        both = wid + '+' + other
        pool = [i for group in pools.index_of(tier)[1][other].values() for i in group]
    have = set(n for n, _ in engine.world_by_id(both)['objs'])
    insts = [focal] + related + pools.variants(R, wid, [focal] + related[:4], tier)
    mine = set(i[0] for i in insts)
    able = [i for i in pool if all('b.' + n in have for n in pools.needs(i))]
    there = [i for i in insts if i in able]
    same = [i for i in able if i[0] in mine]
    there += R.sample(same, min(len(same), 12)) + R.sample(able, min(len(able), 4))
    there = [rename(i) for i in there]
    CASE = c = engine.Case(both, sorted(set(n for inst in insts + there for n in pools.needs(inst))), R.random() < .5)
    there = [i for i in there if c.oracle(i)[2] <= 100000]
    for _ in range(RUNS[tier]):
        chosen = R.sample(insts, min(len(insts), R.choice([3, 8, 20]))) + R.sample(there, min(len(there), R.choice([3, 8, 20]))) + [focal]
        steps = [R.choice(chosen) for _ in range(R.choice([15, 30, 60]))]
        res.count('queries about two surfaces', len(steps))
        v = play(c, both, steps, False, index, res)
        if v: break
    return res

def play(c, wid, steps, cold, index, res):
    """ One run, judged and counted. """
    spec = {'world': wid, 'cold': cold, 'steps': steps, 'tick': [1e-4, 1e-4, .1, 30][len(steps) % 4]}
    out = core.judged(spec, run, spec, [budget(c, s) for s in steps])
    res.evals += 1
    res.count('queries', sum(1 for o in out[0] if o))
    res.count('rebuilt', sum(1 for s in steps if s[0] == '!fresh'))
    res.clock += out[2]
    res.steps += sum(c.oracle(s)[2] for s in steps if s[0] != '!fresh')
    if len(set(json.dumps(s) for s in steps)) > 1: res.distinct.add(digest((wid, steps)))
    for a, b in zip(steps, steps[1:]): res.states.add(digest((a, b)))
    if index % 97 == 0 and not res.samples: res.samples.append(spec)
    v = judge(c, steps, out)
    if v is not None: res.bad.append((v[0], v[1], dict(spec, steps=steps[:len(out[0])])))
    return v

def case(seed, tier, index):
    global CASE
    R = core.rng(ID, seed, index)
    res = Result()
    if index % 4 == 3: return family(seed, tier, index, R, res)
    if index % 8 == 6: return mixed(seed, tier, index // 8, R, res)
    index -= index // 4
    wid, focal, related = pools.pick(R, index, tier, 14)
    others = pools.variants(R, wid, [focal] + related[:4], tier)
    insts = [focal] + related + others
    pairs = []
    derivable = [focal] + R.sample(insts, min(3, len(insts)))
    cold = R.random() < .5
    deriving = R.random() < .6
    known = set(n for inst in insts for n in pools.needs(inst))
    if deriving: known |= set(n for n, s in engine.world_by_id(wid)['objs'] if s[0] in ('T', 'lam', 'hc', 'enc'))
    twins = [[engine.TWINS.get(a, a) if isinstance(a, str) else a for a in inst] for inst in insts if engine.TWINS.keys() & set(a for a in inst if isinstance(a, str))]
    for inst in [focal] + related[:6]:
        _, by_world = pools.index_of(tier)
        same = [i for i in by_world[wid].get(inst[0], []) if len(i) > 1 and i[1:2] != inst[1:2]]
        twins += R.sample(same, min(len(same), 2))
    twins = [i for n, i in enumerate(twins) if i not in twins[:n] and i not in insts]
    insts = insts + twins
    known |= set(n for inst in twins for n in pools.needs(inst))
    CASE = c = engine.Case(wid, sorted(known), cold)
    if twins: insts = [i for i in insts if i not in twins or c.oracle(i)[2] <= 100000]
    names = sorted(set(n for inst in insts for n in pools.needs(inst)))
    if deriving:
        pairs = pools.transfer(R, c, wid, derivable, 12, tier)
        res.count('queries about answers', len(pairs))
    for _ in range(RUNS[tier]):
        n = R.choice([8, 15, 30, 60])
        steps = []
        mine = [focal] + R.sample(insts, min(len(insts), R.choice([3, 6, 12, 30])))
        if pairs and R.random() < .8:
            for pair in R.sample(pairs, min(len(pairs), R.choice([2, 4, 12]))): mine.extend(pair)
        while len(steps) < n:
            r = R.random()
            if r < .08 and names: steps.append(['!fresh', R.choice(names)])
            elif r < .2 and steps and steps[-1][0] != '!fresh': steps.append(steps[-1])
            else: steps.append(R.choice(mine))
        if play(c, wid, steps, cold, index, res): break
    return res
