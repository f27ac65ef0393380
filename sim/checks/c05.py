""" C05: lazy enumerations are isolated from each other. """
import gc, json, random
import core, engine, inject, simsys
from core import digest
from checks.common import Result, drop_each
from checks import pools

ID = 'C05'
RULE = ('a case picks a lazily produced sequence of a world and further sequences and queries about the same objects; each run is a seeded history that starts consumers, advances '
        'them by some items, interrupts them inside an item, throws into them between items, closes and abandons them, advances one in the middle of another one (another '
        'simulated thread) and asks queries in between; then every surviving consumer is drained and every sequence is enumerated anew. Non-trivial: at least two consumers or a fault; distinct by the history.')
REAL = ['curver.kernel', 'networkx', 'realalg', 'numpy', 'CPython generators']
STUB = ['clock', 'locks', 'thread scheduler', 'source of interruptions']
ASSUMPTIONS = ['interruptions and switches happen at line or byte code boundaries of curver code', 'sequences are compared up to their first 40 items']
CASES = {'quick': 420, 'thorough': 16000}
RUNS = {'quick': 16, 'thorough': 30}
CAP = 40

SOURCES = {}
def source(name, *kinds):
    def deco(fn): SOURCES[name] = (kinds, fn)
    return deco
source('S.iter', 'S')(iter)
source('S.reversed', 'S')(reversed)
source('S.iter_power', 'S')(lambda s: iter(s * 3 + s))
source('T.iter_tri', 'T')(iter)
source('L.iter', 'LAM')(iter)
source('E.iter', 'ANY')(iter)
source('G.iter', 'G')(iter)
source('U.iter', 'U')(iter)
source('MA.explore', 'FILL')(lambda a: iter(sorted(a.explore_ball(1), key=lambda x: [int(w) for w in x])))
GENERATORS = ['MC.vertex_cycles', 'MA.all_disjoint_arcs', 'MA.all_disjoint_multiarcs', 'MA.all_disjoint_triangulations', 'G.cayley', 'T.all_encodings', 'T.self_isometries', 'T.isometries_to']

def create(c, src):
    """ A new consumer. """
    if src[0] in SOURCES: return SOURCES[src[0]][1](c.objs[src[1][1:]])
    return c.ops.call(src, c.objs)

def solo_run(c, src):
    """ What a lone consumer gets in one go: ([item digest], how it ended, lines, profile). """
    simsys.install_clock()
    random.seed(12345)
    mon = inject.Monitor(limit=2_000_000, profile=True)
    items, texts, end = [], [], 'more'
    mon.start()
    try:
        try:
            it = create(c, src)
            for _ in range(CAP):
                x = next(it)
                value = c.canon.canon(x)
                items.append(digest(value)); texts.append(engine.short(value, 90))
        finally: mon.stop()
    except StopIteration: end = 'end'
    except inject.StepLimit: end = 'big'
    except Exception as error: end = 'EXC ' + type(error).__name__  # pylint: disable=broad-except
    prof = sorted((engine.code_key(code), line, n, len(engine.line_offsets(code, line)), 2 if line in engine.info(code).writes else 0) for (code, line), n in mon.profile.items())
    return items, end, mon.count, prof, texts

def solo(c, src):
    key = 'solo ' + json.dumps(src)
    if key not in c.cache: c.cache[key] = core.forked(solo_run, c, src, timeout=300)
    return c.cache[key]

class Consumer:
    def __init__(self, src, it): self.src, self.it, self.at, self.state = src, it, 0, 'live'

def run(spec, budget, solos):
    """ Perform the history; in a forked copy of a process with a cold world. """
    c = CASE
    exc = engine.exceptions()
    random.seed(12345)
    simsys.install_clock()
    consumers = {}
    bad, struck = [], []
    def advance(who, n, quiet=False):
        """ Take n items of a consumer, compare each with the lone consumer's. Interruptions pass through. """
        k = consumers.get(who)
        if k is None or k.state != 'live': return
        items, end = solos[json.dumps(k.src)][:2]
        for _ in range(n):
            if k.at >= len(items) and end == 'more': return
            try: value = c.canon.canon(next(k.it))
            except StopIteration:
                k.state = 'ended'
                if k.at < len(items) or end != 'end': bad.append(('short', k.src, f'ended after {k.at} items, alone it yields {len(items)} and then {end}'))
                return
            except Exception as error:  # pylint: disable=broad-except
                k.state = 'dead'
                if error.args == ('injected',): raise
                if end != 'EXC ' + type(error).__name__ or k.at != len(items): bad.append(('failed', k.src, f'item {k.at} raised {type(error).__name__}: {error}'[:160]))
                return
            except BaseException:
                k.state = 'dead'
                raise
            if k.at >= len(items):
                bad.append(('long', k.src, f'yields {engine.short(value, 80)} after its {len(items)} items'))
                k.state = 'dead'
                return
            if digest(value) != items[k.at]:
                bad.append(('wrong', k.src, f'item {k.at} is {engine.short(value, 90)}, alone it is {solos[json.dumps(k.src)][2][k.at]}'))
                k.state = 'dead'
                return
            k.at += 1
    def begin(who, src):
        try: consumers[who] = Consumer(src, create(c, src))
        except Exception as error:  # pylint: disable=broad-except
            if solos[json.dumps(src)][1] != 'EXC ' + type(error).__name__: bad.append(('failed', src, f'starting raised {type(error).__name__}: {error}'[:160]))
    def disturbed(fn, arms, thread=None):
        mon = engine.Disturber(limit=budget)
        if thread is not None: mon.thread = thread
        for a in arms: mon.arm(*a)
        mon.start()
        try:
            try: fn()
            finally: mon.stop()
        except inject.StepLimit as error: bad.append(('stuck', [str(error)], 'no progress'))
        except simsys.Deadlock: bad.append(('deadlock', [], 'blocked for ever'))
        except BaseException as error:  # pylint: disable=broad-except
            if error.args != ('injected',): raise
    for step in spec['steps']:
        if bad: break
        kind = step[0]
        if kind == 'start': disturbed(lambda: begin(step[1], step[2]), [])
        elif kind == 'next': disturbed(lambda: advance(step[1], step[2]), [])
        elif kind == 'hit':
            def strike(_e=exc[step[4]], _n=step[4]):
                if engine.swallowed(): return
                struck.append(_n)
                raise _e('injected')
            disturbed(lambda: advance(step[1], step[2]), [(0, engine.Place.of(step[3]), strike)])
        elif kind == 'throw':
            k = consumers.get(step[1])
            if k is not None and k.state == 'live' and hasattr(k.it, 'throw'):
                k.state = 'dead'
                struck.append(step[2] + ' between items')
                try: k.it.throw(exc[step[2]]('injected'))
                except BaseException as error:  # pylint: disable=broad-except
                    if error.args != ('injected',) and not isinstance(error, StopIteration): bad.append(('throw', k.src, f'throwing into it raised {type(error).__name__}'))
        elif kind == 'close':
            k = consumers.get(step[1])
            if k is not None and hasattr(k.it, 'close'):
                k.it.close()
                k.state = 'dead'
                struck.append('closed')
        elif kind == 'drop':
            if consumers.pop(step[1], None) is not None: struck.append('abandoned')
            if step[2]: gc.collect()
        elif kind == 'race':
            _, i, n, j, m, place = step
            def one(who, count):
                def go():
                    try: advance(who, count)
                    except BaseException: pass  # pylint: disable=broad-except
                return go
            if i == j: continue
            sched = simsys.Scheduler([one(i, n), one(j, m)])
            def switch():
                if sched.switch(1): struck.append('overtaken')
            disturbed(lambda: sched.run(0), [(0, engine.Place.of(place), switch)], lambda: sched.current)
        elif kind == 'ask':
            inst, want = step[1], step[2]
            got = [None]
            def go(): got[0] = c.canon.outcome(c.ops.call, inst, c.objs)
            disturbed(go, [])
            if not bad and digest(got[0]) != want[0]: bad.append(('query', inst, f'answered {engine.short(got[0], 100)} expected {want[1][:100]}'))
    if not bad:  # Drain.
        for who in sorted(consumers):
            disturbed(lambda: advance(who, CAP + 1), [])
        for n, src in enumerate(spec['sources']):
            if bad: break
            disturbed(lambda: begin(f'last{n}', src), [])
            disturbed(lambda: advance(f'last{n}', CAP + 1), [])
    return bad[:1], struck, simsys.CLOCK.now - 1.6e9

def names_of(spec):
    insts = spec['sources'] + [s[1] for s in spec['steps'] if s[0] == 'ask']
    return sorted(set(n for i in insts for n in pools.needs(i)))

def perform(c, spec):
    """ Returns (bad or None, struck, clock). """
    global CASE
    CASE = c
    sources = spec['sources']
    solos = {}
    budget = 100000
    for src in sources:
        s = solo(c, src)
        solos[json.dumps(src)] = (s[0], s[1], s[4])
        budget += 30 * s[2]
    steps = []
    for s in spec['steps']:
        if s[0] == 'ask':
            o = c.oracle(s[1])
            budget += 20 * o[2]
            s = s + [o[:2]]
        steps.append(s)
    bad, struck, clock = core.judged(spec, run, dict(spec, steps=steps), budget, solos)
    if not bad: return None, struck, clock
    kind, what, text = bad[0]
    return (f'{kind}/{what[0] if what else ""}', f'{json.dumps(what)}: {text}'), struck, clock

def execute(spec):
    return perform(engine.Case(spec['world'], names_of(spec), spec.get('cold')), spec)[0]

def shrink(spec):
    for rest in drop_each(spec['steps']): yield dict(spec, steps=rest)
    if len(spec['sources']) > 1:
        for rest in drop_each(spec['sources']):
            if all(s[2] in rest for s in spec['steps'] if s[0] == 'start') and rest: yield dict(spec, sources=rest)
    for i, s in enumerate(spec['steps']):
        if s[0] in ('next', 'hit') and s[2] > 1: yield dict(spec, steps=spec['steps'][:i] + [s[:2] + [s[2] // 2] + s[3:]] + spec['steps'][i + 1:])
    if spec.get('cold'): yield dict(spec, cold=False)

def index_sources(tier):
    """ kind of sequence -> [(world id, source)]. """
    by_op, _ = pools.index_of(tier)
    out = {}
    for op in GENERATORS: out[op] = by_op.get(op, [])
    for w in engine.worlds():
        kinds = {}
        for n, s in w['objs']: kinds.setdefault(s[0], []).append(n)
        for name, (ks, _) in SOURCES.items():
            pool = {'S': 'slp', 'T': 'T', 'LAM': 'lam', 'ANY': 'enc', 'G': 'mcg', 'U': 'uf'}.get(ks[0])
            if pool: out.setdefault(name, []).extend((w['id'], [name, '@' + n]) for n in kinds.get(pool, []))
            else: out.setdefault(name, []).extend((w['id'], [name] + i[1:]) for i, lines, _ in w['pool'] if i[0] == 'MA.explore_ball' and lines < 12000)
    return dict((k, v) for k, v in out.items() if v)

def case(seed, tier, index):
    R = core.rng(ID, seed, index)
    res = Result()
    table = index_sources(tier)
    kinds = sorted(k for k in table if k in GENERATORS) * 3 + sorted(table)
    kind = kinds[index % len(kinds)]
    wid, focal = R.choice(table[kind])
    mine = set(pools.needs(focal))
    others = [s for t in table.values() for w, s in t if w == wid and s != focal and (set(pools.needs(s)) & mine)]
    same = [s for s in others if s[0] == focal[0]]
    sources = [focal] + R.sample(same, min(len(same), 2)) + R.sample(others, min(len(others), 2))
    related = [i for i in pools.relate(R, wid, focal, 6, tier) if not i[0].startswith('G.random') and i[0] != 'G.word_in']
    cold = R.random() < .5
    c = engine.Case(wid, sorted(set(n for i in sources + related for n in pools.needs(i))), cold)
    sources = [s for s in sources if solo(c, s)[1] != 'big' and solo(c, s)[2] < 120000]
    if not sources: return res
    exc = list(engine.exceptions())
    for _ in range(RUNS[tier]):
        used = [sources[0]] + R.sample(sources[1:], R.randint(0, min(2, len(sources) - 1)))
        steps, alive, number = [], {}, 0
        for _ in range(R.choice([3, 5, 8, 12, 20])):
            r = R.random()
            if r < .25 or not alive:
                who = f'c{number}'; number += 1
                src = used[0] if R.random() < .6 else R.choice(used)
                alive[who] = src
                steps.append(['start', who, src])
                continue
            who = R.choice(sorted(alive))
            size = len(solo(c, alive[who])[0])
            n = R.choice([1, 1, 2, 3, size // 2, size, size + 1])
            prof = solo(c, alive[who])[3]
            if r < .5 or not prof and r < .8: steps.append(['next', who, max(n, 1)])
            elif r < .64: steps.append(['hit', who, max(n, 1), engine.pick_place(R, prof).to_json(), R.choice(exc)])
            elif r < .76 and len(alive) > 1:
                other = R.choice(sorted(set(alive) - {who}))
                steps.append(['race', who, max(n, 1), other, R.choice([1, 2, 5, CAP]), engine.pick_place(R, prof).to_json()])
            elif r < .80: steps.append(['throw', who, R.choice(exc)])
            elif r < .84: steps.append(['close', who])
            elif r < .90:
                steps.append(['drop', who, R.random() < .3]); del alive[who]
            elif related: steps.append(['ask', R.choice(related)])
        spec = {'world': wid, 'cold': cold, 'sources': used, 'steps': steps}
        bad, struck, clock = perform(c, spec)
        res.evals += 1
        res.clock += clock
        for s in struck: res.fault(s)
        res.count('consumers', number)
        res.count('queries in between', sum(1 for s in steps if s[0] == 'ask'))
        res.steps += sum(solo(c, s[2])[2] for s in steps if s[0] == 'start')
        if number > 1 or struck: res.distinct.add(digest(spec))
        for s in steps: res.states.add(digest((s[0], focal[0], s[2:])))
        if index % 97 == 0 and not res.samples: res.samples.append(spec)
        if bad is not None:
            res.bad.append((bad[0], bad[1], spec))
            break
    return res
