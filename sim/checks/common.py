""" What all checks share: tiers, the pool of cases, minimisation, replay files, evidence, known findings.

A check module provides
  ID, RULE, REAL (list), STUB (list)
  CASES = {'quick': n, 'thorough': n}
  case(seed, tier, index, config) -> Result        (runs in a forked, pristine process)
  execute(spec) -> None or (class, text)   (runs in a forked, pristine process: the verdict on one fully described run)
  shrink(spec) -> iterator of smaller specs
"""
import json, os, sys, time, traceback
import core
from core import REAL_MONO

WALL = {'quick': 420, 'thorough': 3600}

class Result:
    """ What one case did. """
    def __init__(self):
        self.evals = 0        # simulated runs
        self.steps = 0        # curver lines executed under simulation
        self.clock = 0.0      # simulated seconds
        self.faults = {}      # kind -> number which actually struck
        self.counts = {}      # other counters
        self.distinct = set() # digests of distinct non-trivial runs
        self.states = set()   # digests of distinct interleavings / states
        self.samples = []
        self.trouble = None
        self.bad = []         # [(class, text, spec)]
    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n
    def fault(self, name, n=1): self.faults[name] = self.faults.get(name, 0) + n
    def merge(self, o):
        self.evals += o.evals; self.steps += o.steps; self.clock += o.clock
        for k, v in o.faults.items(): self.fault(k, v)
        for k, v in o.counts.items(): self.count(k, v)
        self.distinct |= o.distinct; self.states |= o.states
        if len(self.samples) < 4: self.samples.extend(o.samples[:1])
        self.bad.extend(o.bad)
        self.trouble = self.trouble or o.trouble

def verdict(check, spec, timeout=600):
    """ Judge one fully described run in a pristine process image. """
    out = core.forked(_execute, check, spec, timeout=timeout)
    return None if out is None else tuple(out)

def _execute(check, spec):
    try: return check.execute(spec)
    except core.NoAnswer as error: return NO_ANSWER, error.text

NO_ANSWER = 'no answer'
def _case(check, seed, tier, index):
    """ A case, in which a run that never answers is a violation, and one that cannot be prepared is given up. """
    res = Result()
    try: return check.case(seed, tier, index)
    except core.NoAnswer as error: res.bad.append((NO_ANSWER, error.text, error.spec))
    except (core.RunTimeout, core.HarnessError, Exception):  # pylint: disable=broad-except
        res.count('cases given up')
        res.trouble = f'case {index}: {traceback.format_exc()}'
    return res

def minimise(check, spec, cls, seconds=60):
    """ Greedily take the first smaller specification that fails in the same way. """
    stop = REAL_MONO() + seconds
    tried = 0
    progress = True
    while progress and REAL_MONO() < stop:
        progress = False
        for smaller in check.shrink(spec):
            if REAL_MONO() > stop: break
            tried += 1
            try: v = verdict(check, smaller)
            except (core.HarnessError, core.RunTimeout): continue
            if v is not None and v[0] == cls:
                spec = smaller
                progress = True
                break
    return spec, tried

def known_findings():
    path = os.path.join(core.VERIF, 'known_findings.json')
    if not os.path.exists(path): return []
    with open(path) as f: return json.load(f)['findings']

def main(check, name):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in WALL: tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    start = REAL_MONO()
    n = int(os.environ.get('SIM_CASES', '0')) or check.CASES[tier]
    first = int(os.environ.get('SIM_FIRST', '0'))
    wall = float(os.environ.get('SIM_WALL', WALL[tier]))
    total = Result()
    known = [k for k in known_findings() if k.get('property') == name and 'fixed' not in k]
    done = [0]
    new = []
    seen_known = {}
    def on_result(_, res):
        done[0] += 1
        for bad in res.bad:
            k = next((k for k in known if check.matches(k, bad)), None) if known else None
            if k is None: new.append(bad)
            else: seen_known[k['what']] = seen_known.get(k['what'], 0) + 1
        res.bad = []
        total.merge(res)
        return bool(new) and not os.environ.get('SIM_ALL')
    if hasattr(check, 'prepare'): check.prepare(seed, tier)
    def job(i):
        began = REAL_MONO()
        out = core.forked(_case, check, seed, tier, i, timeout=1500)
        if os.environ.get('SIM_TIMES') and REAL_MONO() - began > float(os.environ['SIM_TIMES']): print(f'case {i}: {REAL_MONO() - began:.1f} s', flush=True)
        return out
    core.pool(range(first, first + n), job, deadline=start + wall, on_result=on_result)
    for k in known:
        print(f"KNOWN-FINDING: property={name} {k['what']}")
    code = 0
    if new:
        by_class = {}
        for cls, text, spec in new: by_class.setdefault(cls, []).append((text, spec))
        shown = sorted(by_class.items(), key=lambda item: min(len(json.dumps(s)) for _, s in item[1]))
        for cls, items in shown[:3 if not os.environ.get('SIM_ALL') else 50]:
            text, spec = min(items, key=lambda item: len(json.dumps(item[1])))
            if cls == NO_ANSWER:  # Only if it happens again, and it is not made smaller: each attempt takes minutes.
                try: again = verdict(check, spec)
                except (core.HarnessError, core.RunTimeout): again = None
                if again is None:
                    print(f'  a run that did not answer did so when repeated: {text}')
                    continue
                cls, text = again
            elif not os.environ.get('SIM_NOMIN'):
                spec, tried = minimise(check, spec, cls)
                again = verdict(check, spec)
                if again is not None: cls, text = again
                else: text += ' [NOT REPRODUCED]'
            code = 1
            path = write_replay(name, cls, text, spec)
            print(f'  {cls}: {text} ({len(items)} runs)')
            print(f'VIOLATION property={name} replay={path}')
    finish(check)
    given_up = total.counts.get('cases given up', 0)
    if given_up: print(f'{given_up} of {n} cases were given up, as {total.trouble}')
    if not code and given_up * 5 > n: raise core.HarnessError(f'{given_up} of {n} cases were given up')
    wall_s = REAL_MONO() - start
    rate = total.evals / wall_s * 3600 if wall_s else 0
    evidence = {'property': name, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': total.evals, 'distinct_nontrivial': len(total.distinct), 'rule': check.RULE, 'samples': total.samples[:4],
            'cases_planned': n, 'cases_run': done[0], 'simulated_runs_per_hour': int(rate), 'seeds_per_hour': int(done[0] / wall_s * 3600) if wall_s else 0,
            'simulated_steps': total.steps, 'simulated_seconds': round(total.clock, 1), 'faults_injected': total.faults, 'distinct_states_or_interleavings': len(total.states),
            'counters': total.counts, 'real_components': check.REAL, 'stubbed_components': check.STUB, 'known_findings_met': seen_known},
        'assumptions': check.ASSUMPTIONS, 'wall_s': round(wall_s, 2), 'violations': len(new)}
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', name + '.json'), 'w') as f: json.dump(evidence, f, indent=1, sort_keys=True)
    print(f'{name}: {total.evals} simulated runs of {done[0]}/{n} cases, {len(total.distinct)} distinct, faults {total.faults}, {total.steps} steps, {wall_s:.1f} s: {"VIOLATED" if code else "held"}')
    return code

def write_replay(name, cls, text, spec):
    folder = os.path.join(core.VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f'{name}-{core.digest(json.dumps(spec, sort_keys=True))}.json')
    with open(path, 'w') as f: json.dump({'property': name, 'class': cls, 'text': text, 'spec': spec}, f, indent=1)
    return path

def finish(check):
    if hasattr(check, 'prepare'):
        import zygote
        zygote.stop()

def replay(check, path):
    with open(path) as f: data = json.load(f)
    if hasattr(check, 'prepare'): check.prepare(int(os.environ.get('VERIF_SEED', '1')), 'quick')
    v = verdict(check, data['spec'])
    finish(check)
    if v is None:
        print('REPLAY: the run is fine')
        return 0
    print(f'REPLAY: {v[0]}: {v[1]}')
    print(f'VIOLATION property={data["property"]} replay={path}')
    return 1

def drop_each(items):
    """ All ways to leave out a half, a quarter, ... one item. """
    n = len(items)
    size = n // 2
    seen = set()
    while size >= 1:
        for i in range(0, n, size):
            rest = items[:i] + items[i + size:]
            key = (i, size)
            if key in seen: continue
            seen.add(key)
            yield rest
        size //= 2
