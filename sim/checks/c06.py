""" C06: saved objects survive crash and restart. """
import copy, io, json, pickle, random
import core, engine, inject, simsys, zygote
from core import digest
from checks.common import Result, drop_each
from checks import pools

ID = 'C06'
RULE = ('a case picks an object of a world, or the answer of a query; each run asks it a few questions (some interrupted), saves it (pickle protocols 0-5, copy, deepcopy, package, '
        'signature; onto a simulated disk that may fill up, tear the write or fail the read; with interruptions inside saving and restoring), crashes, restores it in an '
        'interpreter with another hash seed and asks the restored object questions. Non-trivial: the object was restored and compared, or a fault struck; distinct by everything chosen.')
REAL = ['curver.kernel', 'curver.load', 'pickle', 'copy', 'networkx', 'realalg', 'numpy']
STUB = ['disk (in memory file with faults)', 'crash (the process is discarded; only the bytes on the simulated disk survive)', 'clock', 'locks']
ASSUMPTIONS = ['a torn stream is a strict prefix of what was written', 'the restoring process has the same version of the code']
CASES = {'quick': 440, 'thorough': 14000}
RUNS = {'quick': 9, 'thorough': 16}
EQ_LINES = 80_000  # Comparing and hashing maps may need millions of lines: those are only compared structurally and by queries.
FORMS = ['pickle0', 'pickle1', 'pickle2', 'pickle3', 'pickle4', 'pickle5', 'copy', 'deepcopy', 'package', 'sig']

def prepare(seed, tier):
    zygote.start([(1, 0), (4242, 777), (99 + seed, 313)])

class SimFile(io.RawIOBase):
    """ A file on a disk which fails after some bytes. """
    def __init__(self, data=b'', fail_write=None, fail_read=None):
        super().__init__()
        self.data = bytearray(data); self.pos = 0; self.fail_write, self.fail_read = fail_write, fail_read; self.struck = False
    def writable(self): return True
    def readable(self): return True
    def write(self, b):
        b = bytes(b)
        if self.fail_write is not None and len(self.data) + len(b) > self.fail_write:
            self.data += b[:self.fail_write - len(self.data)]
            self.struck = True
            raise OSError(28, 'No space left on device')
        self.data += b
        return len(b)
    def _take(self, n):
        if self.fail_read is not None and self.pos + n > self.fail_read:
            self.struck = True
            raise OSError(5, 'Input/output error')
        out = bytes(self.data[self.pos:self.pos + n]); self.pos += len(out)
        return out
    def read(self, n=-1): return self._take(len(self.data) - self.pos if n is None or n < 0 else min(n, len(self.data) - self.pos))
    def readline(self, n=-1):
        end = self.data.find(b'\n', self.pos)
        return self._take((end + 1 if end >= 0 else len(self.data)) - self.pos)
    def readinto(self, b):
        out = self._take(min(len(b), len(self.data) - self.pos))
        b[:len(out)] = out
        return len(out)

def hashable(x):
    try: hash(x)
    except TypeError: return False
    return type(x).__hash__ is not object.__hash__

def curver_type(x): return type(x).__module__.split('.')[0] == 'curver'

def save_to(form, x, fail=None):
    """ The bytes that hold x on the disk. """
    f = SimFile(fail_write=fail)
    if form.startswith('pickle'): pickle.dump(x, f, int(form[6:]))
    elif form == 'package': pickle.dump((type(x).__name__, None if type(x).__name__ == 'Triangulation' else x.source_triangulation.sig(), x.package()), f)
    elif form == 'sig': f.write(x.sig().encode())
    return bytes(f.data)

def load_from(form, data, fail=None):
    import curver
    f = SimFile(data, fail_read=fail)
    if form.startswith('pickle'): return pickle.load(f)
    if form == 'package':
        name, sig, package = pickle.load(f)
        if name == 'Triangulation': return curver.kernel.Triangulation.from_tuple(*package)
        return curver.triangulation_from_sig(sig).encode(package)
    return curver.triangulation_from_sig(f.read().decode())

def obtain(case, target):
    """ The object to save. """
    if target[0] == 'obj': return case.objs[target[1]]
    if target[0] == 'pair': return [case.objs[n] for n in target[1]]
    x = case.ops.call(target[1], case.objs)
    return x

def guarded(fn, fault, budget):
    """ Call fn with a fault armed: ('value', x) / ('injected', ..) / ('error', name, text) / ('stuck', ..), struck. """
    exc = engine.exceptions()
    struck = [False]
    mon = engine.Disturber(limit=budget)
    if fault is not None:
        def strike(_e=exc[fault[1]]):
            if engine.swallowed(): return
            struck[0] = True
            raise _e('injected')
        mon.arm(0, engine.Place.of(fault[0]), strike)
    mon.start()
    try:
        try: out = ('value', fn())
        finally: mon.stop()
    except inject.StepLimit as error: out = ('stuck', str(error))
    except BaseException as error:  # pylint: disable=broad-except
        if error.args == ('injected',): out = ('injected', type(error).__name__)
        else: out = ('error', type(error).__name__, str(error)[:100])
    return out, struck[0]

def save_stage(spec):
    """ Runs in a forked copy of the case process, which then crashes: only what it returns (the disk) survives. """
    case = CASE
    simsys.install_clock()
    struck = []
    for inst, fault in spec['pre']:
        random.seed(12345)
        _, hit = guarded(lambda i=inst: case.canon.canon(case.ops.call(i, case.objs)), fault, 10**7)
        if hit: struck.append(fault[1])
    x = obtain(case, spec['target'])
    before = digest(case.canon.canon(x))
    form = spec['form']
    bad = None
    data = None
    if spec.get('save_fault') or spec.get('full'):
        full = spec.get('full')
        if full is not None: full = int(full * len(save_to(form, x)))
        got, hit = guarded(lambda: save_to(form, x, full), spec.get('save_fault'), 10**7)
        if hit: struck.append(spec['save_fault'][1])
        if full is not None:
            struck.append('disk full')
            if got[0] == 'value': bad = ('full-silent', 'writing to a full disk reported no error')
            elif got[0] == 'error' and got[1] != 'OSError': bad = ('full-wrong-error', f'writing to a full disk raised {got[1:]}')
        elif hit and got[0] not in ('injected', 'value'): bad = ('save-interrupted', f'interrupted save ended in {got}')
    if bad is None:
        got, _ = guarded(lambda: save_to(form, x), None, 10**7)
        if got[0] != 'value': bad = ('cannot-save', f'saving as {form} failed: {got[1:]}')
        else: data = got[1]
    after = digest(case.canon.canon(x))
    if after != before: bad = ('original-changed', 'saving changed the original')
    return {'struck': struck, 'bad': bad, 'data': data, 'canon': before, 'type': type(x).__name__}

def same_stage(spec):
    """ copy and deepcopy, in the same process. """
    case = CASE
    struck = []
    for inst, fault in spec['pre']:
        random.seed(12345)
        _, hit = guarded(lambda i=inst: case.canon.canon(case.ops.call(i, case.objs)), fault, 10**7)
        if hit: struck.append(fault[1])
    x = obtain(case, spec['target'])
    fn = copy.copy if spec['form'] == 'copy' else copy.deepcopy
    before = digest(case.canon.canon(x))
    if spec.get('save_fault'):
        _, hit = guarded(lambda: fn(x), spec['save_fault'], 10**7)
        if hit: struck.append(spec['save_fault'][1])
    got, _ = guarded(lambda: fn(x), None, 10**7)
    if got[0] != 'value': return {'struck': struck, 'bad': ('cannot-copy', f'{spec["form"]} failed: {got[1:]}')}
    bad = compare(case, spec, got[1], x, before, type(x).__name__)
    if bad is None and digest(case.canon.canon(x)) != before: bad = ('original-changed', 'copying changed the original')
    return {'struck': struck, 'bad': bad}

def compare(case, spec, y, ref, want, name):
    """ Is y the object that was saved? ref is an equal object made independently. """
    if type(y).__name__ != name: return ('other-kind', f'saved a {name}, got a {type(y).__name__}')
    try:
        if digest(case.canon.canon(y)) != want: return ('different', f'saved {engine.short(case.canon.canon(ref), 160)}, got {engine.short(case.canon.canon(y), 160)}')
        if spec.get('eq', True) and type(y).__eq__ is not object.__eq__:
            if not y == ref or not ref == y or y != ref: return ('not-equal', f'restored object is not equal to the original: {engine.short(case.canon.canon(y), 160)}')
            if hashable(ref) and hash(y) != hash(ref): return ('hash', 'restored object is equal but has another hash')
    except Exception as error:  # pylint: disable=broad-except
        return ('compare-failed', f'comparing the restored object raised {type(error).__name__}: {error}'[:200])
    if spec['target'][0] == 'obj': case.objs[spec['target'][1]] = y
    elif spec['target'][0] == 'pair': case.objs.update(zip(spec['target'][1], y))
    for inst, answer in spec['answers']:
        random.seed(12345)
        got, _ = guarded(lambda i=inst: case.canon.outcome(case.ops.call, i, case.objs), None, 10**7)
        if got[0] != 'value': return (f'query-{got[0]}/{inst[0]}', f'{json.dumps(inst)} on the restored object: {got[1:]}')
        if digest(got[1]) != answer[0]: return (f'query-wrong/{inst[0]}', f'{json.dumps(inst)} on the restored object: expected {answer[1][:140]}, got {engine.short(got[1], 140)}')
    return None

def restore_stage(spec, data, want, name):
    """ Runs in another interpreter, after the restart. """
    case = engine.Case(spec['world'], spec['names'], False)
    simsys.install_clock()
    form = spec['form']
    struck = []
    if spec.get('torn') is not None and form != 'sig':
        cut = data[:int(spec['torn'] * len(data))]
        got, _ = guarded(lambda: load_from(form, cut), None, 10**7)
        struck.append('torn stream')
        if got[0] == 'value': return {'struck': struck, 'bad': ('torn-silent', f'a stream cut to {len(cut)} of {len(data)} bytes was restored as {type(got[1]).__name__}')}
        if got[0] == 'stuck': return {'struck': struck, 'bad': ('torn-stuck', str(got))}
    if spec.get('read_fail') is not None:
        at = int(spec['read_fail'] * len(data))
        got, _ = guarded(lambda: load_from(form, data, at), None, 10**7)
        struck.append('read error')
        if got[0] == 'value': return {'struck': struck, 'bad': ('read-silent', 'a failing read was not reported')}
        if got[0] == 'error' and got[1] != 'OSError': return {'struck': struck, 'bad': ('read-wrong-error', f'a failing read raised {got[1:]}')}
    if spec.get('load_fault'):
        got, hit = guarded(lambda: load_from(form, data), spec['load_fault'], 10**7)
        if hit:
            struck.append(spec['load_fault'][1])
            if got[0] == 'value': return {'struck': struck, 'bad': compare(case, spec, got[1], obtain(case, spec['target']), want, name)}
            if got[0] != 'injected': return {'struck': struck, 'bad': ('load-interrupted', f'interrupted restore ended in {got}')}
    got, _ = guarded(lambda: load_from(form, data), None, 10**7)
    if got[0] != 'value': return {'struck': struck, 'bad': ('cannot-restore', f'restoring from {form} failed: {got[1:]}')}
    return {'struck': struck, 'bad': compare(case, spec, got[1], obtain(case, spec['target']), want, name)}

def one(spec, c):
    """ Perform a run: (bad, struck). """
    global CASE
    CASE = c
    spec = dict(spec, names=sorted(c.objs), answers=[[inst, c.oracle(inst)[:2]] for inst in spec['queries']])
    if spec['form'] in ('copy', 'deepcopy'):
        out = core.judged(spec, same_stage, spec)
        return out['bad'], out['struck']
    out = core.judged(spec, save_stage, spec)
    if out['bad'] is not None: return out['bad'], out['struck']
    got = zygote.SERVERS[spec['server'] % len(zygote.SERVERS)].judged(spec, 'checks.c06', 'restore_stage', spec, out['data'], out['canon'], out['type'])
    return got['bad'], out['struck'] + got['struck']

def text(spec, bad):
    kind = CASE.world and dict(CASE.world['objs']).get(spec['target'][1] if spec['target'][0] == 'obj' else None, ['?'])[0]
    what = spec['target'][1] if spec['target'][0] == 'obj' else json.dumps(spec['target'][1])
    tag = kind if spec['target'][0] == 'obj' else spec['target'][1][0] if spec['target'][0] == 'res' else 'pair'
    return (f'{bad[0]}/{tag}', f'{what} saved as {spec["form"]}: {bad[1]}')

def names_of(spec):
    t = spec['target']
    own = [t[1]] if t[0] == 'obj' else list(t[1]) if t[0] == 'pair' else pools.needs(t[1])
    return sorted(set(own) | set(n for i, _ in spec['pre'] for n in pools.needs(i)) | set(n for i in spec['queries'] for n in pools.needs(i)))

def execute(spec):
    c = engine.Case(spec['world'], names_of(spec), spec.get('cold'))
    bad, _ = one(spec, c)
    return None if bad is None else text(spec, bad)

def shrink(spec):
    if spec['pre']:
        for rest in drop_each(spec['pre']): yield dict(spec, pre=rest)
    if spec['queries']:
        for rest in drop_each(spec['queries']): yield dict(spec, queries=rest)
    for field in ('save_fault', 'load_fault', 'torn', 'full', 'read_fail'):
        if spec.get(field) is not None: yield dict((k, v) for k, v in spec.items() if k != field)
    if spec.get('cold'): yield dict(spec, cold=False)
    if spec.get('server'): yield dict(spec, server=0)
    for i, (inst, fault) in enumerate(spec['pre']):
        if fault is not None: yield dict(spec, pre=spec['pre'][:i] + [[inst, None]] + spec['pre'][i + 1:])

def profile_of(c, fn):
    mon = inject.Monitor(limit=3_000_000, profile=True)
    mon.start()
    try:
        try: fn()
        except Exception: pass  # pylint: disable=broad-except
    finally: mon.stop()
    return sorted((engine.code_key(code), line, n, len(engine.line_offsets(code, line)), 0) for (code, line), n in mon.profile.items())

def forms_for(c, target):
    """ How the object can be saved, and the profiles of saving and of restoring it. """
    def go():
        x = obtain(c, target)
        if not (curver_type(x) or target[0] == 'pair') or hasattr(x, '__next__'): return None
        forms = [f for f in FORMS if f not in ('package', 'sig')]
        if type(x).__name__ == 'Triangulation': forms += ['package', 'sig', 'sig']
        elif type(x).__name__ in ('Encoding', 'Mapping', 'MappingClass'): forms += ['package'] * 3
        save = profile_of(c, lambda: save_to('pickle4', x))
        try: data = pickle.dumps(x)
        except Exception: data = None  # pylint: disable=broad-except
        load = profile_of(c, lambda: pickle.loads(data)) if data else []
        ref = obtain(c, target)
        mon = inject.Monitor(limit=EQ_LINES)
        mon.start()
        try: x == ref, hash(x) if hashable(x) else 0, hash(ref) if hashable(x) else 0  # pylint: disable=pointless-statement
        except inject.StepLimit: cheap = False
        except Exception: cheap = True  # pylint: disable=broad-except
        else: cheap = True
        finally: mon.stop()
        return forms, save, load, cheap
    try: return core.forked(go)
    except core.HarnessError: return None

def case(seed, tier, index):
    R = core.rng(ID, seed, index)
    res = Result()
    wid, focal, related = pools.pick(R, index, tier, 4)
    world = engine.world_by_id(wid)
    kinds = dict((n, s[0]) for n, s in world['objs'])
    mine = pools.needs(focal)
    if R.random() < .45 or not mine: target = ['res', focal]
    elif R.random() < .15 and len(mine) > 1: target = ['pair', mine[:3]]
    else: target = ['obj', R.choice(mine)]
    anchor = mine if target[0] != 'obj' else [target[1]]
    fake = [focal[0]] + ['@' + n for n in anchor]
    related = [i for i in pools.relate(R, wid, fake, 10, tier) if set(pools.needs(i)) & set(anchor)]
    if set(anchor) & set(pools.needs(focal)): related.append(focal)
    related = [i for i in related if not i[0].startswith('G.random') and i[0] != 'G.word_in']
    cold = R.random() < .3
    names = sorted(set(n for i in related + [focal] for n in pools.needs(i)) | set(anchor))
    c = engine.Case(wid, names, cold)
    info = forms_for(c, target)
    if info is None: target = ['obj', mine[0]] if mine else None
    if target is None: return res
    info = info or forms_for(c, target)
    if info is None: return res
    forms, save, load, cheap = info
    if not cheap: res.count('cases where == is too expensive to ask')
    exc = list(engine.exceptions())
    for _ in range(RUNS[tier]):
        spec = {'world': wid, 'cold': cold, 'target': target, 'form': R.choice(forms), 'server': R.randrange(3), 'pre': [], 'queries': [], 'eq': cheap}
        for inst in R.sample(related, min(len(related), R.choice([0, 1, 2, 3]))):
            fault = None
            if R.random() < .35:
                prof = c.oracle(inst, profile=True)[3]
                if prof: fault = [engine.pick_place(R, prof).to_json(), R.choice(exc)]
            spec['pre'].append([inst, fault])
        if target[0] != 'res': spec['queries'] = R.sample(related, min(len(related), R.choice([0, 2, 4])))
        r = R.random()
        if r < .15 and save: spec['save_fault'] = [engine.pick_place(R, save).to_json(), R.choice(exc)]
        elif spec['form'] in ('copy', 'deepcopy'): pass
        elif r < .3 and load: spec['load_fault'] = [engine.pick_place(R, load).to_json(), R.choice(exc)]
        elif r < .4: spec['torn'] = R.random()
        elif r < .5: spec['full'] = R.random()
        elif r < .6: spec['read_fail'] = R.random()
        bad, struck = one(spec, c)
        res.evals += 1
        res.count('form ' + spec['form'])
        res.count('restarts', 0 if spec['form'] in ('copy', 'deepcopy') else 1)
        for s in struck: res.fault(s)
        res.steps += sum(c.oracle(i)[2] for i, _ in spec['pre']) + sum(c.oracle(i)[2] for i in spec['queries'])
        res.distinct.add(digest(spec))
        res.states.add(digest((target, spec['form'], spec['pre'])))
        if index % 97 == 0 and not res.samples: res.samples.append(spec)
        if bad is not None:
            cls, txt = text(spec, bad)
            res.bad.append((cls, txt, spec))
            break
    return res
