""" Cases: a world, the single-threaded answers (oracle) of its queries, and disturbed executions of them. """
import ast, dis, gc, json, os, random, signal, sys
import core, simsys, inject
from core import rng, digest

_WORLDS = None
def worlds():
    global _WORLDS
    if _WORLDS is None:
        with open(os.path.join(core.VERIF, 'sim', 'data', 'worlds.json')) as f:
            _WORLDS = json.load(f)['worlds']
        with open(os.path.join(core.VERIF, 'sim', 'data', 'more.json')) as f: more = json.load(f)
        for w in _WORLDS:
            w['pool'] = w['pool'] + more.get(w['id'], [])
            w['objs'] = w['objs'] + twins(w)
    return _WORLDS

TWINS = {'@G': '@G2', '@S': '@S2', '@U': '@U2', '@CG': '@CG2'}
def twins(w):
    """ Objects much like others of the world: a group in which the same names mean other things, ... """
    out = []
    for name, s in w['objs']:
        if s[0] == 'mcg': out.append([name + '2', ['mcg', s[1]] + [[[n, weights[(i + 1) % len(weights)]] for i, (n, _) in enumerate(named)] for named in s[2:4] for weights in [[x for _, x in named]]]])
        if s[0] == 'slp': out.append([name + '2', ['slp', s[1][::-1] + ['b']]])
        if s[0] == 'uf': out.append([name + '2', ['uf', s[1], [[(a + 1) % s[1], (b + 3) % s[1]] for a, b in s[2]]]])
        if s[0] == 'cg': out.append([name + '2', ['cg', 'T1']])
    return out

_PAIRS = {}
def world_by_id(wid):
    """ 'w3': a world; 'w3+w7': two in one process, the names of the second begin with b.; 'w3+T1': the second has the
    numbers of the first on another of its triangulations, as far as they make sense there. """
    if '+' not in wid: return next(w for w in worlds() if w['id'] == wid)
    if wid in _PAIRS: return _PAIRS[wid]
    first, second = wid.split('+')
    w = world_by_id(first)
    if second[0] == 'w':
        other = world_by_id(second)['objs']
        names = set(n for n, _ in other)
        other = [['b.' + n, [s[0]] + ['b.' + x if isinstance(x, str) and x in names else x for x in s[1:]]] for n, s in other]
    else:
        triples = dict(w['objs'])[second][1]
        other = [['b.T', ['T', triples]]]
        for n, s in w['objs']:
            if s[0] in ('lam', 'hc', 'enc', 'fs', 'mcg') and s[1] == 'T': other.append(['b.' + n, [s[0], 'b.T'] + s[2:]])
        import world as W
        other = [[n, s] for n, s in other if n == 'b.T' or core.forked(_sound, triples, n, s)]
    _PAIRS[wid] = {'id': wid, 'surface': w['surface'], 'objs': w['objs'] + other, 'pool': []}
    return _PAIRS[wid]

def _sound(triples, name, spec):
    """ Can this be made there, and if it was a mapping class, is it one there? """
    import world as W
    from curver import kernel as K
    T = W.make(['T', triples], {})
    try: x = W.make(spec, {'b.T': T})
    except Exception: return False  # pylint: disable=broad-except
    return spec[0] != 'enc' or not name.startswith(('b.h', 'b.p')) or isinstance(x, K.MappingClass)

# --- locations
def code_key(code):
    return (code.co_filename[len(core.PREFIX):], code.co_qualname, code.co_firstlineno)

WRITES = {'STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'DELETE_ATTR', 'DELETE_SUBSCR', 'DELETE_GLOBAL', 'STORE_SLICE', 'STORE_DEREF'}
NO_EVENT = ('CACHE', 'RESUME', 'EXTENDED_ARG', 'RETURN_GENERATOR', 'COPY_FREE_VARS', 'MAKE_CELL', 'POP_TOP', 'NOP')
class CodeInfo:
    """ For each line of a code object: the offsets of its instructions, and whether one may write to a shared object. """
    def __init__(self, code):
        self.offsets, self.writes = {}, set()
        for ins in dis.get_instructions(code):
            pos = ins.positions
            if pos is None or pos.lineno is None: continue
            if ins.opname in WRITES and code.co_name not in ('__init__', '__new__'): self.writes.add(pos.lineno)  # constructors write to objects nobody else has yet
            if ins.opname not in NO_EVENT: self.offsets.setdefault(pos.lineno, []).append(ins.offset)

_INFO = {}
def info(code):
    """ Keyed by where the code is, so that what was computed before a fork serves copies of the same function too. """
    key = code_key(code)
    got = _INFO.get(key)
    if got is None: got = _INFO[key] = CodeInfo(code)
    return got

def line_offsets(code, line): return info(code).offsets.get(line, [])

# --- which statements write to objects that others can see
MUTATORS = {'append', 'add', 'update', 'pop', 'popitem', 'setdefault', 'clear', 'remove', 'discard', 'extend', 'insert', 'sort', 'reverse', 'put', 'appendleft', 'popleft', '__setitem__'}
CHAINS = {}  # (file, line) -> name chains whose object is written to there
def _chain(node):
    """ ('self', '_cache') for self._cache, self._cache[key], vars(self), ...; None if it is not rooted in a name. """
    names = []
    while True:
        if isinstance(node, ast.Attribute):
            names.append(node.attr); node = node.value
        elif isinstance(node, (ast.Subscript, ast.Starred)):
            names = []; node = node.value
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('vars', 'getattr') and node.args:
            names = []; node = node.args[0]
        elif isinstance(node, ast.Name):
            return tuple([node.id] + names[::-1])
        else: return None

def _find_chains(rel, tree):
    for node in ast.walk(tree):
        bases = []
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete)):
            targets = node.targets if not isinstance(node, ast.AugAssign) else [node.target]
            flat = []
            while targets:
                t = targets.pop()
                if isinstance(t, (ast.Tuple, ast.List)): targets = targets + list(t.elts)
                else: flat.append(t)
            bases = [t.value for t in flat if isinstance(t, (ast.Attribute, ast.Subscript))]
        elif isinstance(node, ast.Call):
            if isinstance(node.func, ast.Attribute) and node.func.attr in MUTATORS: bases = [node.func.value]
            elif isinstance(node.func, ast.Name) and node.func.id in ('setattr', 'delattr', 'heappush', 'heappop') and node.args: bases = [node.args[0]]
        for b in bases:
            c = _chain(b)
            if c is not None: CHAINS.setdefault((rel, node.lineno), []).append(c)

def reachable(roots, limit=200000):
    """ The identities of everything that can be reached from the roots. """
    import types
    seen = {}
    stack = list(roots)
    while stack and len(seen) < limit:
        x = stack.pop()
        if id(x) in seen or isinstance(x, (int, str, float, bytes, type, types.ModuleType)): continue
        seen[id(x)] = x
        if isinstance(x, dict): stack.extend(x.keys()); stack.extend(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)): stack.extend(x)
        elif hasattr(x, '__dict__'): stack.append(vars(x))
    return seen

def shared_roots(objs):
    import types
    out = [objs]
    for name, module in list(sys.modules.items()):
        path = getattr(module, '__file__', None)
        if path and path.startswith(core.PREFIX):
            for v in list(vars(module).values()):
                if isinstance(v, type): out.extend(f for f in vars(v).values() if isinstance(f, types.FunctionType))
                elif isinstance(v, (types.FunctionType, dict, list, set)): out.append(v)
    return out + [getattr(f, '__wrapped__', f) for f in out if isinstance(f, types.FunctionType)]

def survey():
    """ Analyse all code of curver once, before anything is forked. """
    import types
    stack = []
    for name, module in sorted(sys.modules.items()):
        path = getattr(module, '__file__', None)
        if path and path.startswith(core.PREFIX):
            with open(path) as f: source = f.read()
            stack.append(compile(source, path, 'exec', dont_inherit=True))
            _find_chains(path[len(core.PREFIX):], ast.parse(source))
    while stack:
        code = stack.pop()
        info(code)
        stack.extend(c for c in code.co_consts if isinstance(c, types.CodeType))

class Place:
    """ A point of an execution: the occ-th time that instruction k (None: the start) of a line is reached. """
    def __init__(self, key, line, k, occ):
        self.key, self.line, self.k, self.occ = tuple(key), line, k, occ
    def to_json(self): return [list(self.key), self.line, self.k, self.occ]
    @classmethod
    def of(cls, data): return cls(tuple(data[0]), data[1], data[2], data[3])

# --- the pristine answers
EXCEPTIONS = {}
def exceptions():
    if not EXCEPTIONS:
        class SimTimeout(Exception): """ What a signal handler raises when an alarm goes off. """
        class SimCancelled(BaseException): """ An asynchronous cancellation. """
        EXCEPTIONS.update(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, RecursionError=RecursionError, SimTimeout=SimTimeout, TimeoutError=TimeoutError, SimCancelled=SimCancelled)
    return EXCEPTIONS

def short(answer, n=300):
    s = repr(answer)
    return s if len(s) <= n else s[:n] + '...'

class Case:
    """ One world built in this process, never queried here: queries run in forked copies. """
    def __init__(self, wid, names=None, cold=False):
        import world as W, ops, canon
        self.W, self.ops, self.canon = W, ops, canon
        self.world = world_by_id(wid)
        self.objs = W.build(self.world, names)
        if cold: self.objs = W.chill(self.world, self.objs)
        self.cache = {}
    def _solo(self, inst, profile):
        mon = inject.Monitor(limit=3_000_000, profile=profile)
        shared = set()
        if profile:
            seen = reachable(shared_roots(self.objs))
            lines = dict((key, chains) for key, chains in CHAINS.items())
            looks = {}
            def look(code, line):
                at = (code.co_filename[len(core.PREFIX):], line)
                chains = lines.get(at)
                if chains is None or (code, line) in shared: return
                times = looks[code, line] = looks.get((code, line), 0) + 1
                if times > 40: return
                frame = sys._getframe(2)
                for chain in chains:
                    x = frame.f_locals.get(chain[0], frame.f_globals.get(chain[0]))
                    for name in chain[1:] + (None,):
                        if x is not None and id(x) in seen and seen[id(x)] is x:
                            shared.add((code, line)); return
                        if name is None: break
                        if x is not None: x = getattr(x, '__dict__', {}).get(name)
                    if isinstance(x, (dict, list, set)) and looks.get(at, 0) < 3:  # Made since, but perhaps hung up where others see it.
                        looks[at] = looks.get(at, 0) + 1
                        if any(id(r) in seen and seen[id(r)] is r for r in gc.get_referrers(x)):
                            shared.add((code, line)); return
            mon.on_line = look
        simsys.install_clock()
        random.seed(12345)
        mon.start()
        try:
            try: answer = self.canon.outcome(self.ops.call, inst, self.objs)
            finally: mon.stop()
        except inject.StepLimit: answer = ('STUCK',)
        except simsys.Deadlock: answer = ('DEADLOCK',)
        prof = None
        if profile:
            prof = []
            for (code, line), n in mon.profile.items():
                prof.append((code_key(code), line, n, len(line_offsets(code, line)), 2 if (code, line) in shared else 1 if line in info(code).writes else 0))
            prof.sort()
        return digest(answer), short(answer), mon.count, prof
    def oracle(self, inst, profile=False):
        """ The answer of inst when it is asked first and alone: (digest, text, lines, profile). """
        key = json.dumps(inst)
        got = self.cache.get(key)
        if got is None or (profile and got[3] is None):
            got = core.forked(self._solo, inst, profile, timeout=300)
            self.cache[key] = got
        return got

def pick_place(R, profile, near=None):
    """ Choose a point of an execution: uniform over distinct lines rather than over time, leaning to lines that write,
    lines near a given one, early occurrences. """
    if near is not None and R.random() < .6:
        same = [p for p in profile if p[0][:2] == near.key[:2] and abs(p[1] - near.line) <= 12]
        if same: profile = same
    weights = [(1, 2, 30)[p[4]] for p in profile] if R.random() < .5 else None
    key, line, n, k_max, _ = R.choices(profile, weights)[0]
    r = R.random()
    occ = 1 if r < .4 else R.randint(1, min(n, 4)) if r < .7 else R.randint(1, n)
    k = R.randrange(k_max) if k_max > 1 and R.random() < .5 else None
    return Place(key, line, k, occ)

SWALLOWERS = (os.sep + os.path.join('networkx', 'convert.py'),)
def swallowed():
    """ Is a frame of a dependency on the stack which would swallow whatever is raised now?

    networkx.convert.to_networkx_graph has a bare `except: pass` around building a graph from edges: an interruption
    that arrives there disappears in networkx, whatever curver does. It is not curver's to answer for. """
    frame = sys._getframe(2)
    while frame is not None:
        if frame.f_code.co_filename.endswith(SWALLOWERS): return True
        frame = frame.f_back
    return False

def following(profile, key, line):
    """ The line executed next after this one, as far as line numbers tell. """
    later = sorted(p[1] for p in profile if p[0] == tuple(key) and p[1] > line)
    return later[0] if later else line

class Disturber(inject.Monitor):
    """ A monitor that calls back when places are reached.

    arm() lists (thread, place, action); occurrences of a place are counted per thread. Lines which nobody waits for are
    switched off, so an undisturbed stretch runs at full speed; progress is bounded by counting lines from the moment
    the execution has used `patience` seconds of processor time (far more than it needs), so only stuck runs are counted. """
    patience = 4.0
    def __init__(self, limit, quantum=None):
        super().__init__(limit=limit)
        self.thread = lambda: 0
        self.by_line = {}
        self.by_code_k = {}
        self._codes = {}
        self.quantum = quantum  # called on every line (of the code objects in hot), if given
        self.hot = None
        self.counting = False
    def arm(self, thread, place, action):
        entry = [place, place.occ, action, thread]
        if place.k is None: self.by_line.setdefault((place.key, place.line), []).append(entry)
        else: self.by_code_k.setdefault(place.key, []).append(entry)
        return entry
    def _alarm(self, *_):
        self.counting = True
        inject.MON.restart_events()
    def start(self):
        if self.by_code_k: self.on_instruction = True
        signal.signal(signal.SIGVTALRM, self._alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.patience)
        super().start()
    def stop(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        super().stop()
    def key(self, code):
        key = self._codes.get(code)
        if key is None: key = self._codes[code] = code_key(code)
        return key
    def _fire(self, entry):
        entry[1] -= 1
        if entry[1] == 0: entry[2]()
    def _line(self, code, line):
        if not code.co_filename.startswith(self.prefix): return inject.MON.DISABLE
        if self.counting:
            self.count += 1
            if self.count > self.limit: raise inject.StepLimit(f'{code.co_filename[len(core.PREFIX):]}:{line}')
        entries = self.by_line.get((self.key(code), line))
        if entries:
            me = self.thread()
            for entry in list(entries):
                if entry[3] == me and entry[1] > 0: self._fire(entry)
        if self.quantum is not None and (self.hot is None or (self.key(code), line) in self.hot): self.quantum(code, line)
        elif not entries and not self.counting: return inject.MON.DISABLE
    def _instruction(self, code, offset):
        if not code.co_filename.startswith(self.prefix): return inject.MON.DISABLE
        entries = self.by_code_k.get(self.key(code))
        if not entries: return inject.MON.DISABLE
        hit = False
        for entry in list(entries):
            place = entry[0]
            offsets = line_offsets(code, place.line)
            if place.k < len(offsets) and offsets[place.k] == offset:
                hit = True
                if entry[1] > 0 and entry[3] == self.thread(): self._fire(entry)
        if not hit: return inject.MON.DISABLE
