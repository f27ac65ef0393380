""" Choosing programs from the pools of admissible query instances. """
import json, random
import core, engine
from core import rng

_INDEX = {}
def needs(inst):
    import ops
    return ops.needs(inst)

MAX_LINES = {'quick': 25000, 'thorough': 150000}

def index_of(tier, exclude=()):
    """ op -> list of (world id, inst) within the size limit; world id -> op -> list of inst. """
    key = (tier, tuple(exclude))
    if key not in _INDEX:
        import ops
        by_op, by_world = {}, {}
        limit = MAX_LINES[tier]
        for w in engine.worlds():
            for inst, lines, _ in w['pool']:
                if lines > limit or inst[0] in exclude or inst[0] not in ops.OPS: continue
                by_op.setdefault(inst[0], []).append((w['id'], inst))
                by_world.setdefault(w['id'], {}).setdefault(inst[0], []).append(inst)
        _INDEX[key] = (by_op, by_world)
    return _INDEX[key]

def closure(world, inst):
    """ The names of the objects an instance uses, with the objects those are made from. """
    specs = dict(world['objs'])
    out = set()
    stack = needs(inst)
    while stack:
        n = stack.pop()
        if n in out or n not in specs: continue
        out.add(n)
        s = specs[n]
        if len(s) > 1 and isinstance(s[1], str) and s[1] in specs: stack.append(s[1])
    return out

def pick(R, index, tier, n_related, exclude=()):
    """ A focal query (operations take turns over the case index) and related queries on the same objects. """
    by_op, by_world = index_of(tier, exclude)
    names = sorted(by_op)
    order = list(names)
    rng('order', index // len(names)).shuffle(order)
    op = order[index % len(names)]
    wid, focal = R.choice(by_op[op])
    return wid, focal, relate(R, wid, focal, n_related, tier, exclude)

def relate(R, wid, focal, n, tier, exclude=()):
    """ n queries about the objects of the focal query: operations drawn uniformly among those available. """
    _, by_world = index_of(tier, exclude)
    mine = set(needs(focal))
    pool = by_world[wid]
    out = []
    names = sorted(pool)
    same_op = [i for i in pool.get(focal[0], []) if i != focal]
    tries = 0
    while len(out) < n and tries < 60 * n:
        tries += 1
        if same_op and R.random() < .12: inst = R.choice(same_op)
        else:
            inst = R.choice(pool[R.choice(names)])
        if inst in out or inst == focal: continue
        if set(needs(inst)) & mine or R.random() < .06: out.append(inst)
    return out

def variants(R, wid, insts, tier, exclude=()):
    """ The same operations on the same receivers with other arguments. """
    _, by_world = index_of(tier, exclude)
    out = []
    for inst in insts:
        same = [i for i in by_world[wid].get(inst[0], []) if i != inst and len(i) > 1 and i[1:2] == inst[1:2]]
        for i in R.sample(same, min(len(same), 2)):
            if i not in out and i not in insts: out.append(i)
    return out

# --- queries about what queries return
TEMPLATES = {
    'H': [['H.pow', 0, 'pow']] * 4 + [['E.inverse', 0], ['E.mul', 0, 'H'], ['E.mul', 'H', 0], ['H.conj', 0, 'H'], ['H.conj', 'H', 0], ['E.copy', 0], ['E.pickle', 0], ['E.promote', 0], ['E.mulinv', 0],
          ['M.combine_isometries', 0], ['M.simplify', 0], ['M.flip_mapping', 0]],
    'MAP': [['E.mul', 0, 'H'], ['E.copy', 0], ['E.promote', 0], ['E.mulinv', 0], ['M.combine_isometries', 0], ['M.simplify', 0], ['M.flip_mapping', 0]],
    'C': [['MC.encode_twist', 0, 'pow'], ['E.call', 'H', 0], ['L.add', 0, 'C'], ['L.pickle', 0], ['L.promote', 0]],
    'MC': [['MC.encode_twist', 0, 'pow'], ['MC.boundary', 0], ['IL.component', 0, 'small'], ['E.call', 'H', 0], ['L.peripheral', 0], ['L.non_peripheral', 0], ['L.add', 0, 0]],
    'MA': [['MA.boundary', 0], ['IL.component', 0, 'small'], ['E.call', 'H', 0], ['L.add', 0, 0], ['L.pickle', 0]],
    'A': [['MA.encode_halftwist', 0, 'pow'], ['MA.boundary', 0], ['E.call', 'H', 0]],
    'DA': [['MA.encode_halftwist', 0, 'pow'], ['MA.boundary', 0], ['E.call', 'H', 0]],
    'IL': [['IL.multicurve', 0], ['IL.multiarc', 0], ['L.peripheral', 0], ['L.non_peripheral', 0], ['IL.component', 0, 'small'], ['E.call', 'H', 0]],
    'LAM': [['L.promote', 0], ['L.add', 0, 0], ['E.call', 'H', 0], ['L.pickle', 0]],
    'T': [['T.pickle', 0], ['T.from_sig', 0]],
    'HC': [['E.call_hc', 'H', 0]],
}
FITS = {'MappingClass': ('PERIODIC', 'H', 'MAP', 'ANY', 'PA'), 'Mapping': ('MAP', 'ANY'), 'Curve': ('C', 'MC', 'IL', 'LAM', 'NPC'), 'MultiCurve': ('MC', 'IL', 'LAM'), 'Arc': ('DA', 'A', 'MA', 'IL', 'LAM'),
        'MultiArc': ('MA', 'IL', 'LAM'), 'IntegralLamination': ('IL', 'LAM'), 'Lamination': ('LAM',), 'T': ('T',), 'HC': ('HC',)}
DERIVED_LINES = 40000

def _kind_pool(wid, tier):
    """ kind -> names of the world that fill it somewhere in the pools. """
    import ops
    key = ('kinds', wid, tier)
    if key not in _INDEX:
        out = {}
        for insts in index_of(tier)[1][wid].values():
            for inst in insts:
                for a, k in zip(inst[1:], ops.OPS[inst[0]][0]):
                    if isinstance(a, str) and a.startswith('@'): out.setdefault(k, set()).add(a)
        _INDEX[key] = dict((k, sorted(v)) for k, v in out.items())
    return _INDEX[key]

def derive(R, wid, name, kinds, tier):
    """ A query about the object @name, which can fill these kinds, whose answer may be asked about in turn. """
    fill = _kind_pool(wid, tier)
    able = [k for k in kinds if k in TEMPLATES]
    if not able: return None
    t = R.choice(TEMPLATES[R.choice(able)])
    out = ['!', t[0]]
    for a in t[1:]:
        if a == 0: out.append(name)
        elif a == 'pow': out.append(R.choice([-6, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 8]))
        elif a == 'small': out.append(R.choice([0, 1, 2]))
        elif a in fill: out.append(R.choice(fill[a]))
        else: return None
    return out

def transfer(R, c, wid, insts, n, tier):
    """ Up to n pairs: one of the given queries, and one about something derived from what that is about. """
    import ops
    fill = _kind_pool(wid, tier)
    source = {}
    def what(d):
        """ The type of what is derived, if it belongs on the triangulation of the world. """
        key = json.dumps(d)
        if key not in source:
            _, text, lines, _ = c.oracle(d[1:])
            if 'T' not in source: source['T'] = c.oracle(['T.tri_short', '@T'])[1]
            kind = text[2:text.index("'", 2)] if text.startswith("('") else ''
            here = kind == 'T' or source['T'] in text
            if kind in ('MappingClass', 'Mapping', 'Encoding'): here = text.startswith(f"('{kind}', {source['T']}")
            source[key] = kind if lines <= DERIVED_LINES and here else ''
        return source[key]
    out = []
    tries = 0
    while len(out) < n and tries < 6 * n:
        tries += 1
        inst = R.choice(insts) if R.random() < .4 else insts[0]
        places = [i for i, a in enumerate(inst) if i and isinstance(a, str) and a.startswith('@') and i <= len(ops.OPS[inst[0]][0])]
        if not places: continue
        i = R.choice(places)
        name, want = inst[i], ops.OPS[inst[0]][0][i - 1]
        if want in ('H', 'MAP', 'ANY') and fill.get('PERIODIC') and R.random() < .5:  # More is remembered about these.
            name = R.choice(fill['PERIODIC'])
            inst = inst[:i] + [name] + inst[i + 1:]
            if c.oracle(inst)[2] > 3 * DERIVED_LINES: continue
        d = derive(R, wid, name, [k for k in fill if name in fill[k]], tier)
        if d is None: continue
        if R.random() < .25:
            more = derive(R, wid, d, FITS.get(what(d), ()), tier)
            if more: d = more
        if want in FITS.get(what(d), ()): new = inst[:i] + [d] + inst[i + 1:]
        else:  # Then something else about it.
            able = [x for group in index_of(tier)[1][wid].values() for x in group if len(x) > 1 and ops.OPS[x[0]][0][0] in FITS.get(what(d), ())]
            if not able: continue
            x = R.choice(able)
            new = [x[0], d] + x[2:]
        if any(new == b for _, b in out): continue
        if c.oracle(new)[2] <= 3 * DERIVED_LINES: out.append((inst, new))
    return out

def unary(wid, name, kinds, tier, limit):
    """ The queries about @name alone. """
    import ops
    out = []
    for group in index_of(tier)[1][wid].values():
        for inst in group:
            want = ops.OPS[inst[0]][0]
            if len(want) == 1 and want[0] in kinds: out.append([inst[0], name])
            elif len(want) == 2 and want[0] in kinds and want[1] in ('e', 'small', 'pow'): out.append([inst[0], name, inst[2]])
    seen = set()
    return [i for i in out if not (json.dumps(i) in seen or seen.add(json.dumps(i)))]
