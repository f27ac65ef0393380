""" Generate data/worlds.json: run by hand when the catalogue changes, never by a check.

Every operation instance which is kept was executed on the reference tree within LIMIT lines of curver code. """
import core; core.boot('0')
import json, random, sys, os
from fractions import Fraction
curver = core.import_curver()
from curver import kernel as K
import world as W, ops as O, canon, inject

SURF = [(0, 4), (0, 5), (0, 6), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)]
PERIODIC = {(0, 6): ['s_0.s_1.s_2.s_3.s_4', '(s_0.s_1.s_2.s_3.s_4)^2', 's_0.s_1.S_3.S_4'], (1, 1): ['a_0.b_0', 'a_0.b_0.a_0'], (2, 1): ['a_0.b_0.c_0.b_1', 'a_0.b_0.c_0.b_1.a_1'], (2, 2): ['a_0.b_0.c_0.b_1.p_1'],
            (0, 4): ['s_0.s_1.s_2', '(s_0.s_1.s_2)^2'], (0, 5): ['s_0.s_1.s_2.s_3', '(s_0.s_1.s_2.s_3)^2']}
LIMIT = 150000

def tspec(T): return ['T', [list(int(x) for x in t.labels) for t in T]]
def lspec(l, on='T'): return ['lam', on, [int(w) if isinstance(w, int) or getattr(w, 'denominator', 1) == 1 else str(Fraction(w)) for w in l]]
def espec(h, on='T'): return ['enc', on, [W.encode_item(p) for p in h.package()]]

def random_mapping(R, T, n, flips_only=False):
    h = T.id_encoding()
    for _ in range(n):
        T2 = h.target_triangulation
        k = R.choice([0, 0, 1]) if flips_only else R.choice([0, 0, 0, 1, 2, 3])
        if k == 0:
            term = T2.encode_flip(R.choice([e for e in T2.edges if T2.is_flippable(e)]))
        elif k == 1:
            p = list(range(T2.zeta)); R.shuffle(p)
            term = T2.encode_relabel_edges([i if R.random() < .5 else ~i for i in p])
        elif k == 2:
            term = T2.edge_curve(R.choice(T2.edges)).encode_twist(R.choice([-2, -1, 1, 2, 3]))
        else:
            es = [e for e in T2.positive_edges if T2.vertex_lookup[e] != T2.vertex_lookup[~e]]
            if not es: continue
            term = T2.edge_arc(R.choice(es)).encode_halftwist(R.choice([-3, -1, 1, 2]))
        h = term * h
    return h

def gen_world(wid, surface, seed):
    R = random.Random(seed)
    objs = []
    add = lambda name, spec: objs.append([name, spec])
    tags = {}
    def tag(t, *names):
        tags.setdefault(t, []).extend(names)
    connected = surface != 'disc'
    if connected:
        G = curver.load(*surface)
        T = G.triangulation
        if R.random() < .5:  # Not always the standard triangulation.
            T0 = T
            move = random_mapping(R, T, R.randint(1, 4), flips_only=True)
            T = move.target_triangulation
        else: move = T.id_encoding()
    else:
        A = curver.load(*R.choice([(0, 4), (1, 1), (1, 2)])).triangulation
        B = curver.load(*R.choice([(0, 4), (1, 1)])).triangulation
        up = lambda x: x + A.zeta if x >= 0 else x - A.zeta
        T = K.Triangulation.from_tuple([tuple(t.labels) for t in A] + [tuple(up(x) for x in t.labels) for t in B])
        move = T.id_encoding()
    add('T', tspec(T)); tag('T', 'T')
    m0 = random_mapping(R, T, R.randint(2, 4))
    while m0.target_triangulation == T: m0 = m0.target_triangulation.encode_flip(R.choice([e for e in T.edges if m0.target_triangulation.is_flippable(e)])) * m0
    T1 = m0.target_triangulation
    p = list(range(T.zeta)); R.shuffle(p)
    rel = T.encode_relabel_edges([i if R.random() < .5 else ~i for i in p])
    T2 = rel.target_triangulation
    add('T1', tspec(T1)); add('T2', tspec(T2)); tag('TX', 'T1', 'T2')
    # curves
    essential = [c for c in (T.edge_curve(e) for e in T.edges) if not c.is_peripheral()]
    essential = sorted(set(essential), key=lambda c: c.geometric)
    def mapping_class(n):
        h = T.id_encoding()
        for _ in range(n):
            h = R.choice(essential).encode_twist(R.choice([-2, -1, 1, 2])) * h
        return h
    curves = []
    for i in range(5):
        c = R.choice(essential)
        if i >= 2: c = mapping_class(R.randint(1, 2))(c)
        curves.append(c)
        add(f'c{i}', lspec(c)); tag('C', f'c{i}'); tag('MC', f'c{i}'); tag('IL', f'c{i}'); tag('LAM', f'c{i}'); tag('NPC', f'c{i}')
    per = T.curve_from_cut_sequence(sorted(T.vertices)[0])
    add('per', lspec(per)); tag('C', 'per'); tag('MC', 'per'); tag('IL', 'per'); tag('LAM', 'per')
    # multicurves
    for i in range(3):
        k = R.randint(1, max(1, T.zeta // 2))
        ma = T([-1 if j in R.sample(range(T.zeta), k) else 0 for j in range(T.zeta)])
        b = ma.boundary() if not ma.is_empty() else T.edge_arc(0).boundary()
        if i == 1: b = b + per if not b.is_empty() else b
        if i == 2: b = mapping_class(1)(b)
        if b.is_empty(): b = T.edge_arc(R.randrange(T.zeta)).boundary()
        b = T.disjoint_sum(dict((c, R.randint(1, 3)) for c in b.components()))
        add(f'mc{i}', lspec(b)); tag('MC', f'mc{i}'); tag('IL', f'mc{i}'); tag('LAM', f'mc{i}')
        if b.is_empty(): objs.pop(); [tags[t].remove(f'mc{i}') for t in ('MC', 'IL', 'LAM')]
    # arcs
    for i in range(3):
        a = T.edge_arc(R.randrange(T.zeta))
        if i: a = mapping_class(R.randint(1, 2))(a)
        add(f'a{i}', lspec(a)); tag('A', f'a{i}'); tag('MA', f'a{i}'); tag('IL', f'a{i}'); tag('LAM', f'a{i}')
    das = [T.edge_arc(e) for e in T.positive_edges if T.vertex_lookup[e] != T.vertex_lookup[~e]]
    for i in range(2):
        if das:
            a = R.choice(das)
            if i: a = mapping_class(1)(a)
            add(f'da{i}', lspec(a)); tag('DA', f'da{i}'); tag('A', f'da{i}'); tag('MA', f'da{i}'); tag('IL', f'da{i}'); tag('LAM', f'da{i}')
    for i in range(2):
        k = R.randint(2, T.zeta)
        S = set(R.sample(range(T.zeta), k))
        ma = T([-R.randint(1, 3) if j in S else 0 for j in range(T.zeta)])
        if i: ma = mapping_class(1)(ma)
        add(f'ma{i}', lspec(ma)); tag('MA', f'ma{i}'); tag('IL', f'ma{i}'); tag('LAM', f'ma{i}')
    if connected:
        fill = T.as_lamination()
        for tries in range(30):
            S = set(R.sample(range(T.zeta), max(1, T.zeta - 2 - R.randint(0, 1))))
            f = T([-1 if j in S else 0 for j in range(T.zeta)])
            if f.is_filling(): fill = f; break
        add('fill', lspec(fill)); tag('FILL', 'fill'); tag('MA', 'fill'); tag('IL', 'fill'); tag('LAM', 'fill')
        fill2 = mapping_class(1)(fill)
        add('fill2', lspec(fill2)); tag('FILL', 'fill2'); tag('MA', 'fill2')
    # mixed
    arc = T.edge_arc(R.randrange(T.zeta))
    mixed = T.disjoint_sum({arc: R.randint(1, 2), arc.boundary(): 1}) if not arc.boundary().is_empty() else arc
    for i in range(2):
        x = mixed if i == 0 else mapping_class(1)(mixed)
        add(f'il{i}', lspec(x)); tag('IL', f'il{i}'); tag('LAM', f'il{i}')
    add('empty', lspec(T.empty_lamination())); tag('LAM', 'empty'); tag('IL', 'empty')
    # plain
    frac = [Fraction(w, R.choice([2, 3])) for w in curves[0]]
    d = R.choice([2, 3])
    add('l0', ['lam', 'T', [str(Fraction(w, d)) for w in curves[2]]]); tag('L', 'l0'); tag('LAM', 'l0')
    try: x = (curves[0] + curves[1]); T([Fraction(3 * w, 2) for w in x])
    except (ValueError, AssertionError): x = curves[3]
    add('l1', ['lam', 'T', [str(Fraction(3 * w, 2)) for w in x]]); tag('L', 'l1'); tag('LAM', 'l1')
    # homology
    for i in range(2):
        add(f'hc{i}', ['hc', 'T', [R.randint(-3, 3) for _ in range(T.zeta)]]); tag('HC', f'hc{i}')
    # mapping classes
    hs = [T.id_encoding(), R.choice(essential).encode_twist(R.choice([-2, 1, 3])), mapping_class(2), mapping_class(3)]
    if das: hs.append(R.choice(das).encode_halftwist(R.choice([1, -1, 2])))
    g = mapping_class(1)
    hs.append(g.inverse() * g)
    disjoint = [c for c in essential if c.intersection(essential[0]) == 0 and c != essential[0]]
    if disjoint: hs.append(T.disjoint_sum({essential[0]: 1, R.choice(disjoint): 2}).encode_twist())
    for i, h in enumerate(hs):
        add(f'h{i}', espec(h)); tag('H', f'h{i}'); tag('MAP', f'h{i}'); tag('ANY', f'h{i}')
    if connected:
        for i, w in enumerate(PERIODIC.get(surface, [])):
            h = G(w).conjugate_by(move.inverse())
            if R.random() < .5: h = h.conjugate_by(mapping_class(1))
            add(f'p{i}', espec(h)); tag('PERIODIC', f'p{i}'); tag('H', f'p{i}'); tag('MAP', f'p{i}'); tag('ANY', f'p{i}')
            if len(h) < 60:
                n = h.order()
                add(f'fs{i}', ['fs', 'T', espec(h)[2], n]); tag('FS', f'fs{i}')
        for s in T.self_isometries():
            h = s.encode()
            if h.order() > 1:
                add('piso', espec(h)); tag('PERIODIC', 'piso'); tag('H', 'piso'); tag('MAP', 'piso'); tag('ANY', 'piso')
                add('fsiso', ['fs', 'T', espec(h)[2], h.order()]); tag('FS', 'fsiso')
                break
    if connected and surface in [(0, 5), (1, 2)]:
        pairs = [(x, y) for x in essential for y in essential if x != y and x.intersection(y) == 0]
        if pairs:
            x, y = R.choice(pairs)
            add('d0', lspec(x)); add('d1', lspec(y))
            for t in ('C', 'MC', 'IL', 'LAM'): tag(t, 'd0', 'd1')
            tag('D0', 'd0'); tag('D1', 'd1')
    if connected and surface in [(0, 4), (1, 1), (1, 2)]:
        pairs = [(x, y) for x in essential for y in essential if 0 < x.intersection(y) <= 2]
        if pairs:
            x, y = R.choice(pairs)
            h = x.encode_twist() * y.encode_twist(-1)
            add('pa', espec(h))
            for t in ('PA', 'H', 'MAP', 'ANY'): tag(t, 'pa')
    add('m0', espec(m0)); tag('MAP', 'm0'); tag('ANY', 'm0')
    add('m0i', espec(m0.inverse(), 'T1')); tag('MAPX', 'm0i'); tag('ANY', 'm0i')
    add('rel', espec(rel)); tag('MAP', 'rel'); tag('ANY', 'rel')
    mf = random_mapping(R, T, 4, flips_only=True)
    add('m1', espec(mf)); tag('MAP', 'm1'); tag('ANY', 'm1')
    for i in range(2):
        h = T.id_encoding(); items = []
        for _ in range(i + 1):
            T_ = h.target_triangulation; used = set(); es = []
            order = list(T_.positive_edges); R.shuffle(order)
            for e in order:
                s = {tuple(T_.triangle_lookup[e].labels), tuple(T_.triangle_lookup[~e].labels)}
                if len(s) == 2 and not (s & used): used |= s; es.append(R.choice([e, ~e]).label)
            es = es[:3]
            if not es: break
            items.insert(0, {'mf': es})
            h = T_.encode_multiflip(es) * h
        if items:
            add(f'mf{i}', ['enc', 'T', items]); tag('MAP', f'mf{i}'); tag('ANY', f'mf{i}'); tag('MF', f'mf{i}')
    add('k0', ['crush', 'c0']); tag('K', 'k0'); tag('ANY', 'k0')
    if 'mc0' in tags.get('MC', []): add('k1', ['crush', 'mc0']); tag('ANY', 'k1')
    # group
    names = {}
    for i, c in enumerate(essential[:R.randint(2, 4)]): names[f'a_{i}'] = c
    arcs = dict((f's_{i}', a) for i, a in enumerate(R.sample(das, min(len(das), 2))))
    add('G', ['mcg', 'T', [[n, lspec(c)[2]] for n, c in names.items()], [[n, lspec(a)[2]] for n, a in arcs.items()]]); tag('G', 'G')
    tags['letters'] = sorted(names) + sorted(arcs)
    # small structures
    for i in range(2):
        q = list(range(6)); R.shuffle(q)
        add(f'P{i}', ['perm', q]); tag('P', f'P{i}')
    add('U', ['uf', 8, [[R.randrange(8), R.randrange(8)] for _ in range(4)]]); tag('U', 'U')
    add('S', ['slp', ['a', 'b', 'c', 'a']]); tag('S', 'S')
    if connected and T.zeta <= 9: add('CG', ['cg', 'T']); tag('CG', 'CG')
    return {'id': wid, 'surface': str(surface), 'seed': seed, 'objs': objs}, tags, T, curves, m0

def sample_args(R, kinds, tags, T, T1, T2, curves, opname):
    out = []
    for k in kinds:
        if k in ('e',): out.append(R.choice(T.labels))
        elif k == 'flip':
            fl = [e.label for e in T.edges if T.is_flippable(e)]
            if not fl: return None
            out.append(R.choice(fl))
        elif k == 'multiflip':
            es = []; used = set()
            order = list(T.positive_edges); R.shuffle(order)
            for e in order:
                s = {id(T.triangle_lookup[e]), id(T.triangle_lookup[~e])}
                if len(s) == 2 and not (s & used):
                    used |= s; es.append(R.choice([e, ~e]).label)
            es = es[:R.randint(1, 3)]
            if not es: return None
            out.append(es)
        elif k == 'relabel':
            p = list(range(T.zeta)); R.shuffle(p)
            out.append([i if R.random() < .5 else ~i for i in p])
        elif k == 'relabeldict':
            p = list(range(T.zeta)); R.shuffle(p)
            m = []
            for i, j in enumerate(p):
                s = R.random()
                if s < .4: m.append([i, j])
                elif s < .8: m.append([~i, j])
                else: m += [[i, ~j], [~i, j]]
            if R.random() < .1: m = m[1:]
            out.append(m)
        elif k == 'labelmap':
            out.append(None)
        elif k == 'small': out.append(R.choice([0, 1, 1, 2, 2, 3]))
        elif k == 'pow': out.append(R.choice([-7, -3, -2, -1, 0, 1, 2, 3, 5, 7]))
        elif k == 'bigpow': out.append(R.choice([10**4, 10**9, 12345, -10**6]))
        elif k == 'midpow': out.append(R.choice([12, 20, 35, -25]))
        elif k in ('weights', 'weightdict'):
            c = R.choice(curves + [T.edge_arc(0), T.as_lamination()])
            if R.random() < .3: out.append([str(Fraction(w, 2)) for w in c])
            else: out.append([w * R.choice([1, 1, 2]) if False else w for w in c])
        elif k == 'cutseq':
            v = R.choice(sorted(T.vertices))
            out.append([e.label for e in v] if R.random() < .5 else [R.choice(T.labels) for _ in range(R.randint(0, 4))])
        elif k == 'word':
            ls = tags['letters']
            w = '.'.join(R.choice([l, l.swapcase()]) for l in R.choices(ls, k=R.randint(0, 4)))
            if R.random() < .5 and w: w = f'({w})^{R.choice([-3, 2, 5])}{R.choice(["", ".", ""])}{R.choice(ls)}^-2'
            out.append(w)
        elif k == 'wordlist': out.append([R.choice([l, l.swapcase()]) for l in R.choices(tags['letters'], k=R.randint(0, 4))])
        elif k == 'badword': out.append(R.choice(O.BAD_WORDS + [tags['letters'][0] + '.zz', tags['letters'][0] + '^', '(' + tags['letters'][0]]))
        elif k == 'seed': out.append(R.randrange(1000))
        elif k == 'gn': out.append(list(R.choice([(0, 3), (0, 4), (0, 5), (1, 1), (1, 2), (2, 0) if False else (2, 1), (0, 7), (1, 4), (2, 2), (3, 1)])))
        elif k == 'posdict': out.append({})
        elif k in ('lamdict', 'lamlist', 'lamtuple'):
            if opname.startswith('T.dsum'):
                a = R.choice([n for n in tags['MC'] if n.startswith('mc')] or tags['MC'])
                names = [['!', 'IL.component', '@' + a, i] for i in range(R.choice([1, 2]))] + ['@empty'] * R.choice([0, 1, 1])
                if R.random() < .4: names.append('@' + R.choice(tags['C']))
            elif opname.startswith('CG'): names = ['@' + R.choice(tags['NPC']) for _ in range(2)]
            else: names = ['@' + R.choice(tags['C'] if opname.startswith('H.') else tags['IL'] + ['empty']) for _ in range(R.choice([1, 2, 3]))]
            R.shuffle(names)
            if k != 'lamdict': out.append(names)
            else:
                zero = R.choice([0, 1, 2])
                out.append([[n, 0 if n == '@' + str(zero) or i >= 2 and zero or R.random() < .2 else R.randint(1, 3)] for i, n in enumerate(names)])
        elif k == 'named':
            which = {'G.of': ['H', 'C', 'DA'], 'G.of2': ['H', 'C'], 'G.word_in': ['H', 'C'], 'FS.of': ['PERIODIC']}[opname][len([x for x in kinds[:len(out)] if x == 'named'])]
            pool = tags.get(which, [])
            n = min(len(pool), R.choice([1, 1, 2]) if which in ('PERIODIC', 'C') else R.choice([0, 1, 2]))
            if n == 0 and which == 'PERIODIC': return None
            keys = R.sample(['a', 'b', 'x_0', 'x_1', 'y', 'z_3'], n) if which == 'C' else R.sample(['f', 'g', 'h_0', 'k'], n) if which == 'H' else R.sample(['s', 't_1', 'r'], n)
            out.append([[x, '@' + v] for x, v in zip(keys, R.sample(pool, n))])
        elif k == 'letters':
            out.append([R.choice([l, l.swapcase()]) for l in R.sample(tags['letters'], min(len(tags['letters']), R.choice([1, 2, 3])))])
        elif k == 'intlist': out.append([R.randint(-4, 9) for _ in range(T.zeta)] if opname != 'P.of' else R.sample(range(7), 7))
        elif k == 'triples': out.append([[int(x) for x in t.labels] for t in R.choice([T, T1, T2])])
        elif k == 'moves': out.append(['@' + R.choice(tags['ANY'])])
        elif k == 'isomap': out.append(None)
        elif k == 'seq':
            out.append(None)
        elif k == 'T':
            if len(kinds) == 1 and R.random() < .3: out.append('@' + R.choice(tags['TX']))
            elif out and out[-1] == '@T' and R.random() < .7: out.append('@' + R.choice(tags['TX']))
            else: out.append('@T')
        else:
            names = tags.get(k)
            if not names: return None
            out.append('@' + R.choice(names))
    if 'labelmap' in kinds or 'seq' in kinds or 'isomap' in kinds:
        h = random_mapping(R, T, R.randint(1, 3))
        if 'seq' in kinds:
            out[kinds.index('seq')] = [W.encode_item(p) for p in h.package()]
        else:
            target = {'@T': T, '@T1': T1, '@T2': T2}[out[1]]
            isoms = list(T.isometries_to(target))
            if isoms:
                lm = R.choice(isoms).label_map
                ks = sorted(int(getattr(k, 'label', k)) for k in lm)
                pick = ks if 'isomap' in kinds else R.sample(ks, R.randint(1, 2))
                lm2 = dict((int(getattr(k, 'label', k)), int(getattr(v, 'label', v))) for k, v in lm.items())
                out[2] = [[k, lm2[k]] for k in pick]
            elif 'isomap' in kinds: return None
            else: out[2] = [[0, R.choice(T.labels)]]
    return out

def extend(job):
    """ In a worker: instances of the operations that the pools do not have yet, for a world that exists. """
    i, world, names, per_op = job
    w, pool = measure((i, eval(world['surface']) if world['surface'] != 'disc' else 'disc', world['seed'], per_op), names)  # pylint: disable=eval-used
    assert w['id'] == world['id'] and w['objs'] == world['objs'], (w['id'], 'is generated differently now')
    return pool

def measure(job, names=None):
    """ In a worker: generate one world with its pool of operation instances. """
    i, surface, seed, per_op = job
    def gen():
        w, tags, T, curves, m0 = gen_world(f'w{i}', surface, seed)
        R = random.Random(seed * 7 + 1)
        objs = W.build(w)
        T1, T2 = objs['T1'], objs['T2']
        cands = []
        for name, (kinds, fn) in O.OPS.items():
            if names is not None and name not in names: continue
            seen = set()
            for _ in range(per_op * 3):
                args = sample_args(R, kinds, tags, T, T1, T2, curves, name)
                if args is None: continue
                key = repr(args)
                if key in seen: continue
                seen.add(key)
                cands.append([name] + args)
                if len(seen) >= per_op: break
        return w, cands
    w, cands = core.forked(gen, timeout=600)
    pool = []
    def run(inst):
        objs = W.build(w, O.needs(inst))
        mon = inject.Monitor(limit=450000 if inst[0].startswith(('CG', 'FS', 'H.is_conj')) else LIMIT)
        mon.start()
        try:
            try: out = canon.outcome(O.call, inst, objs)
            finally: mon.stop()
        except inject.StepLimit: return None
        return out, mon.count
    for inst in cands:
        try: got = core.forked(run, inst, timeout=6)
        except (core.RunTimeout, core.HarnessError) as e:
            if isinstance(e, core.HarnessError): print('ERR', i, inst, str(e)[-300:], flush=True)
            continue
        if got is None: continue
        out, count = got
        pool.append([inst, count, 1 if isinstance(out, tuple) and out and out[0] == 'EXC' else 0, out[1] if isinstance(out, tuple) and out and out[0] == 'EXC' else ''])
    return w, pool

def main_extend(per_op):
    """ Write data/more.json: pools for the operations which no pool of worlds.json has. """
    here = os.path.join(core.VERIF, 'sim', 'data')
    with open(os.path.join(here, 'worlds.json')) as f: worlds = json.load(f)['worlds']
    have = set(inst[0] for w in worlds for inst, _, _ in w['pool'])
    names = [n for n in O.OPS if n not in have]
    out, met = {}, {}
    def result(i, pool):
        out[worlds[i]['id']] = [[inst, count, e] for inst, count, e, _ in pool]
        for inst, count, e, en in pool: met.setdefault(inst[0], {}).setdefault(en, []).append(inst)
    core.pool([(i, w, names, per_op) for i, w in enumerate(worlds)], extend, on_result=result)
    for n in names: print(n, dict((e or 'fine', (len(x), x[0])) for e, x in met.get(n, {}).items()))
    with open(os.path.join(here, 'more.json'), 'w') as f:
        f.write('{\n' + ',\n'.join(json.dumps(w) + ': ' + json.dumps(out[w], separators=(',', ':')) for w in sorted(out)) + '\n}\n')

if __name__ == '__main__' and sys.argv[1:2] == ['extend']: main_extend(int(sys.argv[2]))
elif __name__ == '__main__':
    n_seeds = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    per_op = int(sys.argv[2]) if len(sys.argv) > 2 else 2
    jobs = []
    for s in range(n_seeds):
        for surface in SURF + ['disc']:
            if surface in [(3, 1), (2, 2)] and s >= max(1, n_seeds // 3): continue
            jobs.append((len(jobs), surface, 1000 * s + len(jobs), per_op))
    results = {}
    core.pool(jobs, measure, on_result=lambda i, r: results.__setitem__(i, r))
    out = {'worlds': []}
    excs = {}
    total = 0
    for i in sorted(results):
        w, pool = results[i]
        for inst, count, e, en in pool:
            if e: excs.setdefault((inst[0], en), []).append((w['id'], inst))
        w['pool'] = [[inst, count, e] for inst, count, e, en in pool]
        total += len(pool)
        out['worlds'].append(w)
    for k, v in sorted(excs.items()): print(k, len(v), v[0])
    covered = {}
    for w in out['worlds']:
        for inst, count, e in w['pool']: covered.setdefault(inst[0], [0, 0]); covered[inst[0]][e] += 1
    print('never:', [n for n in O.OPS if n not in covered])
    print('only failing:', [n for n, c in covered.items() if c[0] == 0])
    print(len(out['worlds']), 'worlds', total, 'instances')
    with open(os.path.join(core.VERIF, 'sim', 'data', sys.argv[3] if len(sys.argv) > 3 else 'worlds.json'), 'w') as f:
        f.write('{"worlds": [\n')
        for j, w in enumerate(out['worlds']):
            f.write(json.dumps(w, separators=(',', ':')) + (',\n' if j < len(out['worlds']) - 1 else '\n'))
        f.write(']}\n')
