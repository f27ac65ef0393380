""" The catalogue of public queries.

OPS[name] = (argument kinds, function). An operation instance is [name, arg, ...] where an object argument is written
'@name' and anything else is literal data. Kinds: see KINDS below. Caller-owned containers are always built from the
instance inside call() and handed back, so that a check can look at them after the call. """
import copy, operator, pickle, random
from fractions import Fraction
import curver
from curver import kernel as K

OPS = {}

def op(name, *kinds):
    def deco(fn):
        OPS[name] = (kinds, fn)
        return fn
    return deco

def simple(name, *kinds, attr=None):
    attr = attr or name.split('.')[1]
    OPS[name] = (kinds, lambda self, *args, _attr=attr: getattr(self, _attr)(*args))

# --- triangulations
for n in ('surface', 'components', 'is_connected', 'max_order', 'homology_matrix', 'homology_basis', 'sig', 'package', 'edge_curves', 'edge_arcs',
          'edge_homologies', 'id_encoding', 'as_lamination', 'empty_lamination', 'self_isometries', 'id_isometry', 'dual_tree', 'encode_pachner_1_3'):
    simple('T.' + n, 'T')
simple('T.is_flippable', 'T', 'e'); simple('T.square', 'T', 'flip'); simple('T.edge_curve', 'T', 'e'); simple('T.edge_arc', 'T', 'e'); simple('T.edge_homology', 'T', 'e')
simple('T.encode_flip', 'T', 'flip'); simple('T.isometries_to', 'T', 'T'); simple('T.is_isometric_to', 'T', 'T')
op('T.encode_multiflip', 'T', 'multiflip')(lambda T, edges: T.encode_multiflip(edges))
op('T.encode_relabel', 'T', 'relabel')(lambda T, l: T.encode_relabel_edges(l))
op('T.encode_relabel_dict', 'T', 'relabeldict')(lambda T, l: T.encode_relabel_edges(l))
op('T.find_isometry', 'T', 'T', 'labelmap')(lambda T, T2, l: T.find_isometry(T2, l))
op('T.all_encodings', 'T', 'small')(lambda T, n: T.all_encodings(min(n, 2)))
op('T.lamination', 'T', 'weights')(lambda T, w: T.lamination(w))
op('T.lamination_nopromote', 'T', 'weights')(lambda T, w: T.lamination(w, promote=False))
op('T.lamination_dict', 'T', 'weightdict')(lambda T, w: T.lamination(w))
op('T.cut', 'T', 'cutseq')(lambda T, s: T.lamination_from_cut_sequence(s))
op('T.cutcurve', 'T', 'cutseq')(lambda T, s: T.curve_from_cut_sequence(s))
op('T.sum', 'T', 'IL', 'IL', 'IL')(lambda T, a, b, c: T.sum([a, b, c]))
op('T.sum_dict', 'T', 'IL', 'IL', 'small')(lambda T, a, b, n: T.sum({a: n, b: 2}))
op('T.sum_plain', 'T', 'LAM', 'LAM')(lambda T, a, b: T.sum([a, b]))
op('T.disjoint_sum', 'T', 'IL')(lambda T, a: T.disjoint_sum(dict(a.components())))
op('T.disjoint_sum_list', 'T', 'IL')(lambda T, a: T.disjoint_sum(list(a.components())))
op('T.disjoint_sum_plain', 'T', 'L')(lambda T, a: T.disjoint_sum([a]))
op('T.encode', 'T', 'seq')(lambda T, s: T.encode(s))
op('T.encode_copy', 'H')(lambda h: h.source_triangulation.encode(h.package()))
op('T.encode_moves', 'ANY')(lambda h: h.source_triangulation.encode(list(h)))
op('T.eq', 'T', 'T')(lambda a, b: (a == b, hash(a) == hash(b), str(a), repr(a)))
op('T.tri_short', 'T')(lambda T: __import__('canon').Raw(T))
op('T.iter', 'T')(lambda T: ([t for t in T], T[0], [e for e in T.edges], sorted(T.vertices), T.num_vertices, T.euler_characteristic))
op('T.pickle', 'T')(lambda T: pickle.loads(pickle.dumps(T)))
op('T.from_sig', 'T')(lambda T: K.triangulation_from_sig(T.sig()))
op('T.corners', 'T', 'e')(lambda T, e: (T.corner_lookup[e], T.triangle_lookup[e], T.vertex_lookup[e], e in T.corner_lookup[e]))
op('edges', 'T', 'e')(lambda T, e: (K.Edge(e), ~K.Edge(e), K.Edge(e).sign(), K.Edge(e).index, K.Edge(e).set_sign(-1), K.Edge(e) < K.Edge(0), K.Edge(e) == e, hash(K.Edge(e)), K.norm(e), repr(K.Edge(e))))
op('triangles', 'T')(lambda T: [(t, len(t), list(t), t[0], t.labels, t == T[0], hash(t), repr(t), t.edges[0] in t) for t in T])

# --- laminations of every kind
for n in ('weight', 'is_integral', 'promote', 'is_empty', 'is_peripheral', 'peripheral', 'is_non_peripheral', 'non_peripheral', 'peripheral_components', 'parallel_components'):
    simple('L.' + n, 'LAM')
for n in ('dual_weight', 'left_weight', 'right_weight'):
    simple('L.' + n, 'LAM', 'e')
    op('L.' + n + '_double', 'LAM', 'e')(lambda a, e, _n=n: getattr(a, _n)(e, double=True))
op('L.call', 'LAM', 'e')(lambda a, e: (a(e), bool(a), str(a), repr(a), list(a)))
op('L.eq', 'LAM', 'LAM')(lambda a, b: (a == b, a != b, hash(a) == hash(b)))
op('L.add', 'LAM', 'LAM')(lambda a, b: a + b)
op('L.sumbuiltin', 'LAM', 'LAM')(lambda a, b: sum([a, b], a.triangulation.empty_lamination()))
op('L.mul', 'LAM', 'small')(lambda a, n: (a * n, n * a))
op('L.trace', 'C', 'e')(lambda a, e: a.trace_curve(e, 0, 2 * a.weight()) if a.weight() else None)
op('L.pickle', 'LAM')(lambda a: pickle.loads(pickle.dumps(a)))
op('L.copy', 'LAM')(lambda a: (copy.copy(a), copy.deepcopy(a)))
for n in ('skeleton', 'peek_component', 'num_components', 'sublaminations', 'multiarc', 'multicurve', 'boundary', 'is_filling', 'is_polygonalisation', 'components', 'is_short', 'shorten'):
    simple('IL.' + n, 'IL')
simple('IL.topological_type', 'IL')
op('IL.topological_type_closed', 'IL')(lambda a: a.topological_type(closed=True))
op('IL.topological_type_str', 'IL')(lambda a: str(a.topological_type()))
op('IL.shorten_drop', 'IL')(lambda a: a.shorten(drop=0))
op('IL.shorten_drop2', 'IL')(lambda a: a.shorten(drop=0.5))
op('IL.shorten_short', 'IL')(lambda a: a.shorten()[0])
simple('IL.intersection', 'IL', 'IL')
op('IL.intersection_many', 'IL', 'IL', 'IL')(lambda a, b, c: a.intersection(b, c))
simple('IL.no_common_component', 'IL', 'IL'); simple('IL.fills_with', 'IL', 'IL')
op('IL.component_intersections', 'IL', 'IL')(lambda a, b: [c.intersection(b) for c in a.components()])

# --- curves and arcs
for n in ('boundary', 'is_separating', 'vertex_cycle', 'crush', 'is_filling'):
    simple('MC.' + n, 'MC')
op('MC.vertex_cycles', 'MC')(lambda a: a.vertex_cycles())
op('MC.encode_twist', 'MC', 'pow')(lambda a, n: a.encode_twist(n))
op('MC.twist_apply', 'MC', 'pow', 'IL')(lambda a, n, b: a.encode_twist(power=n)(b))
simple('MC.boundary_union', 'MC', 'IL'); simple('MC.fills_with', 'MC', 'IL')
op('C.parallel', 'C')(lambda c: c.parallel())
op('C.parallel_short', 'C')(lambda c: c.shorten()[0].parallel())
op('C.slope', 'C', 'LAM')(lambda c, a: c.slope(a))
op('C.slope_twisted', 'C', 'C', 'pow')(lambda c, a, n: c.slope(c.encode_twist(n)(a)))
simple('C.relative_twisting', 'C', 'IL', 'IL'); simple('C.crush', 'C')
op('C.crush_apply', 'C', 'IL')(lambda c, a: c.crush()(a))
op('C.crush_lift', 'C', 'C')(lambda c, a: (lambda h: h.inverse()(h(a)))(c.crush()))
for n in ('vertices', 'has_distinct_endpoints', 'boundary', 'is_triangulation', 'is_filling'):
    simple('MA.' + n, 'MA')
op('MA.encode_halftwist', 'MA', 'pow')(lambda a, n: a.encode_halftwist(n))
op('MA.halftwist_apply', 'A', 'pow', 'IL')(lambda a, n, b: a.encode_halftwist(power=n)(b))
op('MA.explore_ball', 'FILL')(lambda a: a.explore_ball(1))
op('MA.all_disjoint_arcs', 'FILL')(lambda a: a.all_disjoint_arcs())
op('MA.all_disjoint_multiarcs', 'FILL')(lambda a: a.all_disjoint_multiarcs())
op('MA.all_disjoint_triangulations', 'FILL')(lambda a: a.all_disjoint_triangulations())
op('A.parallel_short', 'A')(lambda a: a.shorten()[0].parallel())

# --- encodings, mappings, mapping classes
for n in ('inverse', 'promote', 'package'):
    simple('E.' + n, 'ANY')
op('E.call', 'ANY', 'LAM')(lambda h, a: h(a))
op('E.call_hc', 'MAP', 'HC')(lambda h, a: h(a))
op('E.eq', 'ANY', 'ANY')(lambda g, h: g == h)
op('E.hash', 'MAP', 'MAP')(lambda g, h: (hash(g) == hash(h), g == h))
op('E.hash_self', 'ANY')(lambda h: hash(h) == hash(h.promote()))
op('E.mul', 'ANY', 'ANY')(lambda g, h: g * h)
op('E.mulinv', 'MAP')(lambda h: h.inverse() * h)
op('E.slice', 'ANY', 'small', 'small')(lambda h, i, j: (h[:i], h[i:i + j], h[-1], len(h)))
op('E.str', 'ANY')(lambda h: (str(h), repr(h), [str(m) for m in h], len(h)))
op('E.moves', 'ANY')(lambda h: [(m == m.inverse(), m.encode(), (~m).inverse() == m) for m in h])
op('E.moves_hc', 'MAP', 'HC')(lambda h, x: [y for y in _walk(h, x)])
op('E.moves_lam', 'ANY', 'LAM')(lambda h, x: [y for y in _walk(h, x)])
op('E.moves_flip', 'MAP')(lambda h: [m.flip_mapping() for m in h])
op('E.pickle', 'ANY')(lambda h: pickle.loads(pickle.dumps(h)))
op('E.copy', 'ANY')(lambda h: copy.deepcopy(h))
for n in ('self_image', 'intersection_matrix', 'homology_matrix', 'vertex_map', 'simplify', 'flip_mapping', 'combine_isometries'):
    simple('M.' + n, 'MAP')
op('M.pl_action', 'MAP', 'MC')(lambda h, a: h.pl_action(a))
op('M.pl_action_apply', 'MAP', 'MC')(lambda h, a: (lambda f: (f(a.geometric), a.geometric in f, hash(f) == hash(f), f == f))(h.pl_action(a)))
op('M.flip_mapping_apply', 'MAP', 'IL')(lambda h, a: h.flip_mapping()(a))
op('M.simplify_apply', 'MAP', 'IL')(lambda h, a: h.simplify()(a))
op('M.combine_apply', 'MAP', 'IL')(lambda h, a: h.combine_isometries()(a))
for n in ('is_in_torelli', 'order', 'vertex_permutation', 'is_identity', 'is_periodic', 'subgroup', 'is_multitwist', 'extract_twisting_multicurve'):
    simple('H.' + n, 'H')
op('H.type', 'H')(lambda h: h.nielsen_thurston_type())
op('H.is_pa', 'H')(lambda h: h.is_pseudo_anosov())
op('H.is_reducible', 'H')(lambda h: h.is_reducible())
op('H.pil', 'H')(lambda h: h.projective_invariant_lamination())
op('H.atl', 'H')(lambda h: h.positive_asymptotic_translation_length())
op('H.pow', 'H', 'pow')(lambda h, n: h**n)
op('H.powcall', 'H', 'LAM', 'pow')(lambda h, a, n: h(a, power=n))
op('H.midpow', 'H', 'IL', 'midpow')(lambda h, a, n: h(a, power=n))
op('MC.twist_big', 'MC', 'bigpow', 'IL')(lambda c, n, a: (lambda b: (b, b.is_short()) )(c.encode_twist(power=n)(a)))
op('MC.twist_big_short', 'MC', 'bigpow', 'C')(lambda c, n, a: c.encode_twist(power=n)(a).shorten())
op('H.conj', 'H', 'H')(lambda g, h: g.conjugate_by(h))
op('H.is_conj', 'H', 'H')(lambda g, h: g.is_conjugate_to(h))
op('H.is_conj2', 'PERIODIC', 'PERIODIC', 'H')(lambda g, h, f: (g.is_conjugate_to(h), g.is_conjugate_to(g.conjugate_by(f))))
op('H.mulpow', 'H', 'H', 'small')(lambda g, h, n: (g * h)**n == g**n)

for n in ('self_image', 'flip_mapping', 'combine_isometries', 'homology_matrix', 'inverse', 'simplify'):
    simple('MF.' + n, 'MF')
op('MF.call', 'MF', 'LAM', 'HC')(lambda h, a, x: (h(a), h(x), h.inverse()(h(a)), str(h), [m == m for m in h]))
op('MF.pl_action', 'MF', 'MC')(lambda h, a: h.pl_action(a))
op('K.eq', 'K')(lambda h: (h == h, hash(h) == hash(h), h == h * h.source_triangulation.id_encoding()))
op('K.pickle', 'K')(lambda h: pickle.loads(pickle.dumps(h)) == h)
op('K.inv', 'K')(lambda h: [str(m) for m in h.inverse()])
op('M.pl_str', 'MAP', 'C')(lambda h, a: (str(h.pl_action(a)), repr(h.pl_action(a)), h.pl_action(a) != h.pl_action(a)))
op('M.pl_outside', 'MAP', 'C', 'C')(lambda h, a, b: h.pl_action(a)(b.geometric))
op('E.none', 'ANY')(lambda h: (h * None, ~h, h[5:6] if len(h) > 6 else h))
op('E.wrong', 'ANY')(lambda h: h(7))
op('E.wrong2', 'ANY', 'T')(lambda h, T: h(curver.load(0, 3).triangulation.empty_lamination()))
op('H.is_conj_p', 'PERIODIC', 'PERIODIC')(lambda g, h: g.is_conjugate_to(h))
op('T.pachner_some', 'T')(lambda T: T.encode_pachner_1_3([T[0]]))
op('T.pachner_apply', 'T', 'MC')(lambda T, a: (lambda h: (h(a), h.inverse()(h(a)), [str(m) for m in h]))(T.encode_pachner_1_3()))
op('T.sum_bad', 'T', 'IL', 'IL')(lambda T, a, b: T.sum({a: 1, b: -1}))
op('T.dsum_bad', 'T', 'IL', 'IL')(lambda T, a, b: T.disjoint_sum({a: 1, b: -1}))
op('T.sum_wrong', 'T', 'IL')(lambda T, a: (T.sum([1, 2]), T.disjoint_sum([1, 2])))
op('T.from_tuple_bad', 'T')(lambda T: K.Triangulation.from_tuple([(0, 1, 2), (~0, ~1, 5)]))
op('T.isometry_bad', 'T', 'T', 'e')(lambda T, T2, e: T.find_isometry(T2, {0: e}))
op('T.isometry_empty', 'T')(lambda T: T.find_isometry(T, {}))
op('P.bad', 'P')(lambda p: p == K.Permutation([0, 1]))
op('P.bad2', 'P')(lambda p: p * K.Permutation([0, 1]))
op('S.long', 'S')(lambda s: (repr(s * 9), K.SLP(s), 2 * s, s >> 0 if False else len(s * 100)))
op('S.bad', 'S')(lambda s: s[len(s)])
op('util.empty', 'e')(lambda e: K.utilities.maximin([]))
op('util.empty2', 'e')(lambda e: (K.utilities.product([], start=e), K.utilities.half, str(K.utilities.half), 4 * K.utilities.half))
op('util.empty3', 'e')(lambda e: K.utilities.maxes([]))
op('L.trace_all', 'MC')(lambda a: [a.trace_curve(e, i, 40) for e in a.triangulation.positive_edges[:3] for i in range(min(a(e), 2)) if not a.is_peripheral()])
op('G.wrong', 'G')(lambda G: G(3.5))

# --- homology
op('HC.ops', 'HC', 'HC')(lambda a, b: (a + b, a - b, -a, a == b, a.canonical(), a.is_canonical(), hash(a) == hash(b), str(a)))
op('HC.call', 'HC', 'e')(lambda a, e: a(e))
op('HC.sum', 'HC', 'HC')(lambda a, b: sum([a, b]))

# --- finite subgroups
for n in ('quotient_orbifold_signature', 'invariant_polygonalisation'):
    simple('FS.' + n, 'FS')
op('FS.misc', 'FS')(lambda f: (str(f), len(f), sorted(f), f == f, hash(f) == hash(f), f.generators))
op('FS.getitem', 'FS', 'small')(lambda f, n: f[n % len(f)])
simple('FS.is_conjugate_to', 'FS', 'FS')
op('FS.from_generators', 'PERIODIC')(lambda h: K.FiniteSubgroup.from_generators({'a': h}))
op('FS.from_generators2', 'PERIODIC', 'pow')(lambda h, n: K.FiniteSubgroup.from_generators({'a': h, 'b': h**n}))
op('FS.orbifold_of', 'PERIODIC')(lambda h: h.subgroup().quotient_orbifold_signature())

# --- groups
op('G.word', 'G', 'word')(lambda G, w: G(w))
op('G.list', 'G', 'wordlist')(lambda G, w: G(w))
op('G.badword', 'G', 'badword')(lambda G, w: G(w))
op('G.misc', 'G')(lambda G: (str(G), repr(G), sorted(G), G == G, G[sorted(G)[0]], G.zeta))
op('G.cayley', 'G', 'small')(lambda G, n: G.cayley(sorted(G)[:3], min(n, 2)))
op('G.lamination', 'G', 'weights')(lambda G, w: G.lamination(w))
op('G.random', 'G', 'seed')(lambda G, s: (random.seed(s), G.random_word(5), G.random_word(4, positive=False), G.random_word(4, negative=False), random.random())[1:])
op('G.random_letters', 'G', 'seed')(lambda G, s: (random.seed(s), G.random_word(5, letters=sorted(G)[:2]), G(3), random.random())[1:])
op('G.random_none', 'G')(lambda G: G.random_word(3, positive=False, negative=False))
op('G.build', 'C', 'C')(lambda a, b: K.MappingClassGroup(curves={'a': a, 'b': b}))
op('G.build_arcs', 'C', 'DA')(lambda a, b: K.MappingClassGroup(curves={'a': a}, arcs={'s': b}))
op('G.build_pos', 'H', 'C', 'posdict')(lambda h, c, d: K.MappingClassGroup(d, curves={'c': c}))
op('load', 'gn')(lambda gn: curver.load(*gn))

# --- curve graph
for n in ('distance', 'geodesic', 'tight_geodesic', 'quasiconvex', 'all_tight_geodesic_multicurves'):
    op('CG.' + n, 'NPC', 'NPC')(lambda a, b, _n=n: getattr(K.CurveGraph(a.triangulation), _n)(a, b))
    op('CG2.' + n, 'CG', 'NPC', 'NPC')(lambda G, a, b, _n=n: getattr(G, _n)(a, b))
for n in ('distance', 'geodesic', 'tight_geodesic', 'quasiconvex'):
    op('CG3.' + n, 'D0', 'D1')(lambda a, b, _n=n: getattr(K.CurveGraph(a.triangulation), _n)(a, b))
op('H.pil_pa', 'PA')(lambda h: h.projective_invariant_lamination())
op('H.pil_pa2', 'PA', 'C')(lambda h, c: h.projective_invariant_lamination(curves=(c,)))
op('CG.tight_paths', 'NPC', 'NPC', 'small')(lambda a, b, n: K.CurveGraph(a.triangulation).tight_paths(a, b, 2 + n % 2))

# --- containers the caller owns
op('T.sum_of', 'T', 'lamdict')(lambda T, d: T.sum(d))
op('T.sum_list', 'T', 'lamlist')(lambda T, d: T.sum(d))
op('T.dsum_of', 'T', 'lamdict')(lambda T, d: T.disjoint_sum(d))
op('T.dsum_list', 'T', 'lamlist')(lambda T, d: T.disjoint_sum(d))
op('T.from_triples', 'triples')(lambda t: K.create_triangulation(t))
op('T.lamination_list', 'T', 'weights')(lambda T, w: T(w))
op('HC.of', 'T', 'intlist')(lambda T, w: K.HomologyClass(T, w))
op('T.pachner_list', 'T', 'small')(lambda T, n: T.encode_pachner_1_3([T[i] for i in range(n)]))
op('T.encode_movelist', 'T', 'moves')(lambda T, ms: T.encode(ms))
op('E.of_moves', 'moves')(lambda ms: (K.Encoding(ms), K.Encoding(ms).promote()))
op('Isometry.of', 'T', 'T', 'isomap')(lambda T, T2, m: K.Isometry(T, T2, m).encode())
op('MultiFlip.of', 'T', 'multiflip')(lambda T, es: K.MultiEdgeFlip(T, T.encode_multiflip(es).target_triangulation, es).encode())
op('G.of', 'named', 'named', 'named')(lambda d, c, a: K.MappingClassGroup(d, c, a))
op('G.of2', 'named', 'named')(lambda d, c: (lambda G: (G, K.MappingClassGroup(d, curves=c) == G, sorted(d), G(2) if False else len(G.mapping_classes)))(K.MappingClassGroup(d, curves=c)))
op('G.word_in', 'named', 'named', 'seed')(lambda d, c, s: (random.seed(s), (lambda G: G(G.random_word(4)))(K.MappingClassGroup(d, curves=c)))[1:])
op('FS.of', 'named')(lambda d: K.FiniteSubgroup.from_generators(d))
op('H.pil_of', 'H', 'lamtuple')(lambda h, cs: h.projective_invariant_lamination(curves=cs))
op('H.pil_list', 'H', 'lamlist')(lambda h, cs: h.projective_invariant_lamination(curves=cs))
op('IL.component', 'IL', 'small')(lambda a, n: (lambda cs: cs[n % len(cs)])(sorted(a.components(), key=lambda c: list(c))))
op('IL.meets_all', 'IL', 'lamlist')(lambda a, bs: a.intersection(*bs))
op('G.cayley_of', 'G', 'letters', 'small')(lambda G, ls, n: G.cayley(ls, min(n, 2)))
op('G.random_of', 'G', 'seed', 'letters')(lambda G, s, ls: (random.seed(s), G.random_word(5, letters=ls), random.random())[1:])
op('CG.quasi_of', 'lamlist')(lambda cs: K.CurveGraph(cs[0].triangulation).quasiconvex(cs[0], cs[-1]))
op('P.of', 'intlist')(lambda p: K.Permutation([p.index(x) for x in sorted(p)]))
op('S.of', 'letters')(lambda x: (K.SLP(x), K.SLP(x) * 3, K.SLP(x).reverse()))
op('S.sum_of', 'S', 'letters')(lambda s, x: K.SLP.sum([s, K.SLP(x), s]))
op('util.of', 'intlist', 'e')(lambda xs, e: (K.utilities.maximin(xs, [e, 3]), K.utilities.maxes(xs, key=lambda x: x % 3), K.utilities.product(xs), K.utilities.maximum(xs, key=abs), K.utilities.cyclic_slice(xs, xs[0], xs[-1])))
op('E.len_hash', 'MAP')(lambda h: (len(h), h == h, hash(h) == hash(h)))

# --- small structures
op('P.misc', 'P')(lambda p: (p.inverse(), ~p, p.order(), p.index(), p.matrix(), p.is_even(), p.cycle_lengths(), str(p), len(p), list(p), p == p, hash(p) == hash(p), p(0)))
op('P.mul', 'P', 'P')(lambda p, q: p * q)
op('P.pow', 'P', 'pow')(lambda p, n: p**n)
op('P.conj', 'P', 'P')(lambda p, q: p.is_conjugate_to(q))
op('P.from_index', 'P')(lambda p: K.Permutation.from_index(len(p), p.index()))
op('P.from_dict', 'P')(lambda p: K.Permutation.from_dict(dict(enumerate(p))))
op('U.misc', 'U')(lambda u: (list(u), len(u), str(u), [u(0) == u(i) for i in range(6)]))
op('S.misc', 'S')(lambda s: (list(s), len(s), str(s), repr(s), s.size(), s[0], s[-1], s.reverse(), list(reversed(s)), s + s, s * 3, s[0] in s, s('a') if False else None))
op('S.map', 'S')(lambda s: (s.map(lambda x: (x, x)), K.SLP.sum([s, s, s * 2])))
op('S.idx', 'S', 'small')(lambda s, n: (s[n % len(s)], (s * 5)[n], (s * 4)[-n - 1]))
op('util', 'T', 'e')(lambda T, e: (K.utilities.b64encode(abs(e) * 977 + 5), K.utilities.b64decode(K.utilities.b64encode(12345)), K.utilities.cyclic_slice(T.vertex_lookup[e], K.Edge(e)),
    K.utilities.maximin([e, 3], [1, 9]), K.utilities.maxes(range(e % 7 + 1), key=lambda x: x % 3), K.utilities.alphanum_key('a_10'), K.utilities.product([2, 3, e]), K.utilities.maximum(range(9), key=lambda x: x, upper_bound=4), K.utilities.half(4)))
op('util_half_odd', 'e')(lambda e: (K.utilities.half(2 * e + 1)))

def _walk(h, x):
    for m in reversed(h.sequence if hasattr(h, 'sequence') else list(h)):
        x = m(x)
        yield x

# --- argument sampling
BAD_WORDS = ['zz', '(', 'a^', ')', 'a_0^b', 'q_17', '((', 'a)b(', '.', '^2']

def needs(inst):
    """ The names of all objects an instance mentions, at any depth. """
    out, stack = set(), list(inst[1:])
    while stack:
        a = stack.pop()
        if isinstance(a, str) and a.startswith('@'): out.add(a[1:])
        elif isinstance(a, (list, tuple)): stack.extend(a)
    return sorted(out)

def derived(a, objs):
    """ An argument ['!', op, arg, ...] is what that query returns; within one history it is asked once. """
    memo = objs.get('!memo')
    key = repr(a)
    if memo is not None and key in memo: return memo[key]
    out = call(a[1:], objs)
    if memo is not None: memo[key] = out
    return out

def decode_arg(a, kind, objs):
    if isinstance(a, str) and a.startswith('@'): return objs[a[1:]]
    if isinstance(a, list) and a and a[0] == '!': return derived(a, objs)
    if kind in ('lamlist', 'maplist'): return [decode_arg(x, None, objs) for x in a]
    if kind == 'lamtuple': return tuple(decode_arg(x, None, objs) for x in a)
    if kind == 'lamset': return set(decode_arg(x, None, objs) for x in a)
    if kind in ('lamdict', 'named'): return dict((decode_arg(x, None, objs), decode_arg(y, None, objs)) for x, y in a)
    if kind == 'isomap': return dict((int(k), v) for k, v in a)
    if kind == 'triples': return [list(x) for x in a]
    if kind == 'moves': return list(objs[a[0][1:]])
    if kind == 'intlist': return list(a)
    if kind in ('weights', 'weightdict'):
        ws = [Fraction(w) if isinstance(w, str) else w for w in a]
        return dict(enumerate(ws)) if kind == 'weightdict' else ws
    if kind == 'multiflip': return set(a) if len(a) != 1 else list(a)
    if kind == 'relabeldict': return dict((int(k), v) for k, v in a)
    if kind == 'labelmap': return dict((int(k), v) for k, v in a)
    if kind == 'posdict': return {}
    if kind == 'seq':
        from world import decode_item
        return [decode_item(x) for x in a]
    if kind in ('relabel', 'cutseq', 'wordlist', 'letters', 'gn'): return list(a)
    return a

def decode_args(inst, objs):
    kinds, fn = OPS[inst[0]]
    args = [decode_arg(a, k, objs) for a, k in zip(inst[1:], kinds)]
    for i, k in enumerate(kinds):
        if k == 'posdict': args[i]['h'] = args[0]
    return fn, args

def call(inst, objs):
    """ Perform the operation (may raise). """
    fn, args = decode_args(inst, objs)
    return fn(*args)
