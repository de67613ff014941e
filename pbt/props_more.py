"""C26 C27 C28: several trees at once, repeatability, order of attributes."""
import copy
import random

from hypothesis import strategies as st

from concept_formation import preprocessor as P
from concept_formation import evaluation as EV
from concept_formation import structure_mapper as SM
from concept_formation.cobweb import CobwebTree
from concept_formation.cobweb3 import Cobweb3Tree
from concept_formation.trestle import TrestleTree
from concept_formation.datasets import load_quadruped
from concept_formation.structure_mapper import StructureMapper
from concept_formation.utils import weighted_choice, most_likely_choice

from pbt import facts as F, gens, model as M
from pbt.core import check, sub
from pbt.util import (make_tree, make_shadow, same_instance, tree_nodes,
                      typed, check_links, tolerance)
from pbt.props_flat import check_conserved, visible_shape, follow
from pbt.props_query import snap, greedy_leaves
from pbt.props_pre import (counter, call, list_case, unique_vars, list_rule,
                           any_list)
from pbt.props_struct import (c12_case, fit_structured, added, table,
                              comparable)
from pbt.props_tools import bare

# ---------------------------------------------------------------- C26


@st.composite
def member(draw):
    how = draw(st.sampled_from(['flat', 'flat', 'flat', 'trestle', 'dummy']))
    if how == 'flat':
        return draw(gens.flat_case(lo=1, hi=8, queries=2))
    case = draw(c12_case(1, 4, plain_vars=False))
    if how == 'dummy':
        case['kind'] = 'dummy'
    return case


STEPS = ['fit'] * 6 + ['query', 'query', 'clear']


@st.composite
def several(draw):
    trees = draw(st.lists(member(), min_size=2, max_size=3))
    if draw(st.booleans()):
        # the same instances in another tree, or in one of the same kind
        trees[-1] = dict(trees[0], seed=draw(gens.seeds))
        if trees[0]['kind'] == 'cobweb3' and draw(st.booleans()):
            trees[-1]['scaling'] = draw(st.sampled_from(gens.SCALINGS))
            trees[-1]['inner'] = draw(st.booleans())
    n = sum(len(t['insts']) for t in trees)
    steps = draw(st.lists(st.tuples(st.integers(0, len(trees) - 1),
                                    st.sampled_from(STEPS)),
                          min_size=n // 2, max_size=n + 6))
    return dict(trees=trees, steps=steps, seed=draw(gens.seeds))


def flat_facts(flat):
    return {F.flat_key(a): v for a, v in flat.items()}


@sub('C26', 'side-by-side', several(), 1000, rule='two trees with children '
     'were fitted alternately')
def c26_side_by_side(case):
    random.seed(case['seed'])
    specs = case['trees']
    trees = [make_tree(t) for t in specs]

    def shadow(k):
        if specs[k]['kind'] == 'trestle':
            return M.Shadow(True, specs[k]['scaling'], specs[k]['inner'])
        return make_shadow(specs[k]) if specs[k]['kind'] != 'dummy' else None
    shadows = [shadow(k) for k in range(len(trees))]
    seen = [[] for _ in trees]
    undecided = set()
    at = [0] * len(trees)
    last, switches = None, 0
    for k, op in case['steps']:
        tree, spec, sh = trees[k], specs[k], shadows[k]
        others = [(j, snap(t)) for j, t in enumerate(trees) if j != k]
        inst = spec['insts'][at[k] % len(spec['insts'])]
        if op == 'clear':
            tree.clear()
            shadows[k] = shadow(k)
            seen[k] = []
            undecided.discard(k)
        elif op == 'fit':
            at[k] += 1
            if last is not None and last != k:
                switches += 1
            last = k
            if spec['kind'] in ('cobweb', 'cobweb3'):
                tree.ifit(dict(inst))
                seen[k].append(inst)
                if k not in undecided:
                    try:
                        sh.fit(tree.root, inst)
                    except M.Undecided:
                        undecided.add(k)
            elif spec['kind'] == 'trestle':
                if k not in undecided:
                    try:
                        flat, _ = fit_structured(tree, sh, inst, seen[k])
                    except M.Undecided:
                        flat = None
                    if flat is None:
                        undecided.add(k)
                else:
                    tree.ifit(copy.deepcopy(inst))
            else:
                before = table(tree.root)
                tree.ifit(copy.deepcopy(inst))
                got = flat_facts(added(before, table(tree.root)))
                check(bare({f: comparable(v) for f, v in got.items()}) ==
                      bare({f: comparable(v)
                            for f, v in F.facts(inst).items()}),
                      'the baseline counted', got, 'for', inst)
        else:
            q = (spec.get('queries') or [inst])[0]
            got = tree.categorize(copy.deepcopy(q))
            check(got.tree is tree and any(got is n for n in
                                           tree_nodes(tree)),
                  'categorized into another tree')
            if spec['kind'] in ('cobweb', 'cobweb3') and tree.root.children \
                    and k not in undecided:
                legal = greedy_leaves(tree, q, spec, sh.scales)
                check(any(got is n for n in legal), 'categorized', q, 'to',
                      M.node_stats(got), 'but best-child descent leads to',
                      [M.node_stats(n) for n in legal])
            tree.infer_missing(copy.deepcopy(q))
        for j, s in others:
            check(snap(trees[j]) == s, op, 'on one tree changed another')
    for k, tree in enumerate(trees):
        if k not in undecided and specs[k]['kind'] in ('cobweb', 'cobweb3'):
            check_conserved(tree, M.stats_of(
                seen[k], specs[k]['kind'] == 'cobweb3'),
                tolerance(specs[k]))
    return switches > 1 and sum(bool(t.root.children) for t in trees) > 1


def stage(kind, base, n):
    if kind == 'name':
        return P.NameStandardizer(counter('?n%d_' % n))
    if kind == 'default':
        return P.NameStandardizer()
    if kind == 'flat':
        return P.Pipeline(P.NameStandardizer(), P.Flattener(),
                          P.SubComponentProcessor())
    if kind == 'lists':
        return P.Pipeline(P.ListProcessor(), P.NameStandardizer())
    return P.Pipeline(P.NameStandardizer(counter('?n%d_' % n)),
                      P.Flattener(), P.SubComponentProcessor(),
                      StructureMapper(base))


@st.composite
def stages_case(draw):
    items = draw(st.lists(st.tuples(
        st.sampled_from(['name', 'default', 'flat', 'map', 'map', 'lists']),
        st.integers(0, 1)), min_size=2, max_size=5))
    out = []
    for kind, b in items:
        if kind == 'lists':
            inst = unique_vars(draw(list_case()))
        else:
            inst = draw(gens.structured(depth=2, plain_vars=False))
        out.append((kind, b, inst))
    return dict(seed=draw(gens.seeds), items=out,
                bases=[draw(gens.history(1, 2, plain_vars=False))
                       for _ in range(2)],
                back=draw(st.permutations(range(len(out)))))


@sub('C26', 'preprocessors', stages_case(), 500, rule='two instances with '
     'objects in flight at once')
def c26_preprocessors(case):
    """Each object undoes what it did itself, whatever others did since."""
    random.seed(case['seed'])
    bases = []
    for h in case['bases']:
        t = TrestleTree()
        for i in h:
            t.ifit(copy.deepcopy(i))
        bases.append(t)
    keep = [snap(t) for t in bases]
    pps = [stage(kind, bases[b].root, n)
           for n, (kind, b, _) in enumerate(case['items'])]
    mids = [call(pp.transform, inst, 'transform')
            for pp, (_, _, inst) in zip(pps, case['items'])]
    for k in case['back']:
        back = call(pps[k].undo_transform, mids[k], 'undo')
        want = case['items'][k][2]
        check(same_instance(back, want), 'undoing', mids[k], 'gives', back,
              'and not', want, 'with other preprocessors in use')
    check(keep == [snap(t) for t in bases], 'preprocessing changed a tree')
    return sum(bool(gens.variables(i)) for _, _, i in case['items']) > 1


# ---------------------------------------------------------------- C27

def content(node):
    """Hierarchy without names of concepts."""
    table = {}
    for a, t in node.av_counts.items():
        table[a] = {v: ((c.num, c.mean, c.meanSq) if hasattr(c, 'meanSq')
                        else c) for v, c in t.items()}
    return (node.count, table, [content(c) for c in node.children])


def place(node):
    path = []
    while node.parent is not None:
        path.append([c is node for c in node.parent.children].index(True))
        node = node.parent
    return path[::-1]


@st.composite
def repeat_case(draw):
    if draw(st.integers(0, 3)):
        case = draw(gens.flat_case(lo=2, hi=14, queries=3))
    else:
        case = draw(c12_case(2, 5, plain_vars=False))
        case['queries'] = draw(st.lists(gens.structured(
            depth=2, plain_vars=False), min_size=1, max_size=2))
    case['attr'] = draw(st.sampled_from(['a', 'b', 'color']))
    case['noise'] = draw(st.integers(0, 5))
    case['batch'] = draw(st.booleans())
    return case


def session(case):
    """Everything a user can see of a seeded run."""
    random.seed(case['seed'])
    out = []
    tree = make_tree(case)
    flat = case['kind'] in ('cobweb', 'cobweb3')
    if case['batch']:
        tree.fit(copy.deepcopy(case['insts']), iterations=2)
        out.append(content(tree.root))
    else:
        for i in case['insts']:
            leaf = tree.ifit(copy.deepcopy(i))
            out.append((place(leaf), content(tree.root)))
    for q in case['queries']:
        out.append(place(tree.categorize(copy.deepcopy(q))))
        for fn in ('most likely', 'sampled'):
            for none in (True, False):
                got = tree.infer_missing(copy.deepcopy(q), fn, none)
                out.append(typed(got))
        for n in tree_nodes(tree)[:4]:
            for a in sorted(n.av_counts, key=repr):
                out.append((n.predict(a), n.predict(a, 'sampled'),
                            n.predict(a, 'sampled', False)))
            if flat:
                out.append((n.expected_correct_guesses(),
                            n.category_utility()))
    if flat and all(not M.is_number(i.get(case['attr'])) and
                    case['attr'] in i for i in case['insts']):
        insts = copy.deepcopy(case['insts'])
        out.append(EV.incremental_evaluation(tree, insts, case['attr'],
                                             len(insts), 2))
        out.append(content(tree.root))
    pairs = [('x', 1), ('y', 2), ('z', 0.5), ('w', 2)]
    out.append([weighted_choice(pairs) for _ in range(20)])
    out.append([most_likely_choice(pairs) for _ in range(20)])
    out.append(typed(load_quadruped(2)))
    return out


@sub('C27', 'sessions', repeat_case(), 900, rule='a hierarchy of two levels')
def c27_sessions(case):
    first = session(case)
    # whatever else the program does in between
    tree = CobwebTree() if case['noise'] % 2 else Cobweb3Tree()
    for k in range(case['noise']):
        tree.ifit({'a': 'n%d' % (k % 3), 'n': 'm'})
        P.NameStandardizer().transform({'?n': {'a': 'x'}})
    random.random()
    second = session(case)
    check(len(first) == len(second), 'runs with the same seed differ')
    for k, (a, b) in enumerate(zip(first, second)):
        check(a == b, 'result', k, 'of runs with the same seed differs:', a,
              'and', b)
    return any(isinstance(x, tuple) and len(x) == 2 and x[0] for x in first) \
        or case['batch']


# ---------------------------------------------------------------- C28

@st.composite
def order_case(draw):
    return draw(gens.flat_case(lo=2, hi=12, max_attrs=5, queries=2))


@sub('C28', 'learning', order_case(), 900, rule='an unambiguous history with '
     'two levels')
def c28_learning(case):
    """Any order of the attributes leads to the same hierarchies."""
    rng = random.Random(case['seed'])
    other = dict(case, insts=[gens.reorder(i, rng) for i in case['insts']])
    t1, s1, _ = follow(case)
    t2, s2, _ = follow(other)
    if len(s1.insts) < len(case['insts']) or s1.ambiguous or s2.ambiguous:
        return False
    tol = tolerance(case)
    check(visible_shape(t1.root, tol) == visible_shape(t2.root, tol),
          'the order of attributes changes the hierarchy')
    for q in case['queries']:
        r = gens.reorder(q, rng)
        legal = greedy_leaves(t1, q, case, s1.scales)
        got = t1.categorize(r)
        check(any(got is n for n in legal), 'categorized', r, 'to',
              M.node_stats(got))
        if len(legal) == 1:
            check(got is t1.categorize(dict(q)), 'the order of attributes '
                  'decides where', q, 'is sorted')
    return bool(t1.root.children)


@sub('C28', 'structured', c12_case(2, 5), 500, rule='two instances with '
     'objects')
def c28_structured(case):
    rng = random.Random(case['seed'])
    random.seed(case['seed'])
    tree = TrestleTree(case['scaling'], case['inner'])
    sh = M.Shadow(True, case['scaling'], case['inner'])
    seen = []
    for inst in case['insts']:
        try:
            if fit_structured(tree, sh, gens.reorder(inst, rng), seen)[0] is None:
                return False
        except M.Undecided:
            return False
        check_links(tree)
    return sum(bool(gens.variables(i)) for i in case['insts']) > 1


SIMPLE = [P.Flattener, P.Tuplizer, P.ObjectVariablizer, P.NumericToNominal,
          P.Sanitizer, lambda: P.NominalToNumeric('zero'),
          lambda: P.ObjectVariablizer('box', 'core'),
          lambda: P.Pipeline(P.Flattener(), P.SubComponentProcessor())]


@st.composite
def transform_case(draw):
    return dict(inst=draw(gens.structured(depth=3)), seed=draw(gens.seeds))


@sub('C28', 'transforms', transform_case(), 900, rule='three attributes, two '
     'of them objects or relations')
def c28_transforms(case):
    rng = random.Random(case['seed'])
    inst = case['inst']
    for make in SIMPLE:
        pp, pq = make(), make()
        other = gens.reorder(inst, rng)
        try:
            one = pp.transform(copy.deepcopy(inst))
        except Exception as e:
            one = type(e)
        try:
            two = pq.transform(other)
        except Exception as e:
            two = type(e)
        check(one is two or same_instance(one, two), pp, 'of', inst, 'gives',
              one, 'but of', other, two)
    for pipe in ('name', 'flat'):
        def make():
            ns = P.NameStandardizer(counter('?n'))
            return ns if pipe == 'name' else P.Pipeline(
                ns, P.Flattener(), P.SubComponentProcessor())
        other = gens.reorder(inst, rng)
        pp = make()
        mid = pp.transform(copy.deepcopy(other))
        flat = mid if pipe == 'flat' else P.Pipeline(
            P.Flattener(), P.SubComponentProcessor()).transform(mid)
        try:
            iso = F.isomorphism(F.facts(inst), flat_facts(flat), typed)
        except F.Budget:
            return False
        check(iso is not None, 'facts of', other, 'become', mid)
        mixed = gens.reorder(mid, rng)
        back = pp.undo_transform(mixed)
        check(same_instance(back, inst), 'undoing', mixed, 'gives', back,
              'and not', inst)
    return len(inst) > 2 and sum(isinstance(v, dict) or isinstance(k, tuple)
                                 for k, v in inst.items()) > 1


@sub('C28', 'lists', st.tuples(list_case(), gens.seeds), 900,
     rule='at least two lists, one of three or more elements')
def c28_lists(arg):
    """Relations describing lists may come in any order."""
    inst, seed = arg
    rng = random.Random(seed)
    inst = unique_vars(inst)
    for parts in ((), (P.NameStandardizer(counter('?n')),),
                  (P.NameStandardizer(counter('?n')), P.Flattener()),
                  (P.NameStandardizer(counter('?n')), P.Flattener(),
                   P.SubComponentProcessor())):
        pipe = P.Pipeline(P.ListProcessor(), *parts)
        mid = pipe.transform(gens.reorder(inst, rng))
        check(not any_list(mid), 'list left', mid)
        mixed = gens.reorder(mid, rng)
        back = pipe.undo_transform(mixed)
        check(same_instance(back, inst), 'undoing', mixed, 'gives', back,
              'and not', inst)
    return list_rule(inst)


# ---------------------------------------------------------------- C29

WORDS = ['a', 'b', 'on', '?x', '?y', '?z', '?c1', '?c2', '_h', '_', 'a b',
         '?', 'x?']


@st.composite
def attribute(draw, depth=3):
    if depth < 3 and draw(st.integers(0, 2)) or not draw(st.integers(0, 9)):
        return draw(st.sampled_from(WORDS + ['?x', '?y', '?z', '?x']))
    return tuple(draw(attribute(depth - 1)) if depth else
                 draw(st.sampled_from(WORDS))
                 for _ in range(draw(st.sampled_from(
                     [1, 2, 2, 3, 3, 4, 5, 9] if depth < 3 else
                     [1, 2, 3, 4, 5, 7, 9, 12]))))


@st.composite
def names_in(draw):
    attr = draw(attribute())
    vs = ['?x', '?y', '?z', '?']
    m = dict(zip(draw(st.lists(st.sampled_from(vs), max_size=4,
                               unique=True)),
                 draw(st.permutations(['?c1', '?c2', '?d', '?e']))))
    for v in m:
        if draw(st.integers(0, 3)) == 0:
            # an object which keeps its name
            m[v] = v
    other = draw(st.sampled_from(['bound', 'partly', 'changed', 'any']))
    if other == 'any':
        c = draw(attribute())
    else:
        full = dict(m)
        if other != 'bound':
            full = {v: w for v, w in m.items()
                    if v != w or draw(st.booleans())}
            for v, w in zip(vs, ['?c1', '?c2', '?f', '?g']):
                full.setdefault(v, w)
        c = gens.rename_key(attr, full)
        if other == 'changed' and isinstance(c, tuple):
            k = draw(st.integers(0, len(c) - 1))
            c = c[:k] + (draw(st.sampled_from(WORDS)),) + c[k + 1:]
    return dict(attr=attr, other=c, mapping=m,
                name=draw(st.sampled_from(WORDS)))


def leaves_of(x):
    if isinstance(x, tuple):
        return [y for e in x for y in leaves_of(e)]
    return [x]


def partly(i, c, m):
    if isinstance(i, tuple) or isinstance(c, tuple):
        return isinstance(i, tuple) and isinstance(c, tuple) and \
            len(i) == len(c) and all(partly(x, y, m) for x, y in zip(i, c))
    if F.is_var(i):
        return m[i] == c if i in m else F.is_var(c)
    return i == c


@sub('C29', 'attributes', names_in(), 3000, rule='a nested attribute with a '
     'mapped name')
def c29_attributes(case):
    attr, other, m = case['attr'], case['other'], case['mapping']
    keep = dict(m)
    want = gens.rename_key(attr, m)
    got = SM.bind_flat_attr(attr, m)
    check(got == want, 'binding', attr, 'by', m, 'gives', got)
    back = SM.bind_flat_attr(got, {w: v for v, w in m.items()})
    if not {w for v, w in m.items() if v != w} & set(leaves_of(attr)):
        check(back == attr, 'binding back', got, 'gives', back)
    if isinstance(attr, tuple):
        check(P.rename_relation(attr, m) == want, 'renaming', attr, 'by', m,
              'gives', P.rename_relation(attr, m))
    inst = {attr: 1, 'plain': 2, ('q', '?w', 'on'): '?x'}
    ren = SM.rename_flat(inst, m)
    check(ren == {want: 1, 'plain': 2, ('q', '?w', 'on'): '?x'},
          'renaming', inst, 'by', m, 'gives', ren)
    for name in (case['name'], '?x', '?y'):
        check(SM.contains_component(name, attr) is
              (name in leaves_of(attr)), 'name', name, 'in', attr)
    vs = {v for v in leaves_of(attr) if F.is_var(v)}
    check(P.get_attribute_components(attr) == vs, 'variables of', attr,
          P.get_attribute_components(attr))
    names = SM.get_component_names(inst)
    check(set(names) == vs | {'?w'}, 'objects of', inst, names)
    every = SM.get_component_names([attr, 'plain'], False)
    check({n for n in every if not isinstance(n, tuple)} ==
          {v for v in leaves_of(attr) if v[0] != '_'} | {'plain'},
          'names of', attr, every)
    for i, c in ((attr, other), (attr, attr), (other, attr), (attr, want)):
        check(bool(SM.is_partial_match(i, c, m)) is partly(i, c, m), i,
              'matches', c, 'under', m, 'is reported as',
              SM.is_partial_match(i, c, m))
    check(m == keep, 'mapping changed')
    return want != attr and isinstance(attr, tuple) and any(
        isinstance(e, tuple) for e in attr)


@st.composite
def swapped(draw):
    attrs = draw(st.lists(attribute(), min_size=1, max_size=14, unique=True))
    vs = ['?x', '?y', '?z', '?']
    names = draw(st.lists(st.sampled_from(vs), max_size=4, unique=True))
    to = draw(st.permutations(names + ['?c1']))
    return dict(attrs=attrs + names[:draw(st.integers(0, 4))],
                mapping=dict(zip(names, to)))


@sub('C29', 'exchanges', swapped(), 1000, rule='eight attributes and two '
     'objects that exchange names')
def c29_exchanges(case):
    """Names are replaced all at once, also when they are exchanged."""
    m = case['mapping']
    inst = {a: k for k, a in enumerate(case['attrs'])}
    used = {v for a in inst for v in leaves_of(a)}
    if (set(m.values()) - set(m)) & used:
        return False
    want = {gens.rename_key(a, m): k for a, k in inst.items()}
    keep = dict(inst)
    got = SM.rename_flat(inst, m)
    check(got == want, 'renaming', inst, 'by', m, 'gives', got)
    check(inst == keep, 'renaming changed', keep)
    back = SM.rename_flat(got, {w: v for v, w in m.items()})
    check(back == inst, 'renaming back', got, 'gives', back)
    for a in inst:
        check(SM.bind_flat_attr(a, m) == gens.rename_key(a, m), 'binding', a)
    return len(inst) > 7 and len(set(m) & set(m.values())) > 1
