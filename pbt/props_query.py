"""C05 C06 C07 C08 C09: queries on flat trees and numeric summaries."""
import copy
import math
import random
from fractions import Fraction

from hypothesis import strategies as st

import concept_formation.utils as U
from concept_formation import cluster as CL
from concept_formation import evaluation as EV
from concept_formation.cobweb import CobwebNode, CobwebTree
from concept_formation.cobweb3 import Cobweb3Node, Cobweb3Tree
from concept_formation.continuous_value import ContinuousValue

from pbt import gens, model as M
from pbt.core import check, close, sub
from pbt.util import (make_tree, fitted, history_scales, numeric, tree_nodes,
                      depth_of, same_instance, typed, planted)
from pbt.props_flat import path_scores, strip, follow

# names that mean the same in flat and structured trees
CONST_NAMES = ['a', 'b', 'c', 'size', 'xy']


@st.composite
def query_case(draw, lo=1, hi=14, queries=3, kinds=('cobweb', 'cobweb3',
                                                    'trestle'), max_attrs=4):
    kind = draw(st.sampled_from(list(kinds)))
    if hi > 9 and kind in ('cobweb', 'cobweb3') and \
            draw(st.integers(0, 15)) == 0:
        return draw(gens.hand_case((kind,)))
    base = 'cobweb' if kind == 'cobweb' else 'cobweb3'
    schema = draw(gens.flat_schema(
        base, max_attrs=max_attrs,
        names=CONST_NAMES if kind in ('trestle', 'dummy') else None,
        hidden=False))
    if draw(st.booleans()):
        hid = gens.HIDDEN[:4] if kind in ('trestle', 'dummy') else gens.HIDDEN
        for a in draw(st.lists(st.sampled_from(hid), min_size=1, max_size=2,
                               unique=True)):
            if base == 'cobweb3' and draw(st.booleans()):
                vals = draw(gens.num_domain(3))
            else:
                vals = draw(st.sampled_from(gens.HIDVALS))
            schema.append((a, vals, True))
    case = dict(kind=kind, seed=draw(gens.seeds))
    if kind != 'cobweb':
        case['scaling'] = draw(st.sampled_from(gens.SCALINGS))
        case['inner'] = draw(st.booleans())
    case['insts'] = draw(gens.flat_instances(schema, lo, hi))
    case['queries'] = draw(gens.flat_queries(schema, base, queries))
    # partial versions of fitted instances
    for k in draw(st.lists(st.integers(0, 50), max_size=2)):
        if not case['insts']:
            break
        i = case['insts'][k % len(case['insts'])]
        drop = sorted(i, key=repr)[k % (len(i) + 1):][:1]
        case['queries'].append({a: v for a, v in i.items() if a not in drop})
    return case


# ---------------------------------------------------------------- C05

def insert_gains(parent, q, scales, num):
    out = []
    for c in parent.children:
        s = strip(M.node_stats(c))
        up = s.plus(q, num)
        out.append(up.count * M.ecg(up, scales) - s.count * M.ecg(s, scales))
    return out


def greedy_leaves(tree, query, case, scales=None):
    """Every leaf a best-child descent can end in (ties followed both ways)."""
    scales = scales or history_scales(case)
    num = numeric(case)
    q = {a: v for a, v in query.items() if M.visible(a)}
    out, stack, tied = [], [tree.root], False
    while stack:
        n = stack.pop()
        if not n.children:
            out.append(n)
            continue
        g = insert_gains(n, q, scales, num)
        top = max(g)
        nxt = [c for c, x in zip(n.children, g)
               if x >= top - 1e-8 * max(1, n.count)]
        stack.extend(nxt)
    return out


@sub('C05', 'greedy', query_case(lo=1, hi=18, queries=4), 2200,
     rule='the tree has at least depth 3 and a query has a unique best path')
def c05_greedy(case):
    tree, _ = fitted(case)
    inside = {id(n) for n in tree_nodes(tree)}
    rich = False
    for q in case['queries'] + case['insts'][:2]:
        legal = greedy_leaves(tree, q, case)
        got = tree.categorize(copy.deepcopy(q))
        check(id(got) in inside, 'categorized to a concept not in the tree')
        check(not got.children, 'categorized to a concept that is no leaf')
        check(any(got is n for n in legal), 'categorized', q, 'to',
              M.node_stats(got), 'but best-child descent leads to',
              [M.node_stats(n) for n in legal])
        rich = rich or (len(legal) == 1 and depth_of(tree.root) > 2)
    return rich


@sub('C05', 'small-tree', query_case(lo=1, hi=1, queries=3), 300,
     rule='every case')
def c05_small(case):
    random.seed(case['seed'])
    tree = make_tree(case)
    for q in case['queries']:
        check(tree.categorize(copy.deepcopy(q)) is tree.root,
              'empty tree: not categorized to the root')
    inst = case['insts'][0]
    for _ in range(1 + case['seed'] % 3):
        tree.ifit(dict(inst))
    check(tree.categorize(dict(inst)) is tree.root,
          'single-concept tree: not categorized to the root')
    check(not tree.root.children, 'identical instances were separated')
    return True


@sub('C05', 'big', gens.big_case(30, 140), 60, rule='a concept with at least '
     'nine children or a tree six levels deep')
def c05_big(case):
    case = gens.expand(case)
    c05_greedy(case)
    tree, _ = fitted(case)
    return depth_of(tree.root) > 5 or \
        any(len(n.children) > 8 for n in tree_nodes(tree))


@st.composite
def growing_case(draw):
    case = draw(query_case(lo=2, hi=9, queries=2))
    n = len(case['insts'])
    # a number: fit that many, then ask; 0: clear, then ask
    case['steps'] = draw(st.lists(st.sampled_from(
        [0, 1, 1, 2, n // 2, n]), min_size=2, max_size=5))
    if draw(st.booleans()):
        k = draw(st.integers(1, n))
        case['steps'] = [k, 0, k]
        case['turn'] = draw(st.integers(0, n - 1))
    return case


@sub('C05', 'growing', growing_case(), 700, rule='the same query is asked '
     'again after the tree has grown or was cleared and grew again')
def c05_growing(case):
    """The same questions again and again while the tree changes."""
    random.seed(case['seed'])
    tree = make_tree(case)
    insts, at, known, asked = case['insts'], 0, [], 0
    for step in case['steps']:
        if not step:
            tree.clear()
            known = []
            at += case.get('turn', 0)
        for _ in range(step):
            known.append(insts[at % len(insts)])
            tree.ifit(copy.deepcopy(known[-1]))
            at += 1
        inside = {id(n) for n in tree_nodes(tree)}
        asked += len(known) > 1
        for q in case['queries'] + insts[:1]:
            legal = greedy_leaves(tree, q, case, history_scales(case, known))
            got = tree.categorize(copy.deepcopy(q))
            check(id(got) in inside, 'categorized', q, 'to a concept not in '
                  'the tree')
            check(any(got is n for n in legal), 'after', len(known), 'fits',
                  'categorized', q, 'to', M.node_stats(got), 'but best-child '
                  'descent leads to', [M.node_stats(n) for n in legal])
    return asked > 1


@sub('C05', 'planted', gens.planted_case(3), 250, rule='five levels or a '
     'hundred instances')
def c05_planted(case):
    tree, sh, new = planted(case)
    for q in new + [{}] + sh.insts[::len(sh.insts) // 3 + 1]:
        legal = greedy_leaves(tree, q, case, sh.scales)
        got = tree.categorize(dict(q))
        check(any(got is n for n in legal), 'categorized', q, 'to',
              M.node_stats(got), 'but best-child descent leads to',
              [M.node_stats(n) for n in legal])
    return depth_of(tree.root) > 4 or tree.root.count > 100


# ---------------------------------------------------------------- C06

def snap(tree):
    """Content of a tree; children compared as a set keyed by identity."""
    def rec(n, d):
        check(d < 400, 'cyclic hierarchy')
        table = {}
        for a, t in n.av_counts.items():
            table[a] = {v: ((c.num, c.mean, c.meanSq)
                            if hasattr(c, 'meanSq') else c)
                        for v, c in t.items()}
        return (id(n), n.concept_id, n.count, table,
                id(n.parent) if n.parent is not None else None,
                id(n.tree) if n.tree is not None else None,
                {id(c): rec(c, d + 1) for c in n.children})
    scales = {a: (c.num, c.mean, c.meanSq)
              for a, c in getattr(tree, 'attr_scales', {}).items()}
    return (rec(tree.root, 0), scales, getattr(tree, 'scaling', None),
            getattr(tree, 'inner_attr_scaling', None))


def some_attr(q, rng, tree):
    pool = sorted(set(tree.root.av_counts) | set(q), key=repr) or ['a']
    return rng.choice(pool)


def q_categorize(tree, q, rng, case):
    tree.categorize(q)


def q_infer(tree, q, rng, case):
    out = tree.infer_missing(q, rng.choice(['most likely', 'sampled']),
                             rng.random() < 0.5)
    check(out is not q, 'inference returns the query object itself')


def q_predict(tree, q, rng, case):
    n = rng.choice(tree_nodes(tree))
    a = some_attr(q, rng, tree)
    n.predict(a, rng.choice(['most likely', 'sampled']), rng.random() < 0.5)
    n.get_weighted_values(a)
    n.get_weighted_values(a, False)


def q_probability(tree, q, rng, case):
    n = rng.choice(tree_nodes(tree))
    for a, v in q.items():
        if not isinstance(v, dict) and (a in n.av_counts or
                                        not M.is_number(v)):
            n.probability(a, v)
            n.probability(a, None)


def q_scores(tree, q, rng, case):
    n = rng.choice(tree_nodes(tree))
    flat = {a: v for a, v in q.items() if not isinstance(v, dict)}
    n.expected_correct_guesses()
    n.category_utility()
    n.is_exact_match(flat)
    if n.count and not n.children:
        n.cu_for_fringe_split(flat)
    if n.children:
        n.cu_for_new_child(flat)
        n.compute_relative_CU_const(flat)
        for c in n.children:
            n.cu_for_insert(c, flat)
            n.relative_cu_for_insert(c, flat)
            if c.children:
                n.cu_for_split(c)
        cu, b1, b2 = n.two_best_children(flat)
        n.get_best_operation(flat, b1, b2, cu)
        n.get_best_operation(flat, b1, None, cu)
        ops = ['best', 'new', 'merge', 'split']
        rng.shuffle(ops)
        some = ops[:rng.randrange(1, 5)]
        keep = list(some)
        if set(some) - {'merge', 'split'}:
            n.get_best_operation(flat, b1, b2, cu, some)
            n.get_best_operation(flat, b1, None, cu, some)
        check(some == keep, 'the operations given were changed', some, keep)
        if b2 is not None:
            n.cu_for_merge(b1, b2, flat)


def default_operations():
    """Whatever was asked before, all four operations are considered."""
    for cls in (CobwebNode, Cobweb3Node):
        tree = CobwebTree() if cls is CobwebNode else Cobweb3Tree()
        root = tree.root
        for i in ({'a': 'u', 'b': 'x'}, {'a': 'u', 'b': 'x'},
                  {'a': 'v', 'b': 'y'}, {'a': 'w', 'b': 'z'}):
            root.increment_counts(i)
            root.create_new_child(i)
        q = {'a': 'u', 'b': 'x'}
        cu, b1, b2 = root.two_best_children(q)
        op = root.get_best_operation(q, b1, b2, cu)[1]
        check(op == 'merge', 'merging two equal concepts is best, but', op,
              'was chosen')
        tree = type(tree)()
        root = tree.root
        kinds = [{'a': 'u', 'b': 'x'}, {'a': 'v', 'b': 'y'},
                 {'a': 'w', 'b': 'z'}]
        for i in kinds:
            root.increment_counts(i)
        mixed = root.create_new_child(kinds[0])
        mixed.increment_counts(kinds[1])
        for i in kinds[:2]:
            mixed.create_new_child(i)
        root.create_new_child(kinds[2])
        cu, b1, b2 = root.two_best_children(kinds[0])
        op = root.get_best_operation(kinds[0], b1, b2, cu)[1]
        check(op == 'split', 'splitting a mixed concept is best, but', op,
              'was chosen')
        op = root.get_best_operation({'a': 's', 'b': 't'}, b2, b1, -1)[1]
        check(op in ('new', 'split'), 'a new concept is best, but', op,
              'was chosen')


def q_likelihood(tree, q, rng, case):
    nodes = tree_nodes(tree)
    leaf = rng.choice([n for n in nodes if not n.children])
    if leaf.count:
        up = leaf
        while up is not None:
            up.log_likelihood(leaf)
            up = up.parent
        for n in rng.sample(nodes, min(3, len(nodes))):
            try:
                n.log_likelihood(leaf)
            except Exception:
                pass    # impossible under a concept not containing the leaf


def q_print(tree, q, rng, case):
    str(tree)
    str(rng.choice(tree_nodes(tree)))


def q_export(tree, q, rng, case):
    tree.root.output_json()


def q_shape(tree, q, rng, case):
    nodes = tree_nodes(tree)
    n, m = rng.choice(nodes), rng.choice(nodes)
    n.depth(), n.num_concepts(), n.is_parent(m), hash(n)
    n.shallow_copy()
    list(n.attrs()), list(n.attrs('all'))
    list(n.attrs(lambda a: True))


def q_evaluate(tree, q, rng, case):
    flat = {a: v for a, v in q.items() if not isinstance(v, dict)}
    if not flat:
        return
    a = rng.choice(sorted(flat, key=repr))
    v = flat[a]
    EV.probability(tree, q, a, None)
    EV.error(tree, {}, 'unknown attribute', 'u')
    if a in tree.root.av_counts and tree.root.count:
        EV.probability(tree, q, a, v)
        if not M.is_number(v) or case['kind'] == 'cobweb':
            if not M.is_number(v):
                EV.error(tree, q, a, v)
                EV.absolute_error(tree, q, a, v)
                EV.squared_error(tree, q, a, v)


def q_cluster(tree, q, rng, case):
    insts = case['insts']
    if not insts:
        return
    before = copy.deepcopy(insts)
    which = rng.choice(['cluster', 'k', 'search', 'depth', 'iter'])
    if len(insts) < 2 or not tree.root.children:
        which = 'depth'
    if which == 'cluster':
        most = rng.randrange(1, 5)
        for _ in CL.cluster(tree, insts, 1, most, mod=False):
            pass
        for _ in CL.cluster(tree, insts, mod=False):
            pass
    elif which == 'k':
        CL.k_cluster(tree, insts, 3, mod=False)
    elif which == 'search':
        CL.cluster_split_search(tree, insts, rng.choice([CL.CU, CL.AIC]), 1,
                                rng.randrange(1, 5), mod=False)
    elif which == 'depth':
        CL.depth_labels(tree, insts, mod=False)
    else:
        for _ in CL.cluster_iter(tree, insts, maxsplit=rng.randrange(1, 6),
                                 mod=False):
            pass
    check(same_instance(insts, before), 'clustering changed its instances')


QUERIES = dict(categorize=q_categorize, infer=q_infer, predict=q_predict,
               probability=q_probability, scores=q_scores,
               likelihood=q_likelihood, string=q_print, export=q_export,
               shape=q_shape, evaluate=q_evaluate, cluster=q_cluster)


@st.composite
def c06_case(draw):
    case = draw(query_case(lo=1, hi=10, queries=3))
    case['ops'] = draw(st.lists(st.tuples(st.sampled_from(sorted(QUERIES)),
                                          st.integers(0, 1000)),
                                min_size=3, max_size=10))
    return case


def run_queries(tree, case, queries):
    for op, n in case['ops']:
        q = queries[n % len(queries)]
        before = snap(tree)
        given = copy.deepcopy(q)
        keep = copy.deepcopy(q)
        QUERIES[op](tree, given, random.Random(n), case)
        check(same_instance(given, keep), op, 'changed the instance', keep,
              'to', given)
        check(snap(tree) == before, op, 'changed the tree')


@sub('C06', 'readonly', c06_case(), 1600,
     rule='the tree has at least two levels and 4 kinds of query ran')
def c06_readonly(case):
    tree, _ = fitted(case)
    run_queries(tree, case, case['queries'] + case['insts'][:1])
    default_operations()
    return bool(tree.root.children) and len({o for o, _ in case['ops']}) > 3


@sub('C06', 'unfitted', c06_case(), 300, rule='every case: an empty tree or '
     'one of a single concept')
def c06_unfitted(case):
    random.seed(case['seed'])
    tree = make_tree(case)
    run_queries(tree, case, case['queries'] + [{}])
    for _ in range(1 + case['seed'] % 2):
        tree.ifit(copy.deepcopy(case['insts'][0]))
    run_queries(tree, case, case['queries'] + [{}])
    return True


@sub('C06', 'interleaved', c06_case(), 700,
     rule='the tree has depth 3 and queries ran between the fits')
def c06_interleaved(case):
    """Same seed before every fit: with and without queries in between."""
    shapes = []
    for ask in (False, True):
        tree = make_tree(case)
        for k, inst in enumerate(case['insts']):
            random.seed(case['seed'] + k)
            given = copy.deepcopy(inst)
            tree.ifit(given)
            check(same_instance(given, inst), 'fit changed its instance',
                  inst, given)
            if ask:
                some = dict(case, ops=case['ops'][k % 3:k % 3 + 3],
                            insts=case['insts'][:k + 1])
                run_queries(tree, some, case['queries'])
        shapes.append(content(tree.root))
    check(shapes[0] == shapes[1], 'queries between the fits changed what was '
          'learned')
    return depth_of(tree.root) > 2


def content(n):
    return (n.count, {a: {v: ((c.num, c.mean, c.meanSq)
                              if hasattr(c, 'meanSq') else c)
                          for v, c in t.items()}
                      for a, t in n.av_counts.items()},
            [content(c) for c in n.children])


@sub('C06', 'no-alias', query_case(lo=2, hi=10, queries=1), 500,
     rule='at least two fits with attributes')
def c06_alias(case):
    random.seed(case['seed'])
    tree = make_tree(case)
    given = [copy.deepcopy(i) for i in case['insts']]
    for g in given:
        tree.ifit(g)
    before = snap(tree)
    for g in given:
        for a in list(g):
            g[a] = 'changed'
        g['extra'] = 'added'
        g.pop(next(iter(g)), None)
    check(snap(tree) == before, 'changing a fitted instance changes the tree')
    given = [copy.deepcopy(i) for i in case['insts']]
    keep, order = copy.deepcopy(given), [id(g) for g in given]
    tree.fit(given, iterations=2)
    check(same_instance(given, keep) and order == [id(g) for g in given],
          'batch fitting changed the list given to it')
    return any(case['insts'])


# ---------------------------------------------------------------- C07

@st.composite
def numbers(draw, lo=0, hi=12):
    n = draw(st.integers(lo, hi))
    mode = draw(st.sampled_from(['small', 'ints', 'offset', 'wide', 'const']))
    if mode == 'ints':
        return draw(st.lists(st.integers(-50, 50), min_size=n, max_size=n))
    if mode == 'const':
        v = draw(st.sampled_from([0.1, 3, -7.25, 1e6, 0.0]))
        return [v] * n
    base = {'small': (-10, 10), 'offset': (-4, 4), 'wide': (-1e6, 1e6)}[mode]
    xs = draw(st.lists(st.floats(base[0], base[1], allow_nan=False, width=32),
                       min_size=n, max_size=n))
    if mode == 'offset':
        xs = [x + 1e5 for x in xs]
    return xs


@st.composite
def summary_case(draw):
    parts = draw(st.lists(numbers(), min_size=1, max_size=6))
    if draw(st.booleans()):
        parts.append(draw(numbers(lo=20, hi=40)))
    if draw(st.integers(0, 5)) == 0:
        # parts of one size about one middle, spread differently
        mid = draw(st.sampled_from([0, 5, -3.5, 2 ** 40, 2 ** 33 + 1]))
        parts += [[mid - d, mid + d] * draw(st.sampled_from([1, 1, 2]))
                  for d in draw(st.lists(st.sampled_from([0, 1, 2.5, 6, 0.25]),
                                         min_size=2, max_size=4))]
        parts = parts[-6:]
    k = len(parts)
    joins = draw(st.lists(st.tuples(st.integers(0, 100), st.integers(0, 100)),
                          min_size=k, max_size=k))
    return dict(parts=parts, joins=joins,
                modes=draw(st.lists(st.booleans(), min_size=k, max_size=k)),
                scale=draw(st.sampled_from([1.0, 0.5, 3, 0, -2.5, 10.0, 1e-7,
                                            1e-9, 1e6])),
                shift=draw(st.sampled_from([0, 2.5, -3])))


def exact(values):
    n = len(values)
    fr = [Fraction(v) for v in values]
    if not n:
        return 0, Fraction(0), Fraction(0)
    mean = sum(fr) / n
    return n, mean, sum((v - mean) ** 2 for v in fr)


def check_summary(cv, values, scale, shift):
    n, mean, m2 = exact(values)
    mag = max([abs(float(v)) for v in values] + [0.0])
    rng = float(max(values) - min(values)) if values else 0.0
    check(cv.num == n, 'count', cv.num, 'of', n)
    if not n:
        return
    mt = 1e-12 * mag + 1e-300
    vt = 1e-11 * n * rng * mag + 1e-20 * n * mag * mag

    def std_close(got, want_var, what):
        # compare variances: well conditioned
        check(isinstance(got, float) and got >= 0, what, got)
        tol = 1e-9 * want_var + vt / max(n - 1, 1) * 4
        check(abs(got * got - want_var) <= tol, what, got,
              'should be sqrt', want_var, 'for', values)

    check(abs(cv.mean - float(mean)) <= mt, 'mean', cv.mean, float(mean))
    check(abs(cv.unbiased_mean() - float(mean)) <= mt, 'unbiased mean')
    check(abs(cv.meanSq - float(m2)) <= 1e-9 * float(m2) + vt,
          'squared deviation', cv.meanSq, float(m2))
    sc = scale if scale > 0 else 1.0
    check(close(cv.scaled_unbiased_mean(shift, scale),
                (float(mean) - shift) / sc, 1e-9, (mt + 1e-12) / sc),
          'scaled mean')
    var_b = float(m2) / n
    std_close(cv.biased_std(), var_b, 'biased deviation')
    if n < 2:
        check(cv.unbiased_std() == 0.0, 'deviation of one value')
        return
    var_u = float(m2) / (n - 1) / M.c4(n) ** 2
    std_close(cv.unbiased_std(), var_u, 'unbiased deviation')
    std_close(cv.scaled_biased_std(scale) * sc, var_b, 'scaled biased')
    std_close(cv.scaled_unbiased_std(scale) * sc, var_u, 'scaled unbiased')
    j = cv.output_json()
    check(abs(j['mean'] - float(mean)) <= mt and j['n'] == n, 'export', j)
    std_close(float(j['std']), var_u, 'exported deviation')


@sub('C07', 'grouping', summary_case(), 3000,
     rule='at least three parts, one of them empty or longer than 20')
def c07_grouping(case):
    items = []
    for values, batched in zip(case['parts'], case['modes']):
        cv = ContinuousValue()
        if batched:
            cv.update_batch(list(values))
        else:
            for v in values:
                cv.update(v)
        items.append((cv, list(values)))
        check_summary(cv, values, case['scale'], case['shift'])
    for x, y in case['joins']:
        if len(items) < 2:
            break
        x %= len(items)
        a, va = items.pop(x)
        y %= len(items)
        b, vb = items.pop(y)
        before = (b.num, b.mean, b.meanSq)
        c = a.copy()
        check((c.num, c.mean, c.meanSq) == (a.num, a.mean, a.meanSq),
              'copy differs')
        old = (a.num, a.mean, a.meanSq)
        c.update(12.5)
        check(old == (a.num, a.mean, a.meanSq), 'copy is not independent')
        c = a.copy()
        a.combine(b)
        check((c.num, c.mean, c.meanSq) == old, 'copy is not independent')
        check(before == (b.num, b.mean, b.meanSq),
              'combining changed the other summary')
        check_summary(a, va + vb, case['scale'], case['shift'])
        items.append((a, va + vb))
    return len(case['parts']) > 2 and any(
        len(p) == 0 or len(p) > 20 for p in case['parts'])


@st.composite
def long_case(draw):
    return dict(seed=draw(gens.seeds), parts=draw(st.lists(
        st.sampled_from([0, 1, 40, 150, 400, 1200, 3000]), min_size=1,
        max_size=3)), offset=draw(st.sampled_from(
            [0, 0, 50, -1e3, 1e5, -1e6, 1e7])),
        spread=draw(st.sampled_from([1, 0.01, 50, 0])),
        batched=draw(st.booleans()))


@sub('C07', 'long', long_case(), 150, rule='a part of more than 100 numbers '
     'far from zero')
def c07_long(case):
    rng = random.Random(case['seed'])
    whole, seen = ContinuousValue(), []
    for n in case['parts']:
        xs = [case['offset'] + round(case['spread'] * rng.random(), 6)
              for _ in range(n)]
        cv = ContinuousValue()
        if case['batched']:
            cv.update_batch(xs)
        else:
            for x in xs:
                cv.update(x)
        check_summary(cv, xs, 2.0, 1.0)
        whole.combine(cv)
        seen += xs
        check_summary(whole, seen, 2.0, 1.0)
    return max(case['parts']) > 100 and bool(case['offset'])


@sub('C07', 'product', st.fixed_dictionaries(dict(x=numbers(1), y=numbers(1))),
     800, rule='two different collections of at least two values')
def c07_product(case):
    out = []
    for p, q in ((case['x'], case['y']), (case['y'], case['x'])):
        a, b = ContinuousValue(), ContinuousValue()
        a.update_batch(p)
        b.update_batch(q)
        out.append(a.integral_of_gaussian_product(b))
    check(close(out[0], out[1], 1e-9, 1e-300), 'not symmetric', out)
    check(0 <= out[0] <= 1 + 1e-12, 'out of range', out)
    (n1, m1, q1), (n2, m2, q2) = exact(case['x']), exact(case['y'])
    v = 1 / (2 * math.pi)
    for n, q in ((n1, q1), (n2, q2)):
        if n > 1:
            v += float(q) / (n - 1) / M.c4(n) ** 2
    e = float(m1 - m2) ** 2 / (2 * v)
    if e < 600:
        check(out[0] > 0, 'not positive')
        want = math.exp(-e) / math.sqrt(2 * math.pi * v)
        mag = max(abs(float(z)) for z in case['x'] + case['y'])
        slack = 1e-7 + 1e-11 * mag * abs(float(m1 - m2)) / v + 1e-10 * mag * e
        check(close(out[0], want, slack, 1e-12), 'product integral', out[0],
              'should be', want)
    return case['x'] != case['y'] and min(n1, n2) > 1


@sub('C07', 'helpers', st.one_of(numbers(1, 30), st.tuples(
    numbers(1, 5), st.integers(5, 40)).map(lambda t: t[0] * t[1] +
                                           t[0][:1] * 9)), 500,
     rule='at least three values')
def c07_helpers(xs):
    n, mean, m2 = exact(xs)
    mag = max(abs(float(x)) for x in xs)
    keep = list(xs)
    check(abs(U.mean(xs) - float(mean)) <= 1e-11 * mag + 1e-300, 'mean')
    v = U.std(xs)
    rng = float(max(xs) - min(xs))
    check(abs(v * v - float(m2) / n) <= 1e-9 * float(m2) / n + 1e-10 * rng *
          mag + 1e-20 * mag * mag, 'std', v)
    check(keep == xs, 'helpers changed their input')
    for f in (U.mean, U.std):
        try:
            f([])
        except ValueError:
            pass
        else:
            check(False, 'empty list accepted')
    for k in list(range(2, 31)) + [n + 29, 1000]:
        want = 1.0 if k >= 30 else M.c4(k)
        check(close(U.c4(k), want, 1e-9), 'c4', k, U.c4(k), want)
        check(close(U.c4(float(k)), want, 1e-9), 'c4', k)
    for k in (1, 0, -3):
        try:
            U.c4(k)
        except ValueError:
            pass
        else:
            check(False, 'c4 accepts', k)
    for x in xs + [float('inf'), Fraction(1, 3), 0, -0.0, 10 ** 30]:
        check(U.isNumber(x) is True or U.isNumber(x) == 1, 'isNumber', x)
    for x in [True, False, 'a', '1', None, (1,), float('nan'), '?x', [], {}]:
        check(not U.isNumber(x), 'isNumber', x)
    cv = ContinuousValue()
    cv.update(1)
    for bad in (1, None, 'x'):
        try:
            cv.combine(bad)
        except Exception:
            pass
        else:
            check(False, 'combined with', bad)
    return len(set(xs)) > 2


# ---------------------------------------------------------------- C08

def want_probability(s, a, v, scales, num):
    if v is None:
        if not s.count:
            return 1.0
        c = sum(s.nom.get(a, {}).values()) + (s.num[a][0] if a in s.num
                                              else 0)
        return (s.count - c) / s.count
    if num and M.is_number(v):
        if a not in s.num:
            return 0.0
        n, mean, m2 = s.num[a]
        sc = scales.scale(a)
        sd = M.unbiased_std(n, m2) / sc
        var = sd * sd + 1 / (2 * math.pi)
        d = (v - mean) / sc
        return n / s.count / math.sqrt(2 * math.pi * var) * \
            math.exp(-d * d / (2 * var))
    if not s.count:
        return 0.0
    return s.nom.get(a, {}).get(v, 0) / s.count


def check_distribution(n, case, scales, attrs, extra_vals):
    num = numeric(case)
    s = M.node_stats(n)
    for a in attrs:
        w = n.get_weighted_values(a)
        got = {}
        for v, p in w:
            check(p >= 0, 'negative weight', a, v, p)
            key = '#num' if v == '#ContinuousValue#' else v
            check(typed(key) not in got, 'value listed twice', a, v)
            got[typed(key)] = p
        check(close(sum(got.values()), 1.0), 'weights do not sum to one', a,
              w)
        want = {typed(None): want_probability(s, a, None, scales, num)}
        for v in s.nom.get(a, {}):
            want[typed(v)] = s.nom[a][v] / s.count
        if a in s.num:
            want[typed('#num')] = s.num[a][0] / s.count
        for k in set(got) | set(want):
            check(close(got.get(k, 0.0), want.get(k, 0.0)), 'weight of', a, k,
                  got.get(k), 'should be', want.get(k))
        if a in n.av_counts:
            w2 = n.get_weighted_values(a, False)
            check(all(v is not None for v, _ in w2), 'missing offered', a)
            for v, p in w2:
                key = '#num' if v == '#ContinuousValue#' else v
                check(close(p, want[typed(key)]), 'weight without missing',
                      a, v, p)
            check(len(w2) >= len([k for k in want
                                  if k != typed(None) and want[k] > 0]),
                  'values left out')
        vals = [None] + list(s.nom.get(a, {})) + ['never-seen']
        # what looks like a value that was seen is not that value
        for v in (True, False, ('u',), ('p',), 'True', 'None', '7', '2.5',
                  'u ', 'U', 'V', "('p', 1)"):
            if not any(v == o for o in s.nom.get(a, {})):
                vals.append(v)
        numvals = [v for v in extra_vals.get(a, []) if num and M.is_number(v)]
        vals += [v for v in extra_vals.get(a, [])
                 if not (num and M.is_number(v))]
        total = 0.0
        for v in {typed(v): v for v in vals}.values():
            p = n.probability(a, v)
            want_p = want_probability(s, a, v, scales, num)
            check(close(p, want_p), 'probability of', a, v, p, 'should be',
                  want_p)
            check(-1e-12 <= p <= 1 + 1e-9, 'probability out of range', p)
            if v is not None:
                check(close(p, got.get(typed(v), 0.0)), 'probability and '
                      'weight disagree', a, v)
            total += p
        if not (num and a in s.num):
            check(close(total, 1.0), 'probabilities sum to', total)
        if num and a not in s.num and a in n.av_counts:
            for v in numvals[:1] + [3, 7.0, 0, 12]:
                check(n.probability(a, v) == 0, 'number in a nominal')
        if a in s.num and scales_known(scales, a):
            mean = s.num[a][1]
            pts = sorted(set(numvals + [mean] +
                             [mean + d * scales.scale(a)
                              for d in (-2, -0.3, 0.7, 1.5)]),
                         key=lambda v: abs(v - mean))
            last = None
            for v in pts:
                p = n.probability(a, v)
                want_p = want_probability(s, a, v, scales, num)
                check(close(p, want_p, 1e-6, 1e-9), 'probability of', a, v, p,
                      'should be', want_p)
                check(0 <= p <= 1 + 1e-9, 'probability out of range', p)
                check(last is None or p <= last + 1e-9,
                      'probability grows with distance', a, v)
                last = p


def scales_known(scales, a):
    return not (isinstance(a, tuple) and a[0] == '_')


@sub('C08', 'tables', query_case(lo=1, hi=14, queries=2), 1600,
     rule='some concept is uncertain about an attribute')
def c08_tables(case):
    tree, _ = fitted(case)
    rng = random.Random(case['seed'])
    scales = history_scales(case)
    nodes = tree_nodes(tree)
    rng.shuffle(nodes)
    extra = {}
    for i in case['insts'] + case['queries']:
        for a, v in i.items():
            extra.setdefault(a, []).append(v)
    attrs = sorted(set(tree.root.av_counts) | {'nosuch'}, key=repr)
    rich = False
    for n in [tree.root] + nodes[:4]:
        known = [a for a in attrs]
        check_distribution(n, case, scales, known, extra)
        s = M.node_stats(n)
        for a in attrs:
            check_predictions(n, s, a)
        rich = rich or any(len(s.nom.get(a, {})) > 1 for a in attrs)
    return rich


@sub('C08', 'big', gens.big_case(20, 70), 80, rule='an attribute with more '
     'than five values, or more than ten attributes')
def c08_big(case):
    case = gens.expand(case)
    tree, _ = fitted(case)
    rng = random.Random(case['seed'])
    scales = history_scales(case)
    inner = [n for n in tree_nodes(tree) if n.children]
    attrs = sorted(tree.root.av_counts, key=repr)
    rng.shuffle(attrs)
    for n in [tree.root] + inner[1:3]:
        check_distribution(n, case, scales, attrs, {})
        s = M.node_stats(n)
        for a in attrs[:4]:
            check_predictions(n, s, a)
    return len(attrs) > 10 or any(
        len(t) > 5 for t in M.node_stats(tree.root).nom.values())


@st.composite
def values_case(draw):
    return dict(seed=draw(gens.seeds), kind=draw(st.sampled_from(
        ['cobweb', 'cobweb3', 'trestle'])), scaling=0.5, inner=True,
        n=draw(st.sampled_from([10, 20, 30, 50, 80])),
        heavy=draw(st.integers(0, 90)), missing=draw(st.integers(0, 3)),
        numbers=draw(st.booleans()))


@sub('C08', 'many-values', values_case(), 120, rule='more than 25 values')
def c08_many_values(case):
    """One concept with many values of one attribute."""
    random.seed(case['seed'])
    tree = make_tree(case)
    insts = [{'same': 'x', '_many': 'v%d' % k} for k in range(case['n'])]
    insts += [{'same': 'x', '_many': 'v%d' % (case['heavy'] % case['n'])}] * 3
    insts += [{'same': 'x'}] * case['missing']
    if case['numbers'] and case['kind'] != 'cobweb':
        insts += [{'same': 'x', '_many': 2.5}] * 2
    random.shuffle(insts)
    for i in insts:
        tree.ifit(dict(i))
    check(not tree.root.children, 'visible duplicates were separated')
    case = dict(case, insts=insts)
    check_distribution(tree.root, case, history_scales(case),
                       ['same', '_many', 'nosuch'], {})
    s = M.node_stats(tree.root)
    check_predictions(tree.root, s, '_many')
    j = tree.root.output_json()['counts']['_many']
    check({v: c for v, c in j.items() if v[0] != '#'} == s.nom['_many'],
          'exported values', j)
    return case['n'] > 25


def check_predictions(n, s, a):
    opts = dict(s.nom.get(a, {}))
    if a in s.num:
        opts['#num'] = s.num[a][0]
    miss = s.count - sum(opts.values())
    for allow in (True, False):
        full = dict(opts)
        if allow or not opts:
            full[None] = miss
        top = max(full.values())
        for fn in ('most likely', 'm'):
            p = n.predict(a, fn, allow)
            check(legal_prediction(p, full, s, a, top - 1e-9),
                  'most likely prediction', a, p, 'from', full)
        if allow:
            p = n.predict(a)
            check(legal_prediction(p, full, s, a, top - 1e-9),
                  'default prediction', a, p, 'from', full)
        for fn in ('sampled', 's'):
            p = n.predict(a, fn, allow)
            check(legal_prediction(p, full, s, a, 0.5, True),
                  'sampled prediction', a, p, 'from', full)
    try:
        n.predict(a, 'nonsense')
    except Exception:
        pass
    else:
        check(False, 'unknown choice function accepted')


def legal_prediction(p, full, s, a, least, sampled=False):
    """p is an option of weight >= least (numeric: the mean, or a sample)."""
    if p is None:
        return None in full and full[None] >= least
    for v, c in full.items():
        if v is None or c < least:
            continue
        if v == '#num':
            if not M.is_number(p):
                continue
            n, mean, m2 = s.num[a]
            sd = M.unbiased_std(n, m2)
            if sampled and abs(p - mean) <= 12 * sd + 1e-9 * (1 + abs(mean)):
                return True
            if not sampled and close(p, mean, 1e-9, 1e-12):
                return True
        elif typed(v) == typed(p):
            return True
        elif v == p and not isinstance(p, str):     # 1 == True == 1.0
            return True
    return False


def reference_ll(su, sl, scales, num):
    """Log-likelihood of a leaf (table sl) under a concept containing it."""
    want = 0.0
    for a in {a for a in su.attrs() | sl.attrs() if M.visible(a)}:
        if a in sl.num:
            n1, m1, q1 = su.num[a]
            n2, m2, q2 = sl.num[a]
            v = (M.unbiased_std(n1, q1) ** 2 +
                 M.unbiased_std(n2, q2) ** 2 + 1 / (2 * math.pi))
            want += math.log(n1 / su.count) - \
                0.5 * math.log(2 * math.pi * v) - \
                (m1 - m2) ** 2 / (2 * v)
        else:
            v = next(iter(sl.nom[a])) if a in sl.nom else None
            want += math.log(want_probability(su, a, v, scales, num))
    return want


@sub('C08', 'empty', query_case(lo=0, hi=0, queries=2, kinds=(
    'cobweb', 'cobweb3', 'trestle', 'dummy')), 100, rule='every case')
def c08_empty(case):
    """A concept without instances: everything is missing."""
    tree = make_tree(case)
    if case['seed'] % 2:
        tree.ifit(copy.deepcopy(case['queries'][0]))
        tree.clear()
    nodes = [tree.root, type(tree.root)()]
    nodes[1].tree = tree
    for n in nodes:
        for i in case['queries'] + [{'nosuch': 'x'}]:
            for a, v in i.items():
                check(n.probability(a, None) == 1, 'missing probability',
                      n.probability(a, None), 'in an empty concept')
                check(n.probability(a, v) == 0, 'probability of', a, v,
                      n.probability(a, v), 'in an empty concept')
    return True


@sub('C08', 'likelihood', query_case(lo=2, hi=14, queries=1), 900,
     rule='a leaf below an uncertain concept')
def c08_likelihood(case):
    tree, leaves = fitted(case)
    scales = history_scales(case)
    num = numeric(case)
    rich = False
    for leaf in [n for n in tree_nodes(tree) if not n.children][:4]:
        sl = M.node_stats(leaf)
        up = leaf
        while up is not None:
            su = M.node_stats(up)
            want = reference_ll(su, sl, scales, num)
            got = up.log_likelihood(leaf)
            check(close(got, want, 1e-6, 1e-6), 'log-likelihood', got,
                  'should be', want, 'of', sl, 'under', su)
            rich = rich or up is not leaf
            up = up.parent
    return rich


# ---------------------------------------------------------------- C09

def completion_ok(out, q, s, choice, allow):
    """Explain `out` as a completion of `q` from a concept with table s."""
    if not set(out) <= set(q) | s.attrs():
        return False
    for a in s.attrs():
        if a in q:
            continue
        opts = dict(s.nom.get(a, {}))
        if a in s.num:
            opts['#num'] = s.num[a][0]
        if allow:
            opts[None] = s.count - sum(opts.values())
        least = max(opts.values()) - 1e-9 if choice == 'most likely' else 0.5
        if not legal_prediction(out.get(a), opts, s, a, least,
                                choice == 'sampled'):
            return False
    return True


def check_completion(tree, q, case, choice, allow, concepts):
    given = copy.deepcopy(q)
    if choice == 'most likely' and allow:
        out = tree.infer_missing(given)
        check(any(completion_ok(out, q, M.node_stats(n), choice, allow)
                  for n in concepts), 'default completion', out, 'of', q,
              'does not come from', [M.node_stats(n) for n in concepts])
    out = tree.infer_missing(given, choice[:1] if len(q) % 3 == 1
                             else choice, allow)
    check(same_instance(given, q), 'inference changed the query')
    check(out is not given, 'inference returns the query object')
    for a, v in q.items():
        check(a in out and typed(out[a]) == typed(v), 'completion changes',
              a, 'from', v, 'to', out.get(a, 'missing'))
    check(any(completion_ok(out, q, M.node_stats(n), choice, allow)
              for n in concepts), 'completion', out, 'of', q,
          'does not come from', [M.node_stats(n) for n in concepts],
          choice, allow)
    return len(out) > len(q)


@sub('C09', 'complete', query_case(lo=1, hi=14, queries=3), 1800,
     rule='something was added to a query from a tree of two levels')
def c09_complete(case):
    tree, _ = fitted(case)
    rich = False
    for q in case['queries']:
        leaves = greedy_leaves(tree, q, case)
        for choice in ('most likely', 'sampled'):
            for allow in (True, False):
                added = check_completion(tree, q, case, choice, allow, leaves)
                rich = rich or (added and bool(tree.root.children))
    return rich


@sub('C09', 'uncertain', query_case(lo=2, hi=10, queries=2,
                                    kinds=('dummy',)), 600,
     rule='the concept is uncertain about an attribute not in the query')
def c09_uncertain(case):
    tree, _ = fitted(case)
    for q in case['queries']:
        for choice in ('most likely', 'sampled'):
            for allow in (True, False):
                check_completion(tree, q, case, choice, allow, [tree.root])
    s = M.node_stats(tree.root)
    return any(len(s.nom.get(a, {})) > 1 for a in s.attrs()
               if any(a not in q for q in case['queries']))


@sub('C09', 'empty', query_case(lo=1, hi=1, queries=2), 100,
     rule='every case')
def c09_empty(case):
    tree = make_tree(case)
    for q in case['queries']:
        for allow in (True, False):
            out = tree.infer_missing(copy.deepcopy(q), 'most likely', allow)
            check(same_instance(out, q), 'empty tree adds to the query', q,
                  out)
    return True
