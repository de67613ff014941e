"""C01 C02 C03 C04 C10 C11: learning in flat trees."""
import copy
import itertools
import math
import random

from hypothesis import strategies as st

from concept_formation.cobweb import CobwebNode, CobwebTree
from concept_formation.cobweb3 import Cobweb3Node, Cobweb3Tree

from pbt import gens, model as M
from pbt.core import check, close, corpus, sub, Violation
from pbt.util import (make_tree, make_shadow, fitted, history_scales, numeric,
                      check_links, tree_nodes, tolerance, depth_of, planted,
                      know_scales)

# ---------------------------------------------------------------- C01


def check_conserved(tree, expected, tol):
    root = M.node_stats(tree.root)
    check(tol.equal(root, expected), 'root', root, 'summarises not', expected)
    for n in tree_nodes(tree):
        s = M.node_stats(n)
        for a, t in s.nom.items():
            check(all(isinstance(c, (int, float)) and c > 0 and c <= s.count
                      for c in t.values()), 'bad count', a, t)
        if n.children:
            tot = M.combine([M.node_stats(c) for c in n.children])
            check(tol.equal(s, tot), 'concept', s, 'is not the sum of its '
                  'children', tot)


OPS = ['fit', 'fit', 'fit', 'fit', 'categorize', 'infer', 'clear', 'batch']


@st.composite
def c01_case(draw):
    case = draw(gens.flat_case(lo=1, hi=22))
    n = len(case['insts'])
    case['ops'] = draw(st.lists(st.sampled_from(OPS), max_size=n))
    return case


@sub('C01', 'history', c01_case(), 4000, rule='the tree reached depth 3 or '
     'an internal concept has more than two children')
def c01_history(case):
    random.seed(case['seed'])
    tree = make_tree(case)
    tol = tolerance(case)
    num = numeric(case)
    seen = []
    ops = case['ops'] + ['fit'] * (len(case['insts']) - len(case['ops']))
    rich = False
    for inst, op in zip(case['insts'], ops):
        if op == 'categorize' and seen:
            tree.categorize(dict(inst))
        elif op == 'infer' and seen:
            tree.infer_missing(dict(inst))
        elif op == 'clear':
            tree.clear()
            seen = []
            check(tree.root.count == 0 and not tree.root.children,
                  'cleared tree not empty')
        elif op == 'batch':
            before = list(seen)
            it = [1, 2, 3, 1, 5, 2, 7][len(seen) % 7]
            group = [inst] + seen[:2]
            given = [dict(i) for i in group]
            if len(seen) % 5 == 2:      # the same object twice
                given.append(given[0])
                group = group + [inst]
            tree.fit(given, iterations=it,
                     randomize_first=bool(len(seen) % 2))
            seen = before + group * it
        else:
            tree.ifit(dict(inst))
            seen.append(inst)
        check_conserved(tree, M.stats_of(seen, num), tol)
        rich = rich or depth_of(tree.root) > 2 or any(
            len(n.children) > 2 for n in tree_nodes(tree))
    return rich


@st.composite
def c01_long(draw):
    case = draw(gens.flat_case(lo=20, hi=60, max_attrs=3))
    return case


@sub('C01', 'long', c01_long(), 250, rule='at least 20 fits and depth 3')
def c01_long_run(case):
    tree, _ = fitted(case)
    check_conserved(tree, M.stats_of(case['insts'], numeric(case)),
                    tolerance(case))
    return depth_of(tree.root) > 2


@sub('C01', 'big', gens.big_case(40, 160), 70, rule='depth 3')
def c01_big(case):
    case = gens.expand(case)
    random.seed(case['seed'])
    tree = make_tree(case)
    tol = tolerance(case)
    for k, inst in enumerate(case['insts']):
        tree.ifit(dict(inst))
        if k % 10 == 9:
            check_conserved(tree, M.stats_of(case['insts'][:k + 1],
                                             numeric(case)), tol)
    check_conserved(tree, M.stats_of(case['insts'], numeric(case)), tol)
    return depth_of(tree.root) > 2


@sub('C01', 'planted', gens.planted_case(8), 250, rule='five levels or a '
     'hundred instances before the fits')
def c01_planted(case):
    """Any hierarchy that sums up correctly keeps doing so."""
    tree, sh, new = planted(case)
    rich = depth_of(tree.root) > 4 or tree.root.count > 100
    insts = list(sh.insts)
    for i in new:
        tree.ifit(dict(i))
        insts.append(i)
        if sh.numeric:
            sh.tol.learn(i)
        check_conserved(tree, M.stats_of(insts, sh.numeric), sh.tol)
    return rich


# ---------------------------------------------------------------- C02

def check_shape(tree, nodes):
    """Leaves are homogeneous; derived queries agree with the links."""
    for n in nodes:
        check(n.count >= 1, 'empty concept')
        if not n.children:
            st_ = M.node_stats(n)
            for a in st_.attrs():
                if not M.visible(a):
                    continue
                vals = list(st_.nom.get(a, {}).values())
                if a in st_.num:
                    cnt, mean, m2 = st_.num[a]
                    check(cnt == n.count and not vals,
                          'leaf mixes presence of', a, st_)
                    check(m2 <= 1e-12 * (1 + mean * mean),
                          'leaf mixes values of', a, st_)
                else:
                    check(vals == [n.count], 'leaf mixes values of', a,
                          st_)
        # derived structure queries
        d, up = 0, n
        while up.parent is not None:
            up = up.parent
            d += 1
            check(d < 500, 'parent chain too long')
        check(up is tree.root, 'parent chain does not end at the root')
        check(n.depth() == d, 'depth', n.depth(), 'expected', d)
        check(n.num_concepts() == len(list(M.walk(n))), 'num_concepts')
    for x in nodes[:8]:
        for y in nodes[:8]:
            inside = any(z is y for z in M.walk(x))
            check(x.is_parent(y) == inside, 'is_parent', x.concept_id,
                  y.concept_id)


@sub('C02', 'links', gens.flat_case(lo=1, hi=22), 4000,
     rule='depth of at least 3')
def c02_links(case):
    random.seed(case['seed'])
    tree = make_tree(case)
    num = numeric(case)
    retired = {}
    leaves = []
    for k, inst in enumerate(case['insts']):
        leaf = tree.ifit(dict(inst))
        nodes = check_links(tree)
        byid = {id(n) for n in nodes}
        check(id(leaf) in byid, 'returned concept is not in the tree')
        check(not leaf.children, 'returned concept is not a leaf')
        s = M.node_stats(leaf)
        for a, v in inst.items():
            if num and M.is_number(v):
                check(a in s.num, 'returned leaf lacks', a)
            else:
                check(s.nom.get(a, {}).get(v, 0) >= 1, 'returned leaf lacks',
                      a, v)
        leaves.append(leaf)
        check_shape(tree, nodes)
    # distinct visible content means distinct leaves; a leaf's visible content
    # determines the instances it holds
    for i, inst in enumerate(case['insts']):
        vis_i = {a: v for a, v in inst.items() if M.visible(a)}
        for j in range(i):
            if leaves[i] is leaves[j]:
                vis_j = {a: v for a, v in case['insts'][j].items()
                         if M.visible(a)}
                check(vis_i == vis_j, 'different instances share a leaf',
                      vis_i, vis_j)
    return depth_of(tree.root) > 2


@st.composite
def close_case(draw):
    base = draw(st.sampled_from([0.1, 3, -7.25, 1e6 + 0.5, 1e9, 12345678.9,
                                 -1e-7, 1e15]))
    return dict(seed=draw(gens.seeds), kind=draw(st.sampled_from(
        ['cobweb3', 'trestle'])), scaling=draw(st.sampled_from(
            gens.SCALINGS)), inner=True, base=base,
        gap=draw(st.sampled_from([1e-3, 1e-6, 1e-9, 1e-11, 1e-13])),
        steps=draw(st.lists(st.integers(-2, 2), min_size=2, max_size=9)),
        extra=draw(st.booleans()))


@sub('C02', 'close', close_case(), 500, rule='values that differ by less '
     'than a millionth')
def c02_close(case):
    """However close they are, different values have different leaves."""
    random.seed(case['seed'])
    tree = make_tree(case)
    xs = [case['base'] + abs(case['base']) * case['gap'] * s
          for s in case['steps']]
    where = {}
    for k, x in enumerate(xs):
        i = {'n': x, '_id': 'i%d' % k}
        if case['extra']:
            i['a'] = 'u'
        leaf = tree.ifit(i)
        nodes = check_links(tree)
        check(any(leaf is n for n in nodes) and not leaf.children,
              'returned concept is not a leaf of the tree')
        for n in nodes:
            if not n.children:
                held = {xs[int(v[1:])] for v in n.av_counts['_id']}
                check(len(held) == 1, 'one leaf holds', sorted(held))
        check(where.setdefault(x, leaf) is leaf or not where[x].children,
              'a leaf grew children')
    return len(set(xs)) > 1 and case['gap'] < 1e-5


@sub('C02', 'big', gens.big_case(40, 160), 60, rule='depth of at least 5')
def c02_big(case):
    case = gens.expand(case)
    random.seed(case['seed'])
    tree = make_tree(case)
    leaves = []
    for k, inst in enumerate(case['insts']):
        leaves.append(tree.ifit(dict(inst)))
        if k % 12 == 11:
            check_shape(tree, check_links(tree))
    nodes = check_links(tree)
    check_shape(tree, nodes)
    where = {}
    for inst, leaf in zip(case['insts'], leaves):
        vis = {a: v for a, v in inst.items() if M.visible(a)}
        check(where.setdefault(id(leaf), vis) == vis,
              'different instances share a leaf', vis, where[id(leaf)])
        check(any(leaf is n for n in nodes) and not leaf.children,
              'a leaf left the tree or grew children')
    return depth_of(tree.root) > 4


@st.composite
def grown_case(draw):
    '''Hierarchies put together by hand, of any depth and width.'''
    return dict(kind=draw(st.sampled_from(['cobweb', 'cobweb3', 'trestle'])),
                scaling=0.5, inner=True,
                seed=draw(gens.seeds), n=draw(st.integers(1, 60)),
                deep=draw(st.integers(0, 10)))


@sub('C02', 'grown', grown_case(), 150, rule='depth of at least 12')
def c02_grown(case):
    '''Depth, ancestors and size agree with the links in any hierarchy.'''
    rng = random.Random(case['seed'])
    tree = make_tree(case)
    nodes, depth = [tree.root], [0]
    tree.root.increment_counts({'a': 'u'})
    for _ in range(case['n']):
        k = len(nodes) - 1 if rng.randrange(10) < case['deep'] else \
            rng.randrange(len(nodes))
        nodes.append(nodes[k].create_new_child({'a': rng.choice('uvw')}))
        depth.append(depth[k] + 1)
        check(nodes[-1].parent is nodes[k] and nodes[-1].tree is tree and
              nodes[k].children[-1:] == [nodes[-1]], 'new child not linked')
    for n, d in zip(nodes, depth):
        check(n.depth() == d, 'depth', n.depth(), 'of a concept at', d)
        check(n.num_concepts() == len(list(M.walk(n))), 'num_concepts',
              n.num_concepts())
    for _ in range(60):
        x, y = rng.choice(nodes), rng.choice(nodes)
        check(bool(x.is_parent(y)) == any(z is y for z in M.walk(x)),
              'is_parent', x.is_parent(y))
    check(not tree.root.is_parent(None), 'is_parent of nothing')
    return max(depth) >= 12


@sub('C02', 'identity', st.tuples(st.sampled_from(['cobweb', 'cobweb3']),
                                  st.integers(0, 3)), 3, rule='every case')
def c02_identity(arg):
    '''However many concepts have been made, their names stay distinct.'''
    kind, n = arg
    case = dict(kind=kind, scaling=0.5, inner=True, seed=n)
    random.seed(n)
    tree = make_tree(case)
    insts = [{'a': 'v%d' % k, 'b': 'w%d' % (k % 3)} for k in range(8)]
    for i in insts[:4]:
        tree.ifit(i)
    ids = {x.concept_id for x in tree_nodes(tree)}
    cls = type(tree.root)
    made = len(ids)
    for _ in range(140000):
        ids.add(cls().concept_id)
        made += 1
    check(len(ids) == made, 'of', made, 'concepts only', len(ids),
          'have names of their own')
    for i in insts[4:]:
        tree.ifit(i)
    check_links(tree)
    return True


@sub('C02', 'planted', gens.planted_case(8), 250, rule='five levels before '
     'the fits')
def c02_planted(case):
    """Any well-formed hierarchy stays well-formed."""
    tree, sh, new = planted(case)
    rich = depth_of(tree.root) > 4
    for i in new:
        leaf = tree.ifit(dict(i))
        nodes = check_links(tree)
        check(any(leaf is n for n in nodes) and not leaf.children,
              'returned concept is not a leaf of the tree')
        check_shape(tree, nodes)
    return rich


# ---------------------------------------------------------------- C03

def follow(case):
    random.seed(case['seed'])
    tree = make_tree(case)
    sh = make_shadow(case)
    ops = set()
    for inst in case['insts']:
        tree.ifit(dict(inst))
        try:
            sh.fit(tree.root, inst)
        except M.Undecided:
            return tree, sh, ops
        ops.update(sh.ops)
    return tree, sh, ops


@sub('C03', 'steps', gens.flat_case(lo=2, hi=18, max_attrs=4), 3200,
     rule='the history contains a merge or a split')
def c03_steps(case):
    tree, sh, ops = follow(case)
    return 'merge' in ops or 'split' in ops


@sub('C03', 'numeric', gens.flat_case(lo=2, hi=16, max_attrs=3,
                                      kinds=('cobweb3',)), 1500,
     rule='the history contains a merge or a split')
def c03_numeric(case):
    tree, sh, ops = follow(case)
    return 'merge' in ops or 'split' in ops


@sub('C03', 'long', gens.flat_case(lo=24, hi=45, max_attrs=3), 160,
     rule='the history contains a merge and a split')
def c03_long(case):
    tree, sh, ops = follow(case)
    return 'merge' in ops and 'split' in ops


@sub('C03', 'big', gens.big_case(25, 70, shapes=['wide', 'deep', 'many',
                                                 'sparse', 'proto']), 100,
     rule='the history contains a merge and a split, or a concept got nine '
     'children')
def c03_big(case):
    tree, sh, ops = follow(gens.expand(case))
    return 'merge' in ops and 'split' in ops or \
        any(len(n.children) > 8 for n in tree_nodes(tree))


@sub('C03', 'planted', gens.planted_case(), 700, rule='a merge or split in a '
     'hierarchy of four levels or of a hundred instances')
def c03_planted(case):
    """One step from any hierarchy, however deep, wide or heavy."""
    tree, sh, new = planted(case)
    rich = depth_of(tree.root) > 3 or tree.root.count > 100
    ops = set()
    for inst in new:
        tree.ifit(dict(inst))
        try:
            sh.fit(tree.root, inst)
        except M.Undecided:
            return False
        ops.update(sh.ops)
    return rich and bool(ops & {'merge', 'split'})


@st.composite
def queried_history(draw):
    case = draw(gens.flat_case(lo=3, hi=12, queries=3))
    return case


@sub('C03', 'queried', queried_history(), 500,
     rule='queries were interleaved and some step restructured the tree')
def c03_queried(case):
    """Same legality with queries between the fits (also C06)."""
    random.seed(case['seed'])
    tree = make_tree(case)
    sh = make_shadow(case)
    ops = set()
    for k, inst in enumerate(case['insts']):
        tree.ifit(dict(inst))
        try:
            sh.fit(tree.root, inst)
        except M.Undecided:
            return False
        ops.update(sh.ops)
        q = case['queries'][k % len(case['queries'])]
        tree.categorize(dict(q))
        tree.infer_missing(dict(q))
    return bool(ops & {'merge', 'split', 'new'})


# ---------------------------------------------------------------- C04

ALL_OPS = ['best', 'new', 'merge', 'split']


def check_scores(node, inst, scales, num, rng, permitted):
    """All scores of one concept for one instance against the definition."""
    s = M.node_stats(node)
    kids = [M.node_stats(c) for c in node.children]
    e = node.expected_correct_guesses() if s.count else 0.0
    check(close(e, M.ecg(s, scales)), 'expected correct guesses', e,
          'should be', M.ecg(s, scales), 'for', s)
    check(-1e-12 <= e <= 1 + 1e-9, 'expected correct guesses out of [0,1]', e)
    got = node.category_utility()
    check(close(got, M.cu(s, kids, scales)), 'category utility', got,
          'should be', M.cu(s, kids, scales), 'for', s, kids)
    up = s.plus(inst, num)
    one = M.Stats().plus(inst, num)
    # fringe split (meaningful for any non-empty concept taken as a leaf)
    if not node.children and s.count:
        got = node.cu_for_fringe_split(inst)
        want = M.cu(up, [s, one], scales)
        check(close(got, want), 'fringe split score', got, 'should be', want)
    if not node.children:
        return False
    n = len(kids)
    ins = []
    for k, c in enumerate(node.children):
        want = M.cu(up, kids[:k] + kids[k + 1:] + [kids[k].plus(inst, num)],
                    scales)
        got = node.cu_for_insert(c, inst)
        check(close(got, want), 'insert score', got, 'should be', want)
        ins.append(want)
    got = node.cu_for_new_child(inst)
    new = M.cu(up, kids + [one], scales)
    check(close(got, new), 'new child score', got, 'should be', new)
    # relative scores: affine in the insert scores
    const = node.compute_relative_CU_const(inst)
    for k, c in enumerate(node.children):
        rel = node.relative_cu_for_insert(c, inst)
        check(close(rel / (s.count + 1) / n + const, ins[k]),
              'relative insert score', rel, 'does not convert to', ins[k])
    for x, c in enumerate(node.children):
        if c.children:
            want = M.cu(s, kids[:x] + kids[x + 1:] +
                        [M.node_stats(g) for g in c.children], scales)
            got = node.cu_for_split(c)
            check(close(got, want), 'split score', got, 'should be', want)
    if n >= 2:
        x, y = rng.sample(range(n), 2)
        want = M.cu(up, [kids[z] for z in range(n) if z not in (x, y)] +
                    [M.combine([kids[x], kids[y]]).plus(inst, num)], scales)
        got = node.cu_for_merge(node.children[x], node.children[y], inst)
        check(close(got, want), 'merge score', got, 'should be', want)
    # two best children
    b1cu, b1, b2 = node.two_best_children(inst)
    top = max(ins)
    i1 = [k for k, c in enumerate(node.children) if c is b1]
    check(len(i1) == 1, 'best child is not a child')
    i1 = i1[0]
    check(ins[i1] >= top - M.TIE, 'best child scores', ins[i1],
          'but another', top)
    check(close(b1cu, ins[i1]), 'best child utility', b1cu, ins[i1])
    if n == 1:
        check(b2 is None, 'second best child of an only child')
        i2 = None
    else:
        i2 = [k for k, c in enumerate(node.children) if c is b2]
        check(len(i2) == 1 and i2[0] != i1, 'second best is not a second child')
        i2 = i2[0]
        second = max(v for k, v in enumerate(ins) if k != i1)
        check(ins[i2] >= second - M.TIE, 'second best child scores', ins[i2],
              'but another', second)
    # best operation, restricted and not
    table = {'best': ins[i1], 'new': new}
    if n > 2 and i2 is not None:
        table['merge'] = M.cu(
            up, [kids[z] for z in range(n) if z not in (i1, i2)] +
            [M.combine([kids[i1], kids[i2]]).plus(inst, num)], scales)
    if b1.children:
        table['split'] = M.cu(
            s, [kids[z] for z in range(n) if z != i1] +
            [M.node_stats(g) for g in b1.children], scales)
    for allowed in (ALL_OPS, permitted):
        avail = {o: table[o] for o in allowed if o in table}
        if not avail:
            continue
        val, op = node.get_best_operation(inst, b1, b2, b1cu,
                                          possible_ops=list(allowed))
        check(op in avail, 'operation', op, 'not permitted', allowed)
        check(close(val, avail[op]), 'operation value', op, val, avail)
        check(avail[op] >= max(avail.values()) - M.TIE, 'operation', op,
              'is not the best of', avail)
    return True


@st.composite
def c04_case(draw):
    case = draw(gens.flat_case(lo=1, hi=14, queries=2))
    case['permitted'] = draw(st.lists(st.sampled_from(ALL_OPS), min_size=1,
                                      max_size=4, unique=True))
    return case


@sub('C04', 'scores', c04_case(), 1600, rule='some internal concept with at '
     'least three children or an internal best child was scored')
def c04_scores(case):
    tree, _ = fitted(case)
    scales = history_scales(case)
    num = numeric(case)
    rng = random.Random(case['seed'])
    rich = False
    nodes = tree_nodes(tree)
    rng.shuffle(nodes)
    nodes = [tree.root] + [n for n in nodes if n.children][:4] + \
        [n for n in nodes if not n.children][:2]
    for inst in case['queries'] + case['insts'][-1:]:
        for n in nodes:
            check_scores(n, inst, scales, num, rng, case['permitted'])
            rich = rich or len(n.children) > 2 or \
                any(c.children for c in n.children)
    return rich


@sub('C04', 'big', gens.big_case(25, 90), 60, rule='a concept with at least '
     'nine children was scored or the tree is six levels deep')
def c04_big(case):
    case = gens.expand(case)
    tree, _ = fitted(case)
    scales = history_scales(case)
    rng = random.Random(case['seed'])
    nodes = sorted([n for n in tree_nodes(tree) if n.children],
                   key=lambda n: -len(n.children))[:2] + [tree.root]
    for inst in case['queries'][:2]:
        for n in nodes:
            check_scores(n, inst, scales, numeric(case), rng,
                         [rng.choice(ALL_OPS)])
    return len(nodes[0].children) > 8 or depth_of(tree.root) > 5


@sub('C04', 'planted', gens.planted_case(2), 200, rule='four levels or a '
     'hundred instances')
def c04_planted(case):
    tree, sh, new = planted(case)
    rng = random.Random(case['seed'])
    nodes = tree_nodes(tree)
    rng.shuffle(nodes)
    for inst in new:
        for n in [tree.root] + nodes[:4]:
            check_scores(n, inst, sh.scales, sh.numeric, rng,
                         [rng.choice(ALL_OPS)])
    return depth_of(tree.root) > 3 or tree.root.count > 100


@st.composite
def built_case(draw):
    """A concept put together by hand: arbitrary groups of instances."""
    case = draw(gens.flat_case(lo=2, hi=draw(st.sampled_from([10, 10, 24])),
                               queries=1))
    n = len(case['insts'])
    case['groups'] = draw(st.lists(st.integers(0, draw(st.sampled_from(
        [4, 4, 9]))), min_size=n, max_size=n))
    case['permitted'] = draw(st.lists(st.sampled_from(ALL_OPS), min_size=1,
                                      max_size=4, unique=True))
    return case


def build(case):
    """Hierarchy with one child per group, each group of >= 2 having leaves."""
    tree = make_tree(case)
    know_scales(tree, case['insts'])
    cls = type(tree.root)
    root = tree.root = cls()
    root.tree = tree
    groups = {}
    for i, g in zip(case['insts'], case['groups']):
        groups.setdefault(g, []).append(i)
    for g in sorted(groups):
        child = cls()
        child.tree = tree
        child.parent = root
        for i in groups[g]:
            child.increment_counts(i)
            root.increment_counts(i)
        if len(groups[g]) > 1:
            for i in groups[g]:
                leaf = cls()
                leaf.tree = tree
                leaf.parent = child
                leaf.increment_counts(i)
                child.children.append(leaf)
        root.children.append(child)
    return tree


@sub('C04', 'built', built_case(), 1200, rule='at least two groups')
def c04_built(case):
    tree = build(case)
    rng = random.Random(case['seed'])
    scales = history_scales(case)
    for inst in case['queries']:
        check_scores(tree.root, inst, scales, numeric(case), rng,
                     case['permitted'])
        for c in tree.root.children[:2]:
            check_scores(c, inst, scales, numeric(case), rng,
                         case['permitted'])
    return len(tree.root.children) > 1


@st.composite
def tie_case(draw):
    kind = draw(st.sampled_from(['cobweb', 'cobweb3']))
    inst = draw(st.dictionaries(st.sampled_from(['a', 'b', 'c']),
                                st.sampled_from(['u', 'v', 'w']), min_size=1))
    sizes = draw(st.lists(st.integers(1, draw(st.sampled_from([6, 6, 60]))),
                          min_size=2, max_size=4, unique=True))
    return dict(kind=kind, scaling=0.5, inner=True, inst=inst, sizes=sizes,
                seed=draw(gens.seeds))


@sub('C04', 'ties', tie_case(), 200, rule='every case: equal scores, '
     'different sizes')
def c04_ties(case):
    """Children with identical content and equal scores: larger ones first."""
    random.seed(case['seed'])
    tree = make_tree(case)
    root = tree.root
    for s in case['sizes']:
        child = root.create_new_child(case['inst'])
        root.increment_counts(case['inst'])
        for _ in range(s - 1):
            child.increment_counts(case['inst'])
            root.increment_counts(case['inst'])
    order = sorted(case['sizes'], reverse=True)
    for _ in range(4):
        _, b1, b2 = root.two_best_children(case['inst'])
        check((b1.count, b2.count) == (order[0], order[1]),
              'tied children chosen', b1.count, b2.count, 'of sizes', order)
    return True


# -- random tie-breaking really explores both options
@sub('C04', 'tie-random', st.fixed_dictionaries(
    dict(kind=st.sampled_from(['cobweb', 'cobweb3']), scaling=st.just(0.5),
         inner=st.just(True), seed=gens.seeds,
         val=st.sampled_from(['u', 'v']), extra=st.integers(0, 2))), 40,
     rule='every case')
def c04_tie_random(case):
    """Two indistinguishable children must both be chosen sometimes."""
    random.seed(case['seed'])
    tree = make_tree(case)
    root = tree.root
    inst = {'a': case['val']}
    for _ in range(2):
        child = root.create_new_child(inst)
        root.increment_counts(inst)
        for _ in range(case['extra']):
            child.increment_counts(inst)
            root.increment_counts(inst)
    first = [root.two_best_children(inst)[1] is root.children[0]
             for _ in range(200)]
    check(20 < sum(first) < 180, 'tie between equal children is not random',
          sum(first))
    return True


# ---------------------------------------------------------------- C10

@st.composite
def c10_case(draw):
    kind = draw(st.sampled_from(['cobweb', 'cobweb3']))
    schema = draw(gens.flat_schema(kind, max_attrs=3, hidden=False))
    case = dict(kind=kind, seed=draw(gens.seeds))
    if kind == 'cobweb3':
        case['scaling'] = draw(st.sampled_from(gens.SCALINGS))
        case['inner'] = draw(st.booleans())
    case['plain'] = draw(gens.flat_instances(schema, 2, 14))
    hs = []
    for a in draw(st.lists(st.sampled_from(gens.HIDDEN), min_size=1,
                           max_size=3, unique=True)):
        if kind == 'cobweb3' and draw(st.booleans()):
            vals = draw(gens.num_domain(3))
        else:
            vals = draw(st.sampled_from(gens.HIDVALS))
        hs.append((a, vals, True))
    n = len(case['plain'])
    extra = draw(gens.flat_instances(hs, n, n))
    case['insts'] = [dict(p, **{}) | h for p, h in zip(case['plain'], extra)]
    case['queries'] = draw(gens.flat_queries(schema, kind, 2))
    case['qhidden'] = draw(gens.flat_instances(hs, 2, 2))
    return case


@sub('C10', 'formation', c10_case(), 1800, rule='hidden values differ '
     'between instances that share a leaf, or the history restructures')
def c10_formation(case):
    tree, sh, ops = follow(case)
    if len(sh.insts) < len(case['insts']):
        return False
    # hidden values are counted everywhere
    root = M.node_stats(tree.root)
    want = M.stats_of(case['insts'], numeric(case))
    check(tolerance(case).equal(root, want), 'hidden values not kept', root,
          want)
    for n in tree_nodes(tree)[:6]:
        held = M.node_stats(n).attrs()
        pick = {a for k, a in enumerate(sorted(held, key=repr)) if k % 2}
        for given, wanted in ((('all',), held),
                              ((), {a for a in held if M.visible(a)}),
                              ((lambda a: a in pick,), pick)):
            got = list(n.attrs(*given))
            check(len(got) == len(set(got)) and set(got) == set(wanted),
                  'attributes listed', got, 'should be', wanted)
    # the same visible history with no hidden attribute at all
    plain = dict(case, insts=case['plain'])
    other, sh2, _ = follow(plain)
    if not sh.ambiguous and not sh2.ambiguous:
        check(visible_shape(tree.root, tolerance(case)) ==
              visible_shape(other.root, tolerance(case)),
              'hidden attributes changed the hierarchy')
    # queries: hidden attributes do not redirect them
    for q in case['queries']:
        for h in case['qhidden']:
            leaf1 = tree.categorize(dict(q))
            leaf2 = tree.categorize(dict(q) | h)
            p1 = path_scores(leaf1, q, case)
            p2 = path_scores(leaf2, q, case)
            check(p1 is not None and p2 is not None,
                  'hidden attributes redirect a query')
            check_scores(tree.root, dict(q) | h, history_scales(case),
                         numeric(case), random.Random(case['seed']),
                         ['best', 'new'])
    for leaf in [n for n in tree_nodes(tree) if not n.children][:3]:
        for a in leaf.av_counts:
            if not M.visible(a):
                p = leaf.predict(a, 'most likely', False)
                s = M.node_stats(leaf)
                if a in s.nom and a not in s.num:
                    check(s.nom[a][p] == max(s.nom[a].values()),
                          'hidden prediction', a, p, s)
                elif a in s.num and a not in s.nom:
                    check(close(p, s.num[a][1]), 'hidden prediction', a, p, s)
    return bool(ops & {'leaf'}) and bool(ops & {'merge', 'split', 'new'})


def visible_shape(node, tol):
    """Order-free shape of the visible part (numeric rounded)."""
    s = M.node_stats(node)
    tab = []
    for a in sorted(s.attrs(), key=repr):
        if M.visible(a):
            tab.append((repr(a), sorted((repr(v), c) for v, c in
                                        s.nom.get(a, {}).items()),
                        s.num[a][0] if a in s.num else None,
                        '%.6g' % (round(s.num[a][1], 6) + 0.0)
                        if a in s.num else None))
    return (s.count, repr(tab), sorted((visible_shape(c, tol)
                                        for c in node.children), key=repr))


def path_scores(leaf, query, case):
    """Checks that the path to `leaf` is greedy for `query`'s visible part."""
    scales = history_scales(case)
    num = numeric(case)
    q = {a: v for a, v in query.items() if M.visible(a)}
    node = leaf
    while node.parent is not None:
        p = node.parent
        ins = []
        for c in p.children:
            s = strip(M.node_stats(c))
            up = s.plus(q, num)
            ins.append((up.count * M.ecg(up, scales) -
                        s.count * M.ecg(s, scales), c))
        top = max(x for x, _ in ins)
        mine = [x for x, c in ins if c is node]
        if not mine or mine[0] < top - 1e-8 * max(1, p.count):
            return None
        node = p
    return True


def strip(s):
    return M.Stats(s.count, {a: t for a, t in s.nom.items() if M.visible(a)},
                   {a: t for a, t in s.num.items() if M.visible(a)})


# ---------------------------------------------------------------- C11

@st.composite
def c11_case(draw):
    case = dict(kind='cobweb3', seed=draw(gens.seeds),
                scaling=draw(st.sampled_from([0.5, 1.0, 2, 0.25])),
                inner=draw(st.booleans()))
    attrs = draw(st.permutations(['a', 'b', ('x', '?o1'), ('x', '?o2'),
                                  ('_', ('x', 'c')), ('x', ('m', '?o1')),
                                  ('x', '?o1', '?o2')]))
    attrs = attrs[:draw(st.integers(1, 4))]
    schema = [(a, draw(gens.num_domain(draw(st.integers(2, 5)))),
               draw(st.booleans())) for a in attrs if a[0] != '_']
    for a in attrs:
        if a[0] == '_':
            schema.append((a, draw(gens.num_domain(3)), True))
    if draw(st.booleans()):
        schema.append(('c', ['u', 'v', 'w'], draw(st.booleans())))
    case['insts'] = draw(gens.flat_instances(schema, 2, 14))
    case['queries'] = draw(gens.flat_queries(schema, 'cobweb3', 3))
    case['units'] = {}
    for inner in ('a', 'b', 'x'):
        p = draw(st.integers(-8, 8))
        shift = draw(st.sampled_from([0, 0, 1, -64, 1024]))
        seen = [v for i in case['insts'] + case['queries']
                for a, v in i.items() if a[0] == inner and M.is_number(v)]
        if any(0 < abs(v) < 0.001 for v in seen):
            shift = 0             # the sum would not be exact enough
        if not shift:
            p = draw(st.sampled_from([p, p, p, 4 * p]))
        case['units'][inner] = (p, shift)
    return case


def unit(case, attr):
    if attr[0] == '_':
        return 1.0, 0
    p, sh = case['units'][attr[0]]
    return 2.0 ** p, sh


def unit_change(inst, case):
    out = {}
    for a, v in inst.items():
        if M.is_number(v):
            f, sh = unit(case, a)
            v = v * f + sh
        out[a] = v
    return out


@sub('C11', 'units', c11_case(), 1800, rule='unambiguous history (no ties), '
     'some unit changed and a tree of depth 3')
def c11_units(case):
    runs = []
    for conv in (lambda i: i, lambda i: unit_change(i, case)):
        c = dict(case, insts=[conv(i) for i in case['insts']])
        tree, sh, ops = follow(c)
        if len(sh.insts) < len(case['insts']):
            return False
        runs.append((tree, sh))
    (t1, s1), (t2, s2) = runs
    if s1.ambiguous or s2.ambiguous:
        return False
    match = match_scaled(t1.root, t2.root, case, s2.tol)
    check(match is not None, 'hierarchy changes with the unit of measurement:',
          M.Act(t1.root).show(), M.Act(t2.root).show())
    for q in case['queries']:
        q2 = unit_change(q, case)
        for n1, n2 in match:
            for a, v in q.items():
                if a[0] == '_' or (M.is_number(v) and
                                   s1.scales.std(a) == 0):
                    continue      # no spread seen yet: no unit to scale by
                p1, p2 = n1.probability(a, v), n2.probability(a, q2[a])
                check(close(p1, p2, 1e-6, 1e-9), 'probability of', a, v,
                      'changes with the unit', p1, p2)
        l1, l2 = t1.categorize(dict(q)), t2.categorize(dict(q2))
        check(path_scores(l1, q, case) and path_scores(
            l2, q2, dict(case, insts=s2.insts)),
            'categorization is not greedy after a change of unit')
    return any(u != (0, 0) for u in case['units'].values()) and \
        depth_of(t1.root) > 2


def match_scaled(n1, n2, case, tol):
    """Pairs of corresponding concepts, or None."""
    def conv(s):
        num = {}
        for a, (n, m, q) in s.num.items():
            f, sh = unit(case, a)
            num[a] = (n, m * f + sh, q * f * f)
        return M.Stats(s.count, s.nom, num)

    def same(x, y):
        if len(x.children) != len(y.children):
            return None
        if not tol.equal(conv(M.node_stats(x)), M.node_stats(y)):
            return None

        def pair(k, left):
            if k == len(x.children):
                return []
            for z, cand in enumerate(left):
                got = same(x.children[k], cand)
                if got is not None:
                    more = pair(k + 1, left[:z] + left[z + 1:])
                    if more is not None:
                        return got + more
            return None
        got = pair(0, list(y.children))
        return None if got is None else [(x, y)] + got
    return same(n1, n2)


@sub('C11', 'inner-scale', c11_case(), 800, rule='scaling or inner-scaling '
     'variants disagree somewhere or two objects share an attribute name')
def c11_inner(case):
    """Which observations set the scale of an attribute."""
    for scaling in (case['scaling'], None):
        for inner in (True, False):
            c = dict(case, scaling=scaling, inner=inner)
            tree, _ = fitted(c)
            scales = history_scales(c)
            for n in [tree.root] + tree.root.children[:2]:
                s = M.node_stats(n)
                e = n.expected_correct_guesses()
                check(close(e, M.ecg(s, scales)), 'scaled utility', e,
                      M.ecg(s, scales), 'scaling', scaling, 'inner', inner)
    return sum(isinstance(a, tuple) for a in
               {a for i in case['insts'] for a in i}) > 1


@sub('C11', 'defaults', c11_case(), 150, rule='a hierarchy of two levels')
def c11_defaults(case):
    """Trees made without arguments scale by half a deviation, and together
    what has one innermost name."""
    from concept_formation.trestle import TrestleTree
    out = []
    for make in (Cobweb3Tree, lambda: Cobweb3Tree(0.5, True),
                 lambda: Cobweb3Tree(scaling=0.5, inner_attr_scaling=True)):
        random.seed(case['seed'])
        tree = make()
        for i in case['insts']:
            tree.ifit(dict(i))
        out.append([M.node_stats(n).__repr__() for n in tree_nodes(tree)])
    check(out[0] == out[1] == out[2], 'default scaling differs', out)
    for t in (TrestleTree(), Cobweb3Tree()):
        check(t.scaling == 0.5 and t.inner_attr_scaling is True,
              'default scaling', t.scaling, t.inner_attr_scaling)
    return len(out[0]) > 2


@st.composite
def nominal_case(draw):
    case = dict(kind='cobweb3', seed=draw(gens.seeds), scaling=0.5, inner=True)
    names = ['a', 'b', 'c', ('x', '?o1'), '?v']
    k = draw(st.integers(1, 4))
    attrs = draw(st.lists(st.sampled_from(names), min_size=k, max_size=k,
                          unique=True))
    schema = [(a, gens.C3_VALS[:draw(st.integers(1, 4))],
               draw(st.booleans())) for a in attrs]
    case['insts'] = draw(gens.flat_instances(schema, 1, 14))
    case['queries'] = draw(gens.flat_queries(schema, 'cobweb', 2))
    return case


@sub('C11', 'nominal', nominal_case(), 1000, rule='unambiguous history with '
     'depth 3')
def c11_nominal(case):
    t3, s3, o3 = follow(case)
    c1 = dict(case, kind='cobweb')
    t1, s1, o1 = follow(c1)
    n = len(case['insts'])
    if len(s3.insts) < n or len(s1.insts) < n:
        return False
    if s3.ambiguous or s1.ambiguous:
        return False
    tol = M.Tolerance()
    check(visible_shape(t1.root, tol) == visible_shape(t3.root, tol),
          'numeric and nominal trees differ on nominal data')
    return depth_of(t1.root) > 2
