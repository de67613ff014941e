"""C18 - C25: clustering, evaluation, export, rejection, copies, data."""
import copy
import hashlib
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import webbrowser

from hypothesis import strategies as st

webbrowser.open = lambda *a, **k: True          # never start a browser

import concept_formation.utils as U                             # noqa: E402
from concept_formation import cluster as CL                     # noqa: E402
from concept_formation import datasets as DS                    # noqa: E402
from concept_formation import evaluation as EV                  # noqa: E402
from concept_formation import preprocessor as P                 # noqa: E402
from concept_formation import visualize as VZ                   # noqa: E402
from concept_formation.cobweb import CobwebTree                 # noqa: E402
from concept_formation.cobweb3 import Cobweb3Tree               # noqa: E402
from concept_formation.dummy import DummyTree                   # noqa: E402
from concept_formation.trestle import TrestleTree               # noqa: E402

from pbt import facts as F, gens, model as M                    # noqa: E402
from pbt.core import Violation, check, close, sub               # noqa: E402
from pbt.util import (make_tree, fitted, history_scales, numeric,  # noqa: E402
                      renumber,
                      tree_nodes, depth_of, same_instance, typed,
                      check_links, tolerance)
from pbt.props_flat import (follow, check_conserved,            # noqa: E402
                            visible_shape)
from pbt.props_query import (query_case, greedy_leaves, snap,   # noqa: E402
                             want_probability, legal_prediction,
                             reference_ll, check_completion, content,
                             check_distribution)
from pbt.props_struct import (RootScales, c12_case, added,      # noqa: E402
                              comparable, fit_structured)

webbrowser.open = lambda *a, **k: True
VZ.webbrowser.open = lambda *a, **k: True

# ---------------------------------------------------------------- C18


class Frozen(object):
    """A hierarchy at one moment, by concept name."""

    def __init__(self, tree, case):
        self.root = name(tree.root)
        self.parent, self.kids, self.stats = {}, {}, {}
        for n in tree_nodes(tree):
            i = name(n)
            self.stats[i] = M.node_stats(n)
            self.kids[i] = [name(c) for c in n.children]
            for c in self.kids[i]:
                self.parent[c] = i
        self.num = case['kind'] != 'cobweb'
        self.scales = RootScales(self.stats[self.root],
                                 case.get('scaling') if self.num else None,
                                 case.get('inner', True))
        self.ll_cache = {}

    def path(self, i):
        out = [i]
        while out[-1] in self.parent:
            out.append(self.parent[out[-1]])
        return out[::-1]

    def child_towards(self, top, leaf):
        p = self.path(leaf)
        return p[p.index(top) + 1]

    # -- the documented heuristics
    def value(self, which, assign, leaves):
        if which == 'CU':
            kids = []
            for c in sorted(set(assign)):
                kids.append(M.combine([self.stats[x] for x in leaves
                                       if c in self.path(x)]))
            return -M.cu(M.combine(kids), kids, self.scales)
        if which == 'ids':
            return float(position_score(assign))
        if which == 'tiny':
            return 1e-5 * position_score(assign)
        if which == 'few':
            return float(len(set(assign)))
        if which == 'many':
            return -float(len(set(assign)))
        ll = 0.0
        for c, x in zip(assign, leaves):
            if (c, x) not in self.ll_cache:
                self.ll_cache[c, x] = reference_ll(
                    self.stats[c], self.stats[x], self.scales, self.num)
            ll += self.ll_cache[c, x]
        k = 0
        for c in set(assign):
            s = self.stats[c]
            k += sum(len(s.nom.get(a, {})) + (2 if a in s.num else 0)
                     for a in s.attrs() if M.visible(a))
        n = len(leaves)
        if which == 'AIC':
            return 2 * k - 2 * ll
        if which == 'BIC':
            return k * math.log(n) - 2 * ll
        if n - k <= 1:
            return float('inf')
        return 2 * k - 2 * ll + 2.0 * k * (k + 1) / (n - k - 1)


def name(n):
    return 'Concept' + str(n.concept_id)


def position_score(names):
    return sum((i + 1) * (int(hashlib.md5(c.encode()).hexdigest()[:4], 16)
                          % 23) for i, c in enumerate(names))


HEURISTICS = {'CU': CL.CU, 'AIC': CL.AIC, 'BIC': CL.BIC, 'AICc': CL.AICc,
              'ids': lambda cl, lv: position_score([name(c) for c in cl]),
              'tiny': lambda cl, lv: 1e-5 * position_score(
                  [name(c) for c in cl]),
              'few': lambda cl, lv: len({name(c) for c in cl}),
              'many': lambda cl, lv: -len({name(c) for c in cl})}


def near(a, b):
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return close(a, b, 1e-7, 1e-7)


def check_sequence(fz, leaves, steps, which, complete=True):
    """Every clustering follows from the one before.

    Returns whether the sequence was free of choices between equals."""
    assign, h = steps[0]
    want = [fz.path(x)[min(1, len(fz.path(x)) - 1)] for x in leaves]
    check(assign == want, 'first clustering', assign, 'is not the children '
          'of the root', want)
    single = True
    for n, (assign, h) in enumerate(steps):
        check(len(assign) == len(leaves), 'labels missing')
        for c, x in zip(assign, leaves):
            check(c in fz.path(x), 'label', c, 'does not contain leaf', x)
        v = fz.value(which, assign, leaves)
        check(near(v, h), 'value', which, h, 'of a clustering should be', v)
        options = {}
        for c in set(assign):
            if fz.kids[c]:
                b = [fz.child_towards(c, x) if a == c else a
                     for a, x in zip(assign, leaves)]
                options[c] = (fz.value(which, b, leaves), b)
        if n + 1 < len(steps):
            nxt = steps[n + 1][0]
            check(options, 'refined a clustering that has no cluster to '
                  'split', assign, nxt)
            best = min(v for v, _ in options.values())
            good = [b for v, b in options.values()
                    if v == best or v <= best + 1e-7 * max(1, abs(best))]
            check(nxt in good, 'clustering', nxt, 'is not the best '
                  'refinement of', assign, 'by', which,
                  {c: v for c, (v, _) in options.items()})
            single = single and len(good) == 1
        elif complete:
            check(not options, 'clustering', assign, 'could be refined but '
                  'the sequence ends')
    return single


@st.composite
def cluster_case(draw):
    case = draw(query_case(lo=draw(st.sampled_from([2, 6, 9])), hi=14,
                           queries=3))
    case['mod'] = draw(st.booleans())
    case['times'] = draw(st.sampled_from([1] * 40 + [4, 8]))
    case['heuristic'] = draw(st.sampled_from(sorted(HEURISTICS)))
    case['as_name'] = draw(st.booleans())
    pool = case['insts'] + case['queries']
    if case['mod']:
        case.pop('planted', None)
        case['data'] = case['insts']
        case['insts'] = draw(st.sampled_from([[], case['queries'][:2]]))
        if case['kind'] != 'cobweb' and case['insts']:
            case['insts'] = case['data'][:2]
    else:
        idx = draw(st.lists(st.integers(0, len(pool) - 1),
                            min_size=draw(st.sampled_from([1, 5, 8])),
                            max_size=12))
        case['data'] = [pool[i] for i in idx]
    case['min'] = draw(st.integers(1, 4))
    case['span'] = draw(st.integers(0, 3))
    case['k'] = draw(st.sampled_from([2, 3, 3, 4, 5, 6, 8, 11, 14]))
    return case


WRITTEN = [str, str.lower, str.upper, str]


def run_iter(tree, case, **kw):
    h = case['heuristic']
    random.seed(case['seed'] + 1)
    return CL.cluster_iter(
        tree, copy.deepcopy(case['data']), mod=case['mod'],
        heuristic=WRITTEN[case['seed'] % 4](h) if case['as_name'] and
        h in ('CU', 'AIC', 'BIC', 'AICc') else HEURISTICS[h], **kw)


def full_sequence(tree, case):
    """All clusterings, the hierarchy they cut and the leaves reached."""
    fz, steps, nodes = None, [], []
    for cl, h in run_iter(tree, case, labels=False):
        if fz is None:
            fz = Frozen(cl[0].tree, case)
            check(cl[0].tree is not tree, 'clustering splits the given tree')
        steps.append(([name(c) for c in cl], h))
        nodes.append(cl)
        check(len(steps) < 200, 'clustering does not end')
    leaves = steps[-1][0]
    check(all(not fz.kids[x] for x in leaves), 'finest clustering is not '
          'made of leaves')
    return fz, steps, leaves


@sub('C18', 'sequence', cluster_case(), 2400, rule='at least three '
     'clusterings in the sequence')
def c18_sequence(case):
    renumber(case)
    case = dict(case, data=case['data'] * case.get('times', 1))
    random.seed(case['seed'])
    tree = make_tree(case)
    for i in case['insts']:
        tree.ifit(copy.deepcopy(i))
    before = snap(tree)
    fz, steps, leaves = full_sequence(tree, case)
    if not case['mod']:
        check(snap(tree) == before, 'clustering changed the tree')
        unique = True
        for i, x in zip(case['data'], leaves):
            legal = {name(n) for n in greedy_leaves(tree, i, case)}
            check(x in legal, 'instance', i, 'clustered under', x,
                  'but belongs to', legal)
            unique = unique and len(legal) == 1
    else:
        unique = False
        s = fz.stats[fz.root]
        check(s.count == len(case['insts']) + len(case['data']),
              'clustered hierarchy holds', s.count, 'instances')
        for i, x in zip(case['data'], leaves):
            s = fz.stats[x]
            for a, v in i.items():
                check((a in s.num) if fz.num and M.is_number(v)
                      else s.nom.get(a, {}).get(v), 'leaf', x, s,
                      'does not hold', i)
            check(all(a in i for a in s.attrs() if M.visible(a)),
                  'leaf', x, s, 'does not match', i)
    single = check_sequence(fz, leaves, steps, case['heuristic'])
    lo, hi = case['min'], case['min'] + case['span']
    lab = [s for s, _ in steps]
    # bounded variants
    part = [c for c, _ in run_iter(tree, case, minsplit=lo, maxsplit=hi)]
    check(len(part) <= hi - lo + 1, 'too many clusterings', len(part))
    if unique and single:
        check(part == lab[lo - 1:hi], 'splits', lo, 'to', hi, 'give', part,
              'instead of', lab[lo - 1:hi])
        check_search(tree, case, steps, lo, hi)
    if case['heuristic'] == 'CU':
        random.seed(case['seed'] + 1)
        out = CL.k_cluster(tree, copy.deepcopy(case['data']), case['k'],
                           mod=case['mod'])
        check(len(out) == len(case['data']) and
              len(set(out)) <= case['k'], 'more than k clusters', out)
        random.seed(case['seed'] + 1)
        succ = list(CL.cluster(tree, copy.deepcopy(case['data']), lo, hi,
                               mod=case['mod']))
        if unique and single:
            check(succ == lab[lo - 1:hi], 'successive clusterings', succ,
                  'should be', lab[lo - 1:hi])
            want = [fz.root] * len(leaves)
            for s in lab:
                if len(set(s)) <= case['k']:
                    want = s
                else:
                    break
            check(out == want, 'k-bounded clustering', out, 'should be',
                  want)
    return len(steps) > 2


def check_search(tree, case, steps, lo, hi):
    pick = steps[lo - 1:hi]
    for labels in (True, False):
        random.seed(case['seed'] + 1)
        out = CL.cluster_split_search(
            tree, copy.deepcopy(case['data']), HEURISTICS[case['heuristic']],
            lo, hi, mod=case['mod'], labels=labels,
            verbose=case['seed'] % 2 == 1)
        got = [c if isinstance(c, str) else name(c) for c in out]
        fin = [(h, s) for s, h in pick if not math.isinf(h)]
        if not fin:
            check(len(got) == len(case['data']), 'labels missing', got)
            continue
        best = min(h for h, _ in fin)
        good = [s for h, s in fin if h <= best + 1e-7 * max(1, abs(best))]
        check(got in good, 'search returns', got, 'but the best are', good)
        check(all(isinstance(c, str) == labels for c in out),
              'labels and concepts confused')
        if labels and case['heuristic'] == 'CU':
            random.seed(case['seed'] + 1)
            out = CL.cluster_split_search(
                tree, copy.deepcopy(case['data']), minsplit=lo, maxsplit=hi,
                mod=case['mod'])
            check(out in good, 'search returns', out, 'but the best are',
                  good)


@st.composite
def big_clusters(draw):
    case = draw(gens.big_case(14, 45))
    case.update(mod=False, heuristic=draw(st.sampled_from(
        sorted(HEURISTICS))), as_name=draw(st.booleans()),
        min=draw(st.integers(1, 16)), span=draw(st.integers(0, 24)),
        k=draw(st.integers(2, 24)), times=draw(st.sampled_from([1, 1, 3])),
        step=draw(st.sampled_from([1, 2])))
    return case


def expand_clusters(case):
    case = gens.expand(case)
    return dict(case, data=case['insts'][::case.get('step', 2)] +
                case['queries'])


@sub('C18', 'big', big_clusters(), 50, rule='at least twelve clusterings')
def c18_big(case):
    case = expand_clusters(case)
    c18_sequence(case)
    tree, _ = fitted(case)
    return len(list(run_iter(tree, case))) > 11


@st.composite
def deep_clusters(draw):
    case = draw(big_clusters())
    case['big'] = dict(case['big'], n=draw(st.integers(60, 160)),
                       shape=draw(st.sampled_from(['deep', 'near', 'many',
                                                   'proto'])))
    return case


@sub('C18', 'big-depths', deep_clusters(), 40, rule='at least eight levels')
def c18_big_depths(case):
    case = expand_clusters(case)
    c18_depths(case)
    tree, _ = fitted(case)
    return depth_of(tree.root) > 7


@sub('C18', 'chain', st.fixed_dictionaries(dict(
    kind=st.sampled_from(['cobweb', 'cobweb3', 'trestle']), seed=gens.seeds,
    n=st.sampled_from(range(3, 61)), turn=st.sampled_from(range(10)),
    take=st.sampled_from([12, 12, 60]),
    heuristic=st.sampled_from(sorted(HEURISTICS)))), 300,
    rule='at least ten levels')
def c18_chain(case):
    """Hierarchies put together by hand, up to 60 levels deep."""
    case = dict(case, scaling=0.5, inner=True, mod=False, as_name=False)
    rng = random.Random(case['seed'])
    insts = [{'a': 'v%d' % k, 'b': rng.choice('uvw')}
             for k in range(case['n'])]
    case['insts'] = insts
    tree = make_tree(case)

    def grow(node, part):
        for i in part[1:]:
            node.increment_counts(i)
        if len(part) < 2:
            return
        cut = 1 if rng.randrange(10) >= case['turn'] else \
            rng.randrange(1, len(part))
        halves = [part[:cut], part[cut:]]
        rng.shuffle(halves)
        for h in halves:
            grow(node.create_new_child(h[0]), h)
    tree.root.increment_counts(insts[0])
    grow(tree.root, insts)
    case['data'] = rng.sample(insts, min(len(insts), case.get('take', 12)))
    rows = CL.depth_labels(tree, copy.deepcopy(case['data']), mod=False)
    fz = Frozen(tree, case)
    depth = 0
    for j, inst in enumerate(case['data']):
        leaf = rows[-1][j]
        p = fz.path(leaf)
        check([r[j] for r in rows] == p + [leaf] * (len(rows) - len(p)),
              'depth labels', [r[j] for r in rows], 'should follow', p)
        depth = max(depth, len(p))
        check(leaf in {name(n) for n in greedy_leaves(tree, inst, case)},
              'instance', inst, 'labelled', leaf)
    check(len(rows) == depth, 'number of levels', len(rows), 'expected',
          depth)
    fz, steps, leaves = full_sequence(tree, case)
    check_sequence(fz, leaves, steps, case['heuristic'])
    return depth > 9


@st.composite
def structured_cluster_case(draw):
    case = draw(c12_case(4, 7, plain_vars=False))
    case['mod'] = draw(st.booleans())
    case['data'] = copy.deepcopy(case['insts'])
    if case['mod']:
        case['insts'] = case['insts'][:draw(st.integers(0, 1))]
    case['heuristic'] = draw(st.sampled_from(['CU', 'AIC', 'BIC', 'many']))
    case['as_name'] = draw(st.booleans())
    return case


@sub('C18', 'structured', structured_cluster_case(), 500, rule='at least '
     'three clusterings of instances with objects')
def c18_structured(case):
    random.seed(case['seed'])
    tree = TrestleTree(case['scaling'], case['inner'])
    for i in case['insts']:
        tree.ifit(copy.deepcopy(i))
    before = snap(tree)
    fz, steps, leaves = full_sequence(tree, case)
    check(case['mod'] or snap(tree) == before, 'clustering changed the tree')
    check_sequence(fz, leaves, steps, case['heuristic'])
    return len(steps) > 2 and any(gens.variables(i) for i in case['data'])


@sub('C18', 'depths', cluster_case(), 1200, rule='at least four levels')
def c18_depths(case):
    random.seed(case['seed'])
    tree = make_tree(case)
    for i in case['insts']:
        tree.ifit(copy.deepcopy(i))
    before = snap(tree)
    rows = CL.depth_labels(tree, copy.deepcopy(case['data']),
                           mod=case['mod'])
    if not case['mod']:
        check(snap(tree) == before, 'depth labels changed the tree')
    else:
        check(tree.root.count == len(case['insts']) + len(case['data']),
              'not every instance was fitted')
    fz = Frozen(tree, case)
    check(all(len(r) == len(case['data']) for r in rows), 'labels missing')
    depth = 0
    for j, inst in enumerate(case['data']):
        leaf = rows[-1][j]
        check(leaf in fz.stats and not fz.kids[leaf], 'last level', leaf,
              'is no leaf')
        p = fz.path(leaf)
        depth = max(depth, len(p))
        col = [r[j] for r in rows]
        check(col == p + [leaf] * (len(rows) - len(p)), 'depth labels', col,
              'should follow', p)
        if not case['mod']:
            check(leaf in {name(n) for n in greedy_leaves(tree, inst, case)},
                  'instance', inst, 'labelled', leaf)
        else:
            s = fz.stats[leaf]
            check(all((a in s.num) if fz.num and M.is_number(v)
                      else s.nom.get(a, {}).get(v)
                      for a, v in inst.items()), 'leaf does not hold', inst)
    check(len(rows) == depth, 'number of levels', len(rows), 'expected',
          depth)
    return depth > 3


@sub('C18', 'defaults', cluster_case(), 250, rule='at least two clusterings')
def c18_defaults(case):
    """What is not asked for is as documented: instances are fitted, by
    category utility, one split, every refinement in turn, names as labels."""
    random.seed(case['seed'])
    first = make_tree(case)
    for i in case['insts']:
        first.ifit(copy.deepcopy(i))

    def run(f, **kw):
        tree = copy.deepcopy(first)
        random.seed(case['seed'] + 2)
        return f(tree, copy.deepcopy(case['data']), **kw), tree.root.count

    def parts(labels):
        check(all(isinstance(x, str) for x in labels), 'labels', labels)
        return [labels.index(x) for x in labels]
    every = lambda t, d, **k: list(CL.cluster_iter(t, d, **k))
    seq, n1 = run(every)
    want, n2 = run(every, heuristic=CL.CU, minsplit=1, maxsplit=10 ** 5,
                   mod=True, labels=True)
    lead = parts(want[0][0])
    check(parts(seq[0][0]) == lead and near(seq[0][1], want[0][1]) and
          len(seq) == len(want) and n1 == n2, 'default clustering', seq,
          'expected', want)
    one, n1 = run(lambda t, d: list(CL.cluster(t, d)))
    check([parts(x) for x in one] == [lead] and n1 == n2,
          'default clustering', one, 'expected', want[:1])
    few, n1 = run(CL.k_cluster)
    check(len(set(few)) <= 3 and n1 == n2 and
          (len(set(few)) > 1 or len(set(lead)) > 3 or len(set(lead)) == 1),
          'default clustering into three', few)
    parts(few)
    best, n1 = run(CL.cluster_split_search)
    check(parts(best) == lead and n1 == n2, 'default search', best)
    deep, n1 = run(CL.depth_labels)
    want, n2 = run(CL.depth_labels, mod=True)
    check(n1 == n2 and [parts(x) for x in deep] == [parts(x) for x in want],
          'default depth labels', deep, 'expected', want)
    return len(seq) > 1


@sub('C18', 'invalid', cluster_case(), 150, rule='every case')
def c18_invalid(case):
    tree, _ = fitted(case)
    data = case['data']
    before = snap(tree)
    calls = [lambda: CL.k_cluster(tree, data, case['k'] % 2),
             lambda: CL.k_cluster(tree, data, -case['k']),
             lambda: CL.k_cluster(tree, [], case['k']),
             lambda: list(CL.cluster(tree, data, 0, 2)),
             lambda: list(CL.cluster(tree, data, -case['min'], 2)),
             lambda: list(CL.cluster(tree, data, case['min'] + 1,
                                     case['min'])),
             lambda: list(CL.cluster(tree, [], 1, 2)),
             lambda: CL.cluster_split_search(tree, data, CL.AIC, 0, 3),
             lambda: CL.cluster_split_search(tree, [], CL.AIC, 1, 3),
             lambda: list(CL.cluster_iter(tree, data, heuristic='nosuch')),
             lambda: list(CL.cluster_iter(tree, [])),
             lambda: CL.depth_labels(tree, [])]
    for n, f in enumerate(calls):
        try:
            out = f()
        except Exception:
            continue
        raise Violation('invalid request %d accepted: %r' % (n, out))
    check(snap(tree) == before, 'a rejected request changed the tree')
    return True


# ---------------------------------------------------------------- C19

class SpyTree(object):
    """Records what evaluation does to a tree."""

    def __init__(self):
        self.log = []

    def clear(self):
        self.log.append(('clear',))

    def ifit(self, inst):
        self.log.append(('fit', copy.deepcopy(inst)))

    def categorize(self, inst):
        self.log.append(('categorize', copy.deepcopy(inst)))
        return SpyConcept()


class SpyConcept(object):
    def predict(self, *a, **k):
        return 3.0

    def probability(self, *a, **k):
        return 0.25


@st.composite
def protocol_case(draw):
    n = draw(st.integers(0, 8))
    long = draw(st.integers(0, 15)) == 0
    if long:
        n += draw(st.sampled_from([20, 40, 110]))
    insts = []
    for i in range(n):
        inst = {'_n': i}
        if i > 8:
            insts.append(dict(insts[i % 8], _n=i))
            continue
        if draw(st.integers(0, 4)):
            inst['t'] = draw(st.sampled_from(['p', 'q', 2, 3.5, False, 0, '',
                                              0.0, ()]))
        if draw(st.booleans()):
            inst['a'] = draw(st.sampled_from(['u', 'v']))
        insts.append(inst)
    return dict(seed=draw(gens.seeds), insts=insts,
                length=draw(st.integers(0, 10)) + (n if long else 0),
                runs=draw(st.sampled_from([0, 1, 2, 3, 4, 5, 7])), first=draw(st.booleans()),
                default=draw(st.booleans()))


@sub('C19', 'protocol', protocol_case(), 1200, rule='two runs over at least '
     'three instances')
def c19_protocol(case):
    random.seed(case['seed'])
    tree = SpyTree()
    log = tree.log

    def score(t, inst, attr, val):
        check(t is tree and attr == 't', 'score called with', t, attr)
        log.append(('score', copy.deepcopy(inst), copy.deepcopy(val)))
        return len([e for e in log if e[0] == 'score'])

    given = copy.deepcopy(case['insts'])
    kw = {} if case['default'] else dict(randomize_first=case['first'])
    table = EV.incremental_evaluation(tree, given, 't', case['length'],
                                      runs=case['runs'], score=score, **kw)
    rows, n = case['runs'], min(case['length'], len(case['insts']))
    check(len(table) == rows and all(len(r) == n for r in table), 'table is',
          table, 'expected', rows, 'rows of', n)
    check([x for r in table for x in r] == list(range(1, rows * n + 1)),
          'scores misplaced', table)
    check(len(log) == rows * (1 + 2 * n), 'steps', log)
    byid = {i['_n']: i for i in case['insts']}
    pos = 0
    for r in range(rows):
        check(log[pos] == ('clear',), 'run does not start from a cleared '
              'tree', log[pos])
        order = []
        for k in range(n):
            s, f = log[pos + 1 + 2 * k], log[pos + 2 + 2 * k]
            check(s[0] == 'score' and f[0] == 'fit', 'instance not scored '
                  'before it is fitted', s, f)
            check(same_instance(s[1], f[1]), 'scored', s[1], 'fitted', f[1])
            check(same_instance(s[1], byid[s[1]['_n']]), 'instance altered',
                  s[1])
            check(s[2] == s[1].get('t') and
                  type(s[2]) is type(s[1].get('t')), 'scored against', s[2],
                  'instead of', s[1].get('t'))
            order.append(s[1]['_n'])
        check(len(set(order)) == len(order), 'instance used twice', order)
        if r == 0 and not case['default'] and not case['first']:
            check(order == list(range(n)), 'first run not in the given '
                  'order', order)
        pos += 1 + 2 * n
    return rows > 1 and n > 2


@sub('C19', 'shuffled', gens.seeds, 40, rule='every case')
def c19_shuffled(seed):
    """Later runs, and the first if asked, are in random order."""
    random.seed(seed)
    same = {}
    orders = {True: set(), False: set()}
    for _ in range(6):
        tree = SpyTree()
        insts = [{'n': i} for i in range(8)]
        EV.incremental_evaluation(tree, insts, 't', 8, runs=2 + seed % 6,
                                  score=lambda *a: 0,
                                  randomize_first=False)
        o = [e[1]['n'] for e in tree.log if e[0] == 'fit']
        check(o[:8] == list(range(8)), 'first run not in the given order', o)
        orders[False].add(tuple(o[8:16]))
        # a run in the order of the one before it is a chance of 1 in 40320
        for r in range(1, 2 + seed % 6):
            same[r] = same.get(r, 0) + (o[8 * r:8 * r + 8] ==
                                        o[8 * r - 8:8 * r])
        tree = SpyTree()
        insts = [{'n': i} for i in range(8)]
        EV.incremental_evaluation(tree, insts, 't', 8, runs=1,
                                  score=lambda *a: 0)
        orders[True].add(tuple(e[1]['n'] for e in tree.log
                               if e[0] == 'fit'))
    for k in orders:
        check(len(orders[k]) > 1, 'runs are not randomised', orders[k])
    check(all(n < 3 for n in same.values()), 'runs repeat the order of the '
          'one before', same)
    # not asked otherwise: one run, scored by probability
    data = [{'t': random.choice('ab'), 'k': random.choice('pq')}
            for _ in range(5)]
    log = []

    class Logged(CobwebTree):
        def ifit(self, instance):
            log.append(dict(instance))
            return CobwebTree.ifit(self, instance)
    got = EV.incremental_evaluation(Logged(), [dict(i) for i in data], 't', 5)
    check(len(got) == 1 and len(got[0]) == 5, 'default evaluation', got)
    check(sorted(map(repr, (sorted(i.items()) for i in log))) ==
          sorted(map(repr, (sorted(i.items()) for i in data))),
          'default evaluation fits', log)
    check(got[0][0] == 0 and all(0 <= x <= 1 for x in got[0]),
          'default scores', got)
    got = EV.incremental_evaluation(CobwebTree(), [{'t': 'a'}] * 3, 't', 3)
    check(got == [[0, 1, 1]], 'default scores', got)
    return True


@sub('C19', 'blind', st.tuples(query_case(lo=1, hi=4, queries=2),
                               st.integers(0, 50)), 600,
     rule='the instance carries the target attribute')
def c19_blind(arg):
    """What the tree is shown while scoring."""
    case, pick = arg
    rich = False
    for inst in case['insts'] + case['queries']:
        if not inst:
            continue
        attrs = sorted(inst, key=repr) + ['absent']
        attr = attrs[pick % len(attrs)]
        val = inst.get(attr)
        probe = val + 1 if M.is_number(val) else 'probe'
        for f, val in [(f, v) for v in (val, probe) for f in (
                EV.probability, EV.error, EV.absolute_error,
                EV.squared_error)]:
            tree = SpyTree()
            given = copy.deepcopy(inst)
            try:
                got = f(tree, given, attr, val)
            except Exception:
                check(val is None and f is not EV.probability,
                      'scoring failed', f.__name__, inst, attr)
                got = None
            check(same_instance(given, inst), 'scoring changed the instance',
                  inst, given)
            shown = [e for e in tree.log]
            check(len(shown) == 1 and shown[0][0] == 'categorize',
                  'scoring does', shown)
            want = {a: v for a, v in inst.items() if a != attr}
            check(same_instance(shown[0][1], want), 'the tree is shown',
                  shown[0][1], 'instead of', want)
            if got is not None:
                if f is EV.probability:
                    e = 0.25
                elif M.is_number(val):
                    e = {EV.error: val - 3.0,
                         EV.absolute_error: abs(val - 3.0),
                         EV.squared_error: (val - 3.0) ** 2}[f]
                else:
                    e = 1
                check(close(got, e), f.__name__, 'is', got, 'expected', e)
        rich = rich or attr in inst
    return rich


SCORES = {'probability': EV.probability, 'error': EV.error,
          'absolute': EV.absolute_error, 'squared': EV.squared_error}


def legal_scores(which, tree, inst, attr, val, case):
    """Allowed scores, one per concept the blinded instance can reach.

    A set of numbers, and whether an error may be raised instead."""
    num = numeric(case)
    q = {a: v for a, v in inst.items() if a != attr}
    scales = history_scales(case)
    if case['kind'] == 'dummy':
        scales = M.Scales(None, True)
        leaves = [tree.root]
    else:
        leaves = greedy_leaves(tree, q, case)
    ok, may_raise = [], False
    for n in leaves:
        s = M.node_stats(n)
        if which == 'probability':
            ok.append(want_probability(s, attr, val, scales, num))
            continue
        opts = dict(s.nom.get(attr, {}))
        if attr in s.num:
            opts['#num'] = s.num[attr][0]
        opts[None] = s.count - sum(opts.values())
        top = max(opts.values())
        for v, c in opts.items():
            if c < top - 1e-9:
                continue
            pred = s.num[attr][1] if v == '#num' else v
            if M.is_number(val):
                if pred is not None and not M.is_number(pred):
                    return None, True       # number against a nominal value
                if pred is None:
                    may_raise = True
                    continue
                e = val - pred
            elif val is None and M.is_number(pred):
                may_raise = True
                continue
            else:
                e = 0 if val == pred else 1
            ok.append({'error': e, 'absolute': abs(e),
                       'squared': e * e}[which])
    return ok, may_raise


@st.composite
def score_case(draw):
    case = draw(query_case(lo=draw(st.sampled_from([1, 5, 9])), hi=14,
                           queries=1,
                           kinds=('cobweb', 'cobweb3', 'trestle', 'dummy')))
    if case['kind'] == 'dummy':
        case['scaling'] = None
    case['score'] = draw(st.sampled_from(sorted(SCORES)))
    attrs = sorted({a for i in case['insts'] for a in i}, key=repr)
    case['attr'] = draw(st.sampled_from(attrs or ['a']))
    case['length'] = max(1, len(case['insts']) -
                         draw(st.sampled_from([0, 0, 1, 3])))
    return case


@sub('C19', 'scores', score_case(), 1200, rule='a score from a tree of two '
     'levels for an instance with the target')
def c19_scores(case):
    """Scores of a real evaluation equal their definition."""
    random.seed(case['seed'])
    tree = make_tree(case)
    tree.ifit({'stale': 'yes'})
    done, rich = [], [False]
    real = SCORES[case['score']]
    attr = case['attr']

    def score(t, inst, a, val):
        check(t is tree, 'other tree scored')
        check(t.root.count == len(done), 'tree has seen', t.root.count,
              'instances when scoring number', len(done))
        before = snap(t)
        keep = copy.deepcopy(inst)
        now = dict(case, insts=list(done))
        ok, may_raise = legal_scores(case['score'], t, inst, a, val, now)
        try:
            got = real(t, inst, a, val)
        except Exception as e:
            check(may_raise, 'score raises', repr(e), 'for', inst, a)
            got = 0.0
        else:
            check(ok is None or any(close(got, x, 1e-6, 1e-9) for x in ok),
                  case['score'],
                  'of', a, '=', val, 'given', keep, 'is', got,
                  'but should be', ok)
            other = dict(inst)
            if a in other and not may_raise and len(ok) == 1:
                other[a] = (other[a] + 1 if M.is_number(other[a])
                            else 'another')
                check(close(real(t, other, a, val), got, 1e-6, 1e-9),
                      'the score depends on the hidden target of', inst)
        check(same_instance(inst, keep), 'scoring changed the instance')
        check(snap(t) == before, 'scoring changed the tree')
        done.append(keep)
        if t.root.children and a in inst:
            rich[0] = True
        return got

    given = copy.deepcopy(case['insts'])
    rows = EV.incremental_evaluation(tree, given, attr, case['length'], 1,
                                     score, False)
    check(len(rows) == 1 and len(rows[0]) == case['length'], 'table', rows)
    tol = tolerance(case)
    check_conserved(tree, M.stats_of(case['insts'][:case['length']],
                                     numeric(case)), tol)
    return rich[0]


@sub('C19', 'components', st.sampled_from(sorted(SCORES)), 8,
     rule='every case')
def c19_components(which):
    tree = TrestleTree()
    tree.ifit({'a': 'x', 'c': {'b': 1}})
    try:
        SCORES[which](tree, {'a': 'x', 'c': {'b': 1}}, 'c', {'b': 1})
    except Exception:
        return True
    raise Violation('a component value was given a score')


# ---------------------------------------------------------------- C20

def want_export(n):
    """Reference export of a concept."""
    s = M.node_stats(n)
    counts = {}
    for a in s.attrs():
        t = counts[str(a)] = {str(v): c for v, c in s.nom.get(a, {}).items()}
        if a in s.num:
            k, mean, m2 = s.num[a]
            t['#ContinuousValue#'] = dict(mean=mean, n=k,
                                          std=M.unbiased_std(k, m2))
    return dict(name='Concept' + str(n.concept_id), size=s.count,
                counts=counts, children=[want_export(c) for c in n.children])


def same_export(got, want, where='root'):
    check(isinstance(got, dict), 'export of', where, 'is', got)
    for k in ('name', 'size', 'counts', 'children'):
        check(k in got, 'export of', where, 'lacks', k)
    check(got['name'] == want['name'], 'name', got['name'], 'should be',
          want['name'])
    check(got['size'] == want['size'], 'size of', want['name'], got['size'],
          'should be', want['size'])
    check(set(got['counts']) == set(want['counts']), 'attributes of',
          want['name'], got['counts'], 'should be', want['counts'])
    for a, t in want['counts'].items():
        g = got['counts'][a]
        check(set(g) == set(t), 'values of', a, g, 'should be', t)
        for v, c in t.items():
            if isinstance(c, dict):
                check(set(g[v]) >= {'mean', 'std', 'n'} and
                      g[v]['n'] == c['n'] and
                      close(g[v]['mean'], c['mean'], 1e-9, 1e-9) and
                      close(g[v]['std'], c['std'], 1e-6, 1e-6),
                      'numeric summary of', a, g[v], 'should be', c)
            else:
                check(g[v] == c, 'count of', a, v, g[v], 'should be', c)
    kids = {c['name']: c for c in got['children']}
    check(len(kids) == len(got['children']) and
          set(kids) == {c['name'] for c in want['children']},
          'children of', want['name'], 'are', sorted(kids), 'instead of',
          [c['name'] for c in want['children']])
    for c in want['children']:
        same_export(kids[c['name']], c, c['name'])


EXPORT_KINDS = ('cobweb', 'cobweb3', 'trestle')


@sub('C20', 'export', query_case(lo=1, hi=14, queries=1,
                                 kinds=EXPORT_KINDS + ('dummy',)), 1200,
     rule='at least two levels')
def c20_export(case):
    renumber(case)
    tree, _ = fitted(case)
    before = snap(tree)
    out = tree.root.output_json()
    check(snap(tree) == before, 'export changed the tree')
    same_export(out, want_export(tree.root))
    same_export(json.loads(json.dumps(out)), want_export(tree.root))
    for n in tree_nodes(tree)[:3]:
        same_export(n.output_json(), want_export(n))
    seen = []

    def walk(o):
        seen.append(o['name'])
        for c in o['children']:
            walk(c)
    walk(out)
    check(len(set(seen)) == len(seen), 'names not distinct', seen)
    return bool(tree.root.children)


def printed(node, depth=0):
    """[(depth, concept)] in the order they are printed."""
    out = [(depth, node)]
    for c in node.children:
        out += printed(c, depth + 1)
    return out


@sub('C20', 'printed', query_case(lo=1, hi=14, queries=1,
                                  kinds=EXPORT_KINDS + ('dummy',)), 500,
     rule='at least three levels')
def c20_printed(case):
    """One line per concept, indented as deep as it is."""
    tree, _ = fitted(case)
    check(str(tree) == str(tree.root), 'tree and root print differently')
    for top in tree_nodes(tree)[:3]:
        lines = str(top).rstrip('\n').split('\n')
        want = printed(top)
        check(len(lines) == len(want), 'printed', len(lines), 'lines for',
              len(want), 'concepts')
        for line, (depth, n) in zip(lines, want):
            bare_line = line.lstrip('\t')
            check(len(line) - len(bare_line) == depth, 'printed at depth',
                  len(line) - len(bare_line), 'instead of', depth)
            s = M.node_stats(n)
            check(float(bare_line.rsplit(':', 1)[1]) == s.count,
                  'printed count of', s, 'in', line)
            for a in s.attrs():
                check(str(a) in line, 'attribute', a, 'not printed', line)
                for v in s.nom.get(a, {}):
                    check(str(v) in line, 'value', v, 'not printed', line)
                if a in s.num:
                    k, mean, m2 = s.num[a]
                    got = re.findall(r'(-?[0-9.]+) \((-?[0-9.]+)\) '
                                     r'\[([0-9]+)\]', line)
                    dev = M.unbiased_std(k, m2)
                    near_by = 1e-4 * max(1, abs(mean), dev)
                    check(any(int(z) == k and
                              abs(float(x) - mean) <= near_by and
                              abs(float(y) - dev) <= near_by
                              for x, y, z in got),
                          'numeric summary of', a, s.num[a], 'not printed',
                          line)
    return any(d > 1 for d, _ in printed(tree.root))


@sub('C20', 'export-structured', c12_case(1, 6), 300, rule='at least two '
     'levels with objects')
def c20_export_structured(case):
    random.seed(case['seed'])
    tree = TrestleTree(case['scaling'], case['inner'])
    for i in case['insts']:
        tree.ifit(copy.deepcopy(i))
    out = json.loads(json.dumps(tree.root.output_json()))
    same_export(out, want_export(tree.root))
    return bool(tree.root.children) and any(gens.variables(i)
                                            for i in case['insts'])


def read_output(d):
    text = open(os.path.join(d, 'output.js')).read()
    mark = 'trestle_output='
    i = text.replace(' ', '').find(mark)
    check(i >= 0, 'output file defines no tree')
    j = text.index('{', text.index('trestle_output'))
    obj, end = json.JSONDecoder().raw_decode(text[j:])
    check('{' not in text[j + end:], 'trailing output', text[j + end:])
    return obj


def source_dir():
    return os.path.join(os.path.dirname(os.path.abspath(VZ.__file__)),
                        'visualization_files')


def digest(d):
    out = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p) and not f.endswith('.pyc'):
            out[f] = hashlib.md5(open(p, 'rb').read()).hexdigest()
    return out


def drop_leaves(o):
    return dict(o, children=[drop_leaves(c) for c in o['children']
                             if c['children']])


def stop_at(o, names):
    if o['name'] in names:
        return dict(o, children=[])
    return dict(o, children=[stop_at(c, names) for c in o['children']])


VIZ_FILES = ['viz.html', 'viz_logic.js', 'viz_styling.css', 'output.js']


@st.composite
def viz_case(draw):
    case = draw(query_case(lo=draw(st.sampled_from([1, 6])), hi=14,
                           queries=1, kinds=EXPORT_KINDS))
    case['what'] = draw(st.sampled_from(['full', 'cut', 'cut', 'clusters',
                                         'clusters']))
    case['cuts'] = draw(st.integers(0, 4))
    case['nodes'] = draw(st.booleans())
    case['split'] = draw(st.integers(1, 4))
    case['recreate'] = draw(st.booleans())
    case['existing'] = draw(st.sampled_from(
        ['none', 'own', 'own', ['output.js']]))
    return case


@sub('C20', 'deep-files', st.tuples(gens.planted_case(), st.integers(6, 18),
                                    st.integers(0, 20)), 60,
     rule='more than nine levels cut off')
def c20_deep(arg):
    """Hierarchies of many levels, made by hand."""
    case, stem, cuts = arg
    case = dict(case, planted=dict(case['planted'], stem=stem, most=2))
    case.update(what='cut', cuts=cuts, recreate=True, existing='none')
    c20_files(case)
    return cuts > 9


@st.composite
def big_viz(draw):
    case = draw(gens.big_case(20, 60, shapes=['wide', 'deep', 'proto']))
    case.update(what=draw(st.sampled_from(['cut', 'clusters', 'clusters'])),
                cuts=draw(st.integers(0, 12)), nodes=draw(st.booleans()),
                split=draw(st.integers(1, 40)), recreate=True,
                existing='none')
    return case


@sub('C20', 'big-files', big_viz(), 40, rule='at least 20 clusters or a tree '
     'of eight levels')
def c20_big(case):
    case = gens.expand(case)
    c20_files(case)
    tree, _ = fitted(case)
    return depth_of(tree.root) > 7 or case['split'] > 20


@sub('C20', 'files', viz_case(), 500, rule='a cut or clustered view of a '
     'tree of two levels')
def c20_files(case):
    renumber(case)
    tree, _ = fitted(case)
    before = snap(tree)
    src = digest(source_dir())
    saved = {f: open(os.path.join(source_dir(), f), 'rb').read() for f in src}
    base = tempfile.mkdtemp(prefix='cfviz')
    cwd = os.getcwd()
    try:
        os.chdir(base)
        dst = os.path.join(base, 'out')
        os.mkdir(dst)
        own = {}
        if case['existing'] != 'none':
            for f in VIZ_FILES if case['existing'] == 'own' \
                    else case['existing']:
                with open(os.path.join(dst, f), 'w') as h:
                    h.write('mine')
            own = digest(dst)
        want = want_export(tree.root)
        kw = dict(dst=dst)
        if not case['recreate'] or case['seed'] % 2:
            kw['recreate_html'] = case['recreate']
        if case['what'] == 'full':
            VZ.visualize(tree, **kw)
        elif case['what'] == 'cut':
            VZ.visualize_no_leaves(tree, case['cuts'], **kw)
            for _ in range(case['cuts']):
                want = drop_leaves(want)
        else:
            data = copy.deepcopy(case['insts'])
            rows = list(CL.cluster_iter(tree, data, maxsplit=case['split'],
                                        mod=False, labels=not case['nodes']))
            cl = rows[-1][0]
            names = {c if isinstance(c, str) else name(c) for c in cl}
            VZ.visualize_clusters(tree, cl, **kw)
            want = stop_at(want, names)
        same_export(read_output(dst), want)
        check(snap(tree) == before, 'visualizing changed the tree')
        now = digest(dst)
        check(set(now) == {'viz.html', 'viz_logic.js', 'viz_styling.css',
                           'output.js'}, 'files written', sorted(now))
        for f in ('viz.html', 'viz_logic.js', 'viz_styling.css'):
            fresh = case['recreate'] or f not in own
            check(now[f] == (src[f] if fresh else own[f]), 'supporting file',
                  f, 'was' if not fresh else 'was not', 'replaced')
        check(os.listdir(base) == ['out'], 'written outside the chosen '
              'directory', os.listdir(base))
        check(digest(source_dir()) == src, 'files of the package changed')
    finally:
        if digest(source_dir()) != src:
            for f in saved:
                with open(os.path.join(source_dir(), f), 'wb') as h:
                    h.write(saved[f])
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)
    return case['what'] != 'full' and depth_of(tree.root) > 2


IN_PLACE = '''
import sys, os, json, random, copy, webbrowser
opened = []
webbrowser.open = lambda url, *a, **k: opened.append(url)
from concept_formation.cobweb3 import Cobweb3Tree
from concept_formation import visualize as V
here = os.path.join(os.path.dirname(os.path.abspath(V.__file__)),
                    'visualization_files')
out = []
for seed, what, insts in %r:
    random.seed(seed)
    t = Cobweb3Tree()
    for i in insts:
        t.ifit(i)
    full = t.root.output_json()
    names = []
    if what == 'full':
        V.visualize(t)
    elif what == 'cut':
        V.visualize_no_leaves(t)
    else:
        names = ['Concept' + str(c.concept_id) for c in t.root.children] or \\
            ['Concept' + str(t.root.concept_id)]
        V.visualize_clusters(t, names)
    out.append((what, full, names, open(os.path.join(here, 'output.js')).read(),
                sorted(os.listdir(here))))
print('RESULT' + json.dumps([out, opened]))
'''


@sub('C20', 'package', st.lists(st.tuples(
    gens.seeds, st.sampled_from(['full', 'cut', 'clusters']),
    st.lists(st.fixed_dictionaries(dict(
        a=st.sampled_from('uvw'), n=st.sampled_from([1.5, 2, 9]))),
        min_size=1, max_size=8)), min_size=2, max_size=6), 8, thorough=160,
    rule='a cut or clustered view of a tree of two levels')
def c20_package(cases):
    """Without a directory the package's own folder is used, here that of a
    scratch copy of the package, and defaults are as documented."""
    base = tempfile.mkdtemp(prefix='cfviz')
    try:
        pkg = os.path.dirname(os.path.abspath(VZ.__file__))
        shutil.copytree(pkg, os.path.join(base, 'concept_formation'),
                        ignore=shutil.ignore_patterns(
                            '__pycache__', 'data_files', 'tests', 'examples'))
        inner = os.path.join(base, 'concept_formation', 'visualization_files')
        before = digest(inner)
        top = sorted(os.listdir(os.path.join(base, 'concept_formation')))
        env = dict(os.environ)
        env['PYTHONPATH'] = base
        r = subprocess.run([sys.executable, '-c', IN_PLACE % (cases,)],
                           env=env, stdout=subprocess.PIPE, cwd=base,
                           stderr=subprocess.PIPE, timeout=60)
        text = r.stdout.decode('utf8', 'replace')
        check(r.returncode == 0 and 'RESULT' in text, 'visualizing without '
              'a directory fails', r.stderr.decode('utf8', 'replace')[-300:])
        out, opened = json.loads(text[text.index('RESULT') + 6:])
        check(len(opened) == len(cases) and
              all(u.endswith('viz.html') for u in opened), 'opened', opened)
        for what, want, names, js, files in out:
            if what == 'cut':
                want = drop_leaves(want)
            elif what == 'clusters':
                want = stop_at(want, set(names))
            with open(os.path.join(base, 'output.js'), 'w') as h:
                h.write(js)
            same_export(read_output(base), want)
            check(set(files) == set(before), 'files', files)
        os.remove(os.path.join(base, 'output.js'))
        now = digest(inner)
        check({f for f in now if now[f] != before.get(f)} <= {'output.js'},
              'other files of the package written')
        check(sorted(os.listdir(os.path.join(base, 'concept_formation'))) ==
              top and os.listdir(base) == ['concept_formation'],
              'written elsewhere')
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return any(w != 'full' and len({repr(i) for i in d}) > 1
               for _, w, d in cases)


# ---------------------------------------------------------------- C21

BAD_ATTRS = [5, None, 2.5, '', (), True, frozenset(['a'])]
BAD_VALUES = [[1], [], {1}, ('x', [1]), {'k': 'v'}, None, bytearray(b'x')]
BAD_RELS = [('r', 5, '?a'), ('r', '?a', None), ('r', '?a', ('q', 5, 'c')),
            ('r', ('s', '?a', 2.5), '?b'), ('r', '?a', frozenset(['x'])),
            ('r', True, 'a'), ('r', ('b', 3), 'c'), ('r', '?a', (4, '?b')),
            ('r', ('b', ('c', None)), 'd'), ('r', 'a', 'b', ('q', 'c',
                                                            ('e', 1.5))),
            ('r', ('r', 5), 'a'), ('r', 'a', ('a', None, 'b')),
            ('r', '', 'a'), ('r', ('x', ''), 'a'), ('r', '?a', (5,)),
            ('r', 'a', 'b', 'c', 'd', 'e', 7), (8,), ((), 'a', 'b')]


@st.composite
def reject_case(draw):
    kind = draw(st.sampled_from(['cobweb', 'cobweb3', 'trestle']))
    if kind == 'trestle':
        case = draw(c12_case(0, 4, plain_vars=False))
        case['base'] = draw(gens.structured(plain_vars=False))
        case['more'] = draw(gens.structured(plain_vars=False))
    else:
        case = draw(query_case(lo=1, hi=9, queries=2, kinds=(kind,)))
        case['base'] = case['queries'][0]
        case['more'] = case['insts'].pop()
    how = draw(st.sampled_from(['attr', 'value', 'value'] +
                               (['rel'] if kind == 'trestle' else [])))
    if how == 'attr':
        case['bad'] = ('attr', draw(st.integers(0, len(BAD_ATTRS) - 1)))
    elif how == 'value':
        case['bad'] = ('value', draw(st.integers(0, len(BAD_VALUES) - 1)))
    else:
        case['bad'] = ('rel', draw(st.integers(0, len(BAD_RELS) - 1)))
    case['pos'] = draw(st.integers(0, 20))
    case['op'] = draw(st.sampled_from(['fit', 'fit', 'categorize', 'infer',
                                       'batch']))
    return case


def insert_at(d, pos, k, v):
    items = list(d.items())
    items.insert(pos % (len(items) + 1), (k, v))
    return dict(items)


def spoil(base, case):
    """base with one invalid entry, at some depth; None if not possible."""
    how, n = case['bad']
    deep = case['kind'] == 'trestle'
    if how == 'rel':
        return insert_at(base, case['pos'], BAD_RELS[n], True)
    if how == 'attr':
        k, v = BAD_ATTRS[n], 'val'
    else:
        names = ['badattr', '_bad', ('bad', 'x', 'y'), ('_bad', 'x', 'y'),
                 '?bad', ('_', ('bad', 'x'))]
        k, v = names[case['pos'] // 2 % (4 if deep else 6)], BAD_VALUES[n]
        if deep and (v is None or isinstance(v, dict)):
            return None
        known = sorted({a for i in case['insts'] for a, v2 in i.items()
                        if not isinstance(v2, dict)}, key=repr)
        if known and case['pos'] % 5 < 2:
            # an attribute the tree knows
            return {**base, known[case['pos'] % len(known)]: v}
    spots = [k2 for k2, v2 in base.items() if isinstance(v2, dict)]
    if deep and spots and case['pos'] % 2 and not (how == 'value' and
                                                   isinstance(k, tuple)):
        at = spots[case['pos'] % len(spots)]
        out = dict(base)
        out[at] = insert_at(base[at], case['pos'], k, v)
        return out
    return insert_at(base, case['pos'], k, v)


@sub('C21', 'rejected', reject_case(), 2500, rule='a rejection by a tree that '
     'has learned something')
def c21_rejected(case):
    random.seed(case['seed'])
    tree = make_tree(case)
    for i in case['insts']:
        tree.ifit(copy.deepcopy(i))
    bad = spoil(case['base'], case)
    if bad is None:
        return False
    before = snap(tree)
    op = {'fit': tree.ifit, 'categorize': tree.categorize,
          'infer': tree.infer_missing,
          'batch': lambda i: tree.fit([i])}[case['op']]
    try:
        out = op(copy.deepcopy(bad))
    except Exception:
        pass
    else:
        raise Violation('%s accepted the invalid instance %r: %r' % (
            case['op'], bad, out))
    check(snap(tree) == before, 'a rejected', case['op'], 'of', bad,
          'changed the tree')
    leaf = tree.ifit(copy.deepcopy(case['more']))
    nodes = check_links(tree)
    check(any(leaf is n for n in nodes), 'tree unusable after a rejection')
    check(tree.root.count == len(case['insts']) + 1, 'wrong count after a '
          'rejection', tree.root.count)
    tree.categorize(copy.deepcopy(case['more']))
    return bool(case['insts'])


@sub('C21', 'flat-error', reject_case(), 500, rule='a rejection')
def c21_value_error(case):
    """Flat trees say what is wrong with a ValueError."""
    if case['kind'] == 'trestle':
        return False
    random.seed(case['seed'])
    tree = make_tree(case)
    bad = spoil(case['base'], case)
    try:
        tree.ifit(bad)
    except ValueError:
        return True
    raise Violation('not rejected: %r' % (bad,))


@st.composite
def dummy_reject(draw):
    case = draw(c12_case(0, 3, plain_vars=False))
    case['base'] = draw(gens.structured(plain_vars=False))
    case['bad'] = draw(st.sampled_from(
        [('value', k) for k in (0, 1, 2, 3, 6)] +
        [('attr', k) for k in range(len(BAD_ATTRS))] +
        [('rel', k) for k in range(len(BAD_RELS))]))
    case['pos'] = draw(st.integers(0, 20))
    case['map'] = draw(st.booleans())
    return case


@sub('C21', 'baseline', dummy_reject(), 700, rule='a rejection')
def c21_baseline(case):
    random.seed(case['seed'])
    tree = DummyTree()
    for i in case['insts']:
        tree.ifit(copy.deepcopy(i), case['map'])
    bad = spoil(case['base'], case)
    before = snap(tree)
    try:
        tree.ifit(copy.deepcopy(bad), case['map'])
    except Exception:
        check(snap(tree) == before, 'rejected', bad, 'changed the tree')
        return True
    raise Violation('not rejected: %r' % (bad,))


@st.composite
def valid_case(draw):
    case = draw(query_case(lo=1, hi=8, queries=3,
                           kinds=('cobweb', 'cobweb3', 'trestle', 'dummy')))
    odd = [{}, {}, {'_only': 'hidden'}, {'_only': 'other'}, {'b': ('t', 1)},
           {'b': ''}, {'b': False}, {'_': 'x'}, {' ': 'y'}, {'B b': 'z'}]
    if case['kind'] in ('cobweb', 'cobweb3'):
        odd += [{('t', 'u', 'w'): 'x'}, {('_', 'h'): 'x'}]
    for k in draw(st.lists(st.integers(0, 100), min_size=1, max_size=4)):
        case['insts'].insert(k % (len(case['insts']) + 1),
                             odd[k % len(odd)])
    case['queries'] += [odd[k] for k in draw(st.lists(
        st.integers(0, len(odd) - 1), max_size=2))]
    return case


def clean(i):
    """'b' stays nominal in this check."""
    return {a: (str(v) if a == 'b' and M.is_number(v) else v)
            for a, v in i.items()}


@sub('C21', 'accepted', valid_case(), 1200, rule='an empty or hidden-only '
     'instance among others')
def c21_accepted(case):
    case = dict(case, insts=[clean(i) for i in case['insts']],
                queries=[clean(i) for i in case['queries']])
    random.seed(case['seed'])
    tree = make_tree(case)
    for k, i in enumerate(case['insts']):
        leaf = tree.ifit(copy.deepcopy(i))
        if case['kind'] != 'dummy':
            check(any(leaf is n for n in check_links(tree)), 'leaf not in '
                  'the tree')
        for q in case['queries'][k % 2::2]:
            tree.categorize(copy.deepcopy(q))
            tree.infer_missing(copy.deepcopy(q))
            tree.infer_missing(copy.deepcopy(q), 'sampled', False)
    check_conserved(tree, M.stats_of(case['insts'], numeric(case)),
                    tolerance(case))
    return len(case['insts']) > 1 and any(
        not any(M.visible(a) for a in i) for i in case['insts'])


# ---------------------------------------------------------------- C22

def config(tree):
    return (type(tree), getattr(tree, 'scaling', None),
            getattr(tree, 'inner_attr_scaling', None))


@st.composite
def clear_case(draw):
    kind = draw(st.sampled_from(['cobweb', 'cobweb3', 'trestle', 'dummy',
                                 'structured', 'structured-dummy']))
    if kind.startswith('structured'):
        case = draw(c12_case(1, 4, plain_vars=False))
        case['other'] = draw(gens.history(0, 3, plain_vars=False))
        case['kind'] = 'trestle' if kind == 'structured' else 'dummy'
        return case
    case = draw(query_case(lo=1, hi=10, queries=3, kinds=(kind,)))
    case['other'] = case['queries']
    return case


@sub('C22', 'clear', clear_case(), 1200, rule='a cleared tree relearns a '
     'hierarchy')
def c22_clear(case):
    random.seed(case['seed'])
    tree = make_tree(case)
    other = case['other']
    if other and case['seed'] % 2:
        # as many as there will be after clearing
        other = [other[k % len(other)] for k in range(len(case['insts']))]
    queries = (case['insts'] + case['other'])[-4:]
    for i in other:
        tree.ifit(copy.deepcopy(i))
    for q in queries if case['seed'] % 3 else []:
        tree.categorize(copy.deepcopy(q))
        tree.infer_missing(copy.deepcopy(q))
    tree.clear()
    fresh = make_tree(case)
    check(config(tree) == config(fresh), 'clearing changed the '
          'configuration', config(tree), config(fresh))
    check(content(tree.root) == content(fresh.root) and
          tree.root.parent is None and tree.root.tree is tree,
          'cleared root', content(tree.root))
    check(snap(tree)[1] == {}, 'numeric scales survive clearing')
    out = []
    for t in (tree, fresh):
        random.seed(case['seed'] + 7)
        for i in case['insts']:
            t.ifit(copy.deepcopy(i))
        out.append((content(t.root), snap(t)[1]))
        for q in queries:
            leaf = t.categorize(copy.deepcopy(q))
            check(any(leaf is n for n in tree_nodes(t)), 'categorized', q,
                  'to a concept not in the tree')
            out[-1] += (content(leaf), t.infer_missing(copy.deepcopy(q)))
    check(out[0] == out[1], 'a cleared tree does not learn like a new one',
          out[0], out[1])
    return bool(tree.root.children) and bool(case['other'])


@st.composite
def batch_case(draw):
    case = draw(query_case(lo=1, hi=7, queries=1))
    case['iterations'] = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 6]))
    case['first'] = draw(st.booleans())
    case['as'] = draw(st.sampled_from(['list', 'tuple', 'iter']))
    case['times'] = draw(st.sampled_from([1] * 24 + [6, 12]))
    # positions at which the very object of another position is given again
    case['again'] = draw(st.lists(st.tuples(
        st.integers(0, len(case['insts']) - 1),
        st.integers(0, len(case['insts']) - 1)), max_size=2))
    return case


@sub('C22', 'batch', batch_case(), 1000, rule='two passes over at least '
     'three instances')
def c22_batch(case):
    random.seed(case['seed'])
    base = type(make_tree(case))
    log = []

    class Spy(base):
        def ifit(self, instance, *a, **k):
            log.append(copy.deepcopy(instance))
            return base.ifit(self, instance, *a, **k)

    if case['kind'] == 'cobweb':
        tree = Spy()
    else:
        tree = Spy(case['scaling'], case['inner'])
    insts = list(case['insts'])
    for a, b in case['again']:
        insts[a] = insts[b]
    if case['times'] > 1:
        insts = [dict(i, _copy='c%d' % k) for k in range(case['times'])
                 for i in insts]
    case = dict(case, insts=insts)
    given = copy.deepcopy(insts)      # keeps one object one object
    data = {'list': given, 'tuple': tuple(given),
            'iter': iter(given)}[case['as']]
    tree.fit(data, iterations=case['iterations'],
             randomize_first=case['first'])
    check(same_instance(given, case['insts']), 'fit altered the list',
          case['insts'], given)
    n, it = len(given), case['iterations']
    if log or not n * it:
        check(len(log) == n * it, 'fitted', len(log), 'instances instead of',
              n * it)
        for k in range(it):
            chunk = log[k * n:(k + 1) * n]
            check(sorted(map(repr, (typed(i) for i in chunk))) ==
                  sorted(map(repr, (typed(i) for i in given))),
                  'pass', k, 'does not fit every instance once')
            if k == 0 and not case['first']:
                check(same_instance(chunk, given), 'first pass not in the '
                      'given order', chunk, given)
    check_conserved(tree, M.stats_of(case['insts'] * it, numeric(case)),
                    tolerance(case))
    return n > 2 and it > 1


@sub('C22', 'as-incremental', gens.flat_case(lo=2, hi=10), 600,
     rule='history without ties and at least depth 3')
def c22_as_incremental(case):
    one, sh, _ = follow(case)
    if sh.ambiguous or len(sh.insts) < len(case['insts']):
        return False
    random.seed(case['seed'] + 3)
    tree = make_tree(case)
    tree.fit(copy.deepcopy(case['insts']), randomize_first=False)
    tol = tolerance(case)
    check(visible_shape(tree.root, tol) == visible_shape(one.root, tol),
          'batch fitting differs from fitting one by one')
    return depth_of(tree.root) > 2


@sub('C22', 'shuffles', gens.seeds, 40, rule='every case')
def c22_shuffles(seed):
    random.seed(seed)
    same = {}
    orders = {True: set(), False: set()}
    log = []

    class Spy(CobwebTree):
        def ifit(self, instance):
            log.append(instance['n'])
            return CobwebTree.ifit(self, instance)

    for _ in range(6):
        for first in (True, False):
            del log[:]
            passes = 2 + seed % 5
            Spy().fit([{'n': 'v%d' % i} for i in range(7)], passes, first)
            if not log:
                return False
            orders[first].add(tuple(log[:7] if first else log[7:14]))
            for k in range(1, passes):
                same[k] = same.get(k, 0) + (log[7 * k:7 * k + 7] ==
                                            log[7 * k - 7:7 * k])
    for k in orders:
        check(len(orders[k]) > 1, 'passes are not randomised', orders[k])
    check(all(n < 4 for n in same.values()), 'passes repeat the order of the '
          'one before', same)
    seen = set()
    for _ in range(6):
        del log[:]
        Spy().fit([{'n': 'v%d' % i} for i in range(7)])
        check(sorted(log) == ['v%d' % i for i in range(7)],
              'by default every instance is fitted once', log)
        seen.add(tuple(log))
    check(len(seen) > 1, 'by default the first pass is not randomised', seen)
    return True


def bare(facts):
    """Facts without how nested objects are named and contained."""
    return {(k[0], F.cut(k[1])) + k[2:] if k[0] == 'attr' else k: v
            for k, v in facts.items()
            if k[:2] != ('rel', 'has-component')}


@sub('C22', 'baseline', c12_case(1, 5, plain_vars=False), 500,
     rule='at least two instances with objects')
def c22_baseline(case):
    """The baseline tree is one concept with everything in it."""
    random.seed(case['seed'])
    for mode in (0, 1, 2, 3):
        tree = DummyTree()
        root = tree.root
        total = 0
        for inst in case['insts']:
            mapped = (mode >> (total % 2)) & 1
            before = M.node_stats(tree.root)
            given = copy.deepcopy(inst)
            got = tree.ifit(given, True) if mapped else tree.ifit(given)
            total += 1
            check(same_instance(given, inst), 'fit changed its instance')
            check(got is root and tree.root is root and not root.children,
                  'baseline does not stay a single concept')
            check(tree.categorize(copy.deepcopy(inst)) is root,
                  'not categorized to the single concept')
            new = {}
            for a, v in added(before, M.node_stats(root)).items():
                new[F.flat_key(a)] = comparable(v)
            want = {k: v for k, v in F.facts(inst).items()}
            if mapped:
                try:
                    ok = F.isomorphism(want, {k: v for k, v in new.items()},
                                       lambda v: v if isinstance(v, tuple)
                                       and len(v) == 2 and
                                       isinstance(v[0], str) and
                                       v[0] in ('num', 'str', 'bool')
                                       else comparable(v)) is not None
                except F.Budget:
                    ok = True
            else:
                ok = bare(new) == bare({k: comparable(v)
                                        for k, v in want.items()})
            check(ok, 'baseline counted', new, 'for', inst)
        check(root.count == total, 'count', root.count)
    return sum(bool(gens.variables(i)) for i in case['insts']) > 1


@sub('C22', 'baseline-maps', st.fixed_dictionaries(dict(
    seed=gens.seeds, rounds=st.integers(2, 4), objs=st.lists(
        st.dictionaries(st.sampled_from(['color', 'kind', 'z']),
                        st.sampled_from('uv'), min_size=1, max_size=3),
        min_size=1, max_size=4))), 150, rule='at least two objects')
def c22_baseline_maps(case):
    """With mapping, renamed copies of an instance are recognised."""
    rng = random.Random(case['seed'])
    random.seed(case['seed'])
    tree = DummyTree()
    first = None
    for k in range(case['rounds']):
        objs = [(n, {a: '%s%d' % (v, j) for a, v in o.items()})
                for j, (n, o) in enumerate(zip(rng.sample(
                    gens.VARPOOL[:8], len(case['objs'])), case['objs']))]
        rng.shuffle(objs)
        tree.ifit(dict(objs, top='x'), True)
        s = M.node_stats(tree.root)
        if first is None:
            first = s.attrs()
        check(s.attrs() == first and all(
            sum(t.values()) == k + 1 for t in s.nom.values()),
            'a renamed copy was not mapped onto', first, 'giving', s)
    return len(case['objs']) > 1


@sub('C22', 'baseline-predict', query_case(lo=1, hi=10, queries=2,
                                           kinds=('dummy',)), 500,
     rule='the concept is uncertain about an attribute')
def c22_predict(case):
    case = dict(case, scaling=None)
    tree, leaves = fitted(case)
    check(all(n is tree.root for n in leaves), 'fit returns another concept')
    extra = {}
    for i in case['insts'] + case['queries']:
        for a, v in i.items():
            extra.setdefault(a, []).append(v)
    attrs = sorted(set(tree.root.av_counts) | {'nosuch'}, key=repr)
    check_distribution(tree.root, case, M.Scales(None, True), attrs, extra)
    for q in case['queries']:
        check_completion(tree, q, case, 'most likely', True, [tree.root])
        check_completion(tree, q, case, 'sampled', False, [tree.root])
    s = M.node_stats(tree.root)
    return any(len(t) > 1 for t in s.nom.values())


# ---------------------------------------------------------------- C23

def within(count, n, p):
    """count is a plausible number of successes (far beyond 6 sigma)."""
    sd = math.sqrt(n * p * (1 - p))
    return abs(count - n * p) <= 6.5 * sd + 12


@st.composite
def weights_case(draw):
    vals = draw(st.lists(st.sampled_from(['a', 'b', 'c', None, 3, ('t', 1),
                                          '', 2.5, 'd']), min_size=1,
                         max_size=6, unique=True))
    scale = draw(st.sampled_from([1, 1, 0.01, 1000, 1e-9, 1e7, 1e14]))
    if draw(st.integers(0, 5)) == 0:
        # many choices, most of them unlikely
        k = draw(st.sampled_from([12, 30, 60, 130, 300]))
        if draw(st.booleans()):
            # the unlikely ones together are as likely as the rest
            k *= 5
            ws = dict.fromkeys(range(k), scale / k)
            ws[k // 2] = scale
            return dict(seed=draw(gens.seeds), choices=[
                ('v%d' % p, w) for p, w in ws.items()])
        ws = dict.fromkeys(range(k), 0.01 * scale / k)
        for p in draw(st.lists(st.integers(0, 9), min_size=1, max_size=3)):
            ws[k - 1 - p] = draw(st.sampled_from([1, 2, 5])) * scale
        return dict(seed=draw(gens.seeds), choices=[
            ('v%d' % p, w) for p, w in ws.items()])
    ws = [draw(st.sampled_from([0, 0, 1, 2, 5, 0.25, 0.5, 10])) * scale
          for _ in vals]
    if not any(ws):
        ws[0] = scale
    return dict(seed=draw(gens.seeds), choices=list(zip(vals, ws)))


@sub('C23', 'weighted', weights_case(), 250, rule='two positive weights and '
     'a zero one, or a sum other than one')
def c23_weighted(case):
    random.seed(case['seed'])
    ch = case['choices']
    total = sum(w for _, w in ch)
    n = 1500
    got = {}
    keep = copy.deepcopy(ch)
    for _ in range(n):
        v = U.weighted_choice(ch)
        got[v] = got.get(v, 0) + 1
    check(ch == keep, 'choice changed its list')
    w = dict(ch)
    check(set(got) <= set(w), 'invented choice', got)
    for v in w:
        check(w[v] > 0 or v not in got, 'value of weight zero chosen', v)
        check(within(got.get(v, 0), n, w[v] / total), 'value', v,
              'of weight', w[v], 'of', total, 'chosen', got.get(v, 0),
              'times of', n)
    if len(w) > 40:
        small = [v for v in w if 0 < w[v] < total / 50]
        check(within(sum(got.get(v, 0) for v in small), n,
                     sum(w[v] for v in small) / total),
              'the unlikely values are chosen', sum(got.get(v, 0)
                                                    for v in small),
              'times of', n, 'together')
    best = max(w.values())
    top = [v for v in w if w[v] == best]
    got = {}
    for _ in range(600):
        v = U.most_likely_choice(ch)
        got[v] = got.get(v, 0) + 1
    check(set(got) <= set(top), 'most likely', got, 'of', ch)
    for v in top:
        check(within(got.get(v, 0), 600, 1.0 / len(top)), 'tie not broken '
              'uniformly', got, top)
    check(ch == keep, 'choice changed its list')
    return len([1 for x in w.values() if x > 0]) > 1


@sub('C23', 'invalid', weights_case(), 300, rule='every case')
def c23_invalid(case):
    random.seed(case['seed'])
    ch = list(case['choices'])
    for f in (U.weighted_choice, U.most_likely_choice):
        try:
            f([])
        except ValueError:
            pass
        else:
            raise Violation('empty list accepted by ' + f.__name__)
        for i in range(len(ch) + 1):
            bad = ch[:i] + [('neg', -0.5 * max(1e-9, ch[0][1]))] + ch[i:]
            try:
                v = f(bad)
            except ValueError:
                continue
            raise Violation('%s(%r) accepted: %r' % (f.__name__, bad, v))
    return True


@st.composite
def sample_case(draw):
    vals = [draw(st.integers(0, 6)) for _ in range(3)]
    return dict(seed=draw(gens.seeds), nom=vals, none=draw(
        st.integers(0, 5)), nums=draw(st.lists(st.sampled_from(
            [1, 2, 4.5, 10, -3, 100]), max_size=5)),
        kind=draw(st.sampled_from(['cobweb', 'cobweb3', 'dummy'])))


@sub('C23', 'sampled', sample_case(), 200, rule='an uncertain concept')
def c23_sampled(case):
    """Sampled predictions follow the frequencies of the concept."""
    random.seed(case['seed'])
    insts = []
    for v, c in zip('uvw', case['nom']):
        insts += [{'same': 'x', '_h': v}] * c
    insts += [{'same': 'x'}] * case['none']
    if case['kind'] != 'cobweb':
        for k, i in enumerate(insts):
            if case['nums'] and k < len(insts) - 1:
                insts[k] = dict(i, _w=case['nums'][k % len(case['nums'])])
    if not insts:
        return False
    tree = make_tree(dict(kind=case['kind'], scaling=0.5, inner=True))
    for i in insts:
        tree.ifit(dict(i))
    node = tree.root
    check(not node.children, 'visible duplicates were separated')
    n = 800
    word = ['sampled', 's'][case['seed'] % 2]
    freq = {v: c for v, c in zip('uvw', case['nom']) if c}
    tot = sum(freq.values())
    for allow in (True, False):
        full = dict(freq)
        if allow:
            full[None] = len(insts) - tot
        size = sum(full.values())
        if not tot or not size:
            continue
        got, got2 = {}, {}
        for _ in range(n):
            v = node.predict('_h', word, allow)
            got[v] = got.get(v, 0) + 1
        for _ in range(n):
            v = tree.infer_missing({'same': 'x'}, word, allow).get('_h')
            got2[v] = got2.get(v, 0) + 1
        for g, m in ((got, n), (got2, n)):
            check(set(g) <= set(full), 'sampled', g, 'from', full)
            for v, c in full.items():
                check(within(g.get(v, 0), m, c / size), 'sampled', v,
                      g.get(v, 0), 'times of', m, 'from', full)
    xs = [i['_w'] for i in insts if '_w' in i]
    if xs and case['kind'] != 'cobweb':
        k, mean, m2 = M.batch(xs)
        sd = M.unbiased_std(k, m2)
        ys = [node.predict('_w', word, False) for _ in range(n)]
        check(all(M.is_number(y) for y in ys), 'numeric sample missing')
        m = sum(ys) / n
        check(abs(m - mean) <= 6.5 * sd / math.sqrt(n) + 1e-9 * abs(mean) +
              1e-12, 'mean of samples', m, 'should be', mean)
        v = math.sqrt(sum((y - m) ** 2 for y in ys) / n)
        check(abs(v - sd) <= 6.5 * sd / math.sqrt(2 * n) + 1e-9,
              'deviation of samples', v, 'should be', sd)
        if sd > 0:
            inside = sum(abs(y - mean) < sd for y in ys)
            check(within(inside, n, 0.6827), 'samples are not normal',
                  inside)
            below = sum(y < mean for y in ys)
            check(within(below, n, 0.5), 'samples are skewed', below)
        zs = [node.predict('_w', word, True) for _ in range(n)]
        check(within(sum(z is None for z in zs), n, 1 - k / len(insts)),
              'missing sampled', sum(z is None for z in zs), 'times of', n)
    return len(freq) > 1


# ---------------------------------------------------------------- C24

LOADERS = {
    'load_forest_fires': (517, 'DC'), 'load_congressional_voting':
    (435, 'crime'), 'load_iris': (150, 'class'), 'load_rb_com_11':
    (251, '_guid'), 'load_rb_s_07': (141, '_guid'), 'load_rb_s_13':
    (249, '_guid'), 'load_rb_wb_03': (254, '_guid'), 'load_molecule':
    (101, '_software')}
DIGESTS = {}
_full = {}


def canon(x):
    return json.dumps(x, sort_keys=True)


def full_data(loader):
    """All instances, read independently of the library."""
    if loader not in _full:
        d = os.path.join(os.path.dirname(os.path.abspath(DS.__file__)),
                         'data_files')
        name_ = {'load_forest_fires': 'forest_fires',
                 'load_congressional_voting': 'congressional_voting',
                 'load_iris': 'iris', 'load_molecule': 'molecule',
                 'load_rb_com_11': 'rb_com_11_continuous',
                 'load_rb_s_07': 'rb_s_07_continuous',
                 'load_rb_s_13': 'rb_s_13_continuous',
                 'load_rb_wb_03': 'rb_wb_03_continuous'}[loader]
        with open(os.path.join(d, name_ + '.json')) as f:
            _full[loader] = json.load(f)
    return _full[loader]


def distinct(data):
    """No two instances, components or lists are the same object."""
    seen, todo = set(), [data]
    while todo:
        x = todo.pop()
        check(id(x) not in seen, 'one object in two places', x)
        seen.add(id(x))
        todo += [v for v in (x.values() if isinstance(x, dict) else x)
                 if isinstance(v, (dict, list))]


@sub('C24', 'prefix', st.tuples(st.sampled_from(sorted(LOADERS)),
                                st.one_of(st.integers(0, 12),
                                          st.sampled_from(
                                              [10, 16, 20, 24, 25, 30, 32,
                                               50, 64, 75, 99, 100, 101, 120,
                                               128, 150, 200, 250, 256, 300,
                                               400, 500, 512]),
                                          st.integers(0, 600),
                                          st.sampled_from([-1, 0, 1, 2]))),
     600, rule='a proper non-empty prefix')
def c24_prefix(arg):
    loader, n = arg
    load = getattr(DS, loader)
    full = full_data(loader)
    size = LOADERS[loader][0]
    check(len(full) == size, 'dataset has', len(full), 'instances')
    if n == -1:
        n = size + (hash(loader) % 3) - 1
    data = load(n)
    check(same_instance(data, full[:n]), loader, n, 'gives', len(data),
          'instances, not the first', n)
    check(same_instance(load(num_instances=n), full[:n]), 'keyword')
    distinct(data)
    return 0 < n < size


@sub('C24', 'whole', st.sampled_from(sorted(LOADERS)), 24,
     rule='every case')
def c24_whole(loader):
    load = getattr(DS, loader)
    full = full_data(loader)
    data = load()
    check(same_instance(data, full), loader, 'without a limit gives',
          len(data), 'instances')
    check(same_instance(load(10 ** 6), full), loader, 'with a large limit')
    distinct(data)
    for i in data:
        for v in i.values():
            if isinstance(v, dict):
                v['scribble'] = 'x'
            if isinstance(v, list):
                v.append('x')
        i['scribble'] = 'y'
    check(same_instance(load(), full), loader, 'shares its objects between '
          'loads')
    check(same_instance(load(5), full[:5]), loader, 'shares its objects')
    return True


@sub('C24', 'human', st.integers(0, 3), 2, rule='every case')
def c24_human(_):
    rows = DS.load_rb_s_07_human_predictions()
    check(len(rows) == 601, 'rows', len(rows))
    width = len(rows[0].split(','))
    check(rows[0] == 'user_id,instance_guid,time,order,prediction,'
          'correctness', rows[0])
    guids = {i['_guid'] for i in full_data('load_rb_s_07')}
    hit = 0
    for r in rows[1:]:
        f = r.split(',')
        check(len(f) == width and f[4] in '01' and f[5] in '01', 'row', r)
        hit += f[1] in guids
    check(hit > 300, 'predictions do not refer to the dataset', hit)
    return True


PARTS = ['torso', 'leg1', 'leg2', 'leg3', 'leg4', 'neck', 'head', 'tail']
NUMS = ['locationX', 'locationY', 'locationZ', 'axisX', 'axisY', 'axisZ',
        'height', 'radius', 'texture']


@sub('C24', 'quadruped', st.tuples(gens.seeds, st.one_of(
    st.integers(0, 40), st.integers(0, 40), st.integers(41, 1500))), 60,
     rule='at least ten animals')
def c24_quadruped(arg):
    seed, n = arg
    random.seed(seed)
    data = DS.load_quadruped(n)
    check(len(data) == n, 'animals', len(data))
    kinds = set()
    for i, a in enumerate(data):
        check(a.get('_type') in ('dog', 'cat', 'horse', 'giraffe'),
              'hidden type', a.get('_type'))
        kinds.add(a['_type'])
        check(set(a) == set(PARTS) | {'_type'}, 'parts', sorted(a))
        for p in PARTS:
            check(set(a[p]) == set(NUMS) | {'_type'}, p, 'has', sorted(a[p]))
            check(a[p]['_type'] == p, 'part', p, 'is labelled',
                  a[p]['_type'])
            check(all(M.is_number(a[p][k]) and not math.isinf(a[p][k])
                      for k in NUMS), 'numbers of', p, a[p])
            check(a[p]['height'] > 0 and a[p]['radius'] > 0 and
                  a[p]['texture'] > 0, 'size of', p, a[p])
    check(len({id(a) for a in data}) == n, 'one animal twice')
    if n >= 40:
        check(len(kinds) > 1, 'one kind only')
    return n >= 10


PREP = {'load_molecule': lambda: P.Tuplizer(),
        'load_rb_com_11': lambda: P.ListProcessor(),
        'load_rb_s_07': lambda: P.ListProcessor(),
        'load_rb_s_13': lambda: P.ListProcessor(),
        'load_rb_wb_03': lambda: P.ListProcessor()}


@sub('C24', 'usable', st.tuples(st.sampled_from(
    sorted(LOADERS) + ['load_quadruped']), st.integers(0, 40), gens.seeds),
    40, rule='two instances fitted')
def c24_usable(arg):
    loader, start, seed = arg
    random.seed(seed)
    if loader == 'load_quadruped':
        data = DS.load_quadruped(2)
    else:
        data = getattr(DS, loader)(start + 30)[start:]
        data = [i for i in data if len(i) < 24][:2]
    prep = PREP[loader]() if loader in PREP else P.Pipeline()
    tree = TrestleTree()
    for i in data:
        tree.ifit(prep.transform(i))
    check(tree.root.count == len(data), 'not every instance was fitted')
    check_links(tree)
    for i in data[:1]:
        tree.categorize(prep.transform(i))
    return len(data) > 1


# ---------------------------------------------------------------- C25

def table_of(n):
    return {a: {v: ((c.num, c.mean, c.meanSq) if hasattr(c, 'meanSq')
                    else c) for v, c in t.items()}
            for a, t in n.av_counts.items()}


def near_content(a, b, deep, tol, where='copy'):
    check(tol.equal(M.node_stats(a), M.node_stats(b)), where, 'has',
          M.node_stats(b), 'instead of', M.node_stats(a))
    if deep:
        check(len(a.children) == len(b.children), where, 'has',
              len(b.children), 'children instead of', len(a.children))
        for x, y in zip(a.children, b.children):
            near_content(x, y, deep, tol, where)


@st.composite
def copy_case(draw):
    if draw(st.integers(0, 15)) == 0:
        case = gens.expand(draw(gens.big_case(20, 40)))
    else:
        case = draw(query_case(lo=draw(st.sampled_from([1, 5])), hi=12,
                               queries=2))
    case['pick'] = draw(st.sampled_from([0, 0, 0] + list(range(50))))
    return case


@sub('C25', 'concepts', copy_case(), 1200, rule='a concept with children '
     'was copied')
def c25_concepts(case):
    tree, _ = fitted(case)
    tol = tolerance(case)
    nodes = tree_nodes(tree)
    n = nodes[case['pick'] % len(nodes)] if case['pick'] else \
        max(nodes, key=lambda x: len(x.children))
    rng = random.Random(case['seed'])
    whole = snap(tree)
    full, shallow = n.__class__(n), n.shallow_copy()
    check(snap(tree) == whole, 'copying changed the tree')
    near_content(n, full, True, tol, 'full copy')
    near_content(n, shallow, False, tol, 'shallow copy')
    check(not shallow.children, 'shallow copy has children')
    ids = {id(x) for x in nodes}
    check(all(id(x) not in ids for x in M.walk(full)), 'full copy shares '
          'concepts with the original')
    names = [x.concept_id for x in nodes] + \
        [x.concept_id for x in M.walk(full)] + [shallow.concept_id]
    check(len(set(names)) == len(names), 'copies share an identity', names)
    for x in M.walk(full):
        for c in x.children:
            check(c.parent is x, 'inside a full copy the parent of a concept '
                  'is not the concept that lists it')
    check(full.parent is n.parent, 'full copy has another parent')
    for c in (full, shallow):
        check(c.tree is tree, 'copy belongs to another tree')
        check(close(c.expected_correct_guesses(),
                    n.expected_correct_guesses()), 'copy scores differently')
        for a in sorted(n.av_counts, key=repr):
            w1 = {typed(v): p for v, p in n.get_weighted_values(a)}
            w2 = {typed(v): p for v, p in c.get_weighted_values(a)}
            check(w1 == w2, 'copy weighs', a, w2, 'instead of', w1)
            for v in [None] + sorted([v for v in n.av_counts[a]
                                      if not isinstance(v, float) and
                                      v != '#ContinuousValue#'],
                                     key=repr)[:2]:
                if not M.is_number(v):
                    check(close(n.probability(a, v), c.probability(a, v)),
                          'copy predicts', a, v, 'differently')
            x = M.node_stats(n).num.get(a)
            if x and not (isinstance(a, tuple) and a[0] == '_'):
                for v in (x[1], x[1] + 1):
                    check(close(n.probability(a, v), c.probability(a, v),
                                1e-6), 'copy predicts', a, v, 'differently')
    if n.children:
        check(close(full.category_utility(), n.category_utility()),
              'copy has another utility')
        flat = case['queries'][0]
        want = sorted(n.cu_for_insert(c, flat) for c in n.children)
        got = sorted(full.cu_for_insert(c, flat) for c in full.children)
        check(all(close(x, y) for x, y in zip(want, got)),
              'copy scores an insert differently', got, want)
    # independence, both ways
    extra = case['queries'][0]
    for c in list(M.walk(full)) + [shallow]:
        c.increment_counts(extra)
        for i in case['insts'][:2]:
            c.increment_counts(i)
    check(snap(tree) == whole, 'changing a copy changes the original')
    inner = [c for c in full.children if c.children]
    if inner:
        full.split(inner[0])
    if len(full.children) > 2:
        full.merge(full.children[0], full.children[-1])
    full.create_new_child(extra)
    check(snap(tree) == whole, 'reorganising a copy changes the original')
    before = [(x.count, table_of(x)) for x in list(M.walk(full)) + [shallow]]
    for x in nodes:
        x.increment_counts(extra)
        for i in case['insts'][:2]:
            x.increment_counts(i)
    check([(x.count, table_of(x)) for x in list(M.walk(full)) + [shallow]]
          == before, 'changing the original changes a copy')
    return bool(n.children)


@sub('C25', 'regrown', gens.flat_case(lo=2, hi=14, kinds=('cobweb',)), 500,
     rule='the copy has two levels')
def c25_regrown(case):
    """A copied hierarchy can go on learning in a tree of its own."""
    random.seed(case['seed'])
    k = max(1, len(case['insts']) // 2)
    tree, other = CobwebTree(), CobwebTree()
    for i in case['insts'][:k]:
        tree.ifit(dict(i))
    whole = snap(tree)
    other.root = tree.root.__class__(tree.root)
    for x in M.walk(other.root):
        x.tree = other
    rich = bool(tree.root.children)
    for j, i in enumerate(case['insts'][k:]):
        leaf = other.ifit(dict(i))
        nodes = check_links(other)
        check(any(leaf is x for x in nodes), 'leaf not in the new tree')
        check_conserved(other, M.stats_of(case['insts'][:k + j + 1], False),
                        tolerance(case))
    check(snap(tree) == whole, 'learning below a copy changes the original')
    return rich


@st.composite
def deep_case(draw):
    kind = draw(st.sampled_from(['cobweb', 'cobweb3', 'trestle', 'dummy',
                                 'structured']))
    if kind == 'structured':
        case = draw(c12_case(1, 4, plain_vars=False))
        case['more'] = draw(gens.history(1, 3, plain_vars=False))
        return case
    case = draw(query_case(lo=2, hi=12, queries=1, kinds=(kind,)))
    k = draw(st.integers(1, len(case['insts']) - 1))
    case['more'] = case['insts'][k:]
    case['insts'] = case['insts'][:k]
    return case


@sub('C25', 'trees', deep_case(), 900, rule='a tree with two levels was '
     'copied')
def c25_trees(case):
    tree, _ = fitted(case)
    rich = bool(tree.root.children)
    whole = snap(tree)
    dup = copy.deepcopy(tree)
    check(snap(tree) == whole, 'copying changed the tree')
    check(type(dup) is type(tree) and config(dup) == config(tree),
          'copy has another configuration')
    check(content(dup.root) == content(tree.root) and
          snap(dup)[1] == snap(tree)[1], 'copy differs from the original')
    mine = {id(n) for n in tree_nodes(tree)}
    for n in tree_nodes(dup):
        check(n.tree is dup, 'copied concept belongs to the original tree')
        check(id(n) not in mine, 'copy shares a concept')
        for c in n.children:
            check(c.parent is n, 'copied links')
    check(dup.root.parent is None, 'copied root has a parent')
    random.seed(case['seed'] + 11)
    for i in case['more']:
        dup.ifit(copy.deepcopy(i))
    check(snap(tree) == whole, 'fitting the copy changes the original')
    random.seed(case['seed'] + 11)
    after = snap(dup)
    for i in case['more']:
        tree.ifit(copy.deepcopy(i))
    check(snap(dup) == after, 'fitting the original changes the copy')
    check(content(tree.root) == content(dup.root) and
          snap(tree)[1] == snap(dup)[1], 'the copy learns differently')
    return rich
