"""C12 C13 C14 and structured cases of C02 C06 C10."""
import copy
import itertools
import random

from hypothesis import strategies as st

from concept_formation import preprocessor as P
from concept_formation.cobweb3 import Cobweb3Node
from concept_formation.structure_mapper import (
    StructureMapper, flat_match, rename_flat, get_component_names)
from concept_formation.cobweb3 import Cobweb3Tree
from concept_formation.trestle import TrestleTree
from concept_formation.dummy import DummyTree

from pbt import facts as F, gens, model as M
from pbt.core import check, close, sub, Violation
from pbt.util import (check_links, same_instance, tree_nodes, typed, depth_of,
                      know_scales)
from pbt.props_flat import check_conserved, check_shape, visible_shape
from pbt.props_query import snap, legal_prediction, run_queries, QUERIES
from pbt.props_pre import counter, call

# ---------------------------------------------------------------- C12


def table(root):
    return M.node_stats(root)


def added(before, after):
    """{attr: value} by which a table grew, exactly one instance."""
    check(after.count == before.count + 1, 'instance count grows by',
          after.count - before.count)
    out = {}
    for a, t in after.nom.items():
        for v, c in t.items():
            d = c - before.nom.get(a, {}).get(v, 0)
            if d:
                check(d == 1 and a not in out, 'count of', a, v, 'grows by',
                      d)
                out[a] = v
    for a, t in before.nom.items():
        for v in t:
            check(v in after.nom.get(a, {}), 'value lost', a, v)
    for a, (n, m, q) in after.num.items():
        n0, m0, _ = before.num.get(a, (0, 0.0, 0.0))
        if n != n0:
            check(n == n0 + 1 and a not in out, 'number of', a, 'grows by',
                  n - n0)
            out[a] = Approx(n * m - n0 * m0)
    for a in before.num:
        check(a in after.num, 'numeric attribute lost', a)
    return out


class Approx(object):
    def __init__(self, v):
        self.v = v


def comparable(v):
    if isinstance(v, Approx):
        return ('num', round(v.v, 5) + 0.0)
    if M.is_number(v):
        return ('num', round(float(v), 5) + 0.0)
    return typed(v)


@st.composite
def c12_case(draw, lo=1, hi=6, **kw):
    return dict(kind='trestle', seed=draw(gens.seeds),
                scaling=draw(st.sampled_from([0.5, 0.5, None, 1.0])),
                inner=draw(st.booleans()),
                insts=draw(gens.history(lo, hi, **kw)))


def fit_structured(tree, sh, inst, seen):
    """Fit, find the renaming, advance the shadow.  Returns the flat form."""
    before = table(tree.root)
    given = copy.deepcopy(inst)
    leaf = tree.ifit(given)
    check(same_instance(given, inst), 'fit changed the instance', inst, given)
    new = added(before, table(tree.root))
    got = {}
    for a, v in new.items():
        k = F.flat_key(a)
        check(k not in got, 'one fact stored twice', a, new)
        got[k] = (v, a)
    want = F.facts(inst)
    try:
        iso = F.isomorphism(want, {k: v for k, (v, _) in got.items()},
                            comparable)
    except F.Budget:
        return None, leaf
    check(iso is not None, 'stored facts', sorted(map(repr, new.items())),
          'are not those of', inst, 'up to renaming objects')
    flat = {}
    for k, v in want.items():
        flat[got[F.ren(k, iso)][1]] = v
    if sh is not None:
        sh.fit(tree.root, flat)
    seen.append(flat)
    return flat, leaf


@sub('C12', 'facts', c12_case(), 1400, rule='two instances with variable '
     'objects, the root keeping more than one concept')
def c12_facts(case):
    random.seed(case['seed'])
    tree = TrestleTree(case['scaling'], case['inner'])
    sh = M.Shadow(True, case['scaling'], case['inner'])
    seen = []
    for inst in case['insts']:
        try:
            flat, leaf = fit_structured(tree, sh, inst, seen)
        except M.Undecided:
            return False
        if flat is None:
            return False
        nodes = check_links(tree)
        check(any(leaf is n for n in nodes) and not leaf.children,
              'returned concept is not a leaf of the tree')
        s = M.node_stats(leaf)
        for a, v in flat.items():
            check(a in s.num or v in s.nom.get(a, {}),
                  'returned leaf lacks', a, v)
        tol = sh.tol
        check_conserved(tree, M.stats_of(seen, True), tol)
    return sum(bool(gens.variables(i)) for i in case['insts']) > 1 and \
        bool(tree.root.children)


@st.composite
def numeric_relations(draw):
    case = draw(c12_case())
    to = draw(st.sampled_from([{True: 1, False: 0}, {True: 0, False: 1},
                               {True: 0.5, False: 'no'},
                               {True: '?o1', False: '?o2'}]))

    def conv(d):
        return {k: conv(v) if isinstance(v, dict) else
                to[v] if isinstance(k, tuple) and isinstance(v, bool) else v
                for k, v in d.items()}
    case['insts'] = [conv(i) for i in case['insts']]
    return case


@sub('C12', 'relation-values', numeric_relations(), 500, rule='two instances '
     'with variable objects, the root keeping more than one concept')
def c12_relation_values(case):
    return c12_facts(case)


@st.composite
def names_case(draw):
    return dict(seed=draw(gens.seeds), objects=draw(st.integers(3, 8)),
                times=draw(st.integers(20, 180)),
                insts=draw(gens.history(4, 6)))


@sub('C12', 'many-names', names_case(), 10, rule='at least 500 objects seen')
def c12_names(case):
    """However many objects have been seen, their names do not collide."""
    rng = random.Random(case['seed'])
    random.seed(case['seed'])
    tree = TrestleTree()
    sh = M.Shadow(True, 0.5, True)
    seen = []

    def fit(i):
        try:
            return fit_structured(tree, sh, i, seen)[0] is not None
        except M.Undecided:
            return False
    for inst in case['insts'][:3]:
        if not fit(inst):
            return False
    for k in range(case['times']):
        tree.categorize({'?n%d' % j: {'color': rng.choice(['red', 'blue'])}
                         for j in range(case['objects'])})
    for inst in case['insts'][3:]:
        if not fit(inst):
            return False
        check_links(tree)
        check_conserved(tree, M.stats_of(seen, True), sh.tol)
    return case['times'] * case['objects'] >= 500


@st.composite
def wide_case(draw):
    return dict(seed=draw(gens.seeds), kinds=draw(st.integers(4, 14)),
                n=draw(st.integers(12, 30)), objects=draw(st.integers(1, 3)),
                rel=draw(st.booleans()), grow=draw(st.booleans()),
                scaling=draw(st.sampled_from([0.5, None])))


@sub('C12', 'wide', wide_case(), 50, rule='nine concepts below the root')
def c12_wide(case):
    """Many kinds of instances, whose objects differ from kind to kind."""
    rng = random.Random(case['seed'])
    random.seed(case['seed'])
    tree = TrestleTree(case['scaling'], True)
    sh = M.Shadow(True, case['scaling'], True)
    seen, wide = [], False
    for k in range(case['n']):
        kind = 'k%d' % (k % case['kinds'] if k < case['kinds'] else
                        rng.randrange(case['kinds']))
        inst = {'kind': kind, 'place': 'at ' + kind, '_n': 'n%d' % k}
        names = ['?%s%d' % (rng.choice('xyz'), j)
                 for j in range(case['objects'] +
                                (k // 6 if case['grow'] else 0))]
        for j, o in enumerate(names):
            inst[o] = {'shape': '%s%d' % (kind, j), 'mark': kind}
            if rng.random() < 0.3:
                inst[o]['size'] = rng.choice([1, 2.5, 8])
        if case['rel'] and len(names) > 1:
            inst[('on', names[0], names[1])] = kind
        try:
            if fit_structured(tree, sh, inst, seen)[0] is None:
                return False
        except M.Undecided:
            return False
        wide = wide or len(tree.root.children) > 8
    check_links(tree)
    check_conserved(tree, M.stats_of(seen, True), sh.tol)
    return wide


@sub('C12', 'repeated', c12_case(1, 2, rels=False), 500, rule='an instance '
     'with objects fitted again under other names')
def c12_repeated(case):
    """Fitting the same single instance again under new names."""
    random.seed(case['seed'])
    tree = TrestleTree(case['scaling'], case['inner'])
    inst = case['insts'][0]
    seen = []
    fit_structured(tree, None, inst, seen)
    names = sorted(gens.variables(inst))
    other = gens.rename_all(inst, {n: '?z%d' % i
                                   for i, n in enumerate(names)})
    fit_structured(tree, None, other, seen)
    check_links(tree)
    return len(names) > 0


# ---------------------------------------------------------------- C13

@st.composite
def c13_case(draw):
    case = draw(c12_case(1, 5, plain_vars=False))
    qs = []
    for _ in range(draw(st.integers(1, 2))):
        if draw(st.booleans()):
            base = case['insts'][draw(st.integers(0,
                                                  len(case['insts']) - 1))]
            q = draw(gens.renamed(base))
            if draw(st.booleans()):
                q = draw(gens.edited(q))
            q = draw(dropped(q))
        else:
            q = draw(gens.structured(depth=2, plain_vars=False))
        qs.append(q)
    case['queries'] = qs
    case['allow'] = draw(st.booleans())
    case['choice'] = draw(st.sampled_from(['most likely', 'sampled']))
    return case


@st.composite
def dropped(draw, q):
    """Leave out one top-level entry not referred to by a relation."""
    q = copy.deepcopy(q)
    used = set()
    for k in q:
        if isinstance(k, tuple):
            used |= set(flat_names(k))
    free = sorted([k for k in q if k not in used], key=repr)
    if free:
        del q[draw(st.sampled_from(free))]
    return q


def flat_names(k):
    for e in k:
        if isinstance(e, tuple):
            for x in flat_names(e):
                yield x
        else:
            yield e


@sub('C13', 'complete', c13_case(), 1600, rule='facts were added to a query '
     'that has a variable object')
def c13_complete(case):
    random.seed(case['seed'])
    tree = TrestleTree(case['scaling'], case['inner'])
    seen = []
    for inst in case['insts']:
        fit_structured(tree, None, inst, seen)
    shapes = {}
    for inst in case['insts']:
        for k, v in F.facts(inst).items():
            shapes.setdefault(F.shape(k), []).append(v)
    rich = False
    for q in case['queries']:
        before = snap(tree)
        out = call(lambda i: tree.infer_missing(i, case['choice'],
                                                case['allow']), q,
                   'inference')
        check(snap(tree) == before, 'inference changed the tree')
        qf, of = F.facts(q), F.facts(out)
        for k, v in qf.items():
            check(k in of and typed(of[k]) == typed(v), 'query fact', k, v,
                  'missing from the completion', out, 'of', q)
        extra = {k: v for k, v in of.items() if k not in qf}
        for k, v in extra.items():
            s = F.shape(k)
            check(s in shapes, 'invented attribute', k, 'in', out)
            if M.is_number(v):
                nums = [x for x in shapes[s] if M.is_number(x)]
                check(nums, 'invented number for', k)
                if case['choice'] == 'most likely':
                    check(min(nums) - 1e-6 <= v <= max(nums) + 1e-6,
                          'invented number', k, v, nums)
            else:
                check(any(typed(x) == typed(v) for x in shapes[s]),
                      'invented value', k, v, 'seen', shapes[s])
        try:
            ok = any(explained(qf, of, M.node_stats(n), case['choice'],
                               case['allow'])
                     for n in tree_nodes(tree) if not n.children)
        except F.Budget:
            ok = True
        check(ok, 'completion', out, 'of', q, 'does not come from one '
              'concept through a one-to-one renaming')
        if extra and gens.variables(q):
            rich = True
    return rich


def explained(qf, of, s, choice, allow):
    """out = query + leaf predictions under an injective naming."""
    leaf, optional = {}, set()
    for a in s.attrs():
        k = F.flat_key(a)
        leaf[k] = a
        opts = list(s.nom.get(a, {}).values())
        if a in s.num:
            opts.append(s.num[a][0])
        none = s.count - sum(opts)
        if allow and none > 0 and (choice == 'sampled' or
                                   none >= max(opts) - 1e-9):
            optional.add(k)
    lv = sorted({v for k in leaf for v in F.key_vars(k)})
    ov = sorted({v for k in of for v in F.key_vars(k)})
    firm = {v for k in leaf if k not in optional for v in F.key_vars(k)}
    if len(firm) > len(ov):
        return False
    oshape = {}
    for k in of:
        oshape.setdefault(F.shape(k), []).append(k)
    for k in leaf:
        if F.shape(k) not in oshape and k not in optional:
            return False
    osig = {v: set(repr(F.ren_sig(k, v)) for k in of if v in F.key_vars(k))
            for v in ov}
    cand = {}
    for v in lv:
        need = set(repr(F.ren_sig(k, v)) for k in leaf
                   if v in F.key_vars(k) and k not in optional)
        cand[v] = [w for w in ov if need <= osig[w]]
        if v not in firm:
            cand[v].append('?-' + v)      # nothing of it was predicted
    order = sorted(lv, key=lambda v: len(cand[v]))
    budget = [30000]

    def value_ok(k, a):
        if k in qf:
            return True
        opts = dict(s.nom.get(a, {}))
        if a in s.num:
            opts['#num'] = s.num[a][0]
        least = max(opts.values()) - 1e-9 if choice == 'most likely' else 0.5
        return legal_prediction(of[k], opts, s, a, least,
                                choice == 'sampled')

    def consistent(m):
        for k, a in leaf.items():
            if all(v in m for v in F.key_vars(k)):
                o = F.ren(k, m)
                if o not in of:
                    if k not in optional:
                        return False
                elif not value_ok(o, a):
                    return False
        return True

    def rec(i, m, used):
        budget[0] -= 1
        if budget[0] < 0:
            raise F.Budget()
        if i == len(order):
            image = {F.ren(k, m) for k in leaf}
            return all(k in qf or k in image for k in of)
        for w in cand[order[i]]:
            if w in used:
                continue
            m[order[i]] = w
            if consistent(m) and rec(i + 1, m, used | {w}):
                return True
            del m[order[i]]
        return False
    return consistent({}) and rec(0, {}, frozenset())


# ---------------------------------------------------------------- C14

def prepare(inst, prefix):
    """Renamed apart, flattened and extracted, as mapping requires."""
    return P.Pipeline(P.NameStandardizer(counter(prefix)), P.Flattener(),
                      P.SubComponentProcessor()).transform(inst)


def key_names(k):
    """Variable objects named anywhere in a flat key."""
    if isinstance(k, tuple):
        return {v for e in k for v in key_names(e)}
    return {k} if F.is_var(k) else set()


class RootScales(object):
    """Scales of a tree, from the numeric tables of its root."""

    def __init__(self, root, scaling, inner):
        self.scaling, self.pool = scaling, {}
        self.key = M.Scales(scaling, inner).key
        for a, x in root.num.items():
            k = self.key(a)
            self.pool[k] = M.combine(
                [M.Stats(0, {}, {0: self.pool.get(k, (0, 0.0, 0.0))}),
                 M.Stats(0, {}, {0: x})]).num[0] if k in self.pool else x

    def scale(self, attr):
        if not self.scaling:
            return 1.0
        x = self.pool.get(self.key(attr))
        s = (1.0 / self.scaling) * M.unbiased_std(x[0], x[2]) if x else 0.0
        return s if s > 0 else 1.0


class Mapping(object):
    """Reference value of a mapping of a target onto a concept."""

    def __init__(self, base, target, scales, table=False):
        self.base, self.target, self.scales = base, target, scales
        self.table = table
        self.cache = {}

    def value(self, m):
        k = frozenset((a, b) for a, b in m.items() if a != b)
        if k not in self.cache:
            t = {gens.rename_key(a, m): v for a, v in self.target.items()}
            if len(t) < len(self.target):
                s = None
            elif self.table:
                s = M.combine([self.base, read_table(t)])
            else:
                s = self.base.plus(t, True)
            self.cache[k] = M.ecg(s, self.scales) if s else float('-inf')
        return self.cache[k]

    def moves(self, m, cnames):
        """Mappings that differ by one exchange or one reassignment."""
        used = set(m.values())
        free = [c for c in cnames if c not in used]
        for a, b in itertools.combinations(sorted(m), 2):
            if m[a] == a and m[b] == b:
                continue
            n = dict(m)
            n[a] = a if m[b] == b else m[b]
            n[b] = b if m[a] == a else m[a]
            yield n
        for a in m:
            for c in free:
                n = dict(m)
                n[a] = c
                yield n

    def local_optimum(self, m, cnames):
        v = self.value(m)
        return all(self.value(n) <= v + 1e-9 for n in self.moves(m, cnames))

    def acceptable(self, m, cnames):
        """A local optimum, or one move away from one it ties with."""
        if self.local_optimum(m, cnames):
            return True
        v = self.value(m)
        before = list(self.moves(m, cnames))
        for a in m:
            if m[a] != a:
                before.append(dict(m, **{a: a}))
        return any(abs(self.value(n) - v) <= 1e-9 and
                   self.local_optimum(n, cnames) for n in before)


def read_table(t):
    nom, num = {}, {}
    for a, vals in t.items():
        for v, c in vals.items():
            if hasattr(c, 'meanSq'):
                num[a] = (c.num, c.mean, c.meanSq)
            else:
                nom.setdefault(a, {})[v] = c
    s = M.Stats(0, nom, num)
    s.count = max([sum(nom.get(a, {}).values()) +
                   (num[a][0] if a in num else 0) for a in t])
    return s


@st.composite
def c14_case(draw, **kw):
    case = draw(c12_case(1, 4, **kw))
    if draw(st.booleans()):
        base = case['insts'][draw(st.integers(0, len(case['insts']) - 1))]
        case['target'] = draw(gens.edited(draw(gens.renamed(base))))
    else:
        case['target'] = draw(gens.structured(**kw))
    case['table'] = draw(st.integers(0, 3)) == 0
    case['start'] = draw(st.one_of(st.none(), st.integers(0, 10 ** 6)))
    case['node'] = draw(st.sampled_from([0, 0, 1, 2, 5]))
    return case


def c14_fit(case):
    random.seed(case['seed'])
    tree = TrestleTree(case['scaling'], case['inner'])
    for inst in case['insts']:
        tree.ifit(copy.deepcopy(inst))
    return tree


def check_mapping(sm, target, start, show):
    """Properties of one transform; returns (result, mapping)."""
    before = copy.deepcopy(target)
    out = sm.transform(target) if start is None else \
        sm.transform(target, start)
    check(list(target) == list(before) and show(target) == show(before),
          'mapping changed its target', before)
    m = sm.get_mapping()
    tnames = {v for k in target for v in key_names(k)}
    cnames = {v for k in sm.base.av_counts for v in key_names(k)}
    check(set(m) <= tnames, 'mapping of unknown objects', m, tnames)
    check(all(v in cnames or v == k for k, v in m.items()),
          'mapping to objects the concept does not have', m, cnames)
    check(len(set(m.values())) == len(m), 'mapping not one-to-one', m)
    want = {gens.rename_key(k, m): v for k, v in target.items()}
    check(len(want) == len(target) and show(out) == show(want),
          'result', out, 'is not the target renamed by', m)
    back = sm.undo_transform(out)
    check(show(back) == show(before), 'undo gives', back, 'instead of',
          before)
    return out, m, tnames, cnames


def show_instance(t):
    return typed(t)


def show_table(t):
    return {a: {v: ((c.num, c.mean, c.meanSq) if hasattr(c, 'meanSq') else c)
                for v, c in vals.items()} for a, vals in t.items()}


@sub('C14', 'mapping', c14_case(), 1400, rule='two objects on each side')
def c14_mapping(case):
    tree = c14_fit(case)
    nodes = tree_nodes(tree)
    base = nodes[case['node'] % len(nodes)]
    scales = RootScales(M.node_stats(tree.root), case['scaling'],
                        case['inner'])
    root = M.node_stats(base)
    target = prepare(case['target'], '?t')
    if not target:
        return False
    show = show_instance
    if case['table']:
        other = TrestleTree(case['scaling'], case['inner'])
        other.ifit(copy.deepcopy(case['target']))
        other.ifit(copy.deepcopy(case['insts'][0]))
        target = {gens.rename_key(k, {v: '?t' + v[2:]
                                      for v in key_names(k)}): t
                  for k, t in other.root.av_counts.items()}
        show = show_table
    sm = StructureMapper(base)
    before = snap(tree)
    start = None
    tnames = sorted({v for k in target for v in key_names(k)})
    cnames = sorted({v for k in base.av_counts for v in key_names(k)})
    if case['start'] is not None and tnames and cnames:
        rng = random.Random(case['start'])
        left = list(cnames)
        rng.shuffle(left)
        start = {(t, left.pop() if left else t) for t in tnames}
        if rng.random() < 0.4:
            # names which neither the instance nor the concept has
            start = {(a, b if rng.random() < 0.7 else '?zz' + a[1:])
                     for a, b in start}
            start |= {('?yy%d' % k, c) for k, c in enumerate(left[:2])}
        start = frozenset(start)
    out, m, tset, cset = check_mapping(sm, target, start, show)
    check(snap(tree) == before, 'mapping changed the concept')
    if not tnames or not cnames:
        check(not any(k != v for k, v in m.items()), 'mapped to nothing', m)
        return False
    ref = Mapping(root, target, scales, case['table'])
    full = {t: m.get(t, t) for t in tnames}
    if start is None:
        check(ref.acceptable(full, cnames), 'mapping', m, 'of', target,
              'is improved by one exchange or reassignment: value',
              ref.value(full))
    else:
        given = {a: b for a, b in start if b in cset}
        given = {t: given.get(t, t) for t in tnames}
        check(ref.value(full) >= ref.value(given) - 1e-9, 'mapping', m,
              'worse than the initial', sorted(start))
    return len(tnames) > 1 and len(cnames) > 1


@st.composite
def dense_case(draw):
    base, target = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    if draw(st.integers(0, 7)) == 0:
        # one side has many more objects than the other
        base, target = draw(st.integers(5, 9)), draw(st.integers(1, 3))
    return dict(seed=draw(gens.seeds), base=base,
                target=target, n=draw(st.integers(1, 3)),
                fill=draw(st.sampled_from([0.3, 0.5, 0.8])),
                scaling=draw(st.sampled_from(gens.SCALINGS)),
                numbers=draw(st.booleans()), wide=draw(st.booleans()))


@sub('C14', 'dense', dense_case(), 5000, rule='three objects in the concept '
     'and relations on both sides')
def c14_dense(case):
    """Many relations among few objects; concepts filled by hand."""
    rng = random.Random(case['seed'])
    random.seed(case['seed'])

    def world(names, fill):
        i = {}
        for o in names:
            if rng.random() < 0.8:
                i[('x', o)] = rng.choice('pq')
            if case['numbers'] and rng.random() < 0.6:
                i[('n', o)] = rng.choice([1, 2, 5.5])
        for o, u in itertools.permutations(names, 2):
            if rng.random() < fill:
                i[('on', o, u)] = rng.choice('rs')
            if case['wide'] and rng.random() < fill / 3:
                i[('sees', ('x', o), (('x', u), 'by', o))] = True
        return i
    tree = Cobweb3Tree(case['scaling'], True)
    names = ['?o%d' % k for k in range(case['base'])]
    insts = [world(names, case['fill']) for _ in range(case['n'])]
    know_scales(tree, insts)
    tree.root = type(tree.root)()
    tree.root.tree = tree
    for i in insts:
        tree.root.increment_counts(i)
    target = world(['?t%d' % k for k in range(case['target'])],
                   case['fill'] + 0.1)
    if not target:
        return False
    root = M.node_stats(tree.root)
    out, m, tset, cset = check_mapping(StructureMapper(tree.root), target,
                                       None, show_instance)
    if not tset or not cset:
        return False
    ref = Mapping(root, target, RootScales(root, case['scaling'], True))
    full = {t: m.get(t, t) for t in tset}
    check(ref.acceptable(full, sorted(cset)), 'mapping', m, 'of', target,
          'is improved by one exchange or reassignment: value',
          ref.value(full))
    return len(cset) > 2 and any(k[0] == 'on' for k in target)


@sub('C14', 'attributes', c14_case(depth=1, rels=False, objects=4), 1200,
     rule='two objects on each side')
def c14_attributes(case):
    """Objects with attributes only: never worse than unmapped."""
    tree = c14_fit(case)
    root = M.node_stats(tree.root)
    scales = RootScales(root, case['scaling'], case['inner'])
    target = prepare(case['target'], '?t')
    if not target:
        return False
    sm = StructureMapper(tree.root)
    out, m, tset, cset = check_mapping(sm, target, None, show_instance)
    ref = Mapping(root, target, scales)
    check(ref.value(m) >= ref.value({}) - 1e-9, 'mapping', m, 'of', target,
          'is worse than none')
    return len(tset) > 1 and len(cset) > 1


@st.composite
def sizes_case(draw):
    def some(k):
        return {'?q%d' % j: {'size': draw(st.sampled_from(
            [0, 1, 2, 40, 100, 400, 1e4, -1e4]))} for j in range(k)}
    k = draw(st.integers(1, 3))
    return dict(seed=draw(gens.seeds), insts=[
        some(k) for _ in range(draw(st.integers(1, 3)))],
        target=some(draw(st.integers(1, 5))),
        scaling=draw(st.sampled_from([0.5, None, 1.0])),
        inner=draw(st.booleans()))


@sub('C14', 'sizes', sizes_case(), 500, rule='more objects in the target than '
     'in the concept')
def c14_sizes(case):
    """Objects that share nothing but a number far off."""
    return c14_attributes(case) and len(case['target']) > len(
        {v for i in case['insts'] for v in i})


@sub('C14', 'identical', st.tuples(gens.seeds, gens.structured(
     depth=1, rels=False, objects=4, const_top=False), st.permutations(
     gens.VARPOOL), st.integers(1, 3)), 800,
     rule='at least two objects')
def c14_identical(arg):
    """A copy with other object names is aligned completely."""
    seed, inst, perm, n = arg
    random.seed(seed)
    tree = TrestleTree()
    leaf = None
    names = sorted(gens.variables(inst))
    for i in range(n):
        leaf = tree.ifit(gens.rename_all(
            inst, dict(zip(names, perm[i:] + perm[:i]))))
    check(leaf is tree.root and not tree.root.children and
          tree.root.count == n, n, 'copies of', inst, 'under other names are '
          'kept in', len(tree_nodes(tree)), 'concepts')
    check(tree.categorize(gens.rename_all(
        inst, dict(zip(names, perm[n:] + perm[:n])))) is tree.root,
        'copy not categorized to the root')
    target = prepare(inst, '?t')
    if not target:
        return False
    sm = StructureMapper(tree.root)
    out = sm.transform(target)
    vis = {k for k in out if M.visible(k)}
    check(vis == {k for k in tree.root.av_counts if M.visible(k)},
          'copy of', target, 'mapped to', out, 'but concept has',
          sorted(map(repr, tree.root.av_counts)))
    for k in vis:
        t = tree.root.av_counts[k]
        check(len(t) == 1 and (M.is_number(out[k]) or out[k] in t),
              'copy not aligned', k, out[k], t)
    return len(names) > 1


@sub('C14', 'collide', c14_case(), 150, rule='both sides have objects')
def c14_collide(case):
    """Names shared by both sides are refused, not confused."""
    tree = c14_fit(case)
    target = prepare(case['insts'][0], '?o')
    tn = {v for k in target for v in key_names(k)}
    cn = {v for k in tree.root.av_counts for v in key_names(k)}
    if not tn & cn:
        return False
    sm = StructureMapper(tree.root)
    before = copy.deepcopy(target)
    try:
        sm.transform(target)
    except Exception:
        check(same_instance(target, before), 'target changed')
        try:
            StructureMapper(tree.root).undo_transform(target)
        except Exception:
            return True
        raise Violation('undo without transform accepted')
    raise Violation('colliding object names accepted: %r' % sorted(tn & cn))


# ------------------------------------------------- structured C02 C06 C10

@sub('C02', 'structured', c12_case(2, 7), 500, rule='depth of at least 3')
def c02_structured(case):
    random.seed(case['seed'])
    tree = TrestleTree(case['scaling'], case['inner'])
    for inst in case['insts']:
        leaf = tree.ifit(copy.deepcopy(inst))
        nodes = check_links(tree)
        check(any(n is leaf for n in nodes) and not leaf.children,
              'returned concept is not a leaf of the tree')
        check_shape(tree, nodes)
    return depth_of(tree.root) > 2


@st.composite
def c06_structured_case(draw):
    case = draw(c12_case(1, 5, plain_vars=False))
    case['queries'] = draw(st.lists(gens.structured(plain_vars=False),
                                    min_size=1, max_size=2))
    base = case['insts'][draw(st.integers(0, len(case['insts']) - 1))]
    case['queries'].append(draw(gens.edited(draw(gens.renamed(base)))))
    case['ops'] = draw(st.lists(st.tuples(st.sampled_from(sorted(QUERIES)),
                                          st.integers(0, 1000)),
                                min_size=3, max_size=8))
    return case


@sub('C06', 'structured', c06_structured_case(), 700, rule='queries with '
     'objects on a tree of at least two levels')
def c06_structured(case):
    """Queries between the fits of a structured tree."""
    random.seed(case['seed'])
    tree = TrestleTree(case['scaling'], case['inner'])
    sh = M.Shadow(True, case['scaling'], case['inner'])
    seen = []
    for k, inst in enumerate(case['insts']):
        if sh is not None:
            try:
                flat, _ = fit_structured(tree, sh, inst, seen)
                if flat is None:
                    sh = None
            except M.Undecided:
                sh = None
        else:
            tree.ifit(copy.deepcopy(inst))
        some = dict(case, ops=case['ops'][k % 2::2],
                    insts=case['insts'][:k + 1])
        run_queries(tree, some, case['queries'])
    return bool(tree.root.children) and any(gens.variables(q)
                                            for q in case['queries'])


def scribble(d):
    """Change a dictionary and everything below it in place."""
    for k in list(d):
        if isinstance(d[k], dict):
            scribble(d[k])
        else:
            d[k] = 'changed'
    d['extra'] = 'added'


@sub('C06', 'structured-alias', c06_structured_case(), 300,
     rule='nested components were changed after fitting')
def c06_structured_alias(case):
    random.seed(case['seed'])
    for cls in (TrestleTree, DummyTree):
        tree = cls()
        given = copy.deepcopy(case['insts'])
        for g in given:
            tree.ifit(g)
        check(same_instance(given, case['insts']), 'fit changed its instance')
        before = snap(tree)
        for g in given:
            scribble(g)
        check(snap(tree) == before, 'changing a fitted instance changes the '
              'tree')
        q = copy.deepcopy(case['queries'][-1])
        out = tree.infer_missing(q)
        scribble(out)
        check(same_instance(q, case['queries'][-1]), 'the completed instance '
              'shares parts with the query', case['queries'][-1])
        check(snap(tree) == before, 'changing a completed instance changes '
              'the tree')
    return any(isinstance(v, dict) for i in case['insts']
               for v in i.values())


def constants(depth=2):
    """Nested constant components: {path: value} schema."""
    return [(('color',), ['red', 'blue', 'green']),
            (('size',), [1, 2.5, 4, 10]),
            (('box', 'color'), ['red', 'blue']),
            (('box', 'core', 'kind'), ['k1', 'k2', 'k3']),
            (('frame', 'size'), [1, 7, 3])]


HIDDEN_SPOTS = [(('_id',), ['i1', 'i2', 'i3']), (('_w',), [1, 5, 9]),
                (('box', '_tag'), ['t1', 't2']),
                (('box', 'core', '_id'), ['i1', 'i2']),
                (('_meta', 'color'), ['red', 'blue']),
                (('_meta', 'size'), [1, 20]),
                (('_meta', 'box', 'kind'), ['k1', 'k2']),
                (('box', '_sub', 'color'), ['red', 'blue']),
                (('frame', '_in', 'core', 'size'), [2, 50])]


def place(inst, path, v):
    for p in path[:-1]:
        inst = inst.setdefault(p, {})
    inst[path[-1]] = v


@st.composite
def c10_structured_case(draw):
    case = dict(seed=draw(gens.seeds),
                scaling=draw(st.sampled_from([0.5, 0.5, None])), inner=True)
    vis = draw(st.lists(st.sampled_from(constants()), min_size=1, max_size=4,
                        unique_by=lambda x: x[0]))
    hid = draw(st.lists(st.sampled_from(HIDDEN_SPOTS), min_size=1,
                        max_size=4, unique_by=lambda x: x[0]))
    with_objects = draw(st.booleans())
    plain, full = [], []
    for _ in range(draw(st.integers(2, 8))):
        p = {}
        for path, vals in vis:
            if draw(st.integers(0, 4)):
                place(p, path, draw(st.sampled_from(vals)))
        if with_objects:
            for o in ['?p', '?q'][:draw(st.integers(0, 2))]:
                place(p, (o, 'kind'), draw(st.sampled_from(['k1', 'k2'])))
        f = copy.deepcopy(p)
        for path, vals in hid:
            if draw(st.booleans()):
                place(f, path, draw(st.sampled_from(vals)))
        plain.append(p)
        full.append(f)
    case['plain'], case['insts'] = plain, full
    return case


@sub('C10', 'structured', c10_structured_case(), 900, rule='hidden facts in '
     'two instances, one of them inside a component, and two levels')
def c10_structured(case):
    """Hidden attributes and everything inside hidden components."""
    trees = []
    for key in ('insts', 'plain'):
        random.seed(case['seed'])
        tree = TrestleTree(case['scaling'], case['inner'])
        sh = M.Shadow(True, case['scaling'], case['inner'])
        seen = []
        for inst in case[key]:
            try:
                flat, _ = fit_structured(tree, sh, inst, seen)
            except M.Undecided:
                return False
            if flat is None:
                return False
        trees.append((tree, sh))
    (tree, sh), (other, sh2) = trees
    for a in tree.root.attrs():
        k = F.flat_key(a)
        path = k[1] if k[0] == 'attr' else ()
        check(not any(x[:1] == '_' for x in path), 'hidden attribute', a,
              'treated as visible')
    if tree.root.count > 0:
        hidden_predicted(case, tree)
    objects = any(gens.variables(i) for i in case['insts'])
    if not sh.ambiguous and not sh2.ambiguous and not objects:
        check(visible_shape(tree.root, sh.tol) ==
              visible_shape(other.root, sh.tol),
              'hidden attributes changed the hierarchy')
        for q, h in zip(case['plain'], case['insts']):
            a, b = tree.categorize(q), tree.categorize(h)
            check(visible_shape(a, sh.tol) == visible_shape(b, sh.tol) or
                  tied(a, b, q, tree, sh), 'hidden attributes redirect a '
                  'query', h)
    return sum(p != f for p, f in zip(case['plain'], case['insts'])) > 1 \
        and bool(tree.root.children)


def hidden_predicted(case, tree):
    """A value hidden in every instance is in every completion."""
    always = [(p, {typed(v) for v in vals}) for p, vals in HIDDEN_SPOTS
              if all(at(i, p) is not None for i in case['insts'])]
    for q in case['plain'][:2]:
        out = tree.infer_missing(copy.deepcopy(q))
        for p, vals in always:
            v = at(out, p)
            check(v is not None, 'hidden', p, 'of every fitted instance not '
                  'predicted for', q, out)
            check(M.is_number(v) or typed(v) in vals, 'hidden', p,
                  'predicted as', v)


def at(d, path):
    for p in path:
        if not isinstance(d, dict) or p not in d:
            return None
        d = d[p]
    return d


def tied(a, b, q, tree, sh):
    """Both concepts are equally good for the query at every level."""
    flat = {k: v for k, v in P.Flattener().transform(q).items()}
    for leaf in (a, b):
        n = leaf
        while n.parent is not None:
            gains = []
            for c in n.parent.children:
                s = M.node_stats(c)
                up = s.plus(flat, True)
                gains.append((up.count * M.ecg(up, sh.scales) -
                              s.count * M.ecg(s, sh.scales), c is n))
            top = max(g for g, _ in gains)
            if not any(g >= top - 1e-8 * max(1, n.parent.count) and me
                       for g, me in gains):
                return False
            n = n.parent
    return True
