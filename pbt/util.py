import copy
import random

from concept_formation.cobweb import CobwebTree, CobwebNode
from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node
from concept_formation.trestle import TrestleTree
from concept_formation.dummy import DummyTree

from pbt import gens, model as M
from pbt.core import check


def make_tree(case):
    kind = case['kind']
    if kind == 'cobweb':
        return CobwebTree()
    if kind == 'cobweb3':
        return Cobweb3Tree(scaling=case['scaling'],
                           inner_attr_scaling=case['inner'])
    if kind == 'trestle':
        return TrestleTree(scaling=case.get('scaling', 0.5),
                           inner_attr_scaling=case.get('inner', True))
    if kind == 'dummy':
        return DummyTree()
    raise KeyError(kind)


def numeric(case):
    return case['kind'] != 'cobweb'


def make_shadow(case):
    return M.Shadow(numeric(case), case.get('scaling'),
                    case.get('inner', True))


def renumber(case):
    """Let concept identities start as early or late in a process."""
    start = [0, 0, None, 90, 950, 9930, 99900, 10 ** 7][case['seed'] % 8]
    if start is not None:
        for cls in (CobwebNode, Cobweb3Node):
            if isinstance(getattr(cls, '_counter', None), int):
                cls._counter = start


def fitted(case):
    """Tree with the case's instances fitted, and the leaves returned."""
    if 'planted' in case:
        tree, _, _ = planted(case)
        return tree, None
    random.seed(case['seed'])
    tree = make_tree(case)
    leaves = [tree.ifit(copy.deepcopy(i)) for i in case['insts']]
    return tree, leaves


def history_scales(case, insts=None):
    sc = M.Scales(case.get('scaling') if numeric(case) else None,
                  case.get('inner', True))
    if numeric(case):
        for i in (case['insts'] if insts is None else insts):
            sc.learn(i)
    return sc


def tolerance(case):
    t = M.Tolerance()
    if numeric(case):
        for i in case['insts']:
            t.learn(i)
    return t


def depth_of(node):
    return 1 + max([depth_of(c) for c in node.children] or [0])


def tree_nodes(tree):
    nodes = []
    stack = [(tree.root, 0)]
    while stack:
        n, d = stack.pop()
        check(d < 500, 'cyclic hierarchy')
        check(len(nodes) < 20000, 'hierarchy explodes')
        nodes.append(n)
        stack.extend((c, d + 1) for c in n.children)
    return nodes


def check_links(tree, ids_unique=True):
    """Well-formedness of the links of a whole hierarchy."""
    nodes = tree_nodes(tree)
    check(len({id(n) for n in nodes}) == len(nodes),
          'a concept appears twice in the hierarchy')
    check(tree.root.parent is None, 'root has a parent')
    for n in nodes:
        check(len(n.children) != 1, 'concept with a single child')
        check(n.tree is tree, 'concept does not belong to its tree')
        for c in n.children:
            check(c.parent is n, 'child not linked to the parent listing it')
    ids = [n.concept_id for n in nodes]
    check(len(set(ids)) == len(ids), 'concept ids not unique', ids)
    return nodes


def typed(v):
    """Equality including types, for comparing instances exactly."""
    if isinstance(v, dict):
        return ('dict', frozenset((typed(k), typed(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(typed(x) for x in v))
    return (type(v).__name__, v)


def same_instance(a, b):
    return typed(a) == typed(b)


def know_scales(tree, insts):
    """Fit the numbers only, for the tree to know the scales."""
    for i in insts:
        i = {a: v for a, v in i.items() if M.is_number(v)}
        if i and not isinstance(tree, TrestleTree) and \
                isinstance(tree, Cobweb3Tree):
            tree.ifit(i)


def planted(case):
    """A tree whose hierarchy was put together by hand, its shadow and the
    instances to add to it.

    """
    insts, shape, new = gens.plant(case)
    random.seed(case['seed'])
    tree = make_tree(case)
    sh = make_shadow(case)
    know_scales(tree, insts)
    for i in insts:
        sh.insts.append(dict(i))
        if sh.numeric:
            sh.tol.learn(i)
            sh.scales.learn(i)
    cls = type(tree.root)

    def make(shape, parent):
        n = cls()
        n.tree, n.parent = tree, parent
        if isinstance(shape[0], list):
            parts = [make(s, n) for s in shape]
            n.children = [c for c, _ in parts]
            rt = M.RT(frozenset().union(*[r.ids for _, r in parts]),
                      tuple(r for _, r in parts))
        else:
            rt = M.RT(frozenset(shape))
        for k in sorted(rt.ids):
            n.increment_counts(dict(insts[k]))
        return n, rt
    tree.root, sh.tree = make(shape, None)
    return tree, sh, new
