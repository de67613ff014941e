"""C15 C16 C17: representation transforms."""
import ast
import copy
import random
from fractions import Fraction
import os
import subprocess
import sys

from hypothesis import strategies as st

from concept_formation import preprocessor as P
from concept_formation.cobweb import CobwebTree
from concept_formation.cobweb3 import Cobweb3Tree
from concept_formation.trestle import TrestleTree

from pbt import gens, facts as F, model as M
from pbt.core import check, sub
from pbt.util import same_instance, typed

# ---------------------------------------------------------------- C15


def counter(prefix='?o', start=0):
    n = [start]

    def gensym():
        n[0] += 1
        return prefix + str(n[0])
    return gensym


def call(f, x, what):
    """Apply f to a private copy, check the argument survives."""
    given = copy.deepcopy(x)
    out = f(given)
    check(same_instance(given, x), what, 'changed its argument', x, 'to',
          given)
    check(out is not given, what, 'returns its argument')
    return out


def round_trip(pp, inst, what):
    mid = call(pp.transform, inst, what + ' transform')
    keep = copy.deepcopy(mid)
    back = call(pp.undo_transform, mid, what + ' undo')
    check(same_instance(back, inst), what, 'round trip of', inst, 'gives',
          back, 'through', keep)
    return mid


def has_component_values(d):
    return any(isinstance(v, dict) for v in d.values())


def nested_variable(k):
    """A flattened attribute still naming a variable inside something."""
    if isinstance(k, tuple) and len(k) == 2:
        if F.is_var(k[0]):
            return True
        return nested_variable(k[1])
    if isinstance(k, tuple):
        return any(nested_variable(e) for e in k)
    return False


@st.composite
def c15_case(draw):
    return dict(inst=draw(gens.structured(depth=3)),
                start=draw(st.sampled_from([0, 0, 3, 9])),
                prefix=draw(st.sampled_from(['?o', '?o', '?x', '?new'])))


def rename_rule(inst):
    return len(gens.variables(inst)) > 1 and any(
        isinstance(k, tuple) for k in inst)


@sub('C15', 'rename', c15_case(), 2200, rule='at least two variable objects '
     'and a relation')
def c15_rename(case):
    inst = case['inst']
    ns = P.NameStandardizer(counter(case['prefix'], case['start']))
    out = round_trip(ns, inst, 'renaming apart')
    old, new = gens.variables(inst), gens.variables(out)
    check(len(old) == len(new), 'objects merged or lost by renaming', old,
          new)
    check(all(v.startswith(case['prefix']) and
              v[len(case['prefix']):].isdigit() for v in new),
          'names not taken from the generator', new)
    check(all(int(v[len(case['prefix']):]) > case['start'] for v in new),
          'name not fresh', new)
    iso = F.isomorphism(F.facts(inst), F.facts(out), typed)
    check(iso is not None, 'renaming apart changes more than names', inst,
          out)
    check(shape_of(inst) == shape_of(out), 'nesting changed', inst, out)
    # a second instance gets names of its own
    out2 = P.NameStandardizer(ns.gensym).transform(copy.deepcopy(inst))
    check(not (gens.variables(out2) & new), 'names reused', new)
    return rename_rule(inst)


@st.composite
def listed(draw, names, depth=2):
    d = {}
    for a in draw(st.lists(st.sampled_from(['color', 'items', 'more']),
                           max_size=3, unique=True)):
        if a == 'color' or not depth:
            d[a] = draw(st.sampled_from(['red', '?a', 3]))
        else:
            d[a] = [draw(listed(names, depth - 1)) if draw(st.booleans())
                    else draw(st.sampled_from(['red', '?b', 2, '']))
                    for _ in range(draw(st.sampled_from([0, 1, 2, 3, 3, 7])))]
    for _ in range(draw(st.integers(0, 2)) if depth else 0):
        if names:
            name = names.pop()
            d[name] = draw(listed(names, depth - 1))
    return d


@st.composite
def listed_case(draw):
    names = list(draw(st.permutations(gens.VARPOOL)))
    inst = draw(listed(names, 3))
    have = sorted(gens.variables(inst))
    if len(have) > 1:
        inst[('on', have[0], have[-1])] = True
    return inst


def unlisted(x):
    '''Lists written as components, for comparison.'''
    if isinstance(x, list):
        x = {'#%d' % k: e for k, e in enumerate(x)} or 'empty list'
    if isinstance(x, dict):
        return {k: unlisted(v) for k, v in x.items()} or 'empty'
    return x


@sub('C15', 'rename-lists', listed_case(), 500, rule='an object inside an '
     'element of a list')
def c15_rename_lists(inst):
    ns = P.NameStandardizer(counter('?new'))
    out = round_trip(ns, inst, 'renaming apart')
    old, new = gens.variables(inst), gens.variables(out)
    check(len(old) == len(new) and all(v.startswith('?new') for v in new),
          'objects', old, 'renamed to', new)

    iso = F.isomorphism(F.facts({'x': unlisted(inst)}),
                        F.facts({'x': unlisted(out)}),
                        typed)
    check(iso is not None, 'renaming apart changes more than names', inst,
          out)

    def inside(x, elem):
        if isinstance(x, dict):
            return any((elem and isinstance(k, str) and k[0] == '?') or
                       inside(v, elem) for k, v in x.items())
        return isinstance(x, list) and any(inside(e, True) for e in x)
    return inside(inst, False)


class Stage(P.Preprocessor):
    '''A user's own stage: remembers how often it was applied.'''

    def __init__(self, mark):
        self.mark = mark

    def transform(self, instance):
        out = dict(instance)
        out['log'] = instance.get('log', '') + self.mark
        return out

    def undo_transform(self, instance):
        out = dict(instance)
        log = out.pop('log', '')
        check(log.endswith(self.mark), 'stages undone in another order', log,
              self.mark)
        if len(log) > 1:
            out['log'] = log[:-1]
        return out


@sub('C15', 'stages', st.tuples(gens.structured(depth=1), st.lists(
    st.sampled_from('abc'), max_size=12)), 200, rule='a stage used twice')
def c15_stages(arg):
    '''Every stage is applied, in order, however often it is listed.'''
    inst, marks = arg
    have = {m: Stage(m) for m in 'abc'}
    pipe = P.Pipeline(*[have[m] for m in marks])
    if not marks:
        mid = pipe.transform(copy.deepcopy(inst))
    else:
        mid = round_trip(pipe, inst, 'pipeline')
    check(mid.get('log', '') == ''.join(marks), 'stages applied',
          mid.get('log'), 'instead of', marks)
    check(same_instance(pipe.undo_transform(mid), inst), 'not undone')
    return len(set(marks)) < len(marks)


def shape_of(d):
    return sorted(repr((F.shape(k), shape_of(v) if isinstance(v, dict)
                        else typed(v))) for k, v in d.items())


@sub('C15', 'flatten', c15_case(), 1500, rule='nesting of at least two '
     'levels')
def c15_flatten(case):
    inst = case['inst']
    out = round_trip(P.Flattener(), inst, 'flattening')
    check(not has_component_values(out), 'component value left', out)
    leaves = {}

    def walk(d, path, hid):
        for k, v in d.items():
            if isinstance(k, tuple) and not path:
                leaves[k] = v
            elif isinstance(v, dict):
                walk(v, path + (k,), hid or k[0] == '_')
            else:
                leaves[(path + (k,), hid or k[0] == '_')] = v
    walk(inst, (), False)
    got = {}
    for k, v in out.items():
        if isinstance(k, tuple) and len(k) == 2:
            got[(F.unfold(k), k[0] == '_')] = v
        elif isinstance(k, tuple):
            got[k] = v
        else:
            got[((k,), k[0] == '_')] = v
    check(typed(got) == typed(leaves), 'flattening changes facts', inst, out)
    return any(isinstance(w, dict) for v in inst.values()
               if isinstance(v, dict) for w in v.values())


PIPES = ['flat+sub', 'name+flat+sub', 'tuple+name+flat+sub', 'name+flat',
         'flat+sub', 'name+flat+sub', 'tuple+name+flat+sub',
         'name+name+flat+sub', 'name+name+name+name+flat+sub',
         'tuple+name+name+flat+sub', 'name|flat+sub', 'name+flat|sub',
         'tuple|name|flat|sub', 'name|name+name|flat+sub', 'flat+sub+name',
         'name+flat+sub+name+name']


def make_pipe(kind, case):
    if '|' in kind:
        parts = [make_pipe(p, case)[0] if '+' in p else make_pipe(p, case)[1][0]
                 for p in kind.split('|')]
        return P.Pipeline(*parts), parts
    parts = []
    for p in kind.split('+'):
        if p == 'flat':
            parts.append(P.Flattener())
        elif p == 'sub':
            parts.append(P.SubComponentProcessor())
        elif p == 'tuple':
            parts.append(P.Tuplizer())
        else:
            parts.append(P.NameStandardizer(counter(case['prefix'],
                                                    case['start'])))
    return P.Pipeline(*parts), parts


@sub('C15', 'pipeline', st.tuples(c15_case(), st.sampled_from(PIPES)), 3000,
     rule='a variable object inside another component')
def c15_pipeline(arg):
    case, kind = arg
    inst = case['inst']
    if kind.startswith('tuple'):
        # words of a written relation have no blanks
        inst = gens.rename_all(inst, {'?a ': '?a_'})
        case = dict(case, inst=inst)
        inst = {stringify(k): v for k, v in inst.items()}
    pipe, parts = make_pipe(kind, case)
    out = round_trip(pipe, inst, 'pipeline ' + kind)
    if not has_component_values(out) and 'sub' in kind:
        check(not any(nested_variable(k) for k in out),
              'nested variable object left', out)
    check(not has_component_values(out), 'component value left', out)
    if 'sub' in kind:
        # against the reference reading, up to the renaming
        want = F.facts(case['inst'])
        got = {}
        for k, v in out.items():
            key = F.flat_key(k)
            check(key not in got, 'two attributes for one fact', out)
            got[key] = v
        if 'name' in kind:
            check(F.isomorphism(want, got, typed) is not None,
                  'pipeline changes the facts of', inst, 'to', out)
        else:
            check(typed(want) == typed(got), 'pipeline changes the facts of',
                  inst, 'to', out)
    # the same pipeline reused for another instance
    out2 = pipe.transform(copy.deepcopy(inst))
    check(same_instance(pipe.undo_transform(out2), inst),
          'second round trip through the same pipeline differs')
    return any('has-component' in k for k in F.facts(case['inst'])
               if k[0] == 'rel')


def stringify(k):
    if isinstance(k, tuple):
        return '(' + ' '.join(stringify(e) for e in k) + ')'
    return k


words = st.sampled_from(['on', 'a', 'b1', '?x', 'x-y', 'left', '?o12', '_h'])


@st.composite
def rel_string(draw, depth=2):
    n = draw(st.sampled_from([1, 2, 3, 4, 2, 3, 4, 7]))
    parts = []
    for i in range(n):
        how = draw(st.integers(0, 6))
        if i and how == 0 and depth:
            parts.append(draw(rel_string(depth - 1)))
        elif i and how == 1:
            parts.append(str(draw(st.sampled_from(
                [1.5, 12.4, -3.0, 0.25, 100.0, 1e-07, 1e+20, 123456.789,
                 -0.5, 3e-05]))))
        else:
            parts.append(draw(words))
    return '(' + ' '.join(parts) + ')'


def parse(s):
    toks = s.replace('(', ' ( ').replace(')', ' ) ').split()

    def rec(i):
        out = []
        while i < len(toks):
            t = toks[i]
            if t == '(':
                v, i = rec(i + 1)
                out.append(v)
                continue
            if t == ')':
                return tuple(out), i + 1
            try:
                out.append(float(t))
            except ValueError:
                out.append(t)
            i += 1
        return tuple(out), i
    return rec(1)[0]


@st.composite
def tuplizer_case(draw):
    inst = {}
    for k in draw(st.lists(rel_string(), max_size=3, unique=True)):
        inst[k] = draw(st.sampled_from([True, 'v', 3, 1.5]))
    for k in draw(st.lists(st.sampled_from(['a', 'color', '?x', '_h', 'b c']),
                           max_size=3, unique=True)):
        inst[k] = draw(st.sampled_from(['v', 2, '(not a relation)',
                                        {'x': 1, '(in a b)': 'q'}]))
    return inst


@st.composite
def container_case(draw):
    """Extracted objects with arbitrary containment relations."""
    objs = draw(st.lists(st.sampled_from(gens.VARPOOL[:6]), min_size=2,
                         max_size=5, unique=True))
    inst = {}
    for o in objs:
        inst[(draw(st.sampled_from(['color', 'kind'])), o)] = draw(
            st.sampled_from(['red', 'blue', 3]))
        if draw(st.integers(0, 4)) == 0:
            inst[('size', ('box', o))] = 2.5
    for _ in range(draw(st.integers(1, 6))):
        p = draw(st.sampled_from(objs + objs + ['hall']))
        c = draw(st.sampled_from(objs))
        inst[('has-component', p, c)] = True
    if draw(st.booleans()):
        inst[('on', draw(st.sampled_from(objs)),
              draw(st.sampled_from(objs)))] = True
    return inst


@sub('C15', 'containers', container_case(), 800, rule='an object with two '
     'containers or inside itself')
def c15_containers(inst):
    """Undoing extraction loses nothing whatever the containments are."""
    up = {}
    for k in inst:
        if k[0] == 'has-component':
            up.setdefault(k[2], set()).add(k[1])

    def own_ancestor(o):
        seen, todo = set(), set(up.get(o, ()))
        while todo:
            x = todo.pop()
            if x == o:
                return True
            if x not in seen:
                seen.add(x)
                todo |= up.get(x, set())
        return False
    out = call(P.SubComponentProcessor().undo_transform, inst,
               'undoing extraction')
    check(typed(F.facts(out)) == typed(F.facts(inst)), 'undoing extraction '
          'changes the facts of', inst, 'to', out)
    odd = False
    for c, ps in up.items():
        plain = len(ps) == 1 and not own_ancestor(c)
        odd = odd or not plain
        left = [k for k in out if isinstance(k, tuple) and len(k) == 3 and
                k[0] == 'has-component' and F.short(F.element(k[2])) == c]
        check(len(left) == (0 if plain else len(ps)), 'object', c,
              'with containers', ps, 'after undoing extraction', out)
    return odd


@sub('C15', 'tuplize', tuplizer_case(), 1000, rule='a nested relation or one '
     'with a number')
def c15_tuplize(inst):
    out = round_trip(P.Tuplizer(), inst, 'tuplizing')
    want = {(parse(k) if k[0] == '(' else k): v for k, v in inst.items()}
    check(typed(out) == typed(want), 'tuplized to', out, 'expected', want)
    return any(k.count('(') > 1 or '.' in k for k in inst)


@sub('C15', 'batch', st.lists(gens.structured(depth=2), min_size=0,
                              max_size=4), 400, rule='at least two instances')
def c15_batch(insts):
    for make in (P.Flattener, lambda: P.Pipeline(P.Flattener(),
                                                 P.SubComponentProcessor()),
                 P.Tuplizer, P.NumericToNominal,
                 lambda: P.Sanitizer('trestle'), P.ObjectVariablizer,
                 lambda: P.NominalToNumeric('drop')):
        given = copy.deepcopy(insts)
        out = make().batch_transform(given)
        check(same_instance(given, insts), 'batch changes its input')
        want = [make().transform(copy.deepcopy(i)) for i in insts]
        check(same_instance(list(out), want), 'batch differs from one by one')
        back = make().batch_undo(copy.deepcopy(want))
        one = [make().undo_transform(copy.deepcopy(w)) for w in want]
        check(same_instance(list(back), one), 'batch undo differs')
        if insts:
            # the same object twice: the results do not share anything
            w = make().transform(copy.deepcopy(insts[0]))
            for two in (make().batch_undo([w, w]),
                        make().batch_transform([given[0], given[0]])):
                check(len(two) == 2 and two[0] is not two[1] and
                      same_instance(two[0], two[1]), 'the same object twice')
            many = copy.deepcopy(given * 6)
            out = make().batch_transform(many)
            check(len({id(o) for o in out}) == len(many) and
                  same_instance(list(out), want * 6), 'many instances')
    P._reset_gensym()
    a = P.NameStandardizer().batch_transform(copy.deepcopy(insts))
    P._reset_gensym()
    ns = P.NameStandardizer()
    check(same_instance(a, [ns.transform(copy.deepcopy(i)) for i in insts]),
          'batch renaming differs from one by one')
    names = [gens.variables(i) for i in a]
    check(sum(map(len, names)) == len(set().union(*names)) if names else True,
          'instances of a batch share object names')
    return len(insts) > 1


@sub('C15', 'undo-first', st.just(0), 1, rule='every case')
def c15_undo_first(_):
    for pp in (P.NameStandardizer(),):
        try:
            pp.undo_transform({'a': 1})
        except Exception:
            pass
        else:
            check(False, 'undo before transform accepted')
    return True


# ---------------------------------------------------------------- C16

@st.composite
def list_values(draw, depth):
    n = draw(st.integers(1, 5))
    out = []
    if draw(st.integers(0, 11)) == 0:
        # long enough for generated names to sort differently as text
        return draw(st.lists(st.sampled_from(['a', 'b', 3, 2.5, 'c']),
                             min_size=9, max_size=draw(st.sampled_from(
                                 [14, 14, 45]))))
    for _ in range(n):
        how = draw(st.integers(0, 3))
        if how == 0 and depth:
            out.append(draw(list_component(depth - 1, True)))
        else:
            out.append(draw(st.sampled_from(['a', 'b', 'a', 3, 2.5, True,
                                             '?x', 'val', False, 0, ''])))
    return out


@st.composite
def list_component(draw, depth, element=False):
    d = {}
    for a in draw(st.lists(st.sampled_from(['c', 'd', 'val', 'size']),
                           max_size=2, unique=True)):
        d[a] = draw(st.sampled_from(['u', 'v', 4, 'val']))
    if depth:
        for a in draw(st.lists(st.sampled_from(['l1', 'l2', 'items', 'l_',
                                                'a b']),
                               max_size=2, unique=True)):
            d[a] = draw(list_values(depth - 1))
        if draw(st.booleans()):
            d[draw(st.sampled_from(['sub', '?p']))] = draw(
                list_component(depth - 1))
    if element and draw(st.integers(0, 5)) == 0:
        d['_h'] = draw(st.sampled_from(['x', 3]))
    if not d or (element and set(d) == {'val'}):
        d['c'] = 'u'
    return d


@st.composite
def list_case(draw):
    inst = {}
    for a in draw(st.lists(st.sampled_from(['l1', 'l2', 'items', '?lst']),
                           max_size=3, unique=True)):
        inst[a] = draw(list_values(2))
    for a in draw(st.lists(st.sampled_from(['c', '_h', 'size']), max_size=2,
                           unique=True)):
        inst[a] = draw(st.sampled_from(['u', 3]))
    for a in draw(st.lists(st.sampled_from(['o1', '?o', 'box']), max_size=2,
                           unique=True)):
        inst[a] = draw(list_component(2))
    if draw(st.integers(0, 9)) == 0:
        # a list deep inside
        d = {'l1': draw(list_values(1))}
        for k in range(draw(st.integers(2, 7))):
            d = {draw(st.sampled_from(['in', '?in%d' % k, 'box'])): d}
            if draw(st.booleans()):
                d['l2'] = ['a', 'b']
        inst['deep'] = d
    if draw(st.booleans()):
        inst[('on', 'o1', 'box')] = True
    return inst


def count_lists(x, path=()):
    """[(path, elements)] of every list, elements of lists included."""
    out = []
    if isinstance(x, dict):
        for k, v in x.items():
            out += count_lists(v)
    elif isinstance(x, list):
        out.append(len(x))
        for e in x:
            out += count_lists(e)
    return out


def any_list(x):
    if isinstance(x, list):
        return True
    if isinstance(x, dict):
        return any(any_list(v) for v in x.values())
    return False


def list_rule(inst):
    n = count_lists(inst)
    return len(n) > 1 and max(n) > 2


@sub('C16', 'lists', list_case(), 2200, rule='at least two lists, one of '
     'three or more elements')
def c16_lists(inst):
    P._reset_gensym()
    # user variables that look like generated ones would be captured
    out = round_trip(P.ListProcessor(), inst, 'list conversion')
    check(not any_list(out), 'list left after conversion', out)
    n = count_lists(inst)
    rels = [k for k in out if isinstance(k, tuple)]
    check(sum(k[0] == 'has-element' for k in rels) == sum(n),
          'membership relations', out)
    check(sum(k[0] == 'ordered-list' for k in rels) == sum(n) - len(n),
          'ordering relations', out)
    return list_rule(inst)


@sub('C16', 'stages', list_case(), 900, rule='at least two lists, one of '
     'three or more elements')
def c16_stages(inst):
    P._reset_gensym()
    e = P.ExtractListElements()
    mid = round_trip(e, inst, 'list extraction')
    check(mid_ok(mid), 'list elements not extracted', mid)
    round_trip(P.ListsToRelations(), mid, 'lists to relations')
    return list_rule(inst)


def mid_ok(d):
    for v in d.values():
        if isinstance(v, list) and not all(isinstance(e, str) and
                                           isinstance(d.get(e), dict)
                                           for e in v):
            return False
        if isinstance(v, dict) and not mid_ok(v):
            return False
    return True


@sub('C16', 'through', list_case(), 1500, rule='at least two lists, one of '
     'three or more elements')
def c16_through(inst):
    """Renamed apart, flattened and extracted in between."""
    P._reset_gensym()
    inst = unique_vars(inst)
    lp = P.ListProcessor()
    ns = P.NameStandardizer(counter('?n'))
    for parts in ((lp, ns), (lp, ns, P.Flattener()),
                  (lp, ns, P.Flattener(), P.SubComponentProcessor())):
        pipe = P.Pipeline(*parts)
        flat = pipe.transform(copy.deepcopy(inst))
        back = pipe.undo_transform(copy.deepcopy(flat))
        # a flattened empty list object leaves no trace of its own, the
        # relations bring it back
        check(same_instance(back, inst), 'lists', inst, 'come back as', back,
              'through', len(parts), 'stages', flat)
    return list_rule(inst)


def unique_vars(x, n=None):
    """Variable objects of different scopes get different names."""
    n = n if n is not None else [0]
    if isinstance(x, list):
        return [unique_vars(e, n) if isinstance(e, dict) else e for e in x]
    out = {}
    for k, v in x.items():
        if F.is_var(k):
            n[0] += 1
            k = '%s_%d' % (k, n[0])
        out[k] = unique_vars(v, n) if isinstance(v, (dict, list)) else v
    return out


@st.composite
def broken_order(draw):
    names = ['p', 'q', 'r', 's']
    els = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4,
                        unique=True))
    pairs = draw(st.lists(st.tuples(st.sampled_from(names),
                                    st.sampled_from(names)), max_size=5,
                          unique=True))
    path = draw(st.sampled_from(['l', ('l', 'o'), ('l', ('m', 'o'))]))
    vals = draw(st.sampled_from([True, True, True, 'x', False, 0, '']))
    return dict(els=els, pairs=pairs, path=path, val=vals,
                second=draw(st.booleans()))


def total_order(els, pairs):
    """The list these relations describe, or None."""
    els = list(els)
    if len(pairs) != len(els) - 1:
        return None
    nxt = {}
    for a, b in pairs:
        if a == b or a in nxt or a not in els or b not in els:
            return None
        nxt[a] = b
    starts = [e for e in els if e not in nxt.values()]
    if len(starts) != 1 or len(set(nxt.values())) != len(nxt):
        return None
    out = [starts[0]]
    while out[-1] in nxt:
        out.append(nxt[out[-1]])
        if len(out) > len(els):
            return None
    return out if len(out) == len(els) else None


@sub('C16', 'orders', broken_order(), 1500, rule='the relations do not '
     'describe one total order')
def c16_orders(case):
    path, val = case['path'], case['val']
    inst = {'a': 'v'}
    where = F.unfold(path) if isinstance(path, tuple) else (path,)
    d = inst
    for p in where[:-1]:
        d = d.setdefault(p, {})
    d[where[-1]] = {}
    for n in ('p', 'q', 'r', 's'):
        inst[n] = {'val': n}
    for e in case['els']:
        inst[('has-element', path, e)] = val
    for a, b in case['pairs']:
        inst[('ordered-list', path, a, b)] = val
    if case['second']:
        inst['k'] = {}
        inst[('has-element', 'k', 'p')] = True
        inst[('has-element', 'k', 'q')] = True
        inst[('ordered-list', 'k', 'q', 'p')] = True
    got = call(P.ListsToRelations().undo_transform, inst, 'list undo')
    want = copy.deepcopy(inst)
    order = total_order(case['els'], case['pairs'])
    if order is not None:
        for k in list(want):
            if isinstance(k, tuple) and k[1] == path:
                del want[k]
        d = want
        for p in where[:-1]:
            d = d[p]
        d[where[-1]] = order
    if case['second']:
        for k in list(want):
            if isinstance(k, tuple) and k[1] == 'k':
                del want[k]
        want['k'] = ['q', 'p']
    check(same_instance(got, want), 'relations', inst, 'became', got,
          'expected', want)
    return order is None


# ---------------------------------------------------------------- C17

VALS = [3, 2.5, -1, '12', '3.5', 'red', '1e3', '-7', ' 4 ', True, 'nan1', '',
        '0', 0, 123456789.12345, 1e-9, 1e22, -2.0, ' ', '1e-7', 'ten', '-',
        123456789012345, 0.0, -0.0, '#1/3', '#-7/2', '#5', '1,000', '5%',
        '$3', '1.2.3', '0x10', '2/4', '+6', '.5', '7.']


@st.composite
def value_tree(draw, depth=2, attrs=('a', 'b', 'c', 'size')):
    d = {}
    for a in draw(st.lists(st.sampled_from(list(attrs)), max_size=3,
                           unique=True)):
        d[a] = draw(st.sampled_from(VALS))
    if depth:
        for a in draw(st.lists(st.sampled_from(['box', '?o', 'a', '_m']),
                               max_size=2, unique=True)):
            d[a] = draw(value_tree(depth - 1))
    if draw(st.booleans()):
        d[('on', 'box', '?o')] = draw(st.sampled_from([True, 3, '12', 'near',
                                                       '']))
    return d


@st.composite
def convert_case(draw):
    targets = draw(st.lists(st.sampled_from(['a', 'b', 'c', 'size', 'zz',
                                             'box']), max_size=3,
                            unique=True))
    return dict(inst=draw(value_tree()), targets=targets)


def is_num(v):
    return isinstance(v, (int, float, Fraction))


def revive(d):
    """Other kinds of numbers, written as text in the case."""
    return {k: revive(v) if isinstance(v, dict) else
            Fraction(v[1:]) if isinstance(v, str) and v[:1] == '#' else v
            for k, v in d.items()}


@sub('C17', 'to-nominal', convert_case(), 1200, rule='some but not all '
     'numbers converted')
def c17_to_nominal(case):
    case = dict(case, inst=revive(case['inst']))
    targets = case['targets']
    pp = P.NumericToNominal(*targets)
    done = [0, 0]

    def want(d):
        out = {}
        for k, v in d.items():
            if isinstance(v, dict):
                out[k] = want(v)
            elif is_num(v) and (not targets or k in targets):
                # the boolean case is a number to the library
                out[k] = str(v)
                done[0] += 1
            else:
                out[k] = v
                done[1] += is_num(v)
        return out
    w = want(case['inst'])
    got = call(pp.transform, case['inst'], 'numeric to nominal')
    check(same_instance(got, w), 'numeric to nominal', targets, case['inst'],
          'gives', got, 'expected', w)
    undo_copy(pp, got)
    return bool(done[0] and (done[1] or not targets))


def undo_copy(pp, inst):
    back = call(pp.undo_transform, inst, 'undo')
    check(same_instance(back, inst), 'undo of a one-way conversion differs')


@sub('C17', 'to-numeric', st.tuples(convert_case(), st.sampled_from(
    ['break', 'drop', 'zero', 'other'])), 1500,
     rule='something parsed and something did not')
def c17_to_numeric(arg):
    case, on_fail = arg
    case = dict(case, inst=revive(case['inst']))
    targets = case['targets']
    pp = P.NominalToNumeric(on_fail, *targets)
    n = [0, 0]

    def want(d):
        out = {}
        for k, v in d.items():
            if isinstance(v, dict):
                out[k] = want(v)
            elif not targets or k in targets:
                try:
                    out[k] = float(v)
                    n[0] += 1
                except (ValueError, TypeError):
                    n[1] += 1
                    if on_fail == 'zero':
                        out[k] = 0.0
            else:
                out[k] = v
        return out
    w = want(case['inst'])
    if n[1] and on_fail in ('break', 'other'):
        try:
            call(pp.transform, case['inst'], 'nominal to numeric')
        except (ValueError, TypeError):
            return n[0] > 0
        check(False, 'unparseable value accepted', case)
    got = call(pp.transform, case['inst'], 'nominal to numeric')
    check(numeric_same(got, w), 'nominal to numeric', on_fail, targets,
          case['inst'], 'gives', got, 'expected', w)
    undo_copy(pp, got)
    return bool(n[0] and n[1])


def numeric_same(a, b):
    """Equal, numbers compared by value."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(numeric_same(a[k], b[k]) for k in a)
    if is_num(a) and is_num(b) and isinstance(a, bool) == isinstance(b, bool):
        return a == b
    return typed(a) == typed(b)


@st.composite
def object_tree(draw, depth=2):
    d = {}
    for a in draw(st.lists(st.sampled_from(['x', 'y', '_h']), max_size=2,
                           unique=True)):
        d[a] = draw(st.sampled_from([1, 'v', True]))
    if depth:
        for a in draw(st.lists(st.sampled_from(['ob1', 'ob2', '?ob3', 'p',
                                                'ob4', 'ob5', 'ob6']),
                               max_size=draw(st.sampled_from([3, 3, 5])),
                               unique=True)):
            if draw(st.integers(0, 5)) == 0:
                d[a + 'v'] = 'plain'
            else:
                d[a] = draw(object_tree(depth - 1)) or {'x': 1}
    return d


@st.composite
def variablize_case(draw):
    inst = draw(object_tree())
    objs = ['ob1', 'ob2', '?ob3', 'p', 'ob4', ('x', 'ob1'), ('ob4', 'ob2'),
            'other', ('x', ('p', 'ob1'))]
    for _ in range(draw(st.integers(0, 3))):
        key = (draw(st.sampled_from(['on', 'near'])),
               draw(st.sampled_from(objs)), draw(st.sampled_from(objs)))
        if draw(st.integers(0, 4)) == 0:
            key = key + (('on', draw(st.sampled_from(objs)), 'other'),)
        inst[key] = draw(st.sampled_from([True, 'v']))
    targets = draw(st.lists(st.sampled_from(['ob1', 'ob2', 'p', 'ob4', 'x',
                                             'ob5', 'ob6']),
                            max_size=draw(st.sampled_from([3, 7])),
                            unique=True))
    # relations written inside variablized objects, before or after the
    # objects they mention
    homes = []

    def walk(d):
        for k, v in d.items():
            if isinstance(v, dict) and (not targets or k in targets):
                homes.append(v)
                walk(v)
    walk(inst)
    if homes and draw(st.booleans()):
        draw(st.sampled_from(homes))[
            ('near', draw(st.sampled_from(objs)),
             draw(st.sampled_from(objs)))] = True
    inst = gens.reorder(inst, random.Random(draw(gens.seeds)))
    return dict(inst=inst, targets=targets)


@sub('C17', 'variablize', variablize_case(), 1500, rule='an object renamed '
     'that also occurs in a relation')
def c17_variablize(case):
    targets = case['targets']
    renamed = {}

    def collect(d):
        for k, v in d.items():
            if isinstance(v, dict) and (not targets or k in targets):
                if k[0] != '?':
                    renamed[k] = '?' + k
                collect(v)
    collect(case['inst'])
    hit = [False]

    def rn(e):
        if isinstance(e, tuple):
            return tuple(rn(x) for x in e)
        return renamed.get(e, e)

    def want(d):
        out = {}
        for k, v in d.items():
            if isinstance(k, tuple):
                out[rn(k)] = v
                hit[0] = hit[0] or rn(k) != k
            elif isinstance(v, dict) and (not targets or k in targets):
                out[renamed.get(k, k)] = want(v)
            else:
                out[k] = v
        return out
    w = want(case['inst'])
    pp = P.ObjectVariablizer(*targets)
    got = call(pp.transform, case['inst'], 'variablizing')
    check(same_instance(got, w), 'variablizing', targets, case['inst'],
          'gives', got, 'expected', w)
    undo_copy(pp, got)
    return hit[0]


@st.composite
def odd_instance(draw, depth=2):
    d = {}
    keys = ['a', 'b', '_h', 1, 2.5, True, ('r', 'x', 'y'), ('r', 2, 'y'),
            ('r', ('s', 3), 'q', 1.5), frozenset([1]), '?o', 'c',
            ('r', (3,), 'y'), ('r', ('s', (2.5,)), 'z'), (4,), 'a.b']
    for k in draw(st.lists(st.sampled_from(keys), max_size=4, unique=True)):
        how = draw(st.integers(0, 5))
        if how == 0 and depth:
            d[k] = draw(odd_instance(depth - 1)) or {'x': 1}
        elif how == 1:
            d[k] = draw(st.sampled_from([[1, 2], ['a', {'x': 1}], [[1], 'b'],
                                         {'k': [1]}]))
        elif how == 2:
            d[k] = draw(st.sampled_from([('t', 1), frozenset([2]), True]))
        else:
            d[k] = draw(st.sampled_from(['v', 3, 2.5, 'w']))
    return d


SPECS = ['cobweb', 'cobweb3', 'trestle', 'Cobweb', 'TRESTLE', 'Cobweb3']
FLATTREE = {'cobweb': CobwebTree, 'cobweb3': Cobweb3Tree}


def valid_for(inst, spec):
    """Already what the algorithm accepts."""
    for k, v in inst.items():
        if not isinstance(k, (str, tuple)):
            return False
        if spec == 'trestle':
            if isinstance(k, tuple) and not all_text(k):
                return False
            if isinstance(v, dict):
                if not valid_for(v, spec):
                    return False
                continue
        if isinstance(v, (dict, list)):
            return False
    return True


def all_text(k):
    return all(isinstance(e, str) or (isinstance(e, tuple) and all_text(e))
               for e in k)


@sub('C17', 'sanitize', st.tuples(odd_instance(), st.sampled_from(SPECS)),
     1800, rule='the instance needed sanitizing')
def c17_sanitize(arg):
    inst, spec = arg
    san = P.Sanitizer(spec)
    got = call(san.transform, inst, 'sanitizing')
    low = spec.lower()
    check(valid_for(got, low), 'sanitized instance', got,
          'is not valid for', spec)
    again = call(P.Sanitizer(low).transform, got, 'sanitizing')
    check(same_instance(got, again), 'sanitizing is not idempotent', got,
          again)
    if valid_for(inst, low):
        check(same_instance(got, inst), 'valid instance changed', inst, got)
    else:
        check_sanitized(inst, got, low)
    tree = FLATTREE[low]() if low in FLATTREE else None
    if tree is not None:
        tree.ifit(got)
        check(tree.root.count == 1, 'sanitized instance not fitted')
    else:
        TrestleTree().ifit(got)
    undo_copy(san, got)
    return not valid_for(inst, low)


def check_sanitized(inst, got, spec):
    """Valid attributes and values pass through; others become text."""
    for k, v in inst.items():
        if isinstance(k, str):
            nk = k
        elif isinstance(k, tuple):
            nk = text_tuple(k) if spec == 'trestle' else k
        else:
            nk = str(k)
        check(nk in got, 'attribute', k, 'lost', got)
        clash = sum(1 for o in inst if o != k and (
            o == nk or (not isinstance(o, (str, tuple)) and str(o) == nk) or
            (isinstance(o, tuple) and spec == 'trestle' and
             text_tuple(o) == nk)))
        if clash:
            continue
        if spec == 'trestle' and isinstance(v, dict):
            check(isinstance(got[nk], dict), 'component lost', k, got)
            check_sanitized(v, got[nk], spec)
        elif isinstance(v, (dict, list)):
            check(isinstance(got[nk], str), 'unhashable value kept', k, got)
        else:
            check(typed(got[nk]) == typed(v), 'value changed', k, v, got[nk])
    check(len(got) <= len(inst), 'attributes added', inst, got)


def text_tuple(t):
    return tuple(e if isinstance(e, str) else text_tuple(e)
                 if isinstance(e, tuple) else str(e) for e in t)


@sub('C17', 'bad-spec', st.text(max_size=8), 100, rule='every case')
def c17_bad_spec(s):
    if s.lower() in ('cobweb', 'cobweb3', 'trestle'):
        return False
    try:
        P.Sanitizer(s)
    except ValueError:
        return True
    check(False, 'unknown algorithm accepted', s)


FRESH = (
    "from concept_formation.preprocessor import Sanitizer\n"
    "print('RESULT' + repr([Sanitizer(s).transform(i) for i, s in %r]))\n")


@sub('C17', 'first-use', st.lists(st.tuples(odd_instance(), st.sampled_from(
    SPECS)), min_size=3, max_size=12), 16, thorough=160,
    rule='an instance needs sanitizing')
def c17_first_use(pairs):
    """Sanitizing as the first thing a program does with the library."""
    env = dict(os.environ)
    env['PYTHONPATH'] = os.environ.get('VERIF_REPO', '/repo')
    r = subprocess.run([sys.executable, '-c', FRESH % (pairs,)], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=60)
    text = r.stdout.decode('utf8', 'replace')
    check(r.returncode == 0 and 'RESULT' in text, 'sanitizing in a fresh '
          'interpreter fails:', r.stderr.decode('utf8', 'replace')[-300:])
    want = repr([P.Sanitizer(s).transform(i) for i, s in pairs])
    check(text[text.index('RESULT') + 6:].strip() == want, 'sanitizing '
          'differs in a fresh interpreter', text, want)
    return any(not valid_for(i, s.lower()) for i, s in pairs)
