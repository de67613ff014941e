import importlib.util
def load(p):
    s=importlib.util.spec_from_file_location('q',p); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return {B['id']:B for B in m.BUGS}
Q={}
Q.update(load('/tmp/q/q1.py')); Q.update(load('/tmp/q/q2.py'))
BUGS=[]
def bug(id,qid,needs,what,demo,**k):
    B=Q[qid]; BUGS.append(dict(id=id,property=qid[:3],edits=B['edits'],needs=needs,what=what,demo=demo,**k))
bug('C02-depth-limit','C02-depth','a hierarchy deeper than the limit','the depth of a deep concept is reported wrongly','''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
n = t.root
n.increment_counts({'a': 'u'})
for d in range(1, 80):
    n = n.create_new_child({'a': 'v%d' % d})
    assert n.depth() == d, (n.depth(), d)
''')
bug('C06-default-ops','C06-mutdefault','asking for the best operation where there is no second best child','the list of operations considered by default loses merging for every later caller','''
from concept_formation.cobweb import CobwebTree
def ask():
    t = CobwebTree()
    for i in ({'a': 'u', 'b': 'x'}, {'a': 'u', 'b': 'x'},
              {'a': 'v', 'b': 'y'}, {'a': 'w', 'b': 'z'}):
        t.root.increment_counts(i)
        t.root.create_new_child(i)
    q = {'a': 'u', 'b': 'x'}
    cu, b1, b2 = t.root.two_best_children(q)
    op = t.root.get_best_operation(q, b1, b2, cu)[1]
    t.root.get_best_operation(q, b1, None, cu)
    return op
first = ask()
assert first == 'merge', first
assert ask() == first
''')
bug('C06-one-split','C06-clusterdeep','clustering with a single split without learning','the clustered tree itself is taken apart','''
from concept_formation.cobweb import CobwebTree
from concept_formation import cluster
t = CobwebTree()
data = [{'a': v, 'b': w} for v in 'xyz' for w in 'pq'] * 2
for i in data:
    t.ifit(i)
before = str(t)
list(cluster.cluster_iter(t, data, minsplit=1, maxsplit=1, mod=False))
list(cluster.cluster(t, data, mod=False))
assert str(t) == before
''')
bug('C08-number-as-text','C08-unseen','a number asked of an attribute that so far only had text values','the number is given the probability of the text that looks like it','''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for v in ('3', '3', '7'):
    t.ifit({'a': v})
assert t.root.probability('a', 3) == 0
assert abs(t.root.probability('a', '3') - 2 / 3) < 1e-9
''')
bug('C11-nested-inner','C11-inner3','attributes of different nested components that share their innermost name, with inner scaling','they are no longer scaled together','''
from concept_formation.cobweb3 import Cobweb3Tree
def cu(names):
    t = Cobweb3Tree(0.5, True)
    for k, n in enumerate(names):
        t.ifit({n: float(k * k)})
    return t.root.expected_correct_guesses()
t = Cobweb3Tree(0.5, True)
for k in range(6):
    t.ifit({('x', ('m', '?o1')): float(k), ('x', '?o2'): float(100 * k)})
a = t.root.av_counts[('x', ('m', '?o1'))]
u = Cobweb3Tree(0.5, True)
for k in range(6):
    u.ifit({('x', '?o1'): float(k), ('x', '?o2'): float(100 * k)})
assert abs(t.root.expected_correct_guesses() -
           u.root.expected_correct_guesses()) < 1e-9
''')
bug('C12-many-names','C12-gensym','more than 500 objects seen','generated object names start over and collide with names in use','''
import random
from concept_formation.trestle import TrestleTree
random.seed(0)
t = TrestleTree()
for k in range(3):
    t.ifit({'?a': {'c': 'red', 's': 'x'}, '?b': {'c': 'blue'}, 'k': 'v'})
q = {'?n%d' % j: {'c': random.choice(['red', 'blue'])} for j in range(6)}
for _ in range(200):
    t.categorize(q)
seen = set()
for _ in range(1200):
    n = t.gensym()
    assert n not in seen, n
    seen.add(n)
''')
bug('C12-value-renamed','C12-rename-const','a value that is spelled like the name of a mapped object','the value is replaced by the name of the object it happens to look like','''
import random
from concept_formation.trestle import TrestleTree
for seed in range(5):
    random.seed(seed)
    t = TrestleTree()
    for k in range(4):
        t.ifit({'?a': {'c': 'red', 'm': '?o%d' % (2 * k + 1)},
                '?b': {'c': 'blue', 'm': '?o%d' % (2 * k + 2)}})
    got = set()
    for a, vals in t.root.av_counts.items():
        if a[0] == 'm':
            got |= set(vals)
    assert got == {'?o%d' % k for k in range(1, 9)}, got
''',checks=['C12','C14'])
bug('C15-many-stages','C15-pipeline','a pipeline of at least five stages','undoing runs the stages in the wrong order','''
from concept_formation.preprocessor import (Pipeline, NameStandardizer,
    Flattener, SubComponentProcessor, Tuplizer)
i = {'?a': {'c': 'red', '?b': {'c': 'blue'}}, '?c': {'c': 'u'},
     '(on ?a ?c)': True}
for p in (Pipeline(Tuplizer(), NameStandardizer(), Flattener(),
                   SubComponentProcessor()),
          Pipeline(Tuplizer(), NameStandardizer(), NameStandardizer(),
                   Flattener(), SubComponentProcessor())):
    assert p.undo_transform(p.transform(i)) == i
''')
bug('C16-long-list','C16-order','a list of more than 26 elements','the ordering of the tail is not recorded and the list cannot be restored','''
from concept_formation.preprocessor import ListProcessor
for n in (3, 10, 26, 27, 40):
    p = ListProcessor()
    i = {'l': ['v%d' % (k % 7) for k in range(n)]}
    assert p.undo_transform(p.transform(i)) == i, n
''')
bug('C16-false-element','C16-val','a list with the element False','the element comes back as a component','''
from concept_formation.preprocessor import ListProcessor
p = ListProcessor()
i = {'l': ['a', False, True, 0]}
got = p.undo_transform(p.transform(i))
assert repr(got) == repr(i), got
''')
bug('C17-large-number','C17-on','a floating-point number above 100000','digits are lost when the number becomes text','''
from concept_formation.preprocessor import NumericToNominal
for v in (2.5, 123456789.12345, 1e22, 7):
    assert NumericToNominal().transform({'a': v})['a'] == str(v), v
''')
bug('C18-many-splits','C18-max','more than twelve splits','the sequence of clusterings stops early','''
from concept_formation.cobweb import CobwebTree
from concept_formation import cluster
t = CobwebTree()
data = [{c: str((k >> j) & 1) for j, c in enumerate('abcde')}
        for k in range(32)]
for i in data:
    t.ifit(i)
last = [c for c, h in cluster.cluster_iter(t, data, mod=False)][-1]
assert len(set(last)) == 32, len(set(last))
''')
bug('C19-falsy-target','C19-falsy','an instance whose target value is False or 0','it is scored as if the target were missing','''
from concept_formation.cobweb import CobwebTree
from concept_formation.evaluation import incremental_evaluation
seen = []
def score(tree, inst, attr, val):
    seen.append(val)
    return 0.0
data = [{'a': 'x', 't': v} for v in (True, False, 'p', '')]
incremental_evaluation(CobwebTree(), data, 't', 4, runs=1, score=score,
                       randomize_first=False)
assert seen == [True, False, 'p', ''], seen
''')
bug('C20-leftover-output','C20-exists','a directory that already has an output.js but no page, without recreating the page','no page is written','''
import os, tempfile, shutil, webbrowser
webbrowser.open = lambda *a, **k: None
from concept_formation.cobweb import CobwebTree
from concept_formation.visualize import visualize
t = CobwebTree()
t.ifit({'a': 'x'})
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, 'output.js'), 'w') as f:
        f.write('old')
    visualize(t, d, recreate_html=False)
    assert os.path.exists(os.path.join(d, 'viz.html'))
finally:
    shutil.rmtree(d)
''')
bug('C21-hidden-none','C21-none-hidden','a hidden attribute without a value','the instance is accepted and corrupts the counts','''
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.ifit({'a': 'x'})
for bad in ({'a': None}, {'a': 'x', '_h': None}):
    try:
        t.ifit(bad)
    except ValueError:
        continue
    raise AssertionError(bad)
assert t.root.count == 1
''')
