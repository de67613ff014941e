"""Independent reference model of Cobweb / Cobweb/3.

Everything here is recomputed from the definitions in the documentation, from
multisets of instances; nothing is imported from the library except the marker
class needed to read a concept's table.
"""
import math

from pbt.core import Violation, check

TIE = 1e-9


def is_number(v):
    return (isinstance(v, (int, float)) and not isinstance(v, bool) and
            not (isinstance(v, float) and math.isnan(v)))


def visible(attr):
    return attr[0] != '_'


def c4(n):
    if n >= 30:
        return 1.0
    return (math.sqrt(2.0 / (n - 1)) *
            math.exp(math.lgamma(n / 2.0) - math.lgamma((n - 1) / 2.0)))


def unbiased_std(n, m2):
    if n < 2:
        return 0.0
    return math.sqrt(max(m2, 0.0) / (n - 1)) / c4(n)


def batch(values):
    n = len(values)
    if n == 0:
        return (0, 0.0, 0.0)
    if min(values) == max(values):      # exact, whatever the rounding
        return (n, values[0], 0.0)
    mean = math.fsum(values) / n
    return (n, mean, math.fsum((v - mean) * (v - mean) for v in values))


class Stats(object):
    """Attribute-value table of a concept."""
    __slots__ = ('count', 'nom', 'num')

    def __init__(self, count=0, nom=None, num=None):
        self.count = count
        self.nom = nom if nom is not None else {}
        self.num = num if num is not None else {}

    def attrs(self):
        return set(self.nom) | set(self.num)

    def plus(self, inst, numeric):
        nom = {a: dict(t) for a, t in self.nom.items()}
        num = dict(self.num)
        for a, v in inst.items():
            if numeric and is_number(v):
                n, mean, m2 = num.get(a, (0, 0.0, 0.0))
                d = v - mean
                mean2 = mean + d / (n + 1)
                num[a] = (n + 1, mean2, m2 + d * (v - mean2))
            else:
                t = nom.setdefault(a, {})
                t[v] = t.get(v, 0) + 1
        return Stats(self.count + 1, nom, num)

    def __repr__(self):
        return '<%s %r %r>' % (self.count, self.nom, self.num)


def combine(parts):
    out = Stats()
    for s in parts:
        out.count += s.count
        for a, t in s.nom.items():
            o = out.nom.setdefault(a, {})
            for v, c in t.items():
                o[v] = o.get(v, 0) + c
        for a, (n, m, m2) in s.num.items():
            if a in out.num:
                n1, m1, q1 = out.num[a]
                d = m - m1
                tot = n1 + n
                out.num[a] = (tot, m1 + d * n / tot,
                              q1 + m2 + d * d * n1 * n / tot)
            else:
                out.num[a] = (n, m, m2)
    return out


def stats_of(insts, numeric):
    nom, vals = {}, {}
    for inst in insts:
        for a, v in inst.items():
            if numeric and is_number(v):
                vals.setdefault(a, []).append(v)
            else:
                t = nom.setdefault(a, {})
                t[v] = t.get(v, 0) + 1
    return Stats(len(insts), nom, {a: batch(v) for a, v in vals.items()})


def node_stats(node):
    """Read the table of a real concept."""
    nom, num = {}, {}
    for a in node.av_counts:
        for v, c in node.av_counts[a].items():
            if hasattr(c, 'meanSq'):
                if c.num:
                    num[a] = (c.num, c.mean, c.meanSq)
            elif c:
                nom.setdefault(a, {})[v] = c
    return Stats(node.count, nom, num)


# -- numeric scales ---------------------------------------------------------

class Scales(object):
    """Online scale of every numeric attribute, from the fitted history."""

    def __init__(self, scaling, inner, values=None):
        self.scaling, self.inner = scaling, inner
        self.values = values if values is not None else {}
        self._cache = {}

    def key(self, attr):
        return attr[0] if isinstance(attr, tuple) and self.inner else attr

    def learn(self, inst):
        for a, v in inst.items():
            if is_number(v):
                k = self.key(a)
                self.values.setdefault(k, []).append(v)
        self._cache = {}

    def std(self, attr):
        k = self.key(attr)
        if k not in self._cache:
            n, m, m2 = batch(self.values.get(k, []))
            self._cache[k] = unbiased_std(n, m2)
        return self._cache[k]

    def mean(self, attr):
        return batch(self.values.get(self.key(attr), []))[1]

    def scale(self, attr):
        if not self.scaling:
            return 1.0
        s = (1.0 / self.scaling) * self.std(attr)
        return s if s > 0 else 1.0


# -- category utility -------------------------------------------------------

def ecg(stats, scales):
    """Expected correct guesses per visible attribute."""
    total, attrs = 0.0, 0
    for a in stats.attrs():
        if not visible(a):
            continue
        attrs += 1
        for c in stats.nom.get(a, {}).values():
            p = c / stats.count
            total += p * p
        if a in stats.num:
            n, _, m2 = stats.num[a]
            s = unbiased_std(n, m2) / scales.scale(a)
            sigma = math.sqrt(s * s + 1 / (4 * math.pi))
            p = n / stats.count
            total += p * p / (2 * math.sqrt(math.pi) * sigma)
    return total / attrs if attrs else 0.0


def cu(parent, children, scales):
    if not children:
        return 0.0
    return (math.fsum(c.count / parent.count * ecg(c, scales)
                      for c in children) - ecg(parent, scales)) / len(children)


# -- approximate comparison of tables ---------------------------------------

class Tolerance(object):
    """Rounding allowance for numeric tables, from the magnitudes fitted."""

    def __init__(self):
        self.lo, self.hi = {}, {}

    def learn(self, inst):
        for a, v in inst.items():
            if is_number(v):
                self.lo[a] = min(v, self.lo.get(a, v))
                self.hi[a] = max(v, self.hi.get(a, v))

    def num_equal(self, a, x, y):
        if x[0] != y[0]:
            return False
        lo, hi = self.lo.get(a, 0.0), self.hi.get(a, 0.0)
        mag = max(abs(lo), abs(hi))
        rng = hi - lo
        n = x[0]
        if abs(x[1] - y[1]) > 1e-10 * mag + 1e-300:
            return False
        tol = (1e-9 * max(abs(x[2]), abs(y[2])) + 1e-11 * n * rng * mag +
               1e-20 * n * mag * mag)
        return abs(x[2] - y[2]) <= tol

    def equal(self, s, t):
        if s.count != t.count or s.nom != t.nom:
            return False
        if s.num.keys() != t.num.keys():
            return False
        return all(self.num_equal(a, s.num[a], t.num[a]) for a in s.num)


# -- shadow hierarchy -------------------------------------------------------

class RT(object):
    """A concept of the reference hierarchy: the set of its instances."""
    __slots__ = ('ids', 'kids')

    def __init__(self, ids, kids=()):
        self.ids, self.kids = ids, kids

    def show(self):
        if not self.kids:
            return sorted(self.ids)
        return [k.show() for k in self.kids]


class Shadow(object):
    """Follows a real tree through its history.

    `explain(root, inst)` decides whether the real hierarchy `root` is one that
    the documented algorithm can reach from the shadow hierarchy by fitting
    `inst`; on success the shadow is advanced.
    """

    def __init__(self, numeric, scaling=None, inner=True):
        self.numeric = numeric
        self.scales = Scales(scaling, inner)
        self.tol = Tolerance()
        self.insts = []
        self.tree = RT(frozenset())
        self.stats_cache = {}
        self.ecg_cache = {}
        self.ops = []          # operations of the last step
        self.ambiguous = False  # some tie so far

    # -- helpers
    def stats(self, ids):
        s = self.stats_cache.get(ids)
        if s is None:
            s = self.stats_cache[ids] = stats_of(
                [self.insts[i] for i in sorted(ids)], self.numeric)
        return s

    def ecg(self, ids):
        e = self.ecg_cache.get(ids)
        if e is None:
            e = self.ecg_cache[ids] = ecg(self.stats(ids), self.scales)
        return e

    def cu(self, parent, children):
        n = len(parent)
        return (math.fsum(len(c) / n * self.ecg(c) for c in children) -
                self.ecg(parent)) / len(children)

    def matches_leaf(self, ids, i):
        mine = self.vis(i)
        return all(self.vis(j) == mine for j in ids)

    def vis(self, i):
        return {a: v for a, v in self.insts[i].items() if visible(a)}

    # -- legality of one step
    def options(self, rt, i):
        """Legal (operation, best1, best2) at an internal concept."""
        me = frozenset((i,))
        pid = rt.ids | me
        ins = []
        for k in rt.kids:
            others = [o.ids for o in rt.kids if o is not k]
            ins.append(self.cu(pid, others + [k.ids | me]))
        top = max(ins)
        new_cu = self.cu(pid, [k.ids for k in rt.kids] + [me])
        out = []
        for x, b1 in enumerate(rt.kids):
            if ins[x] < top - TIE:
                continue
            ops = [(ins[x], 'best', None), (new_cu, 'new', None)]
            if b1.kids:
                forest = [k.ids for k in rt.kids if k is not b1] + \
                    [k.ids for k in b1.kids]
                ops.append((self.cu(rt.ids, forest), 'split', None))
            seconds = []
            if len(rt.kids) > 2:
                rest = [y for y in range(len(rt.kids)) if y != x]
                top2 = max(ins[y] for y in rest)
                for y in rest:
                    if ins[y] >= top2 - TIE:
                        b2 = rt.kids[y]
                        forest = [k.ids for k in rt.kids
                                  if k is not b1 and k is not b2]
                        seconds.append((self.cu(
                            pid, forest + [b1.ids | b2.ids | me]),
                            'merge', b2))
            for sec in (seconds or [None]):
                cand = ops + ([sec] if sec else [])
                best = max(c[0] for c in cand)
                for c in cand:
                    if c[0] >= best - TIE:
                        o = (c[1], b1, c[2])
                        if o not in out:
                            out.append(o)
        return out

    def same(self, rt, act):
        """The real concept `act` equals the reference concept `rt`."""
        if len(rt.kids) != len(act.kids):
            return False
        if not self.tol.equal(act.stats, self.stats(rt.ids)):
            return False
        return self.same_forest(list(rt.kids), list(act.kids))

    def same_forest(self, rts, acts):
        if len(rts) != len(acts):
            return False
        if not rts:
            return True
        for y, a in enumerate(acts):
            if self.same(rts[0], a) and \
                    self.same_forest(rts[1:], acts[:y] + acts[y + 1:]):
                return True
        return False

    def _explain(self, rt, act, i, path):
        """Returns the advanced reference concept or None."""
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        me = frozenset((i,))
        pid = rt.ids | me
        if not self.tol.equal(act.stats, self.stats(pid)):
            return None
        if not rt.kids:
            if not rt.ids or self.matches_leaf(rt.ids, i):
                self.ops = path + ['leaf']
                return RT(pid) if not act.kids else None
            new = RT(pid, (rt, RT(me)))
            if self.same(new, act):
                self.ops = path + ['fringe']
                return new
            return None
        opts = self.options(rt, i)
        if len(opts) > 1:
            self.step_ambiguous = True
        for op, b1, b2 in opts:
            rest = [k for k in rt.kids if k is not b1 and k is not b2]
            if op == 'split':
                got = self._explain(RT(rt.ids, tuple(rest) + b1.kids), act, i,
                                    path + ['split'])
                if got is not None:
                    return got
                continue
            if op == 'new':
                rest = list(rt.kids)
            want = len(rest) + 1
            if len(act.kids) != want:
                continue
            for y, a in enumerate(act.kids):
                others = act.kids[:y] + act.kids[y + 1:]
                if op == 'new':
                    if self.same(RT(me), a) and \
                            self.same_forest(rest, list(others)):
                        self.ops = path + ['new']
                        return RT(pid, rt.kids + (RT(me),))
                    continue
                target = b1 if op == 'best' else RT(b1.ids | b2.ids, (b1, b2))
                if not self.tol.equal(a.stats,
                                      self.stats(target.ids | me)):
                    continue
                if not self.same_forest(rest, list(others)):
                    continue
                got = self._explain(target, a, i, path + [op])
                if got is not None:
                    return RT(pid, tuple(rest) + (got,))
        return None

    def fit(self, root, inst):
        """Advance by one fitted instance, given the real root after it.

        Returns True when the step was fully decided, None if undecided.
        """
        i = len(self.insts)
        self.insts.append(dict(inst))
        if self.numeric:
            self.tol.learn(inst)
            self.scales.learn(inst)
        self.ecg_cache = {}
        self.budget = 4000
        self.step_ambiguous = False
        act = Act(root)
        try:
            got = self._explain(self.tree, act, i, [])
        except Budget:
            raise Undecided()
        if got is None:
            raise Violation(
                'fitting instance %d (%r): hierarchy %s is not reachable from '
                '%s by utility-maximising operations; options at the root: %s'
                % (i, inst, act.show(), self.tree.show(),
                   [(o, sorted(b.ids), b2 and sorted(b2.ids)) for o, b, b2 in
                    (self.options(self.tree, i) if self.tree.kids else [])]))
        self.ambiguous = self.ambiguous or self.step_ambiguous
        self.tree = got
        return True


class Budget(Exception):
    pass


class Undecided(Exception):
    pass


class Act(object):
    """Snapshot of a real hierarchy."""
    __slots__ = ('stats', 'kids')

    def __init__(self, node, depth=0):
        check(depth < 400, 'hierarchy too deep or cyclic')
        self.stats = node_stats(node)
        self.kids = [Act(c, depth + 1) for c in node.children]

    def show(self):
        if not self.kids:
            return self.stats.count
        return [k.show() for k in self.kids]


def snapshot(node):
    """Exact, order-insensitive-in-tables snapshot of a real hierarchy."""
    table = {}
    for a, t in node.av_counts.items():
        table[a] = {v: ((c.num, c.mean, c.meanSq) if hasattr(c, 'meanSq')
                        else c) for v, c in t.items()}
    return (node.concept_id, node.count, table,
            node.parent.concept_id if node.parent is not None else None,
            [snapshot(c) for c in node.children])


def tree_snapshot(tree):
    scales = {a: (c.num, c.mean, c.meanSq)
              for a, c in getattr(tree, 'attr_scales', {}).items()}
    return snapshot(tree.root), scales, getattr(tree, 'scaling', None), \
        getattr(tree, 'inner_attr_scaling', None)


def walk(node):
    yield node
    for c in node.children:
        for x in walk(c):
            yield x
