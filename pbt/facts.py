"""Reference reading of structured instances.

Every fact is (key, value) where key is
  ('attr', path, hidden)    path from the outermost constant or the object
                            name down to the attribute
  ('rel', elements...)      a relation, elements being constants or paths
Nested variable objects are named by themselves; the nesting is a
('rel', 'has-component', container, object) fact.
"""


def is_var(x):
    return isinstance(x, str) and x[:1] == '?'


def cut(path):
    """Path starting at its last variable object."""
    for i in range(len(path) - 1, -1, -1):
        if is_var(path[i]):
            return path[i:]
    return path


def element(e):
    """Canonical form of a relation element."""
    if isinstance(e, tuple):
        if len(e) == 2:
            return ('path',) + unfold(e)
        return ('rel',) + tuple(element(x) for x in e)
    return e


def unfold(attr):
    path = []
    while isinstance(attr, tuple) and len(attr) == 2:
        if attr[0] == '_':
            attr = attr[1]
        else:
            path.append(attr[0])
            attr = attr[1]
    path.append(attr)
    return tuple(reversed(path))


def short(e):
    """Canonical element with nested objects named by themselves."""
    if isinstance(e, tuple) and e[0] == 'path':
        p = cut(e[1:])
        return p[0] if len(p) == 1 else ('path',) + p
    if isinstance(e, tuple):
        return ('rel',) + tuple(short(x) for x in e[1:])
    return e


def containments(path):
    """has-component facts implied by a path."""
    out = []
    for i in range(1, len(path)):
        if is_var(path[i]):
            c = cut(path[:i])
            out.append(('rel', 'has-component',
                        c[0] if len(c) == 1 else ('path',) + c, path[i]))
    return out


def rel_containments(e):
    if isinstance(e, tuple) and e[0] == 'path':
        return containments(e[1:])
    if isinstance(e, tuple):
        return [r for x in e[1:] for r in rel_containments(x)]
    return []


def facts(inst):
    """{key: value} of a structured instance, nested objects cut out."""
    out = {}

    def walk(d, path, hidden):
        for k, v in d.items():
            if isinstance(k, tuple) and not path:
                if len(k) == 2:
                    p = unfold(k)
                    add(p, v, k[0] == '_' or any(x[0] == '_' for x in p))
                    continue
                e = ('rel',) + tuple(element(x) for x in k)
                for r in rel_containments(e):
                    out.setdefault(r, True)
                out[short(e)] = v
                continue
            p = path + (k,)
            h = hidden or k[0] == '_'
            if isinstance(v, dict):
                walk(v, p, h)
            else:
                add(p, v, h)

    def add(p, v, h):
        for r in containments(p):
            out.setdefault(r, True)
        out[('attr', cut(p), bool(h))] = v

    walk(inst, (), False)
    return out


def flat_key(attr):
    """Canonical key of an attribute of a flattened, extracted instance."""
    if isinstance(attr, tuple) and len(attr) != 2:
        return short(('rel',) + tuple(element(x) for x in attr))
    if isinstance(attr, tuple):
        return ('attr', unfold(attr), attr[0] == '_')
    return ('attr', (attr,), attr[0] == '_')


def key_vars(k):
    if isinstance(k, tuple):
        out = []
        for x in k:
            for v in key_vars(x):
                if v not in out:
                    out.append(v)
        return out
    return [k] if is_var(k) else []


def ren(k, m):
    if isinstance(k, tuple):
        return tuple(ren(x, m) for x in k)
    return m.get(k, k) if isinstance(k, str) else k


def shape(k):
    """Key with the identity of its variables removed."""
    if isinstance(k, tuple):
        return tuple(shape(x) for x in k)
    return '?' if is_var(k) else k


def signature(facts_, v, same):
    return sorted((repr(ren_sig(k, v)), same(x)) for k, x in facts_.items()
                  if v in key_vars(k))


def ren_sig(k, v):
    if isinstance(k, tuple):
        return tuple(ren_sig(x, v) for x in k)
    if k == v:
        return '?self'
    return '?other' if is_var(k) else k


def isomorphism(left, right, same):
    """Injective renaming of left's variables making left equal to right.

    left, right: {key: value}; same(value) gives a comparable value.
    """
    if len(left) != len(right):
        return None
    lv = sorted({v for k in left for v in key_vars(k)})
    rv = sorted({v for k in right for v in key_vars(k)})
    if len(lv) != len(rv):
        return None
    lsig = {v: signature(left, v, same) for v in lv}
    rsig = {v: signature(right, v, same) for v in rv}
    cand = {v: [w for w in rv if rsig[w] == lsig[v]] for v in lv}
    order = sorted(lv, key=lambda v: len(cand[v]))
    rset = {k: same(v) for k, v in right.items()}
    budget = [20000]

    def ok(m):
        for k, v in left.items():
            if all(x in m for x in key_vars(k)):
                rk = ren(k, m)
                if rk not in rset or rset[rk] != same(v):
                    return False
        return True

    def rec(i, m, used):
        budget[0] -= 1
        if budget[0] < 0:
            raise Budget()
        if i == len(order):
            return dict(m)
        for w in cand[order[i]]:
            if w in used:
                continue
            m[order[i]] = w
            if ok(m):
                got = rec(i + 1, m, used | {w})
                if got is not None:
                    return got
            del m[order[i]]
        return None
    if not ok({}):
        return None
    return rec(0, {}, frozenset())


class Budget(Exception):
    pass
