"""Generators.  Every case is a plain literal (dicts, lists, tuples, numbers,
strings, booleans), so it can be replayed from its repr."""
import random

from hypothesis import strategies as st

NAMES = ['a', 'b', 'c', 'size', 'xy', '?v', ('x', '?o1'), ('x', '?o2'),
         ('y', '?o1'), ('rel', '?o1', '?o2')]
HIDDEN = ['_h', '_id', '_guid', '_t', ('_', ('_x', 'c')), '_', '__x']
HIDVALS = [['u', 'v', 'w'], ['u', 'v', 'w'], ['id%d' % k for k in range(12)]]
NOMVALS = ['u', 'v', 'w', 'z', '', 'True', 'U']
COBWEB_VALS = ['u', 'v', 7, 2.5, True, ('p', 1), 'w', '', 'U', '7']
C3_VALS = ['u', 'v', True, False, ('p', 1), 'w', '', '3', '7', 'V',
           'True']

# less usual names and values, drawn now and then
ODD_NAMES = ['A b', 'na\u00efve', 'under_score', 'a' * 200, '0', 'x-y', '#n',
             'None', 'c?', 'count', '-', "it's"]
ODD_VALS = ['12', 'None', '\u00e9t\u00e9', '_u', '?v', 'u' * 300, 'U', ' u',
            '0', 'False', "o'k", '(a b)', 'nan']

seeds = st.integers(0, 2 ** 16)


def reorder(x, rng):
    """The same instance written in another order, at every depth."""
    if isinstance(x, dict):
        keys = list(x)
        rng.shuffle(keys)
        return {k: reorder(x[k], rng) for k in keys}
    if isinstance(x, list):
        return [reorder(e, rng) for e in x]
    return x


@st.composite
def num_domain(draw, size):
    gran = draw(st.sampled_from([1, 1, 0.5, 0.1, 0.01, 10, 1000, 3, 2 ** -12,
                                 2 ** -30, 10 ** 6, 10 ** 10]))
    off = draw(st.sampled_from([0, 0, 0, 1, -5, 100, -1000]))
    if gran < 0.0001 or gran > 10 ** 4:
        off = 0
    steps = draw(st.lists(st.integers(-20, 20), min_size=size, max_size=size,
                          unique=True))
    as_int = gran in (1, 10, 1000, 3, 10 ** 6, 10 ** 10) and draw(st.booleans())
    out = []
    for s in steps:
        v = off + s * gran
        out.append(int(v) if as_int else float(v))
    return out


@st.composite
def flat_schema(draw, kind, max_attrs=4, hidden=True, names=None,
                numeric=None, mixed=True):
    """[(attr, [values], optional)]"""
    pool = list(names or NAMES)
    k = draw(st.integers(1, max_attrs))
    if draw(st.integers(0, 15)) == 0:
        pool += ODD_NAMES
        k = draw(st.sampled_from([k, k, min(k + 4, 8)]))
    elif names is None and max_attrs > 3 and draw(st.integers(0, 31)) == 0:
        return draw(broad_schema(kind, hidden, numeric))
    attrs = draw(st.lists(st.sampled_from(pool), min_size=k, max_size=k,
                          unique=True))
    if hidden and draw(st.booleans()):
        attrs = attrs + draw(st.lists(st.sampled_from(HIDDEN), min_size=1,
                                      max_size=2, unique=True))
    out = []
    for a in attrs:
        size = draw(st.integers(1, 4))
        if kind == 'cobweb3' and (numeric if numeric is not None
                                  else draw(st.booleans())):
            vals = draw(num_domain(size))
            if mixed and draw(st.integers(0, 9)) == 0:
                vals = vals[:2] + draw(st.sampled_from(
                    [['u'], ['u', 'v'], ['']]))
        else:
            base = COBWEB_VALS if kind == 'cobweb' else C3_VALS
            odd = draw(st.integers(0, 19))
            if odd == 0:
                base = ODD_VALS
            elif odd == 1:        # many values
                base = ['k%d' % j for j in range(20)]
                size = draw(st.integers(6, 20))
            vals = base[:size] if draw(st.booleans()) else draw(
                st.lists(st.sampled_from(base), min_size=size, max_size=size,
                         unique_by=lambda v: (type(v).__name__, v)))
        out.append((a, vals, draw(st.sampled_from([True, False]))))
    return out


@st.composite
def broad_schema(draw, kind, hidden, numeric):
    """Many attributes."""
    rng = random.Random(draw(seeds))
    out = []
    for j in range(draw(st.integers(9, 40))):
        num = kind == 'cobweb3' and (rng.random() < 0.4 if numeric is None
                                     else numeric)
        vals = [rng.randrange(-9, 9) * 0.5 for _ in range(3)] if num else \
            ['u', 'v', 'w']
        name = '_h%d' % j if hidden and rng.random() < 0.1 else 'w%d' % j
        out.append((name, sorted(set(vals[:rng.randrange(1, 4)])),
                    rng.random() < 0.2))
    return out


@st.composite
def flat_instances(draw, schema, lo, hi, empty_ok=True):
    sizes = [len(v) + (1 if opt else 0) for _, v, opt in schema]
    total = 1
    for s in sizes:
        total *= s
    n = draw(st.integers(lo, hi))
    codes = draw(st.lists(st.integers(0, total - 1), min_size=n, max_size=n))
    out = [decode(schema, sizes, c) for c in codes]
    if draw(st.integers(0, 7)) == 0:
        rng = random.Random(draw(seeds))
        out = [reorder(i, rng) for i in out]
    return out


def decode(schema, sizes, code):
    inst = {}
    for (a, vals, opt), s in zip(schema, sizes):
        d = code % s
        code //= s
        if d < len(vals):
            inst[a] = vals[d]
    return inst


SCALINGS = [0.5, 0.5, 0.5, 1.0, 2, 0.25, None, False]


@st.composite
def flat_case(draw, lo=1, hi=14, kinds=('cobweb', 'cobweb3'), hidden=True,
              max_attrs=4, queries=0, names=None):
    kind = draw(st.sampled_from(list(kinds)))
    schema = draw(flat_schema(kind, max_attrs=max_attrs, hidden=hidden,
                              names=names))
    case = dict(kind=kind, seed=draw(seeds))
    if kind == 'cobweb3':
        case['scaling'] = draw(st.sampled_from(SCALINGS))
        case['inner'] = draw(st.booleans())
    case['insts'] = draw(flat_instances(schema, lo, hi))
    if queries:
        case['queries'] = draw(flat_queries(schema, kind, queries))
    return case


@st.composite
def flat_queries(draw, schema, kind, n):
    """Partial instances, possibly with unseen attributes and values."""
    wide = []
    for a, vals, opt in schema:
        extra = []
        if kind == 'cobweb3' and vals and isinstance(vals[0], (int, float)) \
                and not isinstance(vals[0], bool):
            extra = [vals[0] + 1.25]
        else:
            extra = ['unseen']
        wide.append((a, vals + extra, True))
    if draw(st.booleans()):
        wide.append(('newattr', ['q'], True))
    return draw(flat_instances(wide, 1, n))


# -- structured instances ----------------------------------------------------

VARPOOL = ['?a', '?b', '?o1', '?o2', '?x1', '?piece', '?o3', '?d', '?o10',
           '?e', '?', '?a ']
NOM = ['color', 'kind']
NUM = ['size', 'w2']
COMPS = ['box', 'frame', 'core', 'box', 'frame', 'a-very-' + 'long-' * 12]
HIDNOM, HIDNUM, HIDCOMP = ['_id', '_tag', '_guid'], ['_w'], ['_meta']


class Ctx(object):
    def __init__(self, names):
        self.names = list(names)
        self.objects = []        # reference path of every component
        self.attrs = []          # attribute references


def ref(path):
    """('inner', ('mid', 'outer')) reference of a path outer..inner."""
    out = path[0]
    for p in path[1:]:
        out = (p, out)
    return out


@st.composite
def component(draw, ctx, path, depth, hidden=True, nums=True, lists=False):
    """A non-empty component; variable names are never reused."""
    out = {}
    for a in draw(st.lists(st.sampled_from(NOM + (NUM if nums else [])),
                           max_size=2, unique=True)):
        out[a] = draw(value_of(a))
        ctx.attrs.append(path + (a,))
    if hidden and draw(st.integers(0, 5)) == 0:
        a = draw(st.sampled_from(HIDNOM + (HIDNUM if nums else [])))
        out[a] = draw(value_of(a))
    if draw(st.integers(0, 14)) == 0:
        # a wide component
        for k in range(draw(st.integers(6, 12))):
            out['p%d' % k] = 'blue' if k % 4 else 'red'
    if depth > 0:
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
            if ctx.names and draw(st.booleans()):
                name = ctx.names.pop()
            else:
                name = draw(st.sampled_from(COMPS))
            if name in out:
                continue
            sub = path + (name,)
            ctx.objects.append(sub)
            out[name] = draw(component(ctx, sub, depth - 1, hidden, nums))
    if not out:
        a = draw(st.sampled_from(NOM))
        out[a] = draw(value_of(a))
        ctx.attrs.append(path + (a,))
    return out


def value_of(a):
    if a in NUM + HIDNUM:
        return st.sampled_from([1, 2.5, 4, -3, 10])
    if a in HIDNOM:
        return st.sampled_from(['i1', 'i2', True])
    return st.sampled_from(['red', 'blue', 'green', '?a', True, 'red',
                            'blue', '_u', '12', '', 'box', '?o1', '?o2'])


@st.composite
def structured(draw, depth=2, objects=3, hidden=True, nums=True, rels=True,
               plain_vars=True, const_top=True, chains=None,
               inner_rels=True):
    ctx = Ctx(draw(st.permutations(VARPOOL)))
    inst = {}
    for a in draw(st.lists(st.sampled_from(NOM + (NUM if nums else [])),
                           max_size=2, unique=True)):
        inst[a] = draw(value_of(a))
    if hidden and draw(st.integers(0, 3)) == 0:
        a = draw(st.sampled_from(HIDNOM + (HIDNUM if nums else [])))
        inst[a] = draw(value_of(a))
    if hidden and draw(st.integers(0, 5)) == 0:
        inst['_meta'] = {'_id': draw(value_of('_id'))}
        if draw(st.booleans()):
            inst['_meta']['kind'] = draw(value_of('kind'))
        if draw(st.booleans()):
            inst['_meta']['box'] = {'color': draw(value_of('color'))}
    for _ in range(draw(st.integers(0, objects))):
        if (not const_top or draw(st.integers(0, 3))) and ctx.names:
            name = ctx.names.pop()
        else:
            name = draw(st.sampled_from(COMPS))
        if name in inst:
            continue
        ctx.objects.append((name,))
        inst[name] = draw(component(ctx, (name,), depth - 1, hidden, nums))
    if (rels and depth > 1 if chains is None else chains) and \
            draw(st.integers(0, 7)) == 0:
        draw(chain(ctx, inst))
    if plain_vars and ctx.names and draw(st.integers(0, 5)) == 0:
        name = ctx.names.pop()
        inst[name] = draw(st.sampled_from(['red', 'blue', '?a', '?o1']))
        ctx.objects.append((name,))
    if rels:
        for _ in range(draw(st.integers(0, 2))):
            inst.update(draw(relation(ctx)))
        if inner_rels and draw(st.integers(0, 5)) == 0:
            draw(inner_relation(ctx, inst))
    if draw(st.integers(0, 3)) == 0:
        inst = reorder(inst, random.Random(draw(seeds)))
    return inst


@st.composite
def chain(draw, ctx, inst):
    """An object deep inside components without attributes of their own."""
    path = ()
    d = inst
    for k in range(draw(st.integers(3, 5))):
        if ctx.names and draw(st.integers(0, 3)):
            name = ctx.names.pop()
        else:
            name = draw(st.sampled_from(COMPS))
        if name in d:
            return
        if k == 0:
            top = name
            new = {}
            first = new
        path += (name,)
        ctx.objects.append(path)
        if k:
            new[name] = {}
            new = new[name]
    a = draw(st.sampled_from(NOM))
    new[a] = draw(value_of(a))
    ctx.attrs.append(path + (a,))
    inst[top] = first


@st.composite
def inner_relation(draw, ctx, inst):
    """A relation over outermost objects written inside a component."""
    tops = [p[0] for p in ctx.objects if len(p) == 1]
    homes = [p for p in ctx.objects if not plain(inst, p)]
    if not tops or not homes:
        return
    d = inst
    for p in draw(st.sampled_from(homes)):
        d = d[p]
    d[('near', draw(st.sampled_from(tops)), draw(st.sampled_from(tops)))] = \
        draw(st.sampled_from([True, 'near']))


def plain(inst, path):
    for p in path:
        if not isinstance(inst, dict) or p not in inst:
            return True
        inst = inst[p]
    return not isinstance(inst, dict)


@st.composite
def relation(draw, ctx):
    refs = [ref(p) for p in ctx.objects]
    vals = [True, True, True, 'near', 2, -3, False]
    kind = draw(st.sampled_from(['obj', 'obj', 'obj', 'attr', 'nested',
                                 'free', 'many', 'const', 'wide', 'deep',
                                 'solo']))
    if not refs:
        return {}
    pick = st.sampled_from(refs)
    if kind == 'obj':
        key = ('on', draw(pick), draw(pick))
    elif kind == 'const':
        key = ('on', draw(pick), draw(st.sampled_from(['table', 'on'])))
    elif kind == 'many':
        key = ('tri', draw(pick), draw(pick), draw(pick))
    elif kind == 'attr' and ctx.attrs:
        at = [ref(p) for p in ctx.attrs]
        key = ('less', draw(st.sampled_from(at)), draw(st.sampled_from(at)))
    elif kind == 'wide':
        inner = [r for r in refs if isinstance(r, tuple)]
        key = ('row',) + tuple(draw(st.lists(pick, min_size=3, max_size=6))
                               ) + (draw(st.sampled_from(inner or refs)),)
        if ctx.names and draw(st.booleans()):
            key += (ctx.names.pop(),)
    elif kind == 'deep':
        key = ('says', draw(pick), ('if', ('on', draw(pick), draw(pick)),
                                    ('so', 'x', ('on', draw(pick), 'y'))))
    elif kind == 'solo':
        key = (draw(st.sampled_from(['raining', '?sky'])),)
    elif kind == 'nested':
        key = ('knows', draw(pick), ('on', draw(pick), draw(pick)))
    elif kind == 'free' and ctx.names:
        key = ('on', draw(pick), ctx.names.pop())
    else:
        key = ('on', draw(pick), draw(pick))
    return {key: draw(st.sampled_from(vals))}


@st.composite
def renamed(draw, inst):
    """The same instance with its variables renamed one-to-one."""
    names = sorted(variables(inst))
    new = draw(st.permutations(VARPOOL))
    return rename_all(inst, dict(zip(names, new)))


def variables(x):
    out = set()
    if isinstance(x, dict):
        for k, v in x.items():
            out |= variables(k)
            if isinstance(v, dict):
                out |= variables(v)
            elif isinstance(v, list):
                for e in v:
                    if isinstance(e, dict):
                        out |= variables(e)
    elif isinstance(x, tuple):
        for e in x:
            out |= variables(e)
    elif isinstance(x, str) and x[:1] == '?':
        out.add(x)
    return out


def rename_key(k, m):
    if isinstance(k, tuple):
        return tuple(rename_key(e, m) for e in k)
    return m.get(k, k) if isinstance(k, str) else k


def rename_all(x, m):
    return {rename_key(k, m): (rename_all(v, m) if isinstance(v, dict) else v)
            for k, v in x.items()}


@st.composite
def history(draw, lo=1, hi=6, **kw):
    """Structured instances, some of them variations of earlier ones."""
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        how = draw(st.sampled_from(['new', 'new', 'renamed', 'edited',
                                    'edited']))
        if how == 'new' or not out:
            out.append(draw(structured(**kw)))
            continue
        base = out[draw(st.integers(0, len(out) - 1))]
        inst = draw(renamed(base))
        if how == 'edited':
            inst = draw(edited(inst))
        out.append(inst)
    return out


@st.composite
def edited(draw, inst):
    """Change or drop one plain attribute somewhere."""
    spots = []

    def walk(d, path):
        for k, v in d.items():
            if isinstance(v, dict):
                walk(v, path + (k,))
            elif isinstance(k, str) and k[0] != '?':
                spots.append((path, k, len(d)))
    walk(inst, ())
    if not spots:
        return inst
    path, k, size = draw(st.sampled_from(sorted(spots, key=repr)))
    import copy
    inst = copy.deepcopy(inst)
    d = inst
    for p in path:
        d = d[p]
    if size > 1 and draw(st.booleans()):
        del d[k]
        # relations may refer to the attribute: that stays legal
    else:
        d[k] = draw(value_of(k))
    return inst


# -- larger flat histories, written compactly ---------------------------------

SHAPES = ['proto', 'wide', 'deep', 'many', 'near', 'sparse', 'broad']


@st.composite
def big_case(draw, lo=30, hi=120, kinds=('cobweb', 'cobweb3'),
             shapes=SHAPES):
    kind = draw(st.sampled_from(list(kinds)))
    case = dict(kind=kind, seed=draw(seeds))
    if kind != 'cobweb':
        case['scaling'] = draw(st.sampled_from(SCALINGS))
        case['inner'] = draw(st.booleans())
    case['big'] = dict(shape=draw(st.sampled_from(list(shapes))),
                       n=draw(st.integers(lo, hi)), k=draw(st.integers(2, 24)),
                       seed=draw(seeds))
    return case


def expand(case):
    """The case with the instances its 'big' entry stands for."""
    b = case['big']
    rng = random.Random(b['seed'])
    num = case['kind'] != 'cobweb'
    k = b['k']
    out = []
    if b['shape'] == 'proto':
        protos = [[rng.randrange(5) for _ in range(5)] for _ in range(k)]
    for j in range(b['n']):
        i = {}
        if b['shape'] == 'proto':
            p = rng.choice(protos)
            for a, v in zip('abcde', p):
                r = rng.random()
                if r < 0.1:
                    continue
                if r < 0.2:
                    v = rng.randrange(5)
                if a in 'ab' and num:
                    i[a] = round(v * 3 + rng.gauss(0, 1), 2)
                else:
                    i[a] = 'v%d' % v
        elif b['shape'] == 'wide':      # many concepts side by side
            t = j % k if rng.random() < 0.8 else rng.randrange(k)
            i = {'a': 'v%d' % t, 'b': 'w%d' % t}
            if rng.random() < 0.3:
                i['c'] = rng.choice(['u', 'v'])
        elif b['shape'] == 'deep':      # a binary code, one bit per level
            path = 'p'
            for _ in range(2 + k % 8):
                bit = rng.choice('001')
                i[path] = bit
                path += bit
        elif b['shape'] == 'many':      # attributes with many values
            i['a'] = 'v%d' % int(30 * rng.random() ** 2)
            i['b'] = rng.choice(['u', 'v'])
            i['c'] = 'k%d' % rng.randrange(25)
        elif b['shape'] == 'near':      # hardly different numbers
            v = rng.randrange(k)
            i['a'] = 1 + v * 2.0 ** -14 if num else 'v%d' % v
            i['b'] = rng.choice(['u', 'v'])
        elif b['shape'] == 'broad':     # many attributes
            t = rng.randrange(3)
            for a in range(8 + k):
                v = t if rng.random() < 0.6 else rng.randrange(4)
                if rng.random() < 0.9:
                    i['s%d' % a] = float(v) if num and a % 3 == 0 else \
                        'v%d' % v
        else:                           # few attributes out of many
            for _ in range(rng.randrange(4)):
                i['s%d' % rng.randrange(12)] = rng.choice(['u', 'v', 'w'])
        if rng.random() < 0.3:
            i['_h'] = 'h%d' % rng.randrange(4)
        out.append(i)
    return dict(case, insts=out, queries=[
        {a: v for a, v in rng.choice(out).items() if rng.random() < 0.7}
        for _ in range(4)])


# ------------------------------------------------- hierarchies made by hand

@st.composite
def planted_case(draw, fits=4):
    """A hierarchy of any depth, width and weight, and instances to add.

    `stem`: levels above the main part, each with one or two side leaves;
    `leaves`: leaves of the main part, grouped at random; `most`: how often an
    instance may repeat.
    """
    kind = draw(st.sampled_from(['cobweb', 'cobweb3']))
    case = dict(kind=kind, seed=draw(seeds))
    if kind != 'cobweb':
        case['scaling'] = draw(st.sampled_from(SCALINGS))
        case['inner'] = draw(st.booleans())
    case['planted'] = dict(
        seed=draw(seeds), stem=draw(st.integers(0, 9)),
        leaves=draw(st.integers(2, 9)) + draw(st.sampled_from(
            [0, 0, 0, 0, 0, 25])), wide=draw(st.booleans()), values=draw(st.integers(2, 4)),
        most=draw(st.sampled_from([1, 2, 4, 40, 200])),
        numbers=kind != 'cobweb' and draw(st.booleans()),
        hidden=draw(st.booleans()), sorted=draw(st.booleans()),
        new=draw(st.integers(1, fits)))
    return case


@st.composite
def hand_case(draw, kinds=('cobweb', 'cobweb3')):
    """A hierarchy made by hand of moderate weight, with queries."""
    case = draw(planted_case().filter(lambda c: c['kind'] in kinds))
    case['planted'].update(most=draw(st.sampled_from([1, 1, 2])),
                           stem=min(case['planted']['stem'], 5))
    if draw(st.integers(0, 2)) == 0:
        # a concept with many children
        case['planted'].update(wide=2, leaves=draw(st.sampled_from(
            range(12, 60))))
    insts, _, new = plant(case)
    return dict(case, insts=insts, queries=new)


def plant(case):
    """(instances, nested lists of their numbers, instances to add)."""
    p = case['planted']
    rng = random.Random(p['seed'])
    insts = []
    deep = p['stem']

    def attrs(level):
        i = {'l%d' % j: 'm' for j in range(level)}
        for j in range(level, deep):
            i['l%d' % j] = rng.choice('uvw')
        for a in 'abc':
            if rng.random() < 0.9:
                i[a] = 'v%d' % rng.randrange(p['values'])
        if p['numbers']:
            i['n'] = rng.choice([1, 2.5, 7, -4]) + rng.choice([0, 0, 0.25])
        if p['hidden'] and rng.random() < 0.5:
            i['_h'] = rng.choice('xy')
        return i

    def leaf(i):
        """Numbers of the copies of one instance (its leaf)."""
        n = rng.randrange(1, p['most'] + 1)
        out = []
        for _ in range(n):
            out.append(len(insts))
            insts.append(i)
        return out

    def group(leaves):
        if len(leaves) == 1:
            return leaves[0]
        k = min(len(leaves), rng.choice([2, 2, 3, 4, 40] if p.get('wide')
                                        else [2, 2, 3, 4]))
        if p.get('wide') == 2 and len(leaves) == p['leaves']:
            k = len(leaves) - rng.choice([0, 0, 3])
        cuts = sorted(rng.sample(range(1, len(leaves)), k - 1))
        return [group(leaves[x:y]) for x, y in
                zip([0] + cuts, cuts + [len(leaves)])]

    own = [attrs(deep) for _ in range(p['leaves'])]
    if p['sorted']:
        own.sort(key=lambda i: sorted(map(str, i.items())))
    tree = group([leaf(i) for i in own])
    for level in reversed(range(deep)):
        tree = [tree] + [leaf(attrs(level))
                         for _ in range(rng.choice([1, 1, 2]))]
    new = []
    for _ in range(p['new']):
        i = dict(rng.choice(insts) if rng.random() < 0.3 else rng.choice(own))
        for a in list(i):
            r = rng.random()
            if a in 'abc' and r < 0.3:
                i[a] = 'v%d' % rng.randrange(p['values'] + 1)
            elif a[0] != 'l' and r < 0.4:
                del i[a]
        new.append(i)
    return insts, tree, new
