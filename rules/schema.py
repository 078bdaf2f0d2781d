"""P14: schema differences and the operations they are made of."""
from itertools import product
from flow import *
import known

ADB = 'butane_core::migrations::adb::'
KINDS = {'call', 'assume', 'set', 'push', 'cmut', 'panic', 'diverge', 'iter'}


_adt = {}


def adt(cx, name):
    k = (id(cx.F), name)
    if k not in _adt:
        _adt[k] = adt_(cx, name)
    return _adt[k]


def adt_(cx, name):
    r = [k for k in cx.F.adts if k == ADB + name or k.endswith('::adb::' + name)]
    r = r or [k for k in cx.F.adts if last(k) == name and '::migrations::' in k]
    if len(r) != 1:
        raise Missing(f'type {name}')
    return r[0]


def build(cx, ty_, variant=None, **kw):
    k = adt(cx, ty_)
    vs = cx.F.adts[k]['variants']
    v = [x for x in vs if x[0] == variant] if variant else vs[:1]
    names = [y[0] for y in v[0][2]]
    if set(names) != set(kw):
        raise Missing(f'fields of {ty_}: {names}')
    return agg_(k, v[0][0], [kw[n] for n in names])


def agg_(k, v, fs):
    return mk('agg', k, v, tuple(fs))


ATTRS = ('sqltype', 'nullable', 'pk', 'auto', 'unique', 'default', 'reference')


def col(cx, name, **kw):
    """A column; attributes not given have their plain value."""
    d = dict(name=C(name), sqltype=sqltype(cx, 'T'), nullable=FALSE, pk=FALSE, auto=FALSE, unique=FALSE, default=NONE, reference=NONE)
    d.update(kw)
    return build(cx, 'AColumn', **d)


def sqltype(cx, n):
    return agg_(adt(cx, 'DeferredSqlType'), 'KnownId', [agg_(adt(cx, 'TypeIdentifier'), 'Name', [C(n)])])


def reference(cx, t, c):
    return some(agg_(adt(cx, 'ARef'), 'Literal', [build(cx, 'ARefLiteral', table_name=C(t), column_name=C(c))]))


def other(cx, a):
    """Another value for the attribute."""
    if a == 'sqltype':
        return sqltype(cx, 'U')
    if a == 'reference':
        return reference(cx, 'a', 'i')
    if a == 'default':
        return some(agg_(sqlval(cx), 'Bool', [TRUE]))
    return TRUE


def sqlval(cx):
    r = [k for k in cx.F.adts if k.endswith('sqlval::SqlVal')]
    if not r:
        raise Missing('type SqlVal')
    return r[0]


def table(cx, name, cols):
    return build(cx, 'ATable', name=C(name), columns=mk('arr', tuple(cols)))


def adb(cx, tables):
    return build(cx, 'ADB', tables=known.mkmap({t: table(cx, t, cs) for t, cs in tables.items()}), extra_types=known.mkmap({}))


def field(cx, v, name, f):
    names = [y[0] for y in cx.F.adts[adt(cx, name)]['variants'][0][2]]
    return v.a[2][names.index(f)]


def cname_(cx, c):
    return cval(field(cx, c, 'AColumn', 'name'))


def describe(ops):
    return ', '.join(f'{o.a[1]}({", ".join(show(x, 1) if x.op != "agg" else show(x.a[2][0], 1) for x in o.a[2])})' for o in ops) or 'nothing'


def replay(cx, db, ops):
    """The schema after the operations (name -> column name -> column), or what is wrong with them."""
    t = {n: {cname_(cx, c): c for c in cs} for n, cs in db.items()}
    for o in ops:
        k, a = o.a[1], o.a[2]
        if k in ('AddTable', 'AddTableIfNotExists'):
            n = cval(field(cx, a[0], 'ATable', 'name'))
            if n in t and k == 'AddTable':
                return None, f'adds table {n} twice'
            t[n] = {cname_(cx, c): c for c in field(cx, a[0], 'ATable', 'columns').a[0]}
        elif k == 'RemoveTable':
            if cval(a[0]) not in t:
                return None, f'removes the unknown table {cval(a[0])}'
            del t[cval(a[0])]
        elif k in ('AddColumn', 'RemoveColumn', 'ChangeColumn'):
            n = cval(a[0])
            if n not in t:
                return None, f'{k} in the unknown table {n}'
            if k == 'AddColumn':
                if cname_(cx, a[1]) in t[n]:
                    return None, f'adds column {cname_(cx, a[1])} again'
                t[n][cname_(cx, a[1])] = a[1]
            elif k == 'RemoveColumn':
                if cval(a[1]) not in t[n]:
                    return None, f'removes the unknown column {cval(a[1])}'
                del t[n][cval(a[1])]
            else:
                c = cname_(cx, a[1])
                if t[n].get(c) is not a[1] or cname_(cx, a[2]) != c:
                    return None, f'changes column {c}, which is not as it says'
                t[n][c] = a[2]
    return t, None


def worlds(cx):
    c = lambda n, **kw: col(cx, n, **kw)
    i, j, k = c('i'), c('j'), c('k')
    ra = c('r', reference=reference(cx, 'a', 'i'))
    rb = c('r', reference=reference(cx, 'b', 'i'))
    yield 'same', {'a': [i, j]}, {'a': [i, j]}
    yield 'empty', {}, {}
    yield 'order', {'a': [i, j]}, {'a': [j, i]}
    yield 'first', {}, {'a': [i], 'b': [i, j], 'd': [i]}
    yield 'first-ref', {}, {'a': [i, rb], 'b': [i, ra], 'd': [i, ra]}
    yield 'last', {'a': [i], 'b': [i, j]}, {}
    yield 'last-ref', {'a': [i, rb], 'b': [i, ra]}, {}
    yield 'swap', {'a': [i], 'b': [i]}, {'b': [i], 'd': [i, k]}
    yield 'swap-ref', {'a': [i], 'b': [i, ra]}, {'b': [i, c('s', reference=reference(cx, 'd', 'i'))], 'd': [i, rb]}
    yield 'columns', {'a': [i, j]}, {'a': [i, k]}
    yield 'columns2', {'a': [i, j, k]}, {'a': [i]}
    yield 'columns3', {'a': [i]}, {'a': [j, i, k]}
    yield 'two', {'a': [i, j], 'b': [i]}, {'a': [i], 'b': [i, j]}
    for a in ATTRS:
        x = c('j', **{a: other(cx, a)})
        yield 'attr-' + a, {'a': [i, j]}, {'a': [i, x]}
        yield 'add-' + a, {'a': [i]}, {'a': [i, x], 'b': [x]}
        yield 'drop-' + a, {'a': [i, x], 'b': [x]}, {'a': [i]}
        yield 'unattr-' + a, {'a': [i, x], 'b': [i]}, {'a': [i, j], 'b': [i]}
        yield 'attrs-' + a, {'a': [x, k], 'b': [i, x]}, {'a': [j, k], 'b': [i, j]}
    yield 'all', {'a': [i, j]}, {'a': [c('i', **{a: other(cx, a) for a in ATTRS}), k]}


def check_diff(cx):
    f = cx.fn(ADB + 'diff')
    for name, old, new in worlds(cx):
        g = cx.graph(f, args=(adb(cx, old), adb(cx, new)), hook=known.hook, widen=400)
        for evs, v in paths(g, kinds=KINDS, full=True):
            key = 'diff.' + name
            if v is None or v.op != 'arr' or any(o.op != 'agg' for o in v.a[0]):
                cx.fail(key, f'diff: the operations cannot be determined, or it panics ({show(v, 4) if v else "panic"})', f.span)
                continue
            ops = v.a[0]
            got, bad = replay(cx, old, ops)
            want = {n: {cname_(cx, c): c for c in cs} for n, cs in new.items()}
            if bad is None and got != want:
                d = [n for n in sorted(set(got) | set(want)) if got.get(n) != want.get(n)]
                bad = f'leave table {", ".join(d)} different from the new schema'
            cx.ob(key, bad is None, f'diff: the operations {describe(ops)} {bad}', f.span)
            ks = [(o.a[1], o) for o in ops]
            pos = lambda k: [i for i, (x, _) in enumerate(ks) if x == k]
            cx.ob(key + '.order', not pos('AddTableConstraints') or not pos('AddTable') or max(pos('AddTable')) < min(pos('AddTableConstraints')),
                  'diff: constraints are added after all the tables', f.span)
            cx.ob(key + '.order2', not pos('RemoveTable') or not pos('RemoveTableConstraints') or max(pos('RemoveTableConstraints')) < min(pos('RemoveTable')),
                  'diff: constraints are removed before any table', f.span)
            cx.ob(key + '.order3', not pos('AddTable') or not (pos('AddColumn') + pos('ChangeColumn')) or
                  max(pos('AddTable')) < min(pos('AddColumn') + pos('ChangeColumn')), 'diff: new tables come before the columns that refer to them', f.span)
            tn = lambda o: cval(field(cx, o.a[2][0], 'ATable', 'name')) if o.a[2][0].op == 'agg' else cval(o.a[2][0])
            hasref = {n for n, cs in new.items() if n not in old and any(field(cx, c, 'AColumn', 'reference') is not NONE for c in cs)}
            gotref = [tn(o) for k, o in ks if k == 'AddTableConstraints']
            cx.ob(key + '.constraints', hasref <= set(gotref) and len(set(gotref)) == len(gotref) and set(gotref) <= set(new) - set(old),
                  f'diff: each new table with references gets its constraints once (got {gotref})', f.span)
            rm = [tn(o) for k, o in ks if k == 'RemoveTableConstraints']
            oldref = {n for n, cs in old.items() if n not in new and any(field(cx, c, 'AColumn', 'reference') is not NONE for c in cs)}
            cx.ob(key + '.unconstrain', oldref <= set(rm) and set(rm) <= set(old) - set(new), f'diff: each removed table with references loses its constraints first (got {rm})', f.span)


def steps(cx):
    """Operations on a schema of known tables, and the schema they must leave."""
    c = lambda n, **kw: col(cx, n, **kw)
    i, j, k, j2, i2 = c('i'), c('j'), c('k'), c('j', nullable=TRUE), c('i', unique=TRUE)
    db = {'a': [i, j], 'b': [i]}
    op = lambda k, *a: agg_(adt(cx, 'Operation'), k, list(a))
    for k_ in ('AddTable', 'AddTableIfNotExists'):
        yield k_ + '.new', db, op(k_, table(cx, 'd', [j, k])), {**db, 'd': [j, k]}
        yield k_ + '.first', {}, op(k_, table(cx, 'd', [j, k])), {'d': [j, k]}
        yield k_ + '.again', db, op(k_, table(cx, 'a', [k])), {**db, 'a': [k]}
    for k_ in ('AddTableConstraints', 'RemoveTableConstraints'):
        yield k_, db, op(k_, table(cx, 'a', [k])), db
        yield k_ + '.other', db, op(k_, table(cx, 'd', [k])), db
    yield 'RemoveTable', db, op('RemoveTable', C('a')), {'b': [i]}
    yield 'RemoveTable.last', {'a': [i]}, op('RemoveTable', C('a')), {}
    yield 'RemoveTable.missing', db, op('RemoveTable', C('d')), db
    yield 'AddColumn', db, op('AddColumn', C('a'), k), {**db, 'a': [i, j, k]}
    yield 'AddColumn.other', db, op('AddColumn', C('b'), k), {**db, 'b': [i, k]}
    yield 'AddColumn.missing', db, op('AddColumn', C('d'), k), db
    yield 'RemoveColumn', db, op('RemoveColumn', C('a'), C('j')), {**db, 'a': [i]}
    yield 'RemoveColumn.first', db, op('RemoveColumn', C('a'), C('i')), {**db, 'a': [j]}
    yield 'RemoveColumn.none', db, op('RemoveColumn', C('a'), C('k')), db
    yield 'RemoveColumn.missing', db, op('RemoveColumn', C('d'), C('i')), db
    yield 'ChangeColumn', db, op('ChangeColumn', C('a'), j, j2), {**db, 'a': [i, j2]}
    yield 'ChangeColumn.first', db, op('ChangeColumn', C('a'), i, i2), {**db, 'a': [i2, j]}
    yield 'ChangeColumn.other', db, op('ChangeColumn', C('b'), i, i2), {**db, 'b': [i2]}
    for a in ATTRS:
        x = c('j', **{a: other(cx, a)})
        dbx = {'a': [i, x], 'b': [i]}
        yield 'ChangeColumn.to-' + a, db, op('ChangeColumn', C('a'), j, x), dbx
        yield 'ChangeColumn.from-' + a, dbx, op('ChangeColumn', C('a'), x, j), db
        yield 'RemoveColumn.with-' + a, dbx, op('RemoveColumn', C('a'), C('j')), {**db, 'a': [i]}
        yield 'AddColumn.with-' + a, {'a': [i], 'b': [i]}, op('AddColumn', C('a'), x), dbx
    yield 'ChangeColumn.missing', db, op('ChangeColumn', C('d'), j, j2), db


def check_transform(cx):
    """transform_with leaves exactly the schema the operation describes."""
    f = cx.inherent(r'adb::ADB$', 'transform_with', CORE)
    O = adt(cx, 'Operation')
    seen = set()
    for name, db, op, want in steps(cx):
        key = 'transform.' + name
        seen.add(op.a[1])
        g = cx.graph(f, args=(cell('db'), op), cells={'db': adb(cx, db)}, hook=known.hook, widen=400)
        ps = list(paths(g, kinds=KINDS, full='cells'))
        cx.ob(key + '.total', ps, f'transform_with {name}: never returns', f.span)
        for evs, v, cells in ps:
            if v is None:
                cx.fail(key, f'transform_with {name}: can panic', f.span)
                continue
            got = tables_of(cx, cells['db'])
            # the order of columns is that of the model for whoever creates the table; a changed column keeps its place
            cx.ob(key, got == {n: list(cs) for n, cs in want.items()},
                  f'transform_with {name} on {sorted(db)}: leaves {describe_db(cx, got)}', f.span)
    for var in cx.F.adts[O]['variants']:
        cx.ob('transform.covers.' + var[0], var[0] in seen, f'operation {var[0]} has no specified effect', f.span)


def tables_of(cx, v):
    """name -> columns of a schema value, or None if it cannot be told."""
    try:
        m = field(cx, v, 'ADB', 'tables')
        if m.op != 'map':
            return None
        out = {}
        for n, t in m.a[0]:
            cs = field(cx, t, 'ATable', 'columns')
            if cval(field(cx, t, 'ATable', 'name')) != n or cs.op != 'arr':
                return None
            out[n] = list(cs.a[0])
        return out
    except (IndexError, AttributeError, TypeError):
        return None


def describe_db(cx, d):
    return 'a schema that cannot be determined' if d is None else ', '.join(f'{n}({", ".join(str(cname_(cx, c)) for c in cs)})' for n, cs in sorted(d.items()))
