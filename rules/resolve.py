"""P16: a declared type and reference resolve to what the declaration means."""
from flow import *
import known
from schema import adt, build, agg_, col, table, field, tables_of, cname_, sqltype, NONE
from interp import Ev

MANY = '_Many'


def pk(t):
    return ('PK', t)


def custom(n):
    return ('CustomType', n)


def keyterm(cx, k):
    return agg_(adt(cx, 'TypeKey'), k[0], [C(k[1])])


def sqlt(cx, v):
    ks = [k for k in cx.F.adts if k.endswith('::SqlType') and k.startswith('butane_core')]
    if len(ks) != 1:
        raise Missing('type SqlType')
    return agg_(ks[0], v, [])


def ident(cx, t):
    """A resolved type: a named one, or one of the basic types (written !Int)."""
    T = adt(cx, 'TypeIdentifier')
    return agg_(T, 'Ty', [sqlt(cx, t[1:])]) if t.startswith('!') else agg_(T, 'Name', [C(t)])


def declared(cx, t):
    D = adt(cx, 'DeferredSqlType')
    if isinstance(t, tuple):
        return agg_(D, 'Deferred', [keyterm(cx, t)])
    if t.startswith('='):
        return agg_(D, 'Known', [sqlt(cx, t[2:])])
    return agg_(D, 'KnownId', [ident(cx, t)])


def refterm(cx, r):
    if r is None:
        return NONE
    if isinstance(r[0], tuple):
        return some(agg_(adt(cx, 'ARef'), 'Deferred', [declared(cx, r[0])]))
    return some(agg_(adt(cx, 'ARef'), 'Literal', [build(cx, 'ARefLiteral', table_name=C(r[0]), column_name=C(r[1]))]))


# tables: name -> [(column, type, is key, reference)]; types: key -> type; a reference to a key is written ((key),)
def worlds():
    yield 'plain', {'a': [('i', 'T', True, None), ('x', '=!Int', False, None)]}, {}
    yield 'key', {'a': [('i', 'T', True, None)], 'b': [('j', 'U', True, None), ('r', pk('a'), False, (pk('a'),))]}, {}
    yield 'itself', {'a': [('i', 'T', True, None), ('up', pk('a'), False, (pk('a'),))]}, {}
    yield 'basic', {'a': [('i', '=!Int', True, None)], 'b': [('j', 'U', True, None), ('r', pk('a'), False, (pk('a'),))]}, {}
    for names in (('a', 'b', 'c'), ('c', 'b', 'a'), ('b', 'c', 'a'), ('b', 'a', 'c')):
        x, y, z = names
        yield 'chain.' + ''.join(names), {x: [('i', 'T', True, None)], y: [('j', pk(x), True, (pk(x),))], z: [('k', pk(y), True, (pk(y),)), ('l', pk(x), False, (pk(x),))]}, {}
    yield 'custom', {'a': [('i', 'T', True, None), ('x', custom('X'), False, None), ('y', custom('Y'), False, None)]}, {custom('X'): 'V', custom('Y'): '=!Text'}
    yield 'custom.key', {'a': [('i', custom('X'), True, None)], 'b': [('j', 'U', True, None), ('r', pk('a'), False, (pk('a'),))]}, {custom('X'): 'V'}
    for m, n in (('X', 'Y'), ('Y', 'X')):
        yield 'alias.' + m, {'a': [('i', 'T', True, None), ('y', custom(n), False, None)]}, {custom(m): 'V', custom(n): custom(m)}
    yield 'alias.key', {'b': [('i', 'T', True, None)], 'a': [('j', 'U', True, None), ('r', custom('L'), False, (custom('L'),))]}, {custom('L'): pk('b')}
    yield 'alias.keyed', {'b': [('i', custom('X'), True, None)], 'a': [('j', 'U', True, None), ('r', custom('L'), False, (custom('L'),))]}, {custom('L'): pk('b'), custom('X'): 'V'}
    yield 'many', {'a': [('i', 'T', True, None)], 'b': [('j', 'U', True, None)], 'a_bs' + MANY: [('owner', pk('a'), False, (pk('a'),)), ('has', pk('b'), False, (pk('b'),))]}, {}
    yield 'many.chain', {'a': [('i', pk('b'), True, (pk('b'),))], 'b': [('j', 'U', True, None)], 'a_bs' + MANY: [('owner', pk('a'), False, (pk('a'),)), ('has', pk('b'), False, (pk('b'),))]}, {}
    yield 'kept', {'a': [('i', 'T', True, None)], 'b': [('j', 'U', True, None), ('r', 'T', False, ('a', 'i')), ('s', pk('a'), False, ('a', 'i'))]}, {}
    yield 'missing.table', {'b': [('j', 'U', True, None), ('r', pk('a'), False, (pk('a'),))]}, {}
    yield 'missing.custom', {'b': [('j', 'U', True, None), ('r', custom('X'), False, None)]}, {custom('Y'): 'V'}
    yield 'missing.in-many', {'a': [('i', 'T', True, None)], 'a_bs' + MANY: [('owner', pk('a'), False, (pk('a'),)), ('has', pk('b'), False, (pk('b'),))]}, {}
    yield 'circle', {'a': [('i', pk('b'), True, (pk('b'),))], 'b': [('i', pk('a'), True, (pk('a'),))]}, {}
    yield 'circle.custom', {'a': [('i', 'T', True, None), ('x', custom('X'), False, None)]}, {custom('X'): custom('Y'), custom('Y'): custom('X')}
    yield 'json', {'a': [('i', 'T', True, None), ('m', custom('HashMap<String,i64>'), False, None), ('n', custom('std::collections::BTreeMap<std::string::String,X>'), False, None)]}, {}
    yield 'json.not', {'a': [('i', 'T', True, None), ('m', custom('HashMap<i64,String>'), False, None)]}, {}


JSONY = [f'{m}<{s},' for m in ('HashMap', 'collections::HashMap', 'std::collections::HashMap', 'BTreeMap', 'collections::BTreeMap', 'std::collections::BTreeMap')
         for s in ('String', 'string::String', 'std::string::String')]


def meaning(tables, types, t, seen=()):
    """The type that a declaration means, or None."""
    if not isinstance(t, tuple):
        return t[1:] if t.startswith('=') else t
    if t in seen:
        return None
    if t[0] == 'CustomType' and any(t[1].startswith(p) for p in JSONY):
        return '!Json'
    if t[0] == 'PK':
        k = [c for c in tables.get(t[1], []) if c[2]]
        return meaning(tables, types, k[0][1], seen + (t,)) if k else None
    return meaning(tables, types, types[t], seen + (t,)) if t in types else None


def referred(tables, types, r):
    if r is None or not isinstance(r[0], tuple):
        return r
    k = r[0]
    if isinstance(types.get(k), tuple):
        k = types[k]
    c = [c for c in tables.get(k[1], []) if c[2]] if k[0] == 'PK' else []
    return (k[1], c[0][0]) if c else r


def texts(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
    """Known texts compare as they are; a map of known keys has the entries it has."""
    l = last(name)
    fin = lambda val: it.finish(st, depth, dest, target, val, evs, loc, fn)
    vs = [it.undr(st, a) for a in av]
    if l in ('new', 'default') and not av and known.MAPTY.search(name):
        return fin(known.mkmap({}))
    if l in ('starts_with', 'ends_with') and len(vs) == 2 and all(is_const(v) and isinstance(cval(v), str) for v in vs):
        return fin(C(getattr(cval(vs[0]), l.replace('_', ''))(cval(vs[1]))))
    if l == 'into' and len(av) == 1 and isinstance(info, dict) and len(info.get('a') or ()) == 2:
        src, dst = (fn.ty(x) for x in info['a'])
        fs = [f for f in it.F.fns.values() if f.name == 'from' and f.trait and last(f.trait.split('<')[0]) == 'From' and f.selfty == dst and f.local_ty(1) == src]
        if len(fs) == 1:
            return it.enter(st, depth, fn, fr, fs[0].id, [av[0]], dest, target, evs, None, loc)
    if l == 'entry' and len(av) == 2 and vs[0].op == 'map' and av[0].op == 'ptr':
        k = known.key(it, st, av[1])
        if k is not None:
            base = known.target_of(it, st, av[0])
            e = 'std::collections::btree_map::Entry' if 'BTree' in name or 'btree' in name else 'std::collections::hash_map::Entry'
            return fin(mk('agg', e, 'Occupied' if k in dict(vs[0].a[0]) else 'Vacant', (mk('slot', (base.a[0], base.a[1]), k),)))
    if vs and vs[0].op == 'agg' and 'Entry' in vs[0].a[0] and l in ('or_insert', 'or_insert_with', 'insert_entry', 'insert') or vs and vs[0].op == 'slot':
        s = vs[0] if vs[0].op == 'slot' else vs[0].a[2][0]
        (c, path), k = s.a
        m = dict(it.undr(st, mk('ptr', c, path)).a[0])
        if l == 'get':
            return fin(m[k])
        if l == 'key':
            return fin(known.K(k))
        if l in ('insert', 'or_insert', 'insert_entry') and len(av) == 2:
            old = m.get(k)
            if l != 'or_insert' or old is None:
                m[k] = vs[1]
                it.write_addr(st, c, path, known.mkmap(m), evs, loc, fn.id)
            p = mk('ptr', c, path + (('mk', k),))
            return fin(some(old) if l == 'insert' and old is not None and vs[0].op == 'slot' else p)
    if vs and vs[0].op == 'kc' and 'LazyLock<std::vec::Vec<std::string::String>>' in str(vs[0].a) and l in ('iter', 'deref', 'into_iter', 'force'):
        a = mk('arr', tuple(C(p) for p in JSONY))
        return fin(a if l in ('deref', 'force') else mk('it', a, 0))
    return known.hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)


def check_resolve(cx):
    """resolve_types on every kind of declaration, in every order of the tables."""
    f = cx.inherent(r'adb::ADB$', 'resolve_types', CORE)
    for (name, tables, types), marks in [(w, m) for w in worlds() for m in (False, True)]:
        key = 'resolve.' + name + ('.marked' if marks else '')
        # every column marked with what its place allows, or none
        attrs = lambda k: dict(pk=C(k), nullable=C(marks and not k), unique=C(marks and not k), auto=C(marks and k))
        db = build(cx, 'ADB',
                   tables=known.mkmap({n: table(cx, n, [col(cx, c, sqltype=declared(cx, t), **attrs(k), reference=refterm(cx, r)) for c, t, k, r in cs]) for n, cs in tables.items()}),
                   extra_types=known.mkmap({keyed(cx, k): declared(cx, t) for k, t in types.items()}))
        want = {n: [(c, meaning(tables, types, t), referred(tables, types, r)) for c, t, k, r in cs] for n, cs in tables.items()}
        fails = any(t is None for cs in want.values() for _, t, _ in cs)
        g = cx.graph(f, args=(cell('db'),), cells={'db': db}, hook=texts, widen=1500)
        ps = list(paths(g, kinds=('assume',), full='cells'))
        cx.ob(key + '.total', ps, f'resolve_types ({name}): never returns', f.span)
        for evs, v, cells in ps:
            if v is None:
                cx.fail(key, f'resolve_types ({name}): can panic', f.span)
                continue
            if fails:
                cx.ob(key, is_err(v), f'resolve_types ({name}): gives {show(v, 3)} although a type is unknown', f.span)
                continue
            got = tables_of(cx, cells['db'])
            cx.ob(key, not is_err(v) and got is not None and {n: [described(cx, c) for c in cs] for n, cs in got.items()} == want,
                  f'resolve_types ({name}): {show(v, 3)}, {({n: [described(cx, c) for c in cs] for n, cs in got.items()}) if got else got}, wanted {want}', f.span)


def keyed(cx, k):
    t = keyterm(cx, k)
    s = '\0'.join(k)
    known.KEYS[s] = t
    return s


def described(cx, c):
    t, r = field(cx, c, 'AColumn', 'sqltype'), field(cx, c, 'AColumn', 'reference')
    return cname_(cx, c), typename(t), refname(cx, r)


def word(v):
    return cval(v) if is_const(v) else v.a[1] if v.op == 'agg' and len(v.a) > 1 else show(v, 4)


def typename(t):
    if t.a[1] == 'Known' and t.a[2] and not t.a[2][0].a[2]:
        return '!' + t.a[2][0].a[1]
    if t.a[1] == 'Deferred':
        return ('deferred', t.a[2][0].a[1], show(t.a[2][0].a[2][0]))
    x = t.a[2][0] if t.a[2] else t
    if x.op != 'agg' or not x.a[2]:
        return show(t, 5)
    return '!' + word(x.a[2][0]) if x.a[1] == 'Ty' else word(x.a[2][0])


def refname(cx, r):
    if r.a[1] == 'None':
        return None
    x = r.a[2][0]
    if x.a[1] == 'Literal':
        return word(field(cx, x.a[2][0], 'ARefLiteral', 'table_name')), word(field(cx, x.a[2][0], 'ARefLiteral', 'column_name'))
    k = x.a[2][0].a[2][0]
    return ((k.a[1], word(k.a[2][0])),)


def check_json(cx):
    """The types that are kept as JSON: maps from texts."""
    f = [f for f in cx.F.fns.values() if f.kind == 'Closure' and 'JSON_MAP_PREFIXES' in f.id]
    if len(f) != 1:
        raise Missing('the types kept as JSON')
    for evs, v in paths(cx.graph(f[0], hook=known.hook, widen=400), full=True):
        vs = list(v.a[0]) if v is not None and v.op == 'arr' else [e.a[1] for e in evs if e.k == 'push' and e.a[0] is v]
        x = [plain(y) for y in vs]
        cx.ob('json.types', sorted(x) == sorted(JSONY), f'kept as JSON: {x or show(v, 4)}', f[0].span)


def plain(v):
    """The text of a formatted value whose pieces are all known."""
    if is_const(v):
        return str(cval(v))
    return ''.join(x if isinstance(x, str) else plain(x) for x in v.a[0]) if v.op == 'fmt' else plain(v.a[1]) if v.op == 'hole' else show(v, 5)


def pieces(v):
    """The pieces of a formatted text, known ones as strings."""
    return tuple(cval(x) if not isinstance(x, str) and is_const(x) and isinstance(cval(x), str) else x for x in v.a[0])


def rest(v, n):
    """A text without its first n characters, which are known, or None."""
    if is_const(v) and isinstance(cval(v), str):
        return C(cval(v)[n:]) if len(cval(v)) >= n else None
    p = pieces(v) if v.op == 'fmt' else ()
    if p and isinstance(p[0], str) and len(p[0]) >= n:
        ps = ((p[0][n:],) if p[0][n:] else ()) + p[1:]
        if not ps:
            return C('')
        one = ps[0] if len(ps) == 1 and not isinstance(ps[0], str) else None
        return (one.a[1] if one is not None and one.op == 'hole' else one) if one is not None else mk('fmt', ps)
    return None


def lead(v):
    return cval(v) if is_const(v) else pieces(v)[0] if v.op == 'fmt' and v.a[0] and isinstance(pieces(v)[0], str) else ''


def cut(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
    """Taking a text whose beginning is known apart."""
    l = last(name)
    fin = lambda val: it.finish(st, depth, dest, target, val, evs, loc, fn)
    vs = [it.undr(st, a) for a in av]
    if vs and vs[0].op in ('fmt', 'c') and len(vs) == 2:
        v, x = vs
        if l == 'starts_with' and is_const(x) and len(lead(v)) >= len(cval(x)):
            return fin(C(lead(v).startswith(cval(x))))
        if l == 'strip_prefix' and is_const(x) and len(lead(v)) >= len(cval(x)):
            return fin(some(rest(v, len(cval(x)))) if lead(v).startswith(cval(x)) else NONE)
        if l == 'split_once' and is_const(x) and str(cval(x)) in lead(v):
            i = lead(v).index(str(cval(x)))
            return fin(some(mk('tup', (C(lead(v)[:i]), rest(v, i + len(str(cval(x))))))))
        if l == 'split_off' and is_const(x) and rest(v, cval(x)) is not None:
            return fin(rest(v, cval(x)))
        if l == 'split_at' and is_const(x) and rest(v, cval(x)) is not None:
            return fin(mk('tup', (C(lead(v)[:cval(x)]), rest(v, cval(x)))))
        if l in ('index', 'get') and x.op == 'agg' and last(str(x.a[0])) in ('RangeFrom', 'RangeTo'):
            n = cval(it.undr(st, x.a[2][0]))
            r = rest(v, n) if last(str(x.a[0])) == 'RangeFrom' else C(lead(v)[:n]) if len(lead(v)) >= n else None
            if r is not None:
                return fin(some(r) if l == 'get' else r)
    return texts(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)


def check_keys(cx):
    """A key is read back as it was written, and two keys are the same place in a map only if they are equal."""
    T = adt(cx, 'TypeKey')
    kinds = [v[0] for v in cx.F.adts[T]['variants']]
    cx.ob('keys.kinds', sorted(kinds) == ['CustomType', 'PK'], f'kinds of keys: {kinds}')
    get = lambda trait, name, ty='TypeKey': [f for f in cx.F.fns.values() if f.name == name and f.trait and last(f.trait.split('<')[0]) == trait and last((f.selfty or '').split('<')[0]) == ty and 'adb' in f.id]
    w, r, c = get('Serialize', 'serialize'), get('Visitor', 'visit_str', 'TypeKeyVisitor'), get('Ord', 'cmp')
    if not (len(w) == len(c) == 1 and r):
        raise Missing('reading, writing and ordering of TypeKey')
    s = mk('p', 'name')
    for k in kinds:
        out = set()
        for evs, v in paths(cx.graph(w[0], args=(agg_(T, k, [s]), mk('p', 'ser')), hook=cut, widen=100), full=True):
            t = [e.a[1][1] for e in evs if e.k == 'call' and last(str(e.a[0])) in ('serialize_str', 'collect_str') and len(e.a[1]) == 2]
            cx.ob(f'keys.{k}.written', len(t) == 1, f'a {k} key is written as {[show(x, 4) for x in t]}', w[0].span)
            out |= set(t)
        for t in out:
            n = 0
            for evs, v in paths(cx.graph(r[0], args=(mk('p', 'visitor'), strip(t)), hook=cut, widen=100), full=True):
                n += 1
                got = v.a[2][0] if v is not None and v.op == 'agg' and v.a[1] == 'Ok' else None
                cx.ob(f'keys.{k}.read', got is not None and got.op == 'agg' and got.a[1] == k and strip(got.a[2][0]) is s, f'{show(strip(t), 4)} is read as {show(v, 5) if v is not None else "a panic"}', r[0].span)
            cx.ob(f'keys.{k}.returns', n, 'reading a key never returns', r[0].span)
    for k in kinds:
        for k2 in kinds:
            x, y = agg_(T, k, [mk('p', 'x')]), agg_(T, k2, [mk('p', 'y')])
            res = {show(strip(v), 4) for evs, v in paths(cx.graph(c[0], args=(x, y), hook=cut, widen=100), full=True) if v is not None}
            if k == k2:
                cx.ob(f'keys.order.{k}', len(res) == 1 and 'cmp(x, y)' in list(res)[0].replace('arg', ''), f'two {k} keys are compared as {res}', c[0].span)
            else:
                back = {show(strip(v), 4) for evs, v in paths(cx.graph(c[0], args=(y, x), hook=cut, widen=100), full=True) if v is not None}
                cx.ob(f'keys.order.{k}.{k2}', {tuple(res), tuple(back)} == {('Less',), ('Greater',)}, f'{k} and {k2} keys are compared as {res}, and the other way round as {back}', c[0].span)
