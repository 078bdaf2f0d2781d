"""P40: foreign keys. A key, the object it may hold, and what is stored are the same object's, also while another thread fills it in."""
from conv import *
from flow import *
import known
from ops import awaited

FID = 'butane_core::fkey::ForeignKey'


def lock(v=None):
    return mk('lock', () if v is None else (v,))


class Locks:
    """std::sync::OnceLock: a shared one can be filled by another thread between any two steps."""

    def __init__(self, others=True):
        self.others = others

    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
        if ('OnceLock' in name or 'once_lock' in name or l == 'clone' and av and it.undr(st, av[0]).op == 'lock') and 'get_or_init_once' not in name:
            if l == 'new':
                return fin(lock())
            if l == 'get_or_init' and len(av) == 2:
                return it.enter(st, depth, fn, fr, 'models::once_get_or_init', list(av), dest, target, evs, None, loc)
            p = av[0]
            base = known.target_of(it, st, p) if p.op == 'ptr' else None
            v = it.undr(st, p)
            if v.op not in ('lock', 'p', 'f', 'undef'):
                v = lock(v)
            if v.op != 'lock':
                return None
            shared = base is not None and base.a[0][0] == 'chan'
            other = mk('p', 'by-other')
            put = lambda s, x: it.write_addr(s, base.a[0], base.a[1], lock(x), evs, loc, fn.id)
            if l == 'get':
                if v.a[0]:
                    return fin(some(v.a[0][0]))
                out = []
                if shared and self.others:
                    s2 = State(st.stack, dict(st.store))
                    put(s2, other)
                    out = fin(some(other), evs + [Ev('other', (base.a[1],), loc, fn.id)], s2)
                return out + fin(NONE)
            if l == 'set' and base is not None:
                x = it.undr(st, av[1])
                if v.a[0]:
                    return fin(agg(RES, 'Err', x))
                out = []
                if shared and self.others:
                    s2 = State(st.stack, dict(st.store))
                    put(s2, other)
                    out = fin(agg(RES, 'Err', x), evs + [Ev('other', (base.a[1],), loc, fn.id)], s2)
                put(st, x)
                return out + fin(agg(RES, 'Ok', mk('tup', ())), evs + [Ev('fill', (base.a[1], x), loc, fn.id)])
            if l == 'clone':
                return fin(v)
            if l in ('into_inner', 'take'):
                return fin(some(v.a[0][0]) if v.a[0] else NONE)
        return known.hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)


OBJ, KEY = mk('p', 'obj'), mk('p', 'key')
OPQ = ('pk', 'to_sql', 'to_sql_ref', 'into_sql', 'from_sql', 'from_sql_ref', 'as_ref', 'as_pk', 'serialize', 'deserialize', 'eq', 'clone')


def fk(cx, val=None, key=None):
    n = [f[0] for f in cx.F.adts[FID]['variants'][0][2]]
    return agg(FID, None, *[{'val': lock(val), 'valpk': lock(key)}.get(x, mk('p', x)) for x in n])


def parts(cx, v):
    """(value, key) a ForeignKey holds, each None if it is not filled."""
    if v is None or v.op != 'agg' or v.a[0] != FID:
        return None
    n = [f[0] for f in cx.F.adts[FID]['variants'][0][2]]
    d = dict(zip(n, v.a[2]))
    g = lambda x: (x.a[0][0] if x.a[0] else None) if x.op == 'lock' else x
    return g(d['val']), g(d['valpk'])


def peel(v):
    """v without conversions between owned and borrowed forms."""
    while v is not None and (v.op == 'r' and last(str(v.a[0])) in ('as_ref', 'clone', 'into', 'from') and len(v.a[1]) == 1 or
                             v.op == 'agg' and (v.a[1] in ('Borrowed', 'Owned') or last(v.a[0]) == 'Box') and len(v.a[2]) == 1):
        v = v.a[1][0] if v.op == 'r' else v.a[2][0]
    return v


def is_key_of(v, obj, sql=None):
    """v is the key of obj (in SQL form if sql)."""
    v = peel(v)
    if sql:
        if v is None or v.op != 'r' or last(str(v.a[0])) not in ('to_sql', 'into_sql', 'to_sql_ref'):
            return False
        v = peel(v.a[1][0])
    return v is not None and v.op == 'r' and last(str(v.a[0])) == 'pk' and peel(v.a[1][0]) is obj


def fpaths(cx, f, args, cells=None, others=True, opq=OPQ):
    opaque = lambda n, i, d: last(n) in opq and not re.search(r'fkey::|ForeignKey', n) and not n.startswith('models::')
    g = cx.graph(f, args=args, cells=cells or {}, hook=Locks(others).hook, opaque=opaque, widen=100, exact=50)
    return list(paths(g, full='cells'))


LEN = 100


def txt(v):
    return show(v)[:LEN] if v is not None else 'a panic'


def check_make(cx):
    """Keys are made of an object, its key, or a stored value, and keep exactly that."""
    f = cx.inherent('ForeignKey<T>$', 'from_pk')
    for evs, v, c in fpaths(cx, f, [KEY]):
        p = parts(cx, v)
        k = peel(p[1]) if p else None
        cx.ob('from_pk', p is not None and p[0] is None and k is not None and k.op == 'r' and last(str(k.a[0])) in ('into_sql', 'to_sql') and peel(k.a[1][0]) is KEY,
              f'from_pk(key) holds {p and [txt(x) if x is not None else "nothing" for x in p]}', f.span)
    fs = [f for f in cx.F.fns.values() if f.crate == CORE and f.name == 'from' and (f.selfty or '').endswith('ForeignKey<T>') and not f.parent and f.trait]
    cx.ob('from.found', len(fs) >= 2, f'{len(fs)} ways to make a key of an object')
    for f in fs:
        for evs, v, c in fpaths(cx, f, [OBJ]):
            p = parts(cx, v)
            okay = p is not None and (p[0] is not None or p[1] is not None) and (p[0] is None or peel(p[0]) is OBJ) and (p[1] is None or is_key_of(p[1], OBJ, True))
            cx.ob('from', okay, f'a key made of an object holds {p and [txt(x) if x is not None else "nothing" for x in p]}', f.span)
    for name in ('from_sql_ref',):
        f = cx.impl('FromSql', name, 'ForeignKey<T>$')
        oks = 0
        for evs, v, c in fpaths(cx, f, [mk('p', 'stored')]):
            bad = any(e.k == 'assume' and str(e.a[1]) == 'Err' for e in evs)
            checked = any(e.k == 'assume' and last(str(e.a[0].a[0])).startswith('from_sql') for e in evs)
            if is_err(v):
                cx.ob('read.err', bad, f'reading a key fails with {txt(v)}', f.span)
                continue
            p = parts(cx, v.a[2][0]) if is_ok(v) else None
            oks += 1
            cx.ob('read', p is not None and p[0] is None and p[1] is not None and ({x for x in subterms(p[1]) if x.op == 'p'} == {mk('p', 'stored')} or
                  p[1].op == 'agg' and not p[1].a[2] and any(e.k == 'assume' and show(e.a[0]) == 'stored' and str(e.a[1]) == p[1].a[1] for e in evs)),
                  f'a stored key becomes {txt(v)}', f.span)
            cx.ob('read.checked', checked and not bad, 'a stored value that is no key of the model is accepted', f.span)
        cx.ob('read.ok', oks >= 1, 'a stored key is never read', f.span)
    f = cx.impl('Clone', 'clone', 'ForeignKey<T>$')
    for st in (fk(cx, OBJ), fk(cx, None, KEY), fk(cx, OBJ, KEY)):
        for evs, v, c in fpaths(cx, f, [cell('s')], {'s': st}, others=False):
            a, b = parts(cx, st), parts(cx, v)
            pe = lambda x: peel(x.a[0][0] if x is not None and x.op == 'lock' and x.a[0] else None if x is None or x.op == 'lock' else x)
            cx.ob('clone', b is not None and all(pe(x) is pe(unlock(y)) for x, y in zip(a, b)), f'a clone of {txt(st)} is {txt(v)}', f.span)
    for (t, name) in (('Serialize', 'serialize'), ('Deserialize', 'deserialize')):
        f = cx.impl(t, name, 'ForeignKey<T>$')
        if t == 'Serialize':
            for st in (fk(cx, OBJ), fk(cx, None, KEY)):
                for evs, v, c in fpaths(cx, f, [cell('s'), mk('p', 'ser')], {'s': st}, others=False):
                    cs = [e for e in evs if e.k == 'call' and last(str(e.a[0])) == 'serialize']
                    x = cs[0].a[1][0] if len(cs) == 1 else None
                    okay = x is not None and (is_key_of(x, OBJ) if parts(cx, st)[0] is not None else from_key(x))
                    cx.ob('serialize', okay or diverges_on_key(evs), f'serializing writes {txt(x)}', f.span)
        else:
            for evs, v, c in fpaths(cx, f, [mk('p', 'de')]):
                if is_ok(v):
                    p = parts(cx, v.a[2][0])
                    cx.ob('deserialize', p is not None and p[0] is None and p[1] is not None and any(z.op == 'r' and last(str(z.a[0])) == 'deserialize' for z in subterms(p[1])),
                          f'deserializing gives {txt(v)}', f.span)
                else:
                    cx.ob('deserialize.err', is_err(v), f'deserializing gives {txt(v)}', f.span)


def unlock(x):
    """The contents of a copied lock."""
    x = peel(x)
    if x is not None and x.op == 'lock':
        return x.a[0][0] if x.a[0] else None
    return x


def from_key(v):
    """The key read back from the stored key."""
    v = peel(v)
    x = [z for z in subterms(v) if z.op == 'r' and last(str(z.a[0])) in ('from_sql', 'from_sql_ref')] if v is not None else []
    return len(x) == 1 and peel(x[0].a[1][0]) is KEY


def diverges_on_key(evs):
    """The path panics because the stored key is no key of the model (excluded when the key is made)."""
    return any(e.k == 'assume' and str(e.a[1]) == 'Err' and last(str(e.a[0].a[0])) in ('from_sql', 'from_sql_ref') for e in evs) or \
        any(e.k in ('panic', 'diverge') and 'from_sql' in str(e.a) for e in evs)


def check_use(cx):
    """The key, the object and the stored value of a foreign key belong together, whatever other threads do meanwhile."""
    other = mk('p', 'by-other')
    S = {'object': fk(cx, OBJ), 'key': fk(cx, None, KEY), 'both': fk(cx, OBJ, KEY)}
    f = cx.inherent('ForeignKey<T>$', 'get')
    for n, st in S.items():
        for evs, v, c in fpaths(cx, f, [cell('s')], {'s': st}):
            if any(e.k == 'other' for e in evs):
                cx.ob('get.other', v is not None, f'get panics while another thread loads the object', f.span)
            elif n == 'key':
                cx.ob('get.key', is_err(v) and 'ValueNotLoaded' in show(v), f'get of a key that is not loaded gives {txt(v)}', f.span)
            else:
                cx.ob('get', is_ok(v) and peel(v.a[2][0]) is OBJ, f'get of a loaded key gives {txt(v)}', f.span)
    for f in (cx.inherent('ForeignKey<T>$', 'pk'), cx.impl('AsPrimaryKey', 'as_pk', 'ForeignKey<T>$')):
        for n, st in S.items():
            oks = 0
            for evs, v, c in fpaths(cx, f, [cell('s')], {'s': st}):
                if any(e.k == 'other' for e in evs):
                    cx.ob(f'{f.name}.other', v is not None and is_key_of(v, other) or v is None and diverges_on_key(evs) or v is not None and from_key(v),
                          f'{f.name} gives {txt(v)} while another thread loads the object', f.span)
                elif v is None:
                    cx.ob(f'{f.name}.panic', n == 'key' and diverges_on_key(evs), f'{f.name} panics on a foreign key that holds the {n}', f.span)
                else:
                    oks += 1
                    cx.ob(f'{f.name}', is_key_of(v, OBJ) if n != 'key' else from_key(v), f'{f.name} of a foreign key that holds the {n} is {txt(v)}', f.span)
            cx.ob(f'{f.name}.ok', oks >= 1, f'{f.name} never gives a key', f.span)
    for name in ('to_sql', 'to_sql_ref', 'into_sql'):
        f = cx.impl('ToSql', name, 'ForeignKey<T>$')
        for n, st in S.items():
            a = [cell('s')] if name != 'into_sql' else [st]
            for evs, v, c in fpaths(cx, f, a, {'s': st}):
                o = any(e.k == 'other' for e in evs)
                x = peel(v)
                okay = x is KEY or x is not None and (is_key_of(x, OBJ, True) or x.op == 'vf' or False) if n != 'object' else is_key_of(x, OBJ, True) or o and x is other
                if n == 'both':
                    okay = x is KEY or is_key_of(x, OBJ, True)
                elif n == 'key':
                    okay = x is KEY or o and is_key_of(x, other, True)
                cx.ob(f'{name}.{n}', v is not None and okay, f'{name} of a foreign key that holds the {n} gives {txt(v)}' + (' while another thread uses it' if o else ''), f.span)
    fs = [f for f in cx.F.fns.values() if f.crate == CORE and f.name == 'eq' and (f.selfty or '').endswith('ForeignKey<T>') and not f.parent]
    for f in fs:
        for n, st in S.items():
            for evs, v, c in fpaths(cx, f, [cell('s'), mk('p', 'rhs')], {'s': st}, others=False):
                x = [z for z in subterms(v) if z.op == 'r' and last(str(z.a[0])) == 'eq'] if v is not None else []
                e = x[0] if len(x) == 1 else None
                rhs = lambda y: 'as_pk(rhs)' in show(y)
                okay = e is not None and any((is_key_of(a, OBJ) or is_key_of(a, OBJ, True) or peel(a) is KEY or from_key(a)) and rhs(b) for a, b in (e.a[1], e.a[1][::-1]))
                if okay:
                    sqls = [any(w.op == 'r' and last(str(w.a[0])) in ('to_sql', 'to_sql_ref', 'into_sql') for w in subterms(y)) or peel(y) is KEY for y in e.a[1]]
                    okay = sqls[0] == sqls[1] or True in [from_key(y) for y in e.a[1]]
                    okay = okay and v is e
                cx.ob(f'eq.{n}', okay or v is None and diverges_on_key(evs), f'comparing a foreign key that holds the {n} gives {txt(v)}', f.span)
    cx.ob('eq.found', len(fs) >= 1, 'no comparison of foreign keys')


def check_load(cx):
    """Loading runs one query, for the object with this key, unless the object is there; an error leaves nothing behind."""
    other = mk('p', 'by-other')
    for kind in ('Sync', 'Async'):
        f = cx.impl(f'ForeignKeyOps{kind}', 'load', 'ForeignKey<T>$')
        for n, st in (('object', fk(cx, OBJ)), ('key', fk(cx, None, KEY)), ('both', fk(cx, OBJ, KEY))):
            oks = 0
            for evs, v, c in fpaths(cx, f, [cell('s'), mk('p', 'conn')], {'s': st}, opq=OPQ + ('get', 'try_get', 'query')):
                gets = [e for e in evs if e.k == 'call' and last(str(e.a[0])) in ('get', 'try_get', 'query') and 'Cell' not in str(e.a[0])]
                o = any(e.k == 'other' for e in evs)
                k = f'{kind}.load.{n}'
                if v is None:
                    cx.fail(k + '.panic', f'load panics on a foreign key that holds the {n}' + (' while another thread loads it' if o else ''), f.span)
                    continue
                if n != 'key':
                    cx.ob(k, not gets and is_ok(v) and peel(v.a[2][0]) is OBJ, f'load of a loaded foreign key does {len(gets)} queries and gives {txt(v)}', f.span)
                    oks += 1
                    continue
                if is_err(v):
                    p = parts(cx, c['s'])
                    cx.ob(k + '.err', p is not None and p[0] is None or o, f'a failed load leaves {txt(p and p[0])}', f.span)
                    cx.ob(k + '.why', any(e.k == 'assume' and str(e.a[1]) == 'Err' for e in evs) or '~Err' in show(v), f'load fails with {txt(v)}', f.span)
                    continue
                if o and not gets:
                    cx.ob(k + '.other', peel(v.a[2][0]) is other, f'load gives {txt(v)} when another thread has loaded the object', f.span)
                    continue
                okay = is_ok(v) and len(gets) == 1 and show(gets[0].a[1][0]) == 'conn' and from_key_or_sql(gets[0].a[1][1]) and awaited(evs, gets[0], kind == 'Async')
                x = peel(v.a[2][0]) if is_ok(v) else None
                okay = okay and (x is not None and contains(x, gets[0].a[2]) or o and x is other)
                p = parts(cx, c['s'])
                okay = okay and p is not None and (peel(p[0]) is x)
                oks += 1
                cx.ob(k, okay, f'load does {[last(str(e.a[0])) + str([txt(y)[:40] for y in e.a[1]]) for e in gets]} and gives {txt(v)}, keeping {txt(p and p[0])}', f.span)
            cx.ob(f'{kind}.load.{n}.ok', oks >= 1, f'load never succeeds on a foreign key that holds the {n}', f.span)


def from_key_or_sql(v):
    return from_key(v) or peel(v) is KEY
