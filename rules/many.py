"""P19: a many-to-many relation holds what was put into it, and touches no one else's rows."""
from conv import *
from flow import *
import known
from fkey import Locks, lock, txt
from ops import awaited

MID = 'butane_core::many::Many'
TABLE, ME, OTYPE = mk('p', 'table'), mk('owner'), agg('butane_core::SqlType', 'BigInt')
KEYS = ('a', 'b')
NAMES = ('item_table', 'owner', 'owner_type', 'new_values', 'removed_values', 'all_values')
STATES = 400


def keytok(k):
    return mk('key', k)


def objtok(k):
    return mk('elem', k)


def is_tok(v, ops=('key',)):
    while v.op == 'agg' and (v.a[1] in ('Borrowed', 'Owned') or last(v.a[0]) == 'Box') and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v if v.op in ops else None


class Hook:
    """Objects with known keys, and a connection each statement of which can fail."""

    def __init__(self):
        self.locks = Locks(False)

    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
        if l == 'query' and 'DataResult' in name and not av:
            return it.enter(st, depth, fn, fr, self.query.id, [mk('p', 'TABLE')], dest, target, evs, None, loc)
        if av:
            a = is_tok(it.undr(st, av[0]), ('key', 'elem', 'badelem', 'owner'))
            if a is not None:
                if a.op == 'elem' and l == 'pk':
                    return fin(keytok(a.a[0]))
                if a.op == 'badelem' and l == 'pk':
                    return fin(a)
                if l == 'is_valid':
                    return fin(C(a.op != 'badelem'))
                if a.op in ('key', 'owner') and l in ('to_sql', 'to_sql_ref', 'into_sql', 'as_ref', 'clone', 'to_owned', 'from', 'into', 'borrow', 'deref'):
                    return fin(a)
                if a.op == 'key' and l in ('eq', 'ne') and len(av) == 2:
                    b = is_tok(it.undr(st, av[1]))
                    if b is not None:
                        return fin(C((a is b) == (l == 'eq')))
            if l == 'contains' and len(av) == 2:
                x, k = known.items(it, st, av[0]), is_tok(it.undr(st, av[1]))
                x = [is_tok(y) for y in x] if x is not None else [None]
                if k is not None and None not in x:
                    return fin(C(k in x))
            if l == 'clone' and a is None and it.undr(st, av[0]).op == 'agg' and known.closed(it.undr(st, av[0])):
                return fin(it.undr(st, av[0]))
            if l == 'load' and 'QueryOps' in name:
                q = contents(it.undr(st, av[0]), {k[1]: v.a[0] for k, v in st.store.items() if k[0] == 'cont'})
                s2 = State(st.stack, dict(st.store))
                sets = self.answer(q)
                e1 = evs + [Ev('loaded', (q,), loc, fn.id)]
                val = _ok(mk('arr', tuple(objtok(k) for k in sets)) if sets is not None else mk('unknown-rows'))
                bad = agg(RES, 'Err', mk('r', 'load-error', (), ''))
                e2 = evs + [Ev('fault', ('load',), loc, fn.id)]
                if 'Async' in name:
                    return fin(mk('ready', val), e1) + fin(mk('ready', bad), e2, s2)
                return fin(val, e1) + fin(bad, e2, s2)
            if name.endswith('Future::poll') or l == 'into_future':
                x = it.undr(st, av[0])
                if x.op == 'ready':
                    return fin(x if l == 'into_future' else agg(POLL, 'Ready', x.a[0]))
        return self.locks.hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)

    def answer(self, q):
        """The keys of the objects a query gives."""
        f = query_filter(q)
        if f is None:
            return None
        return self.keys(f)

    def keys(self, f):
        f = unbox(f)
        if f.op != 'agg':
            return None
        k, x = f.a[1], f.a[2]
        if k == 'Subquery' and len(x) == 4 and is_pkcol(x[0]) and cow(x[1]) is TABLE and str_is(x[2], 'has'):
            c = unbox(x[3])
            return sorted(self.mine) if owner_is_me(c) else None
        if k == 'In' and is_pkcol(x[0]):
            vs = x[1]
            if vs.op == 'arr':
                ks = [is_tok(v) for v in vs.a[0]]
                return sorted({v.a[0] for v in ks}) if None not in ks else None
        if k == 'Or':
            l, r = self.keys(x[0]), self.keys(x[1])
            return sorted(set(l) | set(r)) if l is not None and r is not None else None
        if k == 'And':
            l, r = self.keys(x[0]), self.keys(x[1])
            return sorted(set(l) & set(r)) if l is not None and r is not None else None
        if k == 'Not' and unbox(x[0]).op == 'agg' and unbox(x[0]).a[1] == 'In':
            l = self.keys(x[0])
            return sorted(set(KEYS) - set(l)) if l is not None else None
        return None


def _ok(v):
    return agg(RES, 'Ok', v)


def unbox(v):
    while v.op == 'agg' and last(v.a[0].split('<')[0]) == 'Box' and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


def cow(v):
    while v.op == 'agg' and v.a[1] in ('Borrowed', 'Owned') and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


def is_pkcol(v):
    return 'PKCOL' in show(v)


def str_is(v, s):
    return is_const(cow(v)) and cval(cow(v)) == s


def owner_is_me(c):
    if c.op != 'agg' or c.a[1] != 'Eq' or not str_is(c.a[2][0], 'owner'):
        return False
    e = c.a[2][1]
    return e.op == 'agg' and e.a[1] == 'Val' and e.a[2][0] is ME


def query_filter(q):
    """The filter of a query that has no other restriction."""
    if q.op != 'agg' or not q.a[0].startswith('butane_core::query::Query'):
        return None
    for x in q.a[2]:
        if x.op == 'agg' and x.a[1] == 'Some' and x.a[2][0].op == 'agg' and 'BoolExpr' in x.a[2][0].a[0]:
            return x.a[2][0]
    return None


def ordered(q):
    """A query is ordered by the key, in the given direction only."""
    for x in q.a[2]:
        if x.op == 'arr' and x.a[0] and x.a[0][0].op == 'agg' and last(x.a[0][0].a[0]) == 'Order':
            o = x.a[0][0].a[2]
            return len(x.a[0]) == 1 and any(y is mk('p', 'order') for y in o) and any(is_pkcol(y) for y in o)
    return False


class Sys:
    def __init__(self, cx, kind):
        self.cx, self.kind = cx, kind
        self.names = [f[0] for f in cx.F.adts[MID]['variants'][0][2]]
        missing = [n for n in self.names if n not in NAMES]
        if missing:
            raise Limit(f'Many has fields that are not understood: {missing}')
        m = f'ManyOps{kind}'
        self.f = {n: cx.impl(m, n, 'Many<T>$') for n in ('save', 'delete', 'set', 'load', 'load_ordered')}
        for n in ('add', 'remove', 'get', 'ensure_init'):
            self.f[n] = cx.inherent('Many<', n)
        self.hook = Hook()
        self.hook.query = cx.inherent('Query<', 'new')
        self.memo = {}

    def many(self, new=(), gone=(), all_=None, owner=True):
        d = {'item_table': TABLE, 'owner': some(ME) if owner else NONE, 'owner_type': OTYPE, 'new_values': mk('arr', tuple(map(keytok, new))),
             'removed_values': mk('arr', tuple(map(keytok, gone))), 'all_values': all_ or lock()}
        return agg(MID, None, *[d[n] for n in self.names])

    def run(self, op, s, mine):
        k = (op, s, mine if op[0].startswith('load') else None)
        if k not in self.memo:
            self.hook.mine = mine
            f = self.f[op[0]]
            conn = [mk('p', 'conn')]
            arr = lambda ks: mk('arr', tuple(objtok(x) for x in ks))
            args = [cell('s')] + {'add': lambda: [objtok(op[1])], 'addbad': lambda: [], 'remove': lambda: [objtok(op[1])], 'save': lambda: conn, 'delete': lambda: conn,
                                  'set': lambda: conn + [arr(op[1])], 'load': lambda: conn, 'get': lambda: [],
                                  'load_ordered': lambda: conn + [mk('p', 'order')], 'ensure_init': lambda: [mk('p', 't2'), mk('p', 'o2'), mk('p', 'ty2')]}[op[0]]()
            opaque = lambda n, i, d: last(n) in ('insert_only', 'delete_where', 'pk', 'to_sql', 'is_valid') and 'many::' not in n \
                and not (last(n) == 'delete_where' and 'Many' in n)
            g = self.cx.graph(f, args=args, cells={'s': s}, hook=self.hook.hook, opaque=opaque, exact=50, widen=100)
            self.memo[k] = list(paths(g, full='cells'))
        return self.memo[k]


def rows_after(evs, rows, asynchronous):
    """The rows of the link table after the statements of a path; None and why if one of them is not understood."""
    rows = set(rows)
    for e in evs:
        if e.k != 'call' or last(str(e.a[0])) not in ('insert_only', 'delete_where', 'insert_or_replace', 'execute', 'delete', 'update', 'insert_returning_pk'):
            continue
        l = last(str(e.a[0]))
        failed = any(x.k == 'assume' and contains(x.a[0], e.a[2]) and str(x.a[1]) == 'Err' for x in evs if isinstance(x.a[0], V))
        if not awaited(evs, e, asynchronous):
            return None, f'{l} is started and not finished'
        if failed:
            continue
        a = e.a[1]
        if show(a[0]) != 'conn' or len(a) < 3 or cow(a[1]) is not TABLE:
            return None, f'{l} on {txt(a[1])}'
        if l == 'insert_only' and len(a) == 4:
            c, v = a[2], a[3]
            ok = c.op == v.op == 'arr' and len(c.a[0]) == len(v.a[0]) == 2
            if ok:
                got = {}
                for col, val in zip(c.a[0], v.a[0]):
                    got[cval(cow(col.a[2][0])) if col.op == 'agg' and is_const(cow(col.a[2][0])) else None] = (col.a[2][1] if col.op == 'agg' else None, val)
                ok = set(got) == {'owner', 'has'} and got['owner'][0] is OTYPE and 'SQLTYPE' in show(got['has'][0]) and peel_ref(got['owner'][1]) is ME \
                    and is_tok(got['has'][1]) is not None
            if not ok:
                return None, f'a row of {txt(v)} for {txt(c)} is inserted'
            rows.add(('me', is_tok(got['has'][1]).a[0]))
        elif l == 'delete_where':
            r = [(x, holds(unbox(a[2]), x)) for x in rows]
            if any(h is None for _, h in r):
                return None, f'rows are deleted where {txt(a[2])}'
            rows = {x for x, h in r if not h}
        else:
            return None, f'{l} is run on the link table'
    return rows, ''


def peel_ref(v):
    while v.op == 'r' and last(str(v.a[0])) in ('as_ref', 'clone', 'into', 'from', 'to_owned') and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v


def holds(c, row):
    """Whether a condition selects a row of the link table."""
    if c.op != 'agg':
        return None
    k, x = c.a[1], c.a[2]
    if k in ('And', 'Or'):
        l, r = holds(unbox(x[0]), row), holds(unbox(x[1]), row)
        return None if l is None or r is None else (l and r) if k == 'And' else (l or r)
    if k == 'Not':
        l = holds(unbox(x[0]), row)
        return None if l is None else not l
    if k == 'True':
        return True
    if k == 'AllOf' and x[0].op == 'arr':
        rs = [holds(unbox(y), row) for y in x[0].a[0]]
        return None if None in rs else all(rs)
    if k == 'Eq' and x[1].op == 'agg' and x[1].a[1] == 'Val':
        v = peel_ref(x[1].a[2][0])
        if str_is(x[0], 'owner'):
            return row[0] == 'me' if v is ME else None
        if str_is(x[0], 'has'):
            return row[1] == is_tok(v).a[0] if is_tok(v) is not None else None
    if k == 'In' and x[1].op == 'arr':
        vs = x[1].a[0]
        if str_is(x[0], 'has') and all(is_tok(v) is not None for v in vs):
            return row[1] in [is_tok(v).a[0] for v in vs]
        if str_is(x[0], 'owner') and all(peel_ref(v) is ME for v in vs):
            return row[0] == 'me' and bool(vs)
    return None


def loaded(s, names):
    """Keys in the cached list of a relation, None if there is no such list."""
    a = s.a[2][names.index('all_values')]
    if a.op == 'arr':
        return keys_of(a)
    if a.op != 'lock':
        return 'unknown'
    if not a.a[0]:
        return None
    x = a.a[0][0]
    if x.op != 'arr':
        return 'unknown'
    return keys_of(x)


def keys_of(x):
    if x.op == 'it' and x.a[0].op == 'arr':
        x = mk('arr', x.a[0].a[0][x.a[1]:])
    if x.op != 'arr':
        return 'unknown'
    ks = [is_tok(y, ('elem',)) for y in x.a[0]]
    return frozenset(k.a[0] for k in ks) if None not in ks else 'unknown'


OTHERS = frozenset({('you', 'a'), ('you', 'b')})


def check_history(cx, kind, deep=3):
    """Every history of additions, removals, saves, deletions and loads, each statement of which can fail."""
    S = Sys(cx, kind)
    OPS = [('add', 'a'), ('remove', 'a'), ('add', 'b'), ('save',), ('delete',), ('load',), ('load_ordered',), ('set', ('b',)), ('set', ())]
    start = [(S.many(), frozenset()), (S.many(), frozenset('ab'))]
    # state: relation, own rows, what it should hold
    todo = [(s, frozenset(r), frozenset(r), ()) for s, r in start]
    seen = {x[:3] for x in todo}
    oks = set()
    while todo:
        s, mine, want, hist = todo.pop(0)
        for op in OPS:
            f = S.f[op[0]]
            say = f'after {" ".join(map(opname, hist)) or "nothing"}, {opname(op)}'
            for evs, v, c in S.run(op, s, mine):
                fault = [e for e in evs if e.k == 'fault' or e.k == 'assume' and str(e.a[1]) == 'Err']
                key = f'{kind}.{op[0]}'
                if v is None:
                    cx.fail(key + '.panic', f'{say}: panics', f.span)
                    continue
                n = c.get('s')
                if n is None or n.op != 'agg' or n.a[0] != MID:
                    cx.fail(key + '.state', f'{say}: the relation becomes {txt(n)}', f.span)
                    continue
                rows, why = rows_after(evs, OTHERS | {('me', k) for k in mine}, kind == 'Async')
                if rows is None:
                    cx.fail(key + '.stmt', f'{say}: {why}', f.span)
                    continue
                cx.ob(key + '.others', OTHERS <= rows, f'{say}: rows of another owner are deleted', f.span)
                now = frozenset(k for o, k in rows if o == 'me')
                good = is_ok(v) if op[0] != 'remove' else True
                if is_err(v):
                    cx.ob(key + '.err', bool(fault), f'{say}: fails with {txt(v)}', f.span)
                    if op[0] == 'set':
                        continue
                    w = want
                elif not good:
                    cx.fail(key + '.result', f'{say}: gives {txt(v)}', f.span)
                    continue
                else:
                    cx.ob(key + '.swallow', not fault, f'{say}: a failure is ignored', f.span)
                    oks.add(op[0])
                    w = want | {op[1]} if op[0] == 'add' else want - {op[1]} if op[0] == 'remove' else frozenset(op[1]) if op[0] == 'set' else \
                        frozenset() if op[0] == 'delete' else want
                    if op[0] in ('save', 'delete', 'set'):
                        cx.ob(key + '.rows', now == w, f'{say}: the link table holds {sorted(now)} for this owner, it should hold {sorted(w)}', f.span)
                    if op[0] == 'load_ordered' and (qs := [e.a[0] for e in evs if e.k == 'loaded']):
                        cx.ob(key + '.order', ordered(qs[0]), f'{say}: the query is {txt(qs[0])}', f.span)
                    if op[0].startswith('load'):
                        got = keys_of(v.a[2][0])
                        cx.ob(key + '.gives', got == want, f'{say}: gives {got if isinstance(got, str) else sorted(got)}, the relation holds {sorted(want)}', f.span)
                if op[0] in ('add', 'remove', 'load', 'load_ordered'):
                    cx.ob(key + '.early', now == mine, f'{say}: the link table is changed', f.span)
                cached = loaded(n, S.names)
                cx.ob(key + '.cache', cached is None or cached == w, f'{say}: the loaded values are {cached if isinstance(cached, str) else sorted(cached or ())}, '
                      f'the relation holds {sorted(w)}', f.span)
                for name, val in zip(S.names, n.a[2]):
                    if name in ('item_table', 'owner', 'owner_type'):
                        cx.ob(key + '.id', val is s.a[2][S.names.index(name)], f'{say}: {name} becomes {txt(val)}', f.span)
                x = (n, now, w)
                if x not in seen and len(hist) < deep:
                    seen.add(x)
                    todo.append(x + (hist + (op,),))
                    if len(seen) > STATES * deep:
                        raise Limit('too many states of a relation')
    cx.ob(f'{kind}.ok', oks == {o[0] for o in OPS}, f'some operations never succeed: {sorted({o[0] for o in OPS} - oks)}')


def check_state(cx):
    """What is not saved, not loaded or not owned yet is reported, and a relation is bound to its owner once."""
    S = Sys(cx, 'Sync')
    f = S.f['add']
    S0 = S.many(('b',), ('a',), lock(mk('arr', ())))
    opq = lambda n, i, d: last(n) in ('insert_only', 'delete_where') and not n.startswith('butane_core::many')
    go = lambda f, args, s: list(paths(cx.graph(f, args=[cell('s')] + args, cells={'s': s}, hook=S.hook.hook, opaque=opq, exact=50, widen=100), full='cells'))
    for evs, v, c in go(f, [mk('badelem')], S0):
        cx.ob('add.unsaved', is_err(v) and c['s'] is S0, f'adding an object without a key gives {txt(v)}', f.span)
    f = S.f['get']
    for n, s, good in (('loaded', S.many(all_=lock(mk('arr', (objtok('a'),)))), True), ('fresh', S.many(), False)):
        for evs, v, c in go(f, [], s):
            okay = is_ok(v) and keys_of(v.a[2][0]) == frozenset('a') if good else is_err(v)
            cx.ob(f'get.{n}', v is not None and okay, f'get gives {txt(v)} on a {n} relation', f.span)
    f = S.f['ensure_init']
    T2, O2, Y2 = mk('p', 't2'), mk('p', 'o2'), mk('p', 'ty2')
    ix = {n: i for i, n in enumerate(S.names)}
    for n, s in (('owned', S0), ('fresh', S.many(('b',), ('a',), None, False))):
        for evs, v, c in go(f, [T2, O2, Y2], s):
            if n == 'owned':
                cx.ob('init.again', v is not None and c['s'] is s, f'a relation that has an owner is bound again', f.span)
                continue
            x = c.get('s')
            okay = v is not None and x is not None and x.op == 'agg'
            if okay:
                y = x.a[2]
                okay = cow(y[ix['item_table']]) is T2 and y[ix['owner']].op == 'agg' and y[ix['owner']].a[1] == 'Some' and y[ix['owner']].a[2][0] is O2 \
                    and y[ix['owner_type']] is Y2 and all(known_list(y[ix[k]]) == known_list(s.a[2][ix[k]]) for k in ('new_values', 'removed_values')) \
                    and loaded(x, S.names) is None
            cx.ob('init', okay, f'a new relation is bound as {txt(x)}', f.span)
    for kind in ('Sync', 'Async'):
        K = Sys(cx, kind)
        K.hook.mine = ()
        s = K.many(('b',), ('a',), None, False)
        for op in (('save',), ('delete',), ('load',), ('load_ordered',)):
            f = K.f[op[0]]
            for evs, v, c in K.run(op, s, frozenset()):
                stm = [e for e in evs if e.k == 'loaded' or e.k == 'call' and last(str(e.a[0])) in ('insert_only', 'delete_where')]
                okay = v is not None and not stm and (is_err(v) if op[0] in ('save', 'delete') else is_ok(v) and keys_of(v.a[2][0]) == frozenset())
                okay = okay and all(known_list(x) == known_list(y) for x, y in zip(c['s'].a[2], s.a[2]))
                cx.ob(f'{kind}.{op[0]}.unbound', okay, f'{op[0]} of a relation without an owner runs {len(stm)} statements and gives {txt(v)}', f.span)
    f = cx.inherent('Many<', 'columns')
    for evs, v, c in go(f, [], S0):
        okay = v is not None and v.op == 'arr' and [cval(cow(x.a[2][0])) for x in v.a[0]] == ['owner', 'has'] and v.a[0][0].a[2][1] is OTYPE and 'SQLTYPE' in show(v.a[0][1].a[2][1])
        cx.ob('columns', okay, f'the columns of a link table are {txt(v)}', f.span)


def known_list(v):
    return v.a[0] if v.op == 'arr' else v


def opname(op):
    return op[0] + (f' {"".join(op[1])}' if len(op) > 1 else '')
