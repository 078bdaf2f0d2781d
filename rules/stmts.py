"""P06 placeholders/parameters, P20 SELECT, P21 DELETE, P34 INSERT/UPDATE: exact statement languages of every
connection method of every backend."""
from lib import *
from sqlforms import *

PROVIDED = {'sqlite': ('ConnectionMethods', 'ConnectionMethods'), 'turso': ('ConnectionMethodsAsync', 'ConnectionMethodsAsync')}


def I(x):
    """An identifier (its quoting is decided by P09)."""
    if QUOTED.on:
        return Y('{q ' + x + '}')
    return A(Y('{q ' + x + '}'), Y('{' + x + '}'), Q('"', Y('{' + x + '}'), '"'))


def noise(x):
    it, end = Y(('it', x)), Y(('end', x))
    return OPTIONAL(STAR(it), end)


def ALL(x, item, sep=''):
    return Q(noise(x), EACH(x, item, sep), noise(x))


PH = A(Y('{ph}'), '?')
OPTSEMI = OPTIONAL(';')


def inc(cx, key, d, spec, what, fn, nonempty=True):
    """Obligation: every text in d belongs to the specification."""
    spec = squeeze(regex(spec)).det()
    w = d.witness_not_in(spec)
    if w:
        return cx.fail(key, f'{what}: the code can produce `{word(w[0])}`', origin(*w) or fn.span)
    if nonempty and d.empty():
        return cx.fail(key, f'{what}: no text could be derived', fn.span)
    return cx.ob(key, True, what, fn.span)


def union(ds):
    n = NFA()
    for d in ds:
        off = len(n.t)
        for e, o in zip(d.t, d.org):
            n.t.append([(x, y + off, o.get(x)) for x, y in e.items()])
        n.add(n.start, None, off)
        n.acc |= {a + off for a in d.acc}
    return n.det().mini()


def final_ok(g, v):
    return not (v.op == 'agg' and v.a[0] == interp.RES and v.a[1] == 'Err')


def ok_without(g, pred):
    """Can a non-Err return be reached without an event satisfying pred?"""
    seen, todo = {g.start}, [g.start]
    while todo:
        s = todo.pop()
        if s in g.finals and final_ok(g, g.finals[s]):
            return True
        for evs, d in g.succ.get(s, []):
            if any(pred(e) for e in evs):
                continue
            if d not in seen:
                seen.add(d)
                todo.append(d)
    return False


def twice(g, pred):
    """Can two events satisfying pred happen on one path?"""
    for s, es in g.succ.items():
        for evs, d in es:
            hits = [i for i, e in enumerate(evs) if pred(e)]
            if not hits:
                continue
            if len(hits) > 1:
                return True
            seen, todo = {d}, [d]
            while todo:
                x = todo.pop()
                for ev2, d2 in g.succ.get(x, []):
                    if any(pred(e) for e in ev2):
                        return True
                    if d2 not in seen:
                        seen.add(d2)
                        todo.append(d2)
    return False


def stmt(cx, b, m, key, sql, params=None, args=None, names=None, which=None, once=True, prefix=''):
    """The statement run by method m of backend b: SQL text within `sql`, bound values within `params`,
    executed exactly once on every path that reports success."""
    f = Forms(cx, b, m, args, names)
    k0 = f'{b}.{m}{prefix}'
    if f.g.truncated and any('db::' in t[0] and 'models' not in t[0] and False for t in f.g.truncated):
        cx.note(f'{k0}: widening')
    ss = [x for x in f.sinks if which is None or which(x, f)]
    texts = [x for x in ss if x[0][1] is not None and not f.T.name(x[3].a[1][x[0][1]], (x[1], x[2], x[3])).startswith('prepare')]
    if not texts:
        cx.fail(f'{k0}.sql', f'{b} {m}: no statement is sent to the driver', f.fn.span)
        return f
    if sql is not None:
        inc(cx, f'{k0}.sql', union([f.sql(*x) for x in texts]), Q(sql, OPTSEMI), f'{b} {m}: SQL text', f.fn)
    # execution: the prepared statement must also be run
    runs = [x for x in ss if x[0][0] != 'prepare']
    rp = {id(x[3]) for x in runs}
    if params is not None:
        ps = [f.params(x[3].a[1][x[0][2]], (x[1], x[2], x[3])) for x in runs if x[0][2] is not None]
        if not ps:
            cx.fail(f'{k0}.params', f'{b} {m}: no values are bound', f.fn.span)
        else:
            inc(cx, f'{k0}.params', union([p.det() for p in ps]), params, f'{b} {m}: bound values', f.fn)
    if once:
        isrun = lambda e: id(e) in rp
        cx.ob(f'{k0}.runs', not ok_without(f.g, isrun), f'{b} {m}: every successful return has run the statement', f.fn.span)
        cx.ob(f'{k0}.once', not twice(f.g, isrun), f'{b} {m}: the statement runs at most once', f.fn.span)
    if not prefix:      # with a known number of columns P06 reads the placeholders off the text
        phs(cx, f, k0)
    return f


def phs(cx, f, k0):
    """Each generated placeholder is used exactly once and in order."""
    def sym(e):
        if e.k == 'call' and is_placeholder(cname(e)):
            return 'np'
        if e.k in ('emit', 'push'):
            n = 0
            for p in (e.a[1] if e.k == 'emit' else (e.a[1],)):
                n += count_ph(p)
            return ['ph'] * n or None
        return None
    n = project(f.g, sym).det()
    if 'np' not in n.alphabet():
        return
    w = n.witness_not_in(regex(STAR(Y('np'), Y('ph'))).det())
    cx.ob(f'{k0}.placeholders', w is None, f'{f.label()}: every placeholder generated is written exactly once, in order', f.fn.span)


def check_alternation(cx, b):
    """Loops over symbolic lists: every placeholder generated is written once, before the next one."""
    for m in ('query', 'insert_only', 'insert_returning_pk', 'insert_or_replace', 'update', 'delete_where', 'delete'):
        tr, ty = BACKENDS[b]
        if m == 'delete' and not cx.impls(tr, m, ty):
            continue
        f = Forms(cx, b, m)
        phs(cx, f, f'{b}.{m}')


def count_ph(v):
    if v.op == 'r' and isinstance(v.a[0], str) and is_placeholder(v.a[0]):
        return 1
    n = 0
    for x in v.a:
        if isinstance(x, V):
            n += count_ph(x)
        elif isinstance(x, tuple):
            n += sum(count_ph(y) for y in x if isinstance(y, V))
    return n


def order_agg(i, d):
    return agg('butane_core::query::Order', 'Order', agg('butane_core::query::OrderDirection', d), mk('p', 20 + i))


def check_select(cx, b):
    """P20: the SELECT statement of each backend, for every presence combination of the modifiers."""
    F = cx.F
    P = lambda i: mk('p', i)
    if True:
        ex = '{expr Condition(expr)}' if b != 'turso' else '{expr Condition(transform_subqueries(self,expr))}'
        for mask in range(16):
            e, l, o, r = (mask >> i & 1 for i in range(4))
            args = [P(0), P(1), P(2), some(P(3)) if e else NONE, some(P(4)) if l else NONE, some(P(5)) if o else NONE,
                    some(P(6)) if r else NONE]
            where_ = Q(' WHERE ', A(Y(ex), Q('(', Y(ex), ')'))) if e else EPS
            order = Q(' ORDER BY ', ALL('order', Q(I('order[].column'), OPTIONAL(A(' ASC', ' DESC'))), ',')) if r else EPS
            lim = Q(' LIMIT ', Y('{limit}')) if l else EPS
            off = Q(' OFFSET ', Y('{offset}')) if o else EPS
            if b != 'pg' and o and not l:
                lim = Q(' LIMIT ', A('2147483647', '-1', '9223372036854775807'))
            tail = Q(lim, off) if b != 'pg' else A(Q(lim, off), Q(off, lim))
            spec = Q('SELECT ', ALL('columns', I('columns[].name'), ','), ' FROM ', I('table'), where_, order, tail)
            tag = ''.join(c for c, on in zip('wlor', (e, l, o, r)) if on) or 'none'
            stmt(cx, b, 'query', 'P20', spec, Y(ex) if e else EPS, args, prefix=f'[{tag}]')
        # sort directions and separators on concrete lists
        for dirs in (('Ascending',), ('Descending',), ('Ascending', 'Descending'), ('Descending', 'Ascending', 'Descending')):
            arr = mk('arr', tuple(order_agg(i, d) for i, d in enumerate(dirs)))
            args = [P(0), P(1), P(2), NONE, NONE, NONE, some(arr)]
            names = {20 + i: f'col{i}' for i in range(3)}
            items = [Q(I(f'col{i}'), A(' ASC', '') if d == 'Ascending' else ' DESC') for i, d in enumerate(dirs)]
            js = [items[0]] + [Q(',', x) for x in items[1:]]
            spec = Q('SELECT ', ALL('columns', I('columns[].name'), ','), ' FROM ', I('table'), ' ORDER BY ', *js)
            stmt(cx, b, 'query', 'P20', spec, EPS, args, names, prefix='[order ' + ','.join(d[:3] for d in dirs) + ']')


def conversions(v, runs):
    """The operations between the driver's answer and v."""
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        if isinstance(x, V):
            if x in runs:
                continue
            out.append(x)
            todo.extend(x.a)
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
    return out


def check_delete(cx, b):
    F = cx.F
    if True:
        exs = ['{expr Condition(expr)}']
        if b == 'turso':
            # Turso does not run subqueries here: what they select is looked up first (checked by P07)
            exs = ['{expr Condition(transform_subqueries(self,expr))}']
        x = A(*[A(Y(e), Q('(', Y(e), ')')) for e in exs])
        f = stmt(cx, b, 'delete_where', 'P21', Q('DELETE FROM ', I('table'), ' WHERE ', x), A(*[Y(e) for e in exs]))
        # the count reported is the driver's
        oks = [v for v in f.g.finals.values() if final_ok(f.g, v)]
        runs = {e.a[2] for k, s, i, e in f.sinks if k[0] == 'execute'}
        most = (2**64 - 1, 2**32 - 1)
        counts = [v for v in oks if not (v.op == 'agg' and v.a[2] and v.a[2][0].op == 'c' and v.a[2][0].a[1] in most)]
        good = counts and all(v.op == 'agg' and any(t in runs for t in subterms(v)) and not any(x.op in ('bin', 'not') for x in conversions(v.a[2][0], runs))
                              for v in counts)
        cx.ob(f'{b}.delete_where.count', good and oks, f'{b} delete_where reports the number of rows the driver deleted', f.fn.span)
        tr, ty = BACKENDS[b]
        own = cx.impls(tr, 'delete', ty)
        e2 = '{expr Condition(Eq(pkcol,Val(pk)))}'
        pkx = A(Q(I('pkcol'), '=', PHB(b, 1)), Y(e2), Q('(', Y(e2), ')'))
        if own:
            f = stmt(cx, b, 'delete', 'P21', Q('DELETE FROM ', I('table'), ' WHERE ', pkx), A(Y('[pk]'), Y(e2)))


def check_delete_provided(cx):
    for tr in ('ConnectionMethods', 'ConnectionMethodsAsync'):
        d = provided_delete(cx, tr)
        if d is None:
            cx.ob(f'{tr}.delete', all(cx.impls(tr, 'delete', ty) for b, (t, ty) in BACKENDS.items() if t == tr),
                  f'{tr}::delete exists for every backend')
            continue
        g = cx.graph(d)
        is_dw = lambda e: e.k == 'call' and last(cname(e)) == 'delete_where'
        T_ = Text(g, dict(enumerate(NAMES['delete'])))
        n = 0
        for s, i, e in cx.calls(g, is_dw):
            n += 1
            a = [T_.name(x, (s, i, e)) for x in e.a[1]]
            cx.ob(f'{tr}.delete.forward', a[1:] == ['table', 'Eq(pkcol,Val(pk))'] and a[0] == 'self',
                  f'{tr}::delete removes the rows of the table whose key column equals the given key (got {a})', e.loc)
        cx.ob(f'{tr}.delete.once', n and not ok_without(g, is_dw) and not twice(g, is_dw), f'{tr}::delete deletes once', d.span)


def provided_delete(cx, tr):
    r = [f for f in cx.F.fns.values() if f.name == 'delete' and f.intrait and f.intrait.rsplit('::', 1)[-1].split('<')[0] == tr and not f.trait]
    return r[0] if r else None


def PHB(b, i):
    return A(Y('{ph}'), f'${i}') if b == 'pg' else A(Y('{ph}'), '?', f'?{i}')


def col(i):
    return agg('butane_core::db::Column', 'Column', mk('p', 30 + 2 * i), mk('p', 31 + 2 * i))


def struct(F, path, **fields):
    """Concrete value of a local struct; fields by name."""
    a = F.adt_by_path.get(path)
    if not a:
        raise Missing(f'type {path}')
    fs = [f[0] for f in a['variants'][0][2]]
    if set(fs) != set(fields):
        raise Missing(f'fields of {path}: {fs}')
    return agg(a['id'], a['variants'][0][0], *[fields[f] for f in fs])


def colpath(F):
    r = [p for p, a in F.adt_by_path.items() if p.startswith('butane_core::db') and p.endswith('::Column')]
    if len(r) != 1:
        raise Missing('type db::Column')
    return r[0]


def check_writes(cx, b):
    """P34: INSERT / UPDATE statements."""
    P = lambda i: mk('p', i)
    F = cx.F
    names = {C(f'c{i}'): f'c{i}.name' for i in range(4)}

    def mkcol(i):
        # distinct column names
        return struct(F, colpath(F), name=C(f'c{i}'), ty=mk('p', 40 + i))
    if True:
        eachcol = ALL('columns', I('columns[].name'), ',')
        genph = A(PH, Q('$', STAR(A(*[c for c in '0123456789'], Y('{ge}'))))) if b == 'pg' else PH
        into = Q('INSERT INTO ', I('table'))
        general = Q(into, '(', eachcol, ')VALUES(', ALL('columns', PH, ','), ')')
        defaults = Q(into, ' DEFAULT VALUES')
        vals = EACH('values', Y('[values[]]'))
        ret = Q(' RETURNING ', I('pkcol.name')) if b == 'pg' else EPS
        ins = lambda x, f: x[0][0] != 'prepare' and (b == 'pg' or x[0][0] == 'execute')
        for m in ('insert_only', 'insert_returning_pk'):
            r = ret if m == 'insert_returning_pk' else EPS
            stmt(cx, b, m, 'P34', A(Q(general, r), Q(defaults, r)), vals, which=ins)
            for n in range(4):
                cols = mk('arr', tuple(mkcol(i) for i in range(n)))
                args = [P(0), P(1), cols] + [P(3), P(4)][:len(NAMES[m]) - 3]
                if n:
                    spec = Q(into, '(', join([I(f'c{i}.name') for i in range(n)]), ')VALUES(', join([PHB(b, i + 1) for i in range(n)]), ')', r)
                else:
                    spec = Q(defaults, r)
                nm = dict(names)
                stmt(cx, b, m, 'P34', spec, vals, args, nm, which=ins, prefix=f'[{n} columns]')
        setlist = ALL('columns', Q(I('columns[].name'), '=', PH), ',')
        upd = Q('UPDATE ', I('table'), ' SET ', setlist, ' WHERE ', I('pkcol.name'), '=', PH)
        stmt(cx, b, 'update', 'P34', upd, Q(vals, Y('[pk]')))
        for n in range(1, 4):
            cols = mk('arr', tuple(mkcol(i) for i in range(n)))
            spec = Q('UPDATE ', I('table'), ' SET ', join([Q(I(f'c{i}.name'), '=', PHB(b, i + 1)) for i in range(n)]), ' WHERE ',
                     I('pkcol.name'), '=', PHB(b, n + 1))
            stmt(cx, b, 'update', 'P34', spec, Q(vals, Y('[pk]')), [P(0), P(1), P(2), P(3), cols, P(5)], names, prefix=f'[{n} columns]')
        check_upsert(cx, b, names, mkcol, into, vals)
        check_pk(cx, b)


def join(xs, sep=','):
    return Q(xs[0], *[Q(sep, x) for x in xs[1:]])


def check_upsert(cx, b, names, mkcol, into, vals):
    P = lambda i: mk('p', i)
    m = 'insert_or_replace'
    f = stmt(cx, b, m, 'P34', None, vals)
    for n in range(1, 4):
        for pk in range(n):
            # the primary key is one of the columns: its name equals column pk's
            cols = mk('arr', tuple(mkcol(i) for i in range(n)))
            f = Forms(cx, b, m, [P(0), P(1), cols, mkcol(pk), P(4)], names)
            d = union([f.sql(*x) for x in f.sinks])
            others = [i for i in range(n) if i != pk]
            head = Q(into, '(', join([I(f'c{i}.name') for i in range(n)]), ')VALUES(', join([PHB(b, i + 1) for i in range(n)]), ')ON CONFLICT(',
                     I(f'c{pk}.name'), ')DO ')
            def sets(ix):
                row = Q('UPDATE SET(', join([I(f'c{i}.name') for i in ix]), ')=', A('(', 'ROW(') if len(ix) > 1 else 'ROW(', join([exc(i) for i in ix]), ')')
                return A(Q('UPDATE SET ', join([Q(I(f'c{i}.name'), '=', exc(i)) for i in ix])), row)
            # assigning the key as well is harmless: it equals the existing one
            tail = A(sets(others), sets(list(range(n)))) if others else Q('NOTHING')
            inc(cx, f'{b}.{m}.sql[{n} columns, key {pk}]', d, Q(head, tail, OPTSEMI), f'{b} {m}: SQL text', f.fn)


def exc(i):
    return Q(A('excluded.', 'EXCLUDED.'), I(f'c{i}.name'))


def check_pk(cx, b):
    """insert_returning_pk yields the key column of the row just inserted."""
    f = Forms(cx, b, 'insert_returning_pk')
    qs = [x for x in f.sinks if x[0][0] == 'query']
    ins = [x for x in f.sinks if x[0][0] == 'execute']
    if b == 'pg':
        return
    key = f'{b}.insert_returning_pk.read'
    sel = Q('SELECT ', I('pkcol.name'), ' FROM ', I('table'), ' WHERE ', A('ROWID', 'rowid'), '=last_insert_rowid()')
    spec = A(sel, Q('SELECT last_insert_rowid()')) if b == 'turso' else sel
    if not qs:
        cx.fail(key, f'{b}: the generated key is not read back', f.fn.span)
        return
    inc(cx, key, union([f.sql(*x) for x in qs]), Q(spec, OPTSEMI), f'{b}: reading back the generated key', f.fn)
    order = project(f.g, lambda e: 'i' if any(e is x[3] for x in ins) else 'q' if any(e is x[3] for x in qs) else None)
    w = order.det().witness_not_in(regex(A(EPS, Q(Y('i')), Q(Y('i'), PLUS(Y('q'))))).det())
    cx.ob(key + '.order', w is None, f'{b}: the key is read after the insert', f.fn.span)


if __name__ == '__main__':
    import build, time
    cx = Ctx(build.ensure_facts()[0], 'P00')
    t = time.time()
    for fn in (check_select, check_delete, check_writes):
        for b in BACKENDS:
            fn(cx, b)
    check_delete_provided(cx)
    bad = [o for o in cx.obs if not o[1]]
    print(len(cx.obs), 'obligations', len(bad), 'failed', round(time.time() - t, 1), 's')
    for o in bad:
        print(o)
