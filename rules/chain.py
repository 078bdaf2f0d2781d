"""P03, P04: migrations are applied and rolled back in order, each together with its bookkeeping."""
from flow import *
from interp import ok, err, Ev

KINDS = {'call', 'assume', 'await', 'panic', 'diverge'}
MIG = 'butane_core::migrations::Migrations'


def mig(i):
    return mk('mig', i)


def mname(i):
    return f'm{i}'


class World:
    """A finite set of migrations m0 <- m1 <- ... and a database in which some of them are recorded."""

    def __init__(self, n, applied=(), table=True, broken=None, foreign=(), opaque=()):
        self.n, self.applied, self.table, self.broken, self.foreign = n, set(applied), table, broken, foreign
        self.rows = list(foreign) + [mname(i) for i in sorted(applied)]
        self.ops = opaque

    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, e=None, s=st: it.finish(s, depth, dest, target, val, evs if e is None else e, loc, fn)
        und = lambda i: it.undr(st, av[i])

        def fallible(val, faults=True):
            """The call can also fail."""
            e = err(mk('r', name, (), it.site(st, fr)))
            s2 = State(st.stack, dict(st.store))
            ev = lambda w: evs + [Ev('call', (name, tuple(und(i) for i in range(len(av))), mk('out', w), None, fid), loc, fn.id)]
            return fin(ok(val), ev('Ok')) + (fin(e, ev('Err'), s2) if faults else [])
        if not av:
            return None
        a = und(0)
        if l in ('next', 'fnext') and a.op == 'agg' and last(a.a[0].split('<')[0]) == 'MapDeref' and av[0].op == 'ptr':
            for f in it.F.fns.values():
                if f.name == 'next' and f.trait and 'FallibleIterator' in f.trait and 'MapDeref' in (f.selfty or '') and f.id != fn.id:
                    return it.enter(st, depth, fn, fr, f.id, [av[0]], dest, target, evs, None, loc)
        if l == 'latest' and a.op == 'p':
            return fin(some(mig(self.n - 1)) if self.n else NONE)
        if l == 'migration_from' and a.op == 'mig':
            i = a.a[0]
            return fallible(some(C(mname(i - 1))) if i > 0 else NONE)
        if l == 'get_migration' and len(av) == 2:
            s = cstr(und(1))
            if s is not None and re.match(r'm\d+$', s):
                i = int(s[1:])
                return fin(some(mig(i)) if i != self.broken and i < self.n else NONE)
        if l == 'name' and a.op == 'mig':
            return fin(C(mname(a.a[0])))
        if l in ('eq', 'ne') and len(av) == 2:
            b = und(1)
            if a.op == 'mig' and b.op == 'mig':
                return fin(C((a is b) == (l == 'eq')))
        if l == 'contains' and len(av) == 2:
            if a.op == 'obj' and ('cont', a) in st.store:
                a = mk('arr', st.store[('cont', a)].a[0])
            if a.op == 'arr':
                x = resolve(it, st, und(1))
                return fin(C(any(resolve(it, st, y) is x for y in a.a[0])))
        if l == 'has_table' and 'ConnectionMethods' in name:
            return fallible(C(self.table))
        if l == 'query' and 'ConnectionMethods' in name:
            st.store[('chan', mk('rowidx'))] = C(0)
            return fallible(mk('rows'))
        if l == 'next' and a.op == 'rows':
            k = ('chan', mk('rowidx'))
            i = cval(st.store[k])
            if i >= len(self.rows):
                return fin(ok(NONE))
            s2 = State(st.stack, dict(st.store))
            st.store[k] = C(i + 1)
            return fin(ok(some(mk('row', i)))) + fin(err(mk('r', name, (), it.site(st, fr))),
                                                     evs + [Ev('call', (name, (), mk('out', 'Err'), None, fid), loc, fn.id)], s2)
        if a.op == 'row':
            if l == 'len':
                return fin(C(1))
            if l == 'get':
                return fin(ok(agg('butane_core::sqlval::SqlValRef', 'Text', C(self.rows[a.a[0]]))))
        if l in ('apply', 'downgrade', 'mark_applied') and a.op == 'mig':
            return fallible(UNIT)
        return None


def cstr(v):
    while v.op == 'agg' and v.a[1] in ('Borrowed', 'Owned') and v.a[2]:
        v = v.a[2][0]
    return cval(v) if is_const(v) and isinstance(cval(v), str) else None


def resolve(it, st, v):
    v = it.undr(st, v)
    s = cstr(v)
    if s is not None:
        return C(s)
    if v.op == 'agg':
        return mk('agg', v.a[0], v.a[1], tuple(resolve(it, st, x) if isinstance(x, V) else x for x in v.a[2]))
    return v


def failed(evs):
    return [e for e in evs if e.k == 'call' and e.a[2] is not None and e.a[2].op == 'out' and e.a[2].a[0] == 'Err']


def did(evs, *names):
    return [(last(cname(e)), e) for e in evs if e.k == 'call' and last(cname(e)) in names]


def explore(cx, f, args, w):
    g = cx.graph(f, args=args, hook=w.hook, opaque=lambda n, i, fid: last(n) in ('apply', 'downgrade', 'mark_applied'), widen=60, max_nodes=60000)
    return paths(g, kinds=KINDS, full=True)


def migs(v):
    """Indices of a list of migrations."""
    v = v if v.op == 'arr' else v
    if v.op == 'obj':
        return None
    if v.op != 'arr':
        return None
    out = []
    for x in v.a[0]:
        if x.op != 'mig':
            return None
        out.append(x.a[0])
    return out


def ident(l):
    return 'nothing' if not l else ', '.join(mname(i) for i in l)


def expect_list(cx, key, f, args, w, want, what):
    """On success the list is `want` (None: never succeeds); a failing step fails the whole."""
    n = 0
    for evs, v in explore(cx, f, args, w):
        if v is None:
            cx.fail(key, f'{what}: can panic', f.span)
        elif failed(evs):
            cx.ob(key + '.fault', is_err(v), f'{what}: an error of {last(cname(failed(evs)[0]))} is passed over', f.span)
        elif want is None:
            cx.ob(key, is_err(v), f'{what}: reports success', f.span)
        else:
            n += 1
            got = migs(v.a[2][0]) if is_ok(v) else None
            cx.ob(key, got == want, f'{what}: must give {ident(want)}, gives ' + (ident(got) if got is not None else show(v, 6)), f.span)
    if want is not None:
        cx.ob(key + '.possible', n > 0, f'{what}: can succeed', f.span)


def check_lists(cx):
    P = lambda i: mk('p', i)
    f = cx.provided('Migrations', 'all_migrations')
    for n in range(5):
        expect_list(cx, f'all.{n}', f, [P(0)], World(n), list(range(n)), f'all_migrations with {n} migrations')
    expect_list(cx, 'all.broken', f, [P(0)], World(3, broken=0), None, 'all_migrations when the predecessor of m1 is missing')
    f = cx.provided('Migrations', 'migrations_since')
    for n in range(1, 5):
        for k in range(n):
            expect_list(cx, f'since.{n}.{k}', f, [P(0), mig(k)], World(n), list(range(k + 1, n)), f'migrations_since m{k} of {n}')
    expect_list(cx, 'since.alien', f, [P(0), mig(7)], World(2), None, 'migrations_since a migration that is not in the chain')
    expect_list(cx, 'since.broken', f, [P(0), mig(0)], World(4, broken=1), None, 'migrations_since when the chain is broken')
    f = cx.provided('Migrations', 'unapplied_migrations')
    for n in range(4):
        expect_list(cx, f'unapplied.{n}.notable', f, [P(0), P(1)], World(n, table=False), list(range(n)), f'unapplied_migrations of {n} on a fresh database')
        for k in range(n + 1):
            expect_list(cx, f'unapplied.{n}.{k}', f, [P(0), P(1)], World(n, applied=range(k)), list(range(k, n)),
                        f'unapplied_migrations of {n} with {k} applied')
    f = cx.provided('Migrations', 'last_applied_migration')
    for n in range(4):
        for k in range(n + 1):
            for foreign in ((), ('other',)):
                key = f'last.{n}.{k}' + ('.alien' if foreign else '')
                what = f'last_applied_migration of {n} with {k} applied'
                for evs, v in explore(cx, f, [P(0), P(1)], World(n, applied=range(k), foreign=foreign)):
                    if v is None:
                        cx.fail(key, f'{what}: can panic', f.span)
                    elif failed(evs):
                        cx.ob(key + '.fault', is_err(v), f'{what}: an error of {last(cname(failed(evs)[0]))} is passed over', f.span)
                    else:
                        want = ok(some(mig(k - 1))) if k else ok(NONE)
                        cx.ob(key, v is want, f'{what}: gives {show(v, 5)}', f.span)


def runs(cx, key, f, args, w, want, op, what, conn):
    """The function performs `op` on exactly `want`, in order, on the connection given; stops at the first failure."""
    n = 0
    for evs, v in explore(cx, f, args, w):
        seq = did(evs, 'apply', 'downgrade')
        got = [e.a[1][0].a[0] for _, e in seq]
        if any(m != op for m, _ in seq):
            cx.fail(key, f'{what}: mixes up apply and downgrade', f.span)
            continue
        if any(e.a[1][1] is not conn for _, e in seq):
            cx.fail(key, f'{what}: works on another connection', f.span)
            continue
        if v is None:
            cx.fail(key, f'{what}: can panic', f.span)
        elif failed(evs):
            cx.ob(key + '.fault', is_err(v), f'{what}: an error of {last(cname(failed(evs)[0]))} is passed over', f.span)
            bad = [i for i, (_, e) in enumerate(seq) if e.a[2].a[0] == 'Err']
            cx.ob(key + '.stop', got == want[:len(got)] and (not bad or bad[0] == len(seq) - 1), f'{what}: goes on after a failure, or out of order', f.span)
        elif want is None:
            cx.ob(key, is_err(v), f'{what}: reports success', f.span)
        else:
            n += 1
            cx.ob(key, is_ok(v) and got == want, f'{what}: must {op} {ident(want)}, does {ident(got)} ({show(v, 4)})', f.span)
    if want is not None:
        cx.ob(key + '.possible', n > 0, f'{what}: can succeed', f.span)


def check_runs(cx):
    P = lambda i: mk('p', i)
    f = cx.provided('Migrations', 'migrate')
    for n in range(4):
        for k in range(n + 1):
            runs(cx, f'migrate.{n}.{k}', f, [P(0), P(1)], World(n, applied=range(k)), list(range(k, n)), 'apply', f'migrate with {k} of {n} applied', P(1))
    f = cx.provided('Migrations', 'unmigrate')
    for n in range(4):
        for k in range(n + 1):
            runs(cx, f'unmigrate.{n}.{k}', f, [P(0), P(1)], World(n, applied=range(k)), list(range(k))[::-1], 'downgrade',
                 f'unmigrate with {k} of {n} applied', P(1))
    for m in ('migrate', 'unmigrate'):
        f = cx.provided('Migrations', m + '_async')
        cl = [g for g in cx.F.fns.values() if f.path in g.path and g.kind == 'Closure' and not g.coroutine and g.argc == 2]
        sync = [(g, e) for g in cl for evs, v in paths(cx.graph(g, opaque=lambda n, i, fid: last(n) in ('migrate', 'unmigrate')), kinds=KINDS)
                for e in [(evs, v)]]
        for g, (evs, v) in sync:
            cs = did(evs, 'migrate', 'unmigrate')
            good = len(cs) == 1 and cs[0][0] == m and (is_err(v) or v is not None)
            if good:
                r = cs[0][1].a[2]
                bad = any(e.k == 'assume' and e.a[0] is r and e.a[1] == 'Err' for e in evs)
                good = cs[0][1].a[1][1] is mk('p', 1) and (is_err(v) if bad else True)
            cx.ob(f'{m}_async.job', good, f'{m}_async runs {m} once on the connection and reports its result', g.span)
        cx.ob(f'{m}_async.found', sync, f'{m}_async has a job', f.span)
        for evs, v in paths(cx.graph(f, opaque=lambda n, i, fid: last(n) in ('with_sync', 'clone', 'migrate', 'unmigrate')), kinds=KINDS):
            cs = did(evs, 'with_sync')
            cx.ob(f'{m}_async', len(cs) == 1 and v is not None and any(e.k == 'await' for e in evs) and
                  any(x is cs[0][1].a[2] for x in subterms(v)), f'{m}_async awaits the job and returns its result', f.span)


BOOK = 'butane_migrations'


def check_atomic(cx):
    """P03: apply and downgrade: one transaction around the statements and the bookkeeping."""
    fs = {(m, f) for m in ('apply', 'downgrade') for f in [cx.provided('Migration', m)] + cx.impls('Migration', m)}
    for m, f in sorted(fs, key=lambda x: (x[0], x[1].id)):
        key = m if f.intrait else f'{m}.{short_ty(f.selfty)}'
        sqlfn = 'up_sql' if m == 'apply' else 'down_sql'
        opaque = lambda n, i, fid: last(n) in ('up_sql', 'down_sql', 'name', 'execute', 'transaction', 'commit', 'rollback', 'insert_only',
                                               'delete_where', 'delete', 'backend_name', 'insert_or_replace') and fid != f.id
        succ = 0
        for evs, v in paths(cx.graph(f, opaque=opaque, key='mig'), kinds=KINDS):
            if v is None:
                cx.fail(key + '.total', f'{m}: can panic', f.span)
                continue
            cs = [e for e in evs if e.k == 'call']
            by = lambda *n: [e for e in cs if last(cname(e)) in n]
            begun, sql, run, done = by('transaction'), by('up_sql', 'down_sql'), by('execute'), by('commit')
            book = by('insert_only', 'insert_or_replace', 'delete_where', 'delete', 'insert_returning_pk', 'update', 'save')
            outc = {}
            for e in evs:
                if e.k == 'assume' and e.a[1] in ('Ok', 'Err'):
                    outc[show(e.a[0], 40)] = e.a[1]
            o = lambda e: outc.get(show(e.a[2], 40))
            for e in cs:
                n = last(cname(e))
                if n in ('backend_name', 'transaction'):
                    continue
                if n in ('execute', 'insert_only', 'insert_or_replace', 'delete_where', 'delete', 'query', 'update', 'has_table', 'save'):
                    cx.ob(key + '.inside', begun and any(x is begun[0].a[2] for x in subterms(e.a[1][0])),
                          f'{m}: {n} runs inside the transaction', e.loc)
            cx.ob(key + '.one', len(begun) <= 1 and len(done) <= 1 and len(run) <= 1 and len(book) <= 1 and len(sql) <= 1,
                  f'{m}: every step is taken once', f.span)
            if done:
                e = done[0]
                cx.ob(key + '.complete', len(run) == 1 and len(book) == 1 and o(run[0]) == 'Ok' and o(book[0]) == 'Ok',
                      f'{m}: commits only after both the statements and the bookkeeping succeeded', e.loc)
                cx.ob(key + '.order', cs.index(done[0]) > max([cs.index(x) for x in run + book], default=0), f'{m}: nothing follows the commit', e.loc)
                cx.ob(key + '.same', begun and any(x is begun[0].a[2] for x in subterms(e.a[1][0])), f'{m}: commits its own transaction', e.loc)
                if run:
                    t = run[0].a[1][1]
                    cx.ob(key + '.sql', len(sql) == 1 and last(cname(sql[0])) == sqlfn and t is somesql(sql[0]),
                          f'{m}: runs the text of {sqlfn}', run[0].loc)
                    b = by('backend_name')
                    cx.ob(key + '.backend', sql and b and sql[0].a[1][1] is b[0].a[2] and b[0].a[1][0] is mk('p', 1) and sql[0].a[1][0] is mk('p', 0),
                          f'{m}: takes the text for the backend of the connection', run[0].loc)
                if book:
                    check_book(cx, key, m, book[0])
                r = e.a[2]
                oc = o(e)
                fine = v is r or oc == 'Ok' and is_ok(v) or oc == 'Err' and is_err(v)
                cx.ob(key + '.result', fine, f'{m}: reports what the commit reported (got {show(v, 4)})', f.span)
                succ += 1
            else:
                cx.ob(key + '.notdone', is_err(v), f'{m}: reports success without a commit', f.span)
        cx.ob(key + '.possible', succ > 0, f'{m}: can succeed', f.span)


def somesql(e):
    r = e.a[2]
    return mk('v', mk('v', r, 'Ok', '0'), 'Some', '0')


def check_book(cx, key, m, e):
    a = e.a[1]
    n = last(cname(e))
    named = lambda x: any(y.op == 'r' and isinstance(y.a[0], str) and last(y.a[0]) == 'name' and y.a[1][0] is mk('p', 0) for y in subterms(x))
    cx.ob(key + '.book.table', is_const(a[1]) and cval(a[1]) == BOOK, f'{m}: records in {BOOK}', e.loc)
    if m == 'apply':
        cx.ob(key + '.book', n in ('insert_only', 'insert_or_replace') and named(mk('tup', tuple(a[2:]))), f'{m}: records the migration under its name', e.loc)
    elif n == 'delete_where':
        c = a[2]
        good = c.op == 'agg' and c.a[1] == 'Eq' and is_const(c.a[2][0]) and cval(c.a[2][0]) == 'name' and named(c.a[2][1])
        cx.ob(key + '.book', good, f'{m}: removes the record of this migration only (got {show(c, 6)})', e.loc)
    else:
        cx.ob(key + '.book', n == 'delete' and is_const(a[2]) and cval(a[2]) == 'name' and named(mk('tup', tuple(a[3:]))),
              f'{m}: removes the record of this migration only', e.loc)
