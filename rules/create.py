"""P36: a new migration records the schema, its origin and the SQL for every backend."""
from schema import *
from flow import *
from conv import contains
import known

FROM, TO, NAME = mk('p', 'from_db'), mk('p', 'to_db'), mk('p', 'name')
RECORD = ('add_modified_table', 'add_unmodified_table', 'delete_table', 'add_sql', 'remove_sql', 'add_type', 'set_migration_from', 'add_migration',
          'delete_migrations', 'clear_current', 'clear_migrations', 'new_migration', 'create_migration_sql')


class World:
    """Two schemas, the difference between which is known, and two backends."""

    def __init__(self, cx, tables, ops, first):
        self.cx, self.tables, self.ops, self.first = cx, tables, ops, first
        self.back = mk('arr', (mk('p', 'backend0'), mk('p', 'backend1')))
        self.down = mk('arr', (op(cx, 'RemoveTable', C('back')),))

    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
        a = it.undr(st, av[0]) if av else None
        if name.endswith('adb::diff') and len(av) == 2:
            b = it.undr(st, av[1])
            old = a is FROM if not self.first else a is mk('empty-db')
            up = old and b is TO
            down = a is TO and (b is FROM if not self.first else b is mk('empty-db'))
            v = mk('arr', tuple(self.ops)) if up else self.down if down else mk('odd-diff', a, b)
            return fin(v, evs + [Ev('diff', (a, b), loc, fn.id)])
        if l in ('new', 'default') and not av and 'adb::ADB' in name + str(info.get('self', '')) + fid and 'TypeResolver' not in name:
            return fin(mk('empty-db'))
        if a is not None:
            if l == 'db' and a is mk('p', 'from'):
                s2 = State(st.stack, dict(st.store))
                return fin(agg(RES, 'Ok', FROM)) + fin(agg(RES, 'Err', mk('r', 'db-error', (), '')), evs + [Ev('fault', ('db',), loc, fn.id)], s2)
            if l == 'tables' and 'adb' in name and a is TO:
                return fin(mk('it', mk('arr', tuple(self.tables)), 0))
            if l in ('clone', 'to_owned') and a in (FROM, TO, mk('empty-db')):
                return fin(a)
            if a.op == 'p' and a.a[0] == 'backends' and l in ('into_iter', 'iter'):
                return fin(mk('it', self.back, 0))
            if l == 'migrations_table':
                return fin(mk('migrations-table'))
        if l == 'migrations_table':
            return fin(mk('migrations-table'))
        return known.hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)


def op(cx, k, *a):
    return agg_(adt(cx, 'Operation'), k, list(a))


def worlds(cx):
    """(name, tables, operations, tables they touch, whether there is a migration to start from)"""
    c = lambda n: col(cx, n)
    T = {n: table(cx, n, [c('id'), c(n + 'x')]) for n in ('t', 'u', 'v')}
    two = [T['t'], T['u']]
    out = [('nothing', two, [], set(), False), ('nothing at first', [], [], set(), True)]
    for k, o in (('AddTable', op(cx, 'AddTable', T['t'])), ('AddTableIfNotExists', op(cx, 'AddTableIfNotExists', T['t'])),
                 ('AddTableConstraints', op(cx, 'AddTableConstraints', T['t'])),
                 ('AddColumn', op(cx, 'AddColumn', C('t'), c('tx'))), ('RemoveColumn', op(cx, 'RemoveColumn', C('t'), C('old'))),
                 ('ChangeColumn', op(cx, 'ChangeColumn', C('t'), c('tx'), col(cx, 'tx', nullable=TRUE)))):
        out.append((k, two, [o], {'t'}, False))
        out.append((k + ' and removal', two, [op(cx, 'RemoveTableConstraints', T['v']), o, op(cx, 'RemoveTable', C('v'))], {'t'}, False))
    out.append(('RemoveTable', two, [op(cx, 'RemoveTable', C('v'))], set(), False))
    out.append(('RemoveTableConstraints', two, [op(cx, 'RemoveTableConstraints', T['v']), op(cx, 'RemoveTable', C('v'))], set(), False))
    out.append(('two columns', two, [op(cx, 'AddColumn', C('u'), c('ux')), op(cx, 'RemoveColumn', C('t'), C('old'))], {'t', 'u'}, False))
    out.append(('first', two, [op(cx, 'AddTable', T['t']), op(cx, 'AddTable', T['u'])], {'t', 'u'}, True))
    out.append(('first of one table', [T['t']], [op(cx, 'AddTable', T['t'])], {'t'}, True))
    return out


def check_create(cx):
    f = cx.fn('butane_core::migrations::MigrationsMut::create_migration_to')
    opaque = lambda n, i, d: last(n) in RECORD + ('name', 'db')
    for wname, tables, ops, touched, first in worlds(cx):
        w = World(cx, tables, ops, first)
        args = [mk('p', 'self'), mk('p', 'backends'), NAME, NONE if first else some(mk('p', 'from')), TO]
        g = cx.graph(f, args=args, hook=w.hook, opaque=opaque, exact=50, widen=100)
        oks = 0
        for evs, v in paths(g, full=True, limit=20000):
            evs = [e for e in evs]
            key = wname.replace(' ', '-')
            if v is None:
                cx.fail(f'{key}.panic', f'{wname}: creating a migration can panic', f.span)
                continue
            cs = [e for e in evs if e.k == 'call']
            failed = [e for e in cs if any(x.k == 'assume' and isinstance(x.a[0], V) and contains(x.a[0], e.a[2]) and str(x.a[1]) == 'Err' for x in evs)]
            faults = failed or [e for e in evs if e.k == 'fault']
            rec = [(last(str(e.a[0])), e) for e in cs if last(str(e.a[0])) in RECORD]
            if is_err(v):
                cx.ob(f'{key}.err', bool(faults), f'{wname}: creating a migration fails with {show(v)[:100]}', f.span)
                late = [l for i, (l, e) in enumerate(rec) if l == 'add_migration' and i < len(rec) - 1]
                cx.ob(f'{key}.late', not late, f'{wname}: the migration is made part of the chain before it is complete', f.span)
                continue
            cx.ob(f'{key}.swallow', not faults, f'{wname}: the failure of {last(str(faults[0].a[0])) if faults else ""} is ignored', f.span)
            oks += 1
            res = cval(v.a[2][0]) if is_ok(v) and is_const(v.a[2][0]) else None
            if not ops:
                w2 = [l for l, e in rec if l not in ('new_migration',)]
                cx.ob(f'{key}.nothing', res is False and not w2, f'{wname}: gives {show(v)[:60]} and does {w2} though the schemas are the same', f.span)
                continue
            cx.ob(f'{key}.created', res is True, f'{wname}: gives {show(v)[:60]}', f.span)
            good(cx, f, f'{key}', wname, w, rec, tables, touched, first, ops)
        cx.ob(f'{wname.replace(" ", "-")}.ok', oks >= 1, f'{wname}: no migration can be created', f.span)


def good(cx, f, key, wname, w, rec, tables, touched, first, ops):
    say = lambda ok, k, msg: cx.ob(f'{key}.{k}', ok, f'{wname}: {msg}', f.span)
    sh = lambda v: show(v, 1)[:120]
    names = [l for l, e in rec]
    new = [e for l, e in rec if l == 'new_migration']
    say(len(new) == 1 and new[0].a[1][-1] is NAME, 'new', f'{len(new)} migrations are made, named {[sh(e.a[1][-1]) for e in new]}')
    if len(new) != 1:
        return
    add = [(i, e) for i, (l, e) in enumerate(rec) if l == 'add_migration']
    mine = lambda v: strip_obj(v) is new[0].a[2] or contains(v, new[0].a[2])
    say(len(add) == 1 and add[0][0] == len(rec) - 1 and mine(add[0][1].a[1][-1]), 'added', f'the migration is added {len(add)} times, after which {names[add[0][0] + 1:] if add else ""} is done')
    say(not [l for l in names if l in ('delete_table', 'remove_sql', 'delete_migrations', 'clear_current', 'clear_migrations')], 'removes', f'{names}')
    say(all(mine(e.a[1][0]) for l, e in rec if l in ('add_modified_table', 'add_unmodified_table', 'add_sql', 'set_migration_from', 'add_type')), 'target', 'something is recorded in another migration')
    fromname = lambda v: v is not None and any(x.op == 'r' and last(str(x.a[0])) == 'name' and show(x.a[1][0]) == 'from' for x in subterms(v))
    # tables
    for t in tables:
        n = cval(field(cx, t, 'ATable', 'name'))
        full = [e for l, e in rec if l == 'add_modified_table' and e.a[1][1] is t]
        link = [e for l, e in rec if l == 'add_unmodified_table' and e.a[1][1] is t]
        if n in touched or first:
            say(len(full) == 1 and not link, 'table', f'table {n}, which is changed, is written {len(full)} times and taken from another migration {len(link)} times')
        else:
            say(len(full) + len(link) == 1 and all(fromname(e.a[1][2]) for e in link), 'table', f'table {n}, which is not changed, is written {len(full)} times and taken {len(link)} times from '
                f'{[sh(e.a[1][2]) for e in link]}')
    odd = [e for l, e in rec if l in ('add_modified_table', 'add_unmodified_table') and not any(e.a[1][1] is t for t in tables)]
    say(not odd, 'tables', f'{[sh(e.a[1][1]) for e in odd]} is recorded, which is no table of the schema')
    # SQL
    old = mk('empty-db') if first else None
    isold = lambda v: v is mk('empty-db') if first else v is FROM
    sqls = [e for l, e in rec if l == 'create_migration_sql']
    for b in w.back.a[0]:
        a = [e for l, e in rec if l == 'add_sql' and any(x.op == 'r' and last(str(x.a[0])) == 'name' and x.a[1][0] is b for x in subterms(e.a[1][1]))]
        say(len(a) == 1, 'sql', f'SQL is recorded {len(a)} times for {sh(b)}')
        for e in a:
            made = [[s for s in sqls if contains(x, s.a[2])] for x in e.a[1][2:4]]
            if not all(len(m) == 1 for m in made):
                say(False, 'sql.made', f'the SQL recorded for {sh(b)} is {[sh(x) for x in e.a[1][2:4]]}')
                continue
            up, down = made[0][0], made[1][0]
            say(up.a[1][0] is b and down.a[1][0] is b, 'sql.backend', f'the SQL recorded for {sh(b)} is that of {sh(up.a[1][0])} and {sh(down.a[1][0])}')
            o = list(up.a[1][2].a[0]) if up.a[1][2].op == 'arr' else None
            extra = [x for x in o or [] if contains(x, mk('migrations-table'))]
            okay = o is not None and isold(up.a[1][1]) and [x for x in o if x not in extra] == ops and \
                (len(extra) == 1 and extra[0].a[1] == 'AddTableIfNotExists' if first else not extra)
            say(okay, 'sql.up', f'the SQL to apply is made of {sh(up.a[1][1])} and {describe(o) if o is not None else sh(up.a[1][2])}')
            say(down.a[1][1] is TO and down.a[1][2] is w.down, 'sql.down', f'the SQL to undo is made of {sh(down.a[1][1])} and {sh(down.a[1][2])}')
    fr = [e for l, e in rec if l == 'set_migration_from']
    okay = len(fr) == 1
    if okay:
        x = fr[0].a[1][1]
        okay = x is NONE if first else x.op == 'agg' and x.a[1] == 'Some' and fromname(x)
    say(okay, 'from', f'the origin is set {len(fr)} times, to {[sh(e.a[1][1]) for e in fr]}')


def strip_obj(v):
    while v.op in ('vf', 'f', 'fld', 'deref') and isinstance(v.a[0], V):
        v = v.a[0]
    return v


def check_current(cx):
    """create_migration uses the schema recorded for the current models."""
    f = cx.fn('butane_core::migrations::MigrationsMut::create_migration')
    args = [mk('p', x) for x in ('self', 'backends', 'name', 'from')]
    oks = 0
    for evs, v in paths(cx.graph(f, args=args, opaque=lambda n, i, d: last(n) in ('create_migration_to', 'db', 'current')), full=True):
        cs = [e for e in evs if e.k == 'call' and last(str(e.a[0])) == 'create_migration_to']
        if not cs:
            cx.ob('current.err', is_err(v) and any(e.k == 'assume' and str(e.a[1]) == 'Err' for e in evs), f'create_migration gives {show(v)[:100] if v is not None else "a panic"}', f.span)
            continue
        a = cs[0].a[1]
        oks += 1
        db = [x for x in subterms(a[4]) if x.op == 'r' and last(str(x.a[0])) == 'db']
        cur = db and any(x.op == 'r' and last(str(x.a[0])) == 'current' and contains(x, args[0]) for x in subterms(db[0]))
        okay = len(cs) == 1 and [show(x) for x in a[:4]] == ['self', 'backends', 'name', 'from'] and cur
        same = v is cs[0].a[2] or is_ok(v) and contains(v, cs[0].a[2]) or is_err(v) and contains(v, cs[0].a[2])
        cx.ob('current', bool(okay and same), f'create_migration passes on {[show(x, 1)[:60] for x in a]} and gives {show(v, 1)[:60] if v is not None else "a panic"}', f.span)
    cx.ob('current.ok', oks >= 1, 'create_migration never creates a migration', f.span)


class Copy:
    """A migration with two tables, two types, and SQL for two backends, one of which may lack a direction."""

    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
        a = it.undr(st, av[0]) if av else None

        def fallible(val, what):
            s2 = State(st.stack, dict(st.store))
            return fin(agg(RES, 'Ok', val)) + fin(agg(RES, 'Err', mk('r', what + '-error', (), '')), evs + [Ev('fault', (what,), loc, fn.id)], s2)
        if a is not None and a is mk('p', 'from'):
            if l == 'db':
                return fallible(FROM, 'db')
            if l == 'migration_from':
                out = fallible(some(mk('p', 'origin')), 'from')
                s3 = State(st.stack, dict(st.store))
                return out + fin(agg(RES, 'Ok', NONE), evs + [Ev('first', (), loc, fn.id)], s3)
            if l == 'sql_backends':
                return fallible(mk('arr', (C('b0'), C('b1'))), 'backends')
            if l in ('up_sql', 'down_sql'):
                b = it.undr(st, av[1])
                s2 = State(st.stack, dict(st.store))
                t = mk('text', l, b)
                out = fallible(some(t), l)
                s3 = State(st.stack, dict(st.store))
                return out + fin(agg(RES, 'Ok', NONE), evs + [Ev('lacks', (l, b), loc, fn.id)], s3)
        if a is FROM:
            if l == 'tables':
                return fin(mk('it', mk('arr', (mk('p', 'table0'), mk('p', 'table1'))), 0))
            if l == 'types':
                return fin(mk('arr', tuple(mk('tup', (mk('p', f'key{i}'), mk('p', f'type{i}'))) for i in (0, 1))))
        if a is not None and a.op == 'p' and l in ('clone', 'to_owned'):
            return fin(a)
        if a is not None and a.op in ('text',) and l in ('clone', 'as_str', 'as_ref', 'deref', 'to_string', 'as_deref', 'borrow'):
            return fin(a)
        return known.hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)


def check_copy(cx):
    """Copying a migration copies all that it records."""
    f = cx.fn('butane_core::migrations::copy_migration')
    h = Copy()
    want = {'add_modified_table': {('table0',), ('table1',)}, 'add_type': {('key0', 'type0'), ('key1', 'type1')}}
    oks = 0
    g = cx.graph(f, args=[mk('p', 'from'), mk('p', 'to')], hook=h.hook, opaque=lambda n, i, d: last(n) in RECORD, exact=50, widen=100)
    for evs, v in paths(g, full=True, limit=40000):
        cs = [(last(str(e.a[0])), e) for e in evs if e.k == 'call' and last(str(e.a[0])) in RECORD]
        failed = any(e.k == 'fault' or e.k == 'assume' and str(e.a[1]) == 'Err' for e in evs)
        if v is None:
            cx.fail('copy.panic', 'copying a migration can panic', f.span)
            continue
        if is_err(v):
            cx.ob('copy.err', failed, f'copying fails with {show(v)[:100]}', f.span)
            continue
        cx.ob('copy.swallow', not failed, 'a failure while copying is ignored', f.span)
        oks += 1
        for n, w in want.items():
            got = [tuple(show(x) for x in e.a[1][1:]) for l, e in cs if l == n]
            cx.ob(f'copy.{n}', set(got) == w and len(got) == len(w), f'copying does {n} for {got}', f.span)
        lacks = {(e.a[0], cval(e.a[1])) for e in evs if e.k == 'lacks'}
        got = {cval(e.a[1][1]): (e.a[1][2], e.a[1][3]) for l, e in cs if l == 'add_sql' and is_const(e.a[1][1])}
        for b in ('b0', 'b1'):
            if not any(x == b for _, x in lacks):
                cx.ob('copy.sql', got.get(b) == (mk('text', 'up_sql', C(b)), mk('text', 'down_sql', C(b))), f'the SQL of {b} is copied as {[show(x) for x in got.get(b, ())]}', f.span)
            else:
                for i, d in enumerate(('up_sql', 'down_sql')):
                    cx.ob('copy.part', b not in got or got[b][i] is mk('text', d, C(b)) or (d, b) in lacks, f'the SQL of {b} is copied as {[show(x) for x in got.get(b, ())]}', f.span)
        fr = [e for l, e in cs if l == 'set_migration_from']
        first = any(e.k == 'first' for e in evs)
        cx.ob('copy.from', len(fr) == 1 and (fr[0].a[1][1] is NONE if first else contains(fr[0].a[1][1], mk('p', 'origin'))), f'the origin is set to {[show(e.a[1][1])[:60] for e in fr]}', f.span)
        cx.ob('copy.only', all(show(e.a[1][0]) == 'to' for l, e in cs) and not [l for l, e in cs if l in ('delete_table', 'remove_sql')], 'copying changes something else', f.span)
    cx.ob('copy.ok', oks >= 1, 'copying a migration never succeeds', f.span)
