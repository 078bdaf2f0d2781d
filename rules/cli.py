"""P30, P32: the commands of the butane program act on the right migrations."""
from schema import *
from flow import *
from conv import contains
import known

BASE = mk('p', 'base_dir')
MS, CONN, SPEC = mk('p', 'ms'), mk('p', 'conn'), mk('p', 'spec')
ERR = lambda what: agg(RES, 'Err', mk('r', what + '-error', (), ''))
OK = lambda v: agg(RES, 'Ok', v)
UNIT = mk('tup', ())
ACTS = ('apply', 'apply_async', 'downgrade', 'downgrade_async', 'mark_applied', 'mark_unapplied', 'delete_db', 'add_sql', 'remove_sql', 'detach_latest_migration',
        'clear_migrations', 'create_migration', 'create_migration_to', 'delete_where', 'delete', 'execute', 'clear_current', 'delete_table',
        'add_migration', 'copy_migration', 'update_embedded', 'embed', 'delete_migrations', 'add_modified_table', 'add_unmodified_table', 'set_migration_from', 'add_type')
TRANSP = ('clone', 'to_owned', 'to_string', 'into', 'from', 'as_str', 'as_ref', 'deref', 'borrow', 'into_owned', 'as_deref', 'to_path_buf', 'deref_mut', 'as_mut', 'as_path')


def state(cx, v):
    r = [k for k in cx.F.adts if k.endswith('::CliState')]
    if len(r) != 1 or [f[0] for f in cx.F.adts[r[0]]['variants'][0][2]] != ['embedded']:
        raise Missing('type CliState with the field embedded')
    return agg_(r[0], cx.F.adts[r[0]]['variants'][0][0], [v])


class World:
    """A project with a chain of n migrations, the first k of which are applied to its database."""

    def __init__(self, cx, n, k, backends=('b0', 'b1'), spec=True, embedded=None, to=None):
        self.cx, self.n, self.k, self.back, self.spec, self.embedded, self.to = cx, n, k, backends, spec, embedded, to
        self.ms = [mk('p', f'm{i}') for i in range(n)]

    def num(self, v):
        return int(v.a[0][1:]) if v is not None and v.op == 'p' and re.fullmatch(r'm\d+', str(v.a[0])) else None

    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
        copy = lambda: State(st.stack, dict(st.store))
        args = tuple(it.undr(st, x) for x in av)
        a = args[0] if args else None
        i = self.num(a)

        def may(val, what, act=False):
            """A step which succeeds or fails."""
            s2 = copy()
            ev = [Ev('act', (what, args, val), loc, fn.id)] if act else []
            return fin(OK(val), evs + ev) + fin(ERR(what), evs + [Ev('fault', (what, args), loc, fn.id)], s2)
        opt = lambda m: some(m) if m is not None else NONE
        gone = cval(st.store.get(('chan', mk('w')), C(0)))
        chain = self.ms if not gone else [mk('p', 'm100')] if gone == 2 else []
        if l == 'get_migrations' and 'butane_cli' in fid:
            return may(MS, l)
        if l == 'from_root':
            return fin(MS)
        if l == 'load_connspec' or l == 'load' and 'ConnectionSpec' in name + fid + str(info.get('self', '')):
            return may(SPEC, 'spec') if self.spec else fin(ERR('spec'), evs + [Ev('fault', ('spec', args), loc, fn.id)])
        if l == 'connect' and a is SPEC:
            return may(CONN, 'connect')
        if l == 'get_backend':
            if a is SPEC:
                return may(mk('p', 'backend:spec'), 'get_backend')
            s2 = copy()
            return fin(some(mk('backend', a))) + fin(NONE, evs + [Ev('fault', (l, args), loc, fn.id)], s2)
        if a is MS:
            b = self.num(args[1]) if len(args) > 1 else None
            if l in ('all_migrations',):
                return may(mk('arr', tuple(chain)), l)
            if l == 'latest':
                return fin(opt(chain[-1] if chain else None))
            if l == 'get_migration' and len(args) == 2:
                x = args[1]
                if x is self.to:
                    return fin(opt(self.target()))
                m = [m for m in chain if is_const(x) and cval(x) == m.a[0]]
                return fin(opt(m[0] if m else None))
            if l == 'last_applied_migration':
                return may(opt(self.ms[self.k - 1] if self.k and not gone else None), l)
            if l == 'unapplied_migrations':
                return may(mk('arr', tuple(self.ms[self.k:])), l)
            if l == 'migrations_since' and b is not None:
                return may(mk('arr', tuple(self.ms[b + 1:])), l)
            if l == 'current':
                return fin(mk('p', 'current'))
            if l in ('clear_migrations', 'create_migration', 'create_migration_to', 'detach_latest_migration'):
                if l == 'create_migration':
                    s2 = copy()
                    out = fin(OK(FALSE), evs + [Ev('act', (l, args, FALSE), loc, fn.id)], s2)
                    return out + may(TRUE, l, True)
                s2 = copy()
                st.store[('chan', mk('w'))] = C(2 if l == 'create_migration_to' and gone else 1 if l == 'clear_migrations' else gone)
                val = TRUE if l == 'create_migration_to' else UNIT
                return fin(OK(val), evs + [Ev('act', (l, args, val), loc, fn.id)]) + fin(ERR(l), evs + [Ev('fault', (l, args), loc, fn.id)], s2)
        if i is not None:
            if l == 'name':
                return fin(C(a.a[0]))
            if l in ('eq', 'ne') and len(args) == 2 and self.num(args[1]) is not None:
                return fin(C((a is args[1]) == (l == 'eq')))
            if l == 'db':
                return may(mk('db', a), l)
            if l == 'sql_backends':
                return may(mk('arr', tuple(C(b) for b in self.back)), l)
            if l in ('clone', 'to_owned'):
                return fin(a)
        if l in ('eq', 'ne') and len(args) == 2 and all(self.num(x) is not None for y in args for x in ([y] if y.op == 'p' else y.a[2] if y.op == 'agg' and y.a[2] else [y])):
            return fin(C((args[0] is args[1]) == (l == 'eq')))
        if a is not None and a.op == 'backend' and l == 'name' or a is not None and a.op == 'p' and str(a.a[0]).startswith('backend:') and l == 'name':
            return fin(a.a[0] if a.op == 'backend' else mk('spec-name'))
        if l in ('eq', 'ne') and len(args) == 2 and any(x is self.to for x in args) and self.to is not None:
            o = [x for x in args if x is not self.to]
            if o and is_const(o[0]):
                t = self.target()
                return fin(C((t is not None and cval(o[0]) == t.a[0]) == (l == 'eq')))
        if a is not None and a.op == 'db':
            if l == 'tables':
                if a is mk('db', mk('p', 'empty')):
                    return fin(mk('it', mk('arr', ()), 0))
                return fin(mk('it', mk('arr', (mk('tbl', a, C(0)), mk('tbl', a, C(1)))), 0))
            if l in ('clone', 'to_owned'):
                return fin(a)
        if l == 'new' and 'ADB' in name + fid and not av:
            return fin(mk('db', mk('p', 'empty')))
        if l == 'diff' and len(args) == 2:
            return fin(mk('arr', (mk('changes', *args),)))
        if l == 'repeat' and len(args) == 2 and all(is_const(x) for x in args) and isinstance(cval(a), str) and type(cval(args[1])) is int:
            return fin(C(cval(a) * cval(args[1])))
        if l in ('iter', 'into_iter') and len(args) == 1 and a.op == 'arr':
            return fin(mk('it', a, 0))
        if l in ('len', 'is_empty') and a is not None and a.op == 'arr':
            return fin(C(len(a.a[0])) if l == 'len' else C(not a.a[0]))
        if l == 'from_vec' and 'NonEmpty' in name + fid + str(info.get('self', '')):
            x = known.items(it, st, av[0])
            if x is not None:
                return fin(some(mk('arr', tuple(it.undr(st, y) for y in x))) if x else NONE)
        if l == 'migrations_table':
            return fin(mk('migrations-table'))
        if l == 'create_migration_sql':
            return may(mk('sql', *args), l)
        if a is not None and l in TRANSP and len(args) == 1 and (a.op in ('p', 'backend', 'sql', 'db') or is_const(a) and isinstance(cval(a), str)):
            return fin(a)
        if l == 'load' and 'CliState' in name + fid and self.embedded is not None:
            return may(state(self.cx, C(self.embedded)), 'state')
        if l in ACTS and not (l in ('execute', 'delete') and a is not CONN) and fid != self.cx_root:
            return may(UNIT, l, True)
        return known.hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)

    def target(self):
        return self.ms[self.aim] if self.aim is not None and self.aim < self.n else None

    aim = None
    cx_root = None

    def run(self, fn, args):
        f = self.cx.fn('butane_cli::' + fn)
        self.cx_root = f.id
        g = self.cx.graph(f, args=args, hook=self.hook, exact=50, widen=100, opaque=lambda n, i, d: last(n) in ('_print', '_eprint', 'default_name', 'format'))
        out = []
        for evs, v in paths(g, full=True, limit=20000):
            exits = [e for e in evs if e.k == 'diverge' and 'process::exit' in str(e.a[0])]
            out.append(Path([(e.a[0], e.a[1], e.a[2]) for e in evs if e.k == 'act'], [e.a[0] for e in evs if e.k == 'fault'],
                            'ok' if is_ok(v) else 'err' if is_err(v) else 'exit' if exits and not (is_const(exits[0].a[1][0]) and cval(exits[0].a[1][0]) == 0) else
                            'quiet' if exits else 'panic' if v is None else 'odd', evs, v))
        return f, out


class Path:
    def __init__(self, acts, faults, end, evs, v):
        self.acts, self.faults, self.end, self.evs, self.v = acts, faults, end, evs, v
        self.names = [a[0] for a in acts]

    def of(self, *names):
        return [a for a in self.acts if a[0] in names]

    def only(self, *names):
        return not [n for n in self.names if n not in names + ('update_embedded', 'embed')]


def worlds():
    return [(n, k) for n in range(4) for k in range(n + 1)]


def judge(cx, f, key, say, p, faults_ok=()):
    """A step that fails makes the command fail, and nothing else does."""
    cx.ob(f'{key}.panic', p.end != 'panic' or p.faults, f'{say} can panic (after {p.faults or p.names})', f.span)
    cx.ob(f'{key}.end', p.end != 'odd', f'{say} ends with {show(p.v, 1)[:80] if p.v is not None else None}', f.span)
    if [x for x in p.faults if x not in faults_ok]:
        cx.ob(f'{key}.swallow', p.end in ('err', 'exit', 'panic'), f'{say}: the failure of {p.faults} is not reported', f.span)


def seen(p):
    return [(a[0], [show(x, 1)[:40] for x in a[1]]) for a in p.acts]


def steps(p, kind):
    return [a[1] for a in p.acts if a[0] == kind]


def done(p, kind, faults=True):
    """Subjects of the steps of a kind, in order."""
    return [a[1][0] for a in p.acts if a[0] == kind]


def prefix(x, y):
    return all(a is b for a, b in zip(x, y)) and len(x) <= len(y)


def compare(cx, f, key, say, p, kind, want, extra=()):
    """The steps done are those wanted: all if the command succeeds, some first ones if a step fails."""
    got = done(p, kind)
    ok = len(got) == len(want) and prefix(got, want) if p.end == 'ok' else prefix(got, want)
    cx.ob(f'{key}.steps', ok and p.only(kind, *extra), f'{say} does {seen(p)}, where {kind} should be done for {[show(x) for x in want]}', f.span)
    bad = [x for x in p.acts if x[0] == kind and CONN not in x[1]]
    cx.ob(f'{key}.conn', not bad, f'{say} does {kind} on {[show(y, 1)[:40] for x in bad for y in x[1]]}', f.span)
    if not p.faults:
        cx.ob(f'{key}.done', p.end == ('ok' if want or kind == 'apply' else p.end), f'{say} ends with {p.end} though nothing failed', f.span)


def check_migrate(cx):
    for n, k in worlds():
        for aim in [None] + list(range(k, n)):
            w = World(cx, n, k, to=mk('p', 'to'))
            w.aim = aim
            want = w.ms[k:] if aim is None else w.ms[k:aim + 1]
            f, ps = w.run('migrate', [BASE, NONE if aim is None else some(w.to)])
            say = f'migrating from {k} of {n} migrations' + (f' to the one numbered {aim}' if aim is not None else '')
            for p in ps:
                judge(cx, f, 'migrate', say, p)
                compare(cx, f, 'migrate', say, p, 'apply', want)
            cx.ob('migrate.ok', any(p.end == 'ok' for p in ps), f'{say} never succeeds', f.span)


def check_rollback(cx):
    for n, k in worlds():
        for aim in [None] + list(range(n + 1)):
            w = World(cx, n, k, to=mk('p', 'to'))
            w.aim = aim
            want = w.ms[k - 1:k] if aim is None else list(reversed(w.ms[aim + 1:k])) if aim < n else []
            f, ps = w.run('unmigrate', [BASE, NONE if aim is None else some(w.to)])
            say = f'rolling back from {k} of {n} migrations' + (f' to {"the one numbered %d" % aim if aim < n else "an unknown one"}' if aim is not None else '')
            for p in ps:
                judge(cx, f, 'rollback', say, p)
                compare(cx, f, 'rollback', say, p, 'downgrade', [m for m in want])
                if not want:
                    cx.ob('rollback.refuse', p.end != 'ok', f'{say} ends with {p.end}', f.span)
            if want:
                cx.ob('rollback.ok', any(p.end == 'ok' for p in ps), f'{say} never succeeds', f.span)


def check_detach(cx):
    for n, k in worlds():
        for spec in (True, False):
            w = World(cx, n, k, spec=spec)
            may = n >= 2 and (k < n or not spec)
            f, ps = w.run('detach_latest_migration', [BASE])
            say = f'detaching the latest of {n} migrations' + (f', {k} of which are applied' if spec else '')
            for p in ps:
                judge(cx, f, 'detach', say, p, ('spec',))
                d = p.of('detach_latest_migration')
                cx.ob('detach.only', p.only('detach_latest_migration') and len(d) <= 1, f'{say} does {seen(p)}', f.span)
                blind = 'spec' in p.faults and n >= 2
                if p.end == 'ok':
                    cx.ob('detach.done', len(d) == 1 and (may or blind), f'{say} succeeds after {seen(p)}', f.span)
                    embedded(cx, f, 'detach', say, p)
                else:
                    cx.ob('detach.refuse', not d or bool(p.faults), f'{say} fails after {seen(p)}', f.span)
                    cx.ob('detach.guard', not d or may or blind, f'{say} does {seen(p)}', f.span)
            cx.ob('detach.ok', not may or any(p.end == 'ok' and p.of('detach_latest_migration') for p in ps), f'{say} never succeeds', f.span)


def embedded(cx, f, key, say, p):
    """What changes the migrations brings the embedded copy up to date afterwards."""
    u = [i for i, n in enumerate(p.names) if n in ('update_embedded',)]
    cx.ob(f'{key}.embed', bool(u) and u[-1] == len(p.names) - 1 and p.acts[u[-1]][1][-1] is BASE, f'{say} does {p.names}, which leaves the embedded migrations out of date', f.span)


def check_collapse(cx):
    for n, k in worlds():
        for named in (True, False):
            w = World(cx, n, k)
            may = n >= 2 and k >= 1
            f, ps = w.run('collapse_migrations', [BASE, some(mk('p', 'newname')) if named else NONE])
            say = f'collapsing {n} migrations, {k} of which are applied,'
            for p in ps:
                judge(cx, f, 'collapse', say, p)
                cx.ob('collapse.guard', may or not p.acts, f'{say} does {seen(p)}', f.span)
                cx.ob('collapse.only', p.only('clear_migrations', 'create_migration_to', 'mark_applied'), f'{say} does {seen(p)}', f.span)
                if p.acts:
                    late = [e for i, e in enumerate(p.evs) if e.k == 'fault' and e.a[0] not in ('clear_migrations', 'create_migration_to', 'mark_applied', 'update_embedded')
                            and any(x.k == 'act' for x in p.evs[:i])]
                    cx.ob('collapse.late', not late, f'{say} can fail with {late[0].a[0] if late else ""} after {seen(p)}', f.span)
                order = ['clear_migrations', 'create_migration_to', 'mark_applied', 'update_embedded']
                cx.ob('collapse.order', p.names == order[:len(p.names)] and (p.end != 'ok' or len(p.names) == 4), f'{say} ends with {p.end} after {p.names}', f.span)
                for nm, a, r in p.acts:
                    if nm == 'clear_migrations':
                        cx.ob('collapse.clear', a[1] is CONN, f'{say} clears {seen(p)}', f.span)
                    if nm == 'create_migration_to':
                        bs = known.items(None, None, a[1]) if False else backs(a[1])
                        cx.ob('collapse.backends', bs == ['b0', 'b1'], f'{say} makes the migration for the backends {show(a[1], 1)[:90]}', f.span)
                        cx.ob('collapse.name', contains(a[2], mk('p', 'newname')) == named, f'{say} names the migration {show(a[2], 1)[:90]}', f.span)
                        cx.ob('collapse.schema', a[3] is NONE and a[4] is mk('db', w.ms[k - 1]), f'{say} makes a migration from {show(a[3])} to {show(a[4])}', f.span)
                    if nm == 'mark_applied':
                        cx.ob('collapse.mark', a[0] is mk('p', 'm100') and a[1] is CONN, f'{say} marks {[show(x) for x in a]} as applied', f.span)
                if p.end == 'ok':
                    embedded(cx, f, 'collapse', say, p)
            cx.ob('collapse.ok', not may or any(p.end == 'ok' for p in ps), f'{say} never succeeds', f.span)


def backs(v):
    """Names of the backends in a list of backends."""
    out = []
    for x in subterms(v):
        if x.op == 'backend':
            n = cval(x.a[0]) if is_const(x.a[0]) else show(x.a[0])
            if n not in out:
                out.append(n)
        if x.op == 'p' and str(x.a[0]).startswith('backend:'):
            out.append(x.a[0])
    return out


def check_clear(cx):
    for n, k in worlds():
        w = World(cx, n, k)
        f, ps = w.run('clear_data', [BASE])
        say = f'clearing the data with {k} of {n} migrations applied'
        for p in ps:
            judge(cx, f, 'clear', say, p)
            cx.ob('clear.only', p.only('delete_where'), f'{say} does {seen(p)}', f.span)
            tabs = [t.a[1] if t.op in ('fld', 'f') else t for t in (strip(a[1]) for a in steps(p, 'delete_where'))]
            want = [mk('tbl', mk('db', w.ms[k - 1]), C(i)) for i in (0, 1)] if k else []
            got = [strip_to(a[1], 'tbl') for a in steps(p, 'delete_where')]
            ok = all(g in want for g in got) and len(set(got)) == len(got) and (p.end != 'ok' or len(got) == len(want))
            cx.ob('clear.tables', ok and all(a[0] is CONN for a in steps(p, 'delete_where')), f'{say} does {seen(p)}', f.span)
            cx.ob('clear.all', all(a[2].op == 'agg' and a[2].a[1] == 'True' for a in steps(p, 'delete_where')), f'{say} does {seen(p)}', f.span)
            if not k:
                cx.ob('clear.refuse', p.end != 'ok', f'{say} ends with {p.end}', f.span)
        cx.ob('clear.ok', not k or any(p.end == 'ok' for p in ps), f'{say} never succeeds', f.span)


def strip_to(v, op):
    for x in subterms(v):
        if x.op == op:
            return x
    return None


def check_make(cx):
    """A migration is made from the latest one, for the backends of the latest one."""
    for n in range(3):
        for spec in (True, False):
            w = World(cx, n, 0, spec=spec)
            f, ps = w.run('make_migration', [BASE, some(mk('p', 'given'))])
            say = f'making a migration after {n}'
            for p in ps:
                judge(cx, f, 'make', say, p, ('get_migrations', 'sql_backends', 'get_backend') if spec else ())
                cx.ob('make.only', p.only('create_migration'), f'{say} does {seen(p)}', f.span)
                for nm, a, r in p.of('create_migration'):
                    fell = any(x in p.faults for x in ('get_migrations', 'sql_backends', 'get_backend'))
                    want = ['b0', 'b1'] if n and not fell else ['backend:spec']
                    cx.ob('make.backends', backs(a[1]) == want, f'{say} is for the backends {backs(a[1])}', f.span)
                    cx.ob('make.name', contains(a[2], mk('p', 'given')), f'{say} names it {show(a[2], 1)[:90]}', f.span)
                    cx.ob('make.from', a[3] is (some(w.ms[-1]) if n else NONE), f'{say} starts from {show(a[3], 1)[:90]}', f.span)
                    if p.end == 'ok':
                        if r is TRUE:
                            embedded(cx, f, 'make', say, p)
                if p.end == 'ok':
                    cx.ob('make.done', len(p.of('create_migration')) == 1, f'{say} ends after {seen(p)}', f.span)
            if n or spec:
                cx.ob('make.ok', any(p.end == 'ok' and any(a[2] is TRUE for a in p.acts) for p in ps), f'{say} never succeeds', f.span)


def sqlfor(cx, v, backend, old, new, first):
    """v is the SQL of a backend to get from one schema to another."""
    if v.op != 'sql' or v.a[0] is not backend or v.a[1] is not old or v.a[2].op != 'arr':
        return False
    ops = list(v.a[2].a[0])
    extra = [x for x in ops if contains(x, mk('migrations-table'))]
    return [x for x in ops if x not in extra] == [mk('changes', old, new)] and \
        (len(extra) == 1 and extra[0].op == 'agg' and extra[0].a[1] == 'AddTableIfNotExists' if first else not extra)


def check_backend(cx):
    """Adding a backend gives every migration its SQL; removing one removes it from all."""
    for n in range(1, 4):
        for new in ('b2', 'b1'):
            w = World(cx, n, 0)
            f, ps = w.run('add_backend', [BASE, C(new)])
            say = f'adding {"a backend" if new == "b2" else "a backend that is there already"} to {n} migrations'
            B = mk('backend', C(new))
            for p in ps:
                judge(cx, f, 'add', say, p)
                cx.ob('add.only', p.only('add_sql'), f'{say} does {seen(p)}', f.span)
                got = steps(p, 'add_sql')
                if new == 'b1':
                    cx.ob('add.again', not p.acts and p.end != 'ok', f'{say} does {seen(p)}', f.span)
                    continue
                cx.ob('add.all', prefix([a[0] for a in got], w.ms) and (p.end != 'ok' or len(got) == n), f'{say} adds SQL to {[show(a[0]) for a in got]}', f.span)
                for i, a in enumerate(got):
                    old, cur = mk('db', w.ms[i - 1] if i else mk('p', 'empty')), mk('db', w.ms[i])
                    cx.ob('add.name', a[1] is C('b2'), f'{say} adds SQL for {show(a[1])}', f.span)
                    cx.ob('add.up', sqlfor(cx, a[2], B, old, cur, i == 0), f'{say} adds the SQL {show(a[2], 4)[:120]} to apply migration {i}', f.span)
                    cx.ob('add.down', sqlfor(cx, a[3], B, cur, old, False), f'{say} adds the SQL {show(a[3], 4)[:120]} to undo migration {i}', f.span)
                if p.end == 'ok':
                    embedded(cx, f, 'add', say, p)
            if new == 'b2':
                cx.ob('add.ok', any(p.end == 'ok' for p in ps), f'{say} never succeeds', f.span)
        for have in (('b0', 'b1'), ('b0',)):
            w = World(cx, n, 0, backends=have)
            f, ps = w.run('remove_backend', [BASE, C('b0')])
            say = f'removing {"one of two backends" if len(have) == 2 else "the only backend"} from {n} migrations'
            for p in ps:
                judge(cx, f, 'remove', say, p)
                cx.ob('remove.only', p.only('remove_sql'), f'{say} does {seen(p)}', f.span)
                got = steps(p, 'remove_sql')
                if len(have) == 1:
                    cx.ob('remove.last', not p.acts and p.end != 'ok', f'{say} does {seen(p)}', f.span)
                    continue
                cx.ob('remove.all', prefix([a[0] for a in got], w.ms) and (p.end != 'ok' or len(got) == n), f'{say} removes SQL from {[show(a[0]) for a in got]}', f.span)
                cx.ob('remove.name', all(a[1] is C('b0') for a in got), f'{say} does {seen(p)}', f.span)
                if p.end == 'ok':
                    embedded(cx, f, 'remove', say, p)
            if len(have) == 2:
                cx.ob('remove.ok', any(p.end == 'ok' for p in ps), f'{say} never succeeds', f.span)


def check_regenerate(cx):
    """Every migration is made again, in order, from the one before and with the schema it has."""
    for n in range(1, 4):
        w = World(cx, n, 0)
        f, ps = w.run('regenerate_migrations', [BASE])
        say = f'regenerating {n} migrations'
        for p in ps:
            judge(cx, f, 'regenerate', say, p)
            cx.ob('regenerate.only', p.only('delete_db', 'create_migration_to'), f'{say} does {seen(p)}', f.span)
            made = steps(p, 'create_migration_to')
            dels = steps(p, 'delete_db')
            cx.ob('regenerate.del', prefix([a[0] for a in dels], w.ms) and len(dels) - len(made) in (0, 1), f'{say} does {seen(p)}', f.span)
            for i, a in enumerate(made):
                ok = i < n and a[2] is C(f'm{i}') and a[3] is (some(w.ms[i - 1]) if i else NONE) and a[4] is mk('db', w.ms[i])
                cx.ob('regenerate.schema', ok, f'{say} makes {show(a[2])} from {show(a[3])} to {show(a[4])}', f.span)
                cx.ob('regenerate.backends', backs(a[1]) == ['b0', 'b1'], f'{say} uses the backends {backs(a[1])}', f.span)
            if p.end == 'ok':
                cx.ob('regenerate.all', len(made) == n, f'{say} makes {len(made)} of them', f.span)
                embedded(cx, f, 'regenerate', say, p)
        cx.ob('regenerate.ok', any(p.end == 'ok' for p in ps), f'{say} never succeeds', f.span)


MEM = mk('p', 'mem')


class Embed(World):
    """Embedding, where what is written to files is seen."""
    cx_root = None

    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
        args = tuple(it.undr(st, x) for x in av)
        a = args[0] if args else None

        def may(val, what, act):
            s2 = State(st.stack, dict(st.store))
            ev = [Ev('act', (what, args, val), loc, fn.id)] if act else []
            return fin(OK(val), evs + ev) + fin(ERR(what), evs + [Ev('fault', (what, args), loc, fn.id)], s2)
        if l in ('new', 'default') and 'MemMigrations' in name + fid + str(info.get('self', '')) and not av:
            return fin(MEM)
        if a is MEM and l == 'new_migration':
            return fin(mk('new', args[1]))
        if l == 'copy_migration':
            return may(UNIT, l, True)
        if a is MEM and l == 'add_migration':
            return may(UNIT, l, True)
        if l in ('to_string_pretty', 'to_string', 'to_vec', 'to_vec_pretty', 'to_value') and a is MEM:
            return may(mk('json'), 'serialize', True)
        if l in ('write_all', 'write', 'write_fmt') and ('io' in name or 'Write' in name):
            return may(UNIT, 'write', True)
        if l in ('create',) and 'File' in name + fid:
            return may(mk('file', a), 'create', True)
        if l in ('is_dir', 'exists'):
            s2 = State(st.stack, dict(st.store))
            return fin(TRUE) + fin(FALSE, evs + [Ev('fault', (l, args), loc, fn.id)], s2)
        if l == 'load' and 'CliState' in name + fid:
            return may(state(self.cx, mk('p', 'was')), 'state', False)
        if l == 'save' and 'CliState' in name + fid:
            return may(UNIT, 'save', True)
        if l in ('join', 'push') and a is not None and ('Path' in name + fid or 'path' in name):
            return fin(mk('path', *args))
        return World.hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)


def pieces(v):
    """Text of a formatted value, its holes numbered."""
    for x in subterms(v):
        if x.op == 'fmt':
            out = []
            for y in x.a[0]:
                y = cval(y) if is_const(y) else y
                if isinstance(y, str) and out and isinstance(out[-1], str):
                    out[-1] += y
                else:
                    out.append(y)
            return out
    return None


def whole(v, ps, evs):
    """The generated source holds the JSON as one Rust string, whatever the JSON is."""
    if ps is None:
        return None, 'is not a known text'
    holes = [i for i, x in enumerate(ps) if isinstance(x, V)]
    at = [i for i in holes if contains(ps[i], mk('json'))]
    if len(at) != 1:
        return None, f'holds the migrations {len(at)} times'
    i = at[0]
    h = ps[i]
    before, after = ps[:i], ps[i + 1:]
    mark = '\u27e8json\u27e9'
    if h.a[0] == 'debug':
        if [x for x in before + after if isinstance(x, V)] or h.a[2] not in ((), None):
            return None, 'is not a known text'
        return ''.join(before) + mark + ''.join(after), None
    if h.a[0] != 'display':
        return None, f'formats the migrations as {h.a[0]}'
    # raw string: r, hashes, quote, text, quote, hashes
    m = re.search(r'r(#*)"$', before[-1]) if before and isinstance(before[-1], str) else None
    m2 = re.match(r'"(#*)', after[0]) if after and isinstance(after[0], str) else None
    if m and m2 and len(before) == 1 and len(after) == 1:
        if m[1] != m2[1]:
            return None, 'has a string that is not closed'
        if not closed(evs, None, '"' + m[1]):
            return None, f'puts the migrations into a string which ends at the first {chr(34) + m[1]} in them'
        return before[0][:m.start()] + mark + after[0][m2.end():], None
    if len(before) == 3 and len(after) == 3 and before[0].endswith('r') and before[2] == '"' and after[0] == '"' and isinstance(after[2], str):
        a, b = [x.a[1] if isinstance(x, V) else None for x in (before[1], after[1])]
        if not isinstance(before[1], V) or not isinstance(after[1], V) or not same(a, b):
            return None, 'has a string that is not closed'
        if not closed(evs, a, None):
            return None, 'puts the migrations into a string whose end may occur in them'
        return before[0][:-1] + mark + after[2], None
    return None, 'puts the migrations into no string'


def same(a, b):
    """The same text: one value, or a text repeated as often (exactly known in the first rounds of a loop)."""
    return a is b or a is not None and b is not None and a.op == b.op == 'r' and last(str(a.a[0])) == last(str(b.a[0])) == 'repeat' and a.a[1] == b.a[1]


def closed(evs, h, text):
    """The path has made sure that the end of the string does not occur in the JSON."""
    ok = False
    for e in evs:
        if e.k in ('push', 'emit', 'cmut', 'set') and any(x is h for x in e.a):
            ok = False
        if e.k == 'assume' and isinstance(e.a[0], V) and e.a[0].op == 'r' and last(str(e.a[0].a[0])) == 'contains' and str(e.a[1]) in ('False', '0'):
            x = e.a[0]
            if not contains(x.a[1][0], mk('json')):
                continue
            w = x.a[1][1]
            p = [cval(w)] if is_const(w) else pieces(w)
            if text is not None:
                ok = ok or bool(p) and len(p) == 1 and isinstance(p[0], str) and p[0] != '' and p[0] in text
            else:
                ok = ok or bool(p) and len(p) == 2 and p[0] == '"' and isinstance(p[1], V) and p[1].a[0] == 'display' and same(p[1].a[1], h)
    return ok


def check_embed(cx):
    """The embedded migrations are those on disk, and the code that holds them is always a program."""
    for n in range(3):
        w = Embed(cx, n, 0)
        f, ps = w.run('embed', [BASE])
        say = f'embedding {n} migrations'
        for p in ps:
            judge(cx, f, 'embed', say, p)
            order = ['copy_migration', 'add_migration'] * n + ['serialize', 'create', 'write', 'save']
            rest = [x for x in p.names if x != 'save']
            ok = prefix2(rest, [x for x in order if x != 'save'])
            cx.ob('embed.steps', ok and (p.end != 'ok' or sorted(p.names) == sorted(order)), f'{say} does {p.names}', f.span)
            cp = steps(p, 'copy_migration')
            ad = steps(p, 'add_migration')
            for i, a in enumerate(cp):
                to = mk('new', C(f'm{i}'))
                cx.ob('embed.copy', i < n and a[0] is w.ms[i] and a[1] is to, f'{say} copies {show(a[0])} to {show(a[1])}', f.span)
            for i, a in enumerate(ad):
                cx.ob('embed.add', i < n and a[0] is MEM and a[1] is mk('new', C(f'm{i}')), f'{say} adds {show(a[1])}', f.span)
            for a in steps(p, 'write'):
                cx.ob('embed.file', contains(a[0], BASE) and contains(a[0], C('butane_migrations.rs')), f'{say} writes {show(a[0], 5)[:100]}', f.span)
                t, why = whole(a[1], pieces(a[1]), p.evs)
                cx.ob('embed.string', t is not None, f'{say}: the generated code {why}', f.span)
                if t is not None:
                    m = re.search(r'pub fn get_migrations\(\) -> Result<MemMigrations, butane::Error> \{\s*(.*?)\s*\}\s*$', t, re.S)
                    b = re.sub(r'\s+', ' ', m[1]) if m else ''
                    J = '\u27e8json\u27e9'
                    okb = re.fullmatch(rf'let (\w+)(: &str)? = {J}; MemMigrations::from_json\(\1\)|MemMigrations::from_json\({J},?\)', b)
                    cx.ob('embed.code', bool(okb), f'{say}: the generated function does not load the migrations', f.span)
            for a in steps(p, 'save'):
                cx.ob('embed.state', a[0].op == 'agg' and a[0].a[2] == (TRUE,), f'{say} saves the state {show(a[0])}', f.span)
        cx.ob('embed.ok', any(p.end == 'ok' for p in ps), f'{say} never succeeds', f.span)
    for was in (True, False):
        w = World(cx, 0, 0, embedded=was)
        f, ps = w.run('update_embedded', [BASE])
        say = f'keeping the embedded migrations up to date when there are {"some" if was else "none"}'
        for p in ps:
            judge(cx, f, 'update', say, p)
            cx.ob('update.embed', p.names == (['embed'] if was else []) or bool(p.faults), f'{say} does {seen(p)}', f.span)
            cx.ob('update.base', all(a[1][0] is BASE for a in p.acts), f'{say} does {seen(p)}', f.span)
        cx.ob('update.ok', any(p.end == 'ok' for p in ps), f'{say} never succeeds', f.span)


def prefix2(x, y):
    return x == y[:len(x)]


COMMANDS = {'Init': 'init', 'MakeMigration': 'make_migration', 'DescribeMigration': 'describe_migration', 'Regenerate': 'regenerate_migrations',
            'DetachMigration': 'detach_latest_migration', 'Migrate': 'migrate', 'Unmigrate': 'unmigrate', 'Embed': 'embed', 'List': 'list_migrations',
            'Collapse': 'collapse_migrations', 'Clean': 'clean', 'Clear.Data': 'clear_data', 'Delete.Table': 'delete_table',
            'Backend.Add': 'add_backend', 'Backend.Remove': 'remove_backend', 'Backend.List': 'list_backends'}


def check_main(cx):
    """Each command runs its own function, on the project given, and a failure ends the program with a failure."""
    f = cx.fn('butane::main')
    fns = set(COMMANDS.values())
    g = cx.graph(f, opaque=lambda n, i, d: last(n) in fns | {'handle_error', 'get_migrations', 'parse', 'detached_migration_paths', 'init', 'filter_level', 'new', '_eprint'}, widen=100)
    seen_ = set()
    for evs, v in paths(g, limit=20000):
        which = [str(e.a[1]) for e in evs if e.k == 'assume' and isinstance(e.a[0], V) and str(e.a[1]) in {k.split('.')[0] for k in COMMANDS} | {'Backend', 'Clear', 'Delete'}]
        sub = [str(e.a[1]) for e in evs if e.k == 'assume' and str(e.a[1]) in ('Add', 'Remove', 'List', 'Data', 'Table')]
        if not which:
            continue
        key = which[0]
        if key in ('Backend', 'Clear', 'Delete'):
            key += '.' + (sub[-1] if sub else {'Clear': 'Data', 'Delete': 'Table'}.get(key, ''))
        calls = [e for e in evs if e.k == 'call' and str(e.a[0]).startswith('butane_cli::') and last(str(e.a[0])) in fns]
        want = COMMANDS.get(key)
        cx.ob(f'main.{key}', want is not None and [last(str(e.a[0])) for e in calls] == [want], f'the command {key} runs {[last(str(e.a[0])) for e in calls]}', f.span)
        h = [e for e in evs if e.k == 'call' and last(str(e.a[0])) == 'handle_error']
        cx.ob(f'main.{key}.error', len(h) == 1 and bool(calls) and h[0].a[1][0] is calls[0].a[2], f'the failure of the command {key} is not handled', f.span)
        seen_.add(key)
    cx.ob('main.all', seen_ == set(COMMANDS), f'no way to run {sorted(set(COMMANDS) - seen_)}', f.span)
    f = cx.fn('butane_cli::handle_error')
    for bad in (True, False):
        for evs, v in paths(cx.graph(f, args=[agg(RES, 'Err', mk('p', 'e')) if bad else agg(RES, 'Ok', UNIT)])):
            code = [e.a[1][0] for e in evs if e.k == 'diverge' and 'process::exit' in str(e.a[0])]
            ok = bool(code) and is_const(code[0]) and cval(code[0]) != 0 if bad else not code
            cx.ob('main.exit', ok, f'{"a failure" if bad else "success"} ends the program with {show(code[0]) if code else "success"}', f.span)
