"""P05: what the program says of a project, and remembers of it, is so."""
from cli import *
import cli
import re

NAME, CONNSTR = mk('p', 'name'), mk('p', 'connstr')


def printed(p):
    """What a path prints on standard output: texts, and the values shown in them."""
    out = []
    for e in p.evs:
        if e.k == 'call' and last(str(e.a[0])) == '_print':
            ps = cli.pieces(e.a[1][0])
            if ps is None:
                cs = [x for x in subterms(e.a[1][0]) if is_const(x) and isinstance(cval(x), str)]
                ps = [cval(cs[0])] if len(cs) == 1 else [e.a[1][0]]
            for x in flat(ps):
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
    return out


def flat(ps):
    """Pieces of a text, those of a text within it put in its place."""
    for x in ps:
        y = x.a[1] if isinstance(x, V) and x.op == 'hole' and x.a[0] == 'display' and x.a[2] in ((), None) else None
        inner = cli.pieces(y) if y is not None and not is_const(y) and next((s for s in subterms(y) if s.op == 'fmt'), None) is not None else None
        if inner is not None:
            yield from flat(inner)
        elif y is not None and is_const(y) and isinstance(cval(y), str):
            yield cval(y)
        else:
            yield x


def lines(p):
    """Lines of pieces."""
    out, cur = [], []
    for x in printed(p):
        if isinstance(x, str):
            ls = x.split('\n')
            for i, t in enumerate(ls):
                if i:
                    out.append(cur)
                    cur = []
                if t:
                    cur.append(t)
        else:
            cur.append(x)
    return out + ([cur] if cur else [])


def values(line):
    return [x for x in line if not isinstance(x, str)]


def words_(line):
    return ''.join(x if isinstance(x, str) else '\u27e8\u27e9' for x in line)


class List(World):
    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        args = tuple(it.undr(st, x) for x in av)
        if l == 'contains' and len(args) == 2 and args[0].op == 'arr' and self.num(args[1]) is not None:
            return it.finish(st, depth, dest, target, C(any(x is args[1] for x in args[0].a[0])), evs, loc, fn)
        return World.hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)


def check_list(cx):
    """Every migration is listed in order, as applied exactly when it is."""
    said = {}
    for n, k in worlds():
        w = List(cx, n, k)
        f, ps = w.run('list_migrations', [BASE])
        say = f'listing {n} migrations, {k} of which are applied,'
        for p in ps:
            judge(cx, f, 'list', say, p)
            cx.ob('list.acts', not p.acts, f'{say} does {seen(p)}', f.span)
            if p.end != 'ok':
                continue
            got = []
            for ln in lines(p):
                t = words_(ln)
                m = [i for i in range(n) if f'm{i}' in t]
                got += m if len(m) == 1 else [-1]
                if len(m) == 1:
                    said.setdefault(m[0] < k, set()).add(t.replace(f'm{m[0]}', ''))
            cx.ob('list.all', got == list(range(n)), f'{say} prints {[words_(x) for x in lines(p)]}', f.span)
        cx.ob('list.ok', any(p.end == 'ok' for p in ps), f'{say} never succeeds', f.span)
    f = cx.fn('butane_cli::list_migrations')
    for a in (True, False):
        cx.ob('list.same', len(said.get(a, ())) == 1, f'a migration which is {"" if a else "not "}applied is listed as {sorted(said.get(a, ()))}', f.span)
    neg = re.compile(r'\bnot?\b|\bun|\bpending\b|\bto do\b', re.I)
    cx.ob('list.applied', all(not neg.search(t) for t in said.get(True, ())), f'an applied migration is listed as {sorted(said.get(True, ()))}', f.span)
    cx.ob('list.unapplied', all(neg.search(t) for t in said.get(False, ())), f'a migration which is not applied is listed as {sorted(said.get(False, ()))}', f.span)


class Describe(World):
    """Describing, where the difference of two schemas is one operation that tells which they are."""
    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        args = tuple(it.undr(st, x) for x in av)
        a = args[0] if args else None
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)

        def may(val, what):
            s2 = State(st.stack, dict(st.store))
            return fin(OK(val)) + fin(ERR(what), evs + [Ev('fault', (what, args), loc, fn.id)], s2)
        if l == 'diff' and len(args) == 2:
            return fin(mk('changes', *args))
        if l in ('new', 'default') and not av and 'adb::' in fid.lower():
            return fin(mk('db', mk('p', 'empty')))
        if l == 'print_ops':
            return fin(OK(UNIT), evs + [Ev('act', ('print_ops', args, UNIT), loc, fn.id)])
        if self.num(a) is not None and l == 'migration_from':
            i = self.num(a)
            return may(some(C(f'm{i - 1}')) if i else NONE, l)
        if a is mk('p', 'current') and l == 'db':
            return may(mk('db', a), l)
        if l in ('eq', 'ne') and len(args) == 2 and any(x is self.to for x in args) and self.to is not None and any(is_const(x) and cval(x) == 'current' for x in args):
            return fin(C(self.named_current == (l == 'eq')))
        return World.hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)


def check_describe(cx):
    """A migration is described by what it changes in the schema before it; the current one by what it will change in the latest."""
    EMPTY = mk('db', mk('p', 'empty'))
    for n in range(4):
        for aim in list(range(n + 1)) + ['current']:
            w = Describe(cx, n, 0, to=mk('p', 'to'))
            w.aim = None if aim == 'current' else aim
            w.named_current = aim == 'current'
            f, ps = w.run('describe_migration', [BASE, w.to])
            known_ = aim == 'current' or aim < n
            say = f'describing {"the current changes" if aim == "current" else "the migration numbered %d" % aim if known_ else "an unknown migration"} after {n} migrations'
            m = n if aim == 'current' else aim
            db = lambda i: EMPTY if i < 0 else mk('db', mk('p', 'current')) if i == n else mk('db', w.ms[i])
            for p in ps:
                judge(cx, f, 'describe', say, p)
                got = steps(p, 'print_ops')
                if p.end != 'ok':
                    cx.ob('describe.fail', not got, f'{say} fails after describing something', f.span)
                    continue
                cx.ob('describe.known', known_, f'{say} succeeds', f.span)
                want = mk('changes', db(m - 1), db(m))
                cx.ob('describe.what', known_ and len(got) == 1 and got[0][0] is want,
                      f'{say} prints {[show(x[0], 3)[:80] for x in got]}, not {show(want, 3)}', f.span)
            cx.ob('describe.ok', not known_ or any(p.end == 'ok' for p in ps), f'{say} never succeeds', f.span)


COLS = [mk('p', 'col0'), mk('p', 'col1')]


def check_ops(cx):
    """Every operation which changes a table or column is printed with what it changes."""
    f = cx.fn('butane_cli::print_ops')
    T, O, N = mk('p', 'table'), mk('p', 'old'), mk('p', 'new')
    cases = {'AddTable': ([T], 'table'), 'AddTableIfNotExists': ([T], 'table'), 'RemoveTable': ([T], 'plain'),
             'AddColumn': ([T, N], 'col'), 'RemoveColumn': ([T, N], 'plain'), 'ChangeColumn': ([T, O, N], 'change')}
    adt = [k for k in cx.F.adts if k.endswith('::Operation') and 'migrations' in k]
    tab = [k for k in cx.F.adts if k.endswith('::ATable')]
    if len(adt) != 1 or len(tab) != 1 or {x[0] for x in cx.F.adts[tab[0]]['variants'][0][2]} != {'name', 'columns'}:
        raise Missing('types Operation and ATable')
    names = [v[0] for v in cx.F.adts[adt[0]]['variants']]
    cx.ob('ops.kinds', set(names) == set(cases) | {'AddTableConstraints', 'RemoveTableConstraints'}, f'the operations are {names}', f.span)
    for k, (xs, how) in cases.items():
        if k not in names:
            continue
        w = Ops(cx, 0, 0)
        table = agg_(tab[0], cx.F.adts[tab[0]]['variants'][0][0], [{'name': T, 'columns': mk('arr', tuple(COLS))}[x[0]] for x in cx.F.adts[tab[0]]['variants'][0][2]])
        _, ps = w.run('print_ops', [mk('arr', (agg_(adt[0], k, [table] if how == 'table' else xs),))])
        say = f'describing the operation {k}'
        good = False
        for p in ps:
            judge(cx, f, f'ops.{k}', say, p)
            ls = lines(p)
            if p.end != 'ok':
                continue
            good = True
            vs = [leaf(x) for ln in ls for x in values(ln)]
            if how == 'table':
                want = [T] + [x for c in COLS for x in (('name', c), ('typeid', c))]
            elif how == 'col':
                want = [T, ('name', N), ('typeid', N)]
            elif how == 'plain':
                want = xs
            else:
                continue
            cx.ob(f'ops.{k}.what', sure(vs, want), f'{say} prints {[words_(x) for x in ls]} with {[str(v)[:60] for v in vs]}', f.span)
        cx.ob(f'ops.{k}.ok', good, f'{say} never succeeds', f.span)
    w = Ops(cx, 0, 0)
    _, ps = w.run('print_ops', [mk('arr', ())])
    for p in ps:
        cx.ob('ops.none', p.end == 'ok' and printed(p), 'describing no changes prints nothing', f.span)
    # a changed column: exactly the attributes that differ, old before new
    w = Ops(cx, 0, 0)
    _, ps = w.run('print_ops', [mk('arr', (agg_(adt[0], 'ChangeColumn', [T, O, N]),))])
    total = set()
    for p in ps:
        if p.end != 'ok':
            continue
        vs = [leaf(x) for ln in lines(p) for x in values(ln)]
        cx.ob('ops.ChangeColumn.name', vs[:2] in ([T, ('name', O)], [T, ('name', N)]), f'describing a changed column prints {[str(v)[:60] for v in vs[:3]]} first', f.span)
        rest = vs[2:]
        diff, none = differing(p, O, N)
        total |= set(diff)
        want = sorted({a for a, d in diff if d} - ({'reference'} if {O, N} <= none else set()))
        sides = [(attrs(x, O), 'o') if attrs(x, O) else (attrs(x, N), 'n') for x in rest]
        got = sorted({a for a, _ in sides if a})
        cx.ob('ops.ChangeColumn.diff', got == want and all(a for a, _ in sides), f'describing a column whose {want} changed prints {[str(v)[:60] for v in rest]}', f.span)
        for a in got:
            s = ''.join(x for b, x in sides if b == a)
            ok = s == 'on' if a != 'reference' else re.fullmatch(('' if O in none else 'o{1,2}') + ('' if N in none else 'n{1,2}'), s)
            cx.ob('ops.ChangeColumn.order', bool(ok), f'describing a column whose {a} changed prints {[str(v)[:60] for v in rest]}', f.span)
    for a in ('typeid', 'is_pk', 'is_auto', 'nullable', 'unique', 'default', 'reference'):
        for d in (True, False):
            cx.ob(f'ops.attr.{a}', (a, d) in total, f'no way to describe a column whose {a} is {"changed" if d else "the same"}', f.span)


def differing(p, O, N):
    """Attributes compared on a path and whether they differ; columns found without a reference."""
    diff, none = [], set()
    for e in p.evs:
        if e.k == 'differs':
            diff.append(e.a)
        if e.k == 'assume' and isinstance(e.a[0], V):
            v, way = e.a[0], str(e.a[1])
            if v.op == 'bin' and v.a[0] in ('Eq', 'Ne') and all(x.op == 'attr' for x in v.a[1:]) and v.a[1].a[0] == v.a[2].a[0] and {v.a[1].a[1], v.a[2].a[1]} == {O, N}:
                diff.append((v.a[1].a[0], (way in ('True', '1')) == (v.a[0] == 'Ne')))
            if v.op == 'attr' and v.a[0] == 'reference' and way == 'None':
                none.add(v.a[1])
    return diff, none


def attrs(x, col):
    """Name of the attribute of a column shown."""
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[1] is col:
        return x[0]
    if isinstance(x, V):
        for s in subterms(x):
            if s.op == 'attr' and s.a[1] is col:
                return s.a[0]
    return None


def leaf(x):
    """What a hole shows: an attribute of something, or a value."""
    if isinstance(x, V) and x.op == 'hole':
        x = x.a[1]
    while isinstance(x, V) and x.op in ('ref', 'deref') and x.a:
        x = x.a[0]
    if isinstance(x, V):
        for s in subterms(x):
            if s.op == 'attr' and isinstance(s.a[1], V):
                return (s.a[0], s.a[1])
    return x


def sure(got, want):
    """The values shown are those wanted, in order."""
    same_ = lambda g, w: (g == w) if isinstance(w, tuple) or isinstance(g, tuple) else g is w
    return len(got) == len(want) and all(same_(g, w) for g, w in zip(got, want))


class Ops(World):
    """Tables and columns whose attributes are known by name."""
    ATTRS = ('name', 'typeid', 'is_pk', 'is_auto', 'nullable', 'unique', 'default', 'reference')

    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        args = tuple(it.undr(st, x) for x in av)
        a = args[0] if args else None
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
        col = lambda x: x is not None and x.op == 'p' and str(x.a[0]) in ('col0', 'col1', 'old', 'new')
        if l in self.ATTRS and len(args) == 1 and col(a):
            v = mk('attr', l, a)
            if l == 'typeid':
                s2 = State(st.stack, dict(st.store))
                return fin(OK(v)) + fin(ERR(l), evs + [Ev('fault', (l, args), loc, fn.id)], s2)
            return fin(v)
        if l in ('eq', 'ne') and len(args) == 2 and all(self.at(x) for x in args):
            x, y = [self.at(z) for z in args]
            if x[0] == 'name' == y[0]:
                return fin(C(l == 'eq'))
            if x[0] == y[0] and x[1] is not y[1]:
                s2 = State(st.stack, dict(st.store))
                return fin(C(l == 'ne'), evs + [Ev('differs', (x[0], True), loc, fn.id)]) + fin(C(l == 'eq'), evs + [Ev('differs', (x[0], False), loc, fn.id)], s2)
        return World.hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)

    def at(self, x):
        return (x.a[0], x.a[1]) if isinstance(x, V) and x.op == 'attr' else None


class Init(World):
    """Choosing a database for a project."""
    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        args = tuple(it.undr(st, x) for x in av)
        a = args[0] if args else None
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)

        def may(val, what):
            s2 = State(st.stack, dict(st.store))
            return fin(OK(val), evs + [Ev('act', (what, args, val), loc, fn.id)]) + fin(ERR(what), evs + [Ev('fault', (what, args), loc, fn.id)], s2)
        text = lambda x: x is NAME or x is CONNSTR
        if l in TRANSP and len(args) == 1 and text(a):
            return fin(a)
        if l == 'get_backend' and a is NAME:
            s2 = State(st.stack, dict(st.store))
            return fin(some(mk('backend', a)), evs + [Ev('act', ('known', args, NONE), loc, fn.id)]) + fin(NONE, evs + [Ev('fault', ('unknown', args), loc, fn.id)], s2)
        if l == 'new' and 'ConnectionSpec' in name + fid:
            return fin(mk('newspec', *args))
        if l in ('connect', 'connect_async') and a is not None and a.op == 'newspec':
            return may(CONN, 'connect')
        if l == 'save' and a is not None and a.op == 'newspec':
            return may(UNIT, 'save')
        if l in ('create_dir_all', 'create_dir'):
            return may(UNIT, 'mkdir')
        return World.hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)


def check_init(cx):
    """The connection remembered is the one given, which is of a known backend and could be made when that was asked."""
    SP = mk('newspec', NAME, CONNSTR)
    for connect in (True, False):
        w = Init(cx, 0, 0)
        f, ps = w.run('init', [BASE, NAME, CONNSTR, C(connect)])
        say = f'choosing a database {"and" if connect else "without"} connecting to it'
        for p in ps:
            judge(cx, f, 'init', say, p)
            s = steps(p, 'save')
            cx.ob('init.only', p.only('known', 'connect', 'mkdir', 'save') and len(s) <= 1, f'{say} does {seen(p)}', f.span)
            if p.end == 'ok':
                cx.ob('init.saved', len(s) == 1, f'{say} succeeds after {seen(p)}', f.span)
            for x in s:
                before = p.names[:p.names.index('save')]
                cx.ob('init.what', x[0] is SP and x[1] is BASE, f'{say} saves {show(x[0], 2)} in {show(x[1], 2)}', f.span)
                cx.ob('init.known', 'known' in before, f'{say} saves the choice of an unknown backend', f.span)
                cx.ob('init.connect', not connect or 'connect' in before, f'{say} saves it before connecting to it', f.span)
                cx.ob('init.dir', 'mkdir' in before, f'{say} saves it in a directory that may not exist', f.span)
            if not connect:
                cx.ob('init.quiet', not p.of('connect'), f'{say} connects', f.span)
        cx.ob('init.ok', any(p.end == 'ok' for p in ps), f'{say} never succeeds', f.span)


class Disk(World):
    """The saved state of the program."""
    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        args = tuple(it.undr(st, x) for x in av)
        a = args[0] if args else None
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)

        def may(val, what, act=True):
            s2 = State(st.stack, dict(st.store))
            return fin(OK(val), evs + ([Ev('act', (what, args, val), loc, fn.id)] if act else [])) + fin(ERR(what), evs + [Ev('fault', (what, args), loc, fn.id)], s2)
        if l in ('join', 'push') and a is BASE:
            return fin(mk('path', *args))
        if l == 'open' and 'File' in name + fid:
            return may(mk('file', a), 'open')
        if l == 'create' and 'File' in name + fid:
            return may(mk('file', a), 'create')
        if l in ('from_reader',) and a.op == 'file':
            return may(mk('state', a), 'read')
        if l in ('read_to_string', 'read') and 'fs' in name + fid:
            return may(mk('file', a), 'open')
        if l in ('from_str', 'from_slice') and a.op == 'file':
            return may(mk('state', a), 'read')
        if l in ('to_string_pretty', 'to_string', 'to_vec_pretty', 'to_vec') and 'serde_json' in name + fid:
            return may(mk('json', a), 'json', False)
        if l in ('write', 'write_all', 'write_fmt', 'to_writer', 'to_writer_pretty') and ('io' in name + fid or 'fs' in name + fid or 'serde_json' in name + fid or 'Write' in name):
            return may(UNIT, 'write')
        return World.hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)


def check_state(cx):
    """What is remembered is what was saved, in the project it was saved for."""
    st = state(cx, mk('p', 'was'))
    w = Disk(cx, 0, 0)
    f = cx.fn('butane_cli::CliState::save')
    where = set()
    _, ps = w.run('CliState::save', [st, BASE])
    for p in ps:
        judge(cx, f, 'save', 'remembering the state', p)
        if p.end != 'ok':
            continue
        wr = steps(p, 'write')
        ok = len(wr) == 1 and any(contains(x, mk('json', st)) or x is st for x in wr[0])
        cx.ob('save.what', ok, f'remembering the state writes {[show(y, 3)[:80] for x in wr for y in x]}', f.span)
        pl = {a[1][0] for a in p.of('create')} | {x for y in wr for x in y if isinstance(x, V) and x.op == 'path'}
        cx.ob('save.where', len(pl) == 1, f'remembering the state writes to {[show(x, 3) for x in pl]}', f.span)
        where |= pl
    cx.ob('save.ok', any(p.end == 'ok' for p in ps), 'remembering the state never succeeds', f.span)
    f = cx.fn('butane_cli::CliState::load')
    _, ps = w.run('CliState::load', [BASE])
    for p in ps:
        judge(cx, f, 'load', 'recalling the state', p, ('open',))
        if p.end != 'ok':
            continue
        v = p.v.a[2][0]
        op = p.of('open')
        if 'open' in p.faults:
            fresh = v.op == 'agg' and v.a[2] == (FALSE,)
            cx.ob('load.none', fresh, f'without a state remembered it is {show(v, 3)}', f.span)
        else:
            pl = {a[1][0] for a in op}
            cx.ob('load.what', len(pl) == 1 and v is mk('state', mk('file', next(iter(pl)))), f'recalling the state gives {show(v, 3)}', f.span)
            cx.ob('load.where', pl == where and all(x.op == 'path' and x.a[0] is BASE for x in pl), f'the state is remembered in {[show(x, 3) for x in where]} and recalled from {[show(x, 3) for x in pl]}', f.span)
    cx.ob('load.ok', any(p.end == 'ok' and not p.faults for p in ps), 'recalling the state never succeeds', f.span)


def check_edit(cx):
    """Deleting a table or clearing the current migration is done to the current migration of the project."""
    for fn, act, args in (('delete_table', 'delete_table', [BASE, NAME]), ('clean', 'clear_current', [BASE])):
        w = Describe(cx, 2, 1)
        f, ps = w.run(fn, args)
        for p in ps:
            judge(cx, f, fn, f'the command {fn}', p)
            d = p.of(act)
            cx.ob(f'{fn}.only', p.only(act), f'the command {fn} does {seen(p)}', f.span)
            if p.end == 'ok':
                want = (mk('p', 'current'), NAME) if fn == 'delete_table' else (MS,)
                cx.ob(f'{fn}.done', len(d) == 1 and d[0][1] == want, f'the command {fn} does {seen(p)}', f.span)
        cx.ob(f'{fn}.ok', any(p.end == 'ok' for p in ps), f'the command {fn} never succeeds', f.span)


class Where(World):
    def __init__(self, cx, here, dirs):
        World.__init__(self, cx, 0, 0)
        self.here, self.dirs = here, dirs

    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        args = tuple(it.undr(st, x) for x in av)
        a = args[0] if args else None
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
        CWD = mk('p', 'cwd')
        if l == 'current_dir':
            s2 = State(st.stack, dict(st.store))
            return fin(OK(CWD)) + fin(ERR(l), evs + [Ev('fault', (l, args), loc, fn.id)], s2)
        if l == 'join':
            return fin(mk('path', *args))
        if l in ('is_dir', 'exists') and a.op == 'path' and str(cval(a.a[1])).rstrip('/') == '.butane':
            return fin(C(self.here))
        if l == 'find_butane_workspace_member_paths':
            return fin(ERR(l)) if self.dirs is None else fin(OK(mk('arr', tuple(mk('p', f'member{i}') for i in range(self.dirs)))))
        if l in TRANSP and len(args) == 1 and a.op == 'p':
            return fin(a)
        if l in ('clone', 'to_owned', 'to_path_buf', 'into') and len(args) == 1:
            return fin(a)
        return World.hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)


def check_base(cx):
    """The project worked on is the one here, or else the only one of the workspace."""
    for here in (True, False):
        for dirs in (None, 0, 1, 2, 3):
            w = Where(cx, here, dirs)
            f, ps = w.run('base_dir', [])
            say = f'with {"a" if here else "no"} project here and {dirs if dirs is not None else "an unknown number of"} ones in the workspace'
            for p in ps:
                v = p.v
                cwd = 'current_dir' not in p.faults
                want = mk('p', 'member0') if not here and dirs == 1 else mk('p', 'cwd') if cwd else None
                cx.ob('base.dir', v is not None and (v is want if want is not None else is_const(v) and cval(v) == '.'), f'{say} the project is {show(v, 3) if v is not None else None}', f.span)
    f = cx.fn('butane_cli::find_butane_workspace_member_paths')
    some_ = 0
    for evs, v in paths(cx.graph(f, opaque=lambda n, i, d: last(n) in ('is_dir', 'exists', 'join', 'extract_package_directory')), limit=5000):
        sure_, put = [], []
        for e in evs:
            if e.k == 'assume' and isinstance(e.a[0], V) and e.a[0].op == 'r' and last(str(e.a[0].a[0])) in ('is_dir', 'exists') and str(e.a[1]) in ('True', '1'):
                j = e.a[0].a[1][0]
                if isinstance(j, V) and j.op == 'r' and last(str(j.a[0])) == 'join' and is_const(j.a[1][1]) and str(cval(j.a[1][1])).rstrip('/') == '.butane':
                    sure_.append(j.a[1][0])
            if e.k == 'push':
                put.append(e.a[1] if len(e.a) > 1 else None)
        if not is_ok(v):
            continue
        some_ += bool(put)
        sh = lambda xs: [show(x, 2) for x in xs]
        cx.ob('base.members', sh(put) == sh(sure_), f'members of the workspace {sh(put)} are taken for projects where {sh(sure_)} are', f.span)
    cx.ob('base.members.some', some_ > 0, 'no member of the workspace is taken for a project', f.span)
