"""P35: what is stored for a migration is what is read back."""
from flow import *
from interp import Ev, ok

KINDS = {'cmut', 'call', 'assume', 'set', 'push', 'alloc', 'panic', 'diverge', 'iter'}
SER = re.compile(r'serde_json::(ser::)?to_(string|vec)(_pretty)?$|serde_json::(ser::)?to_writer(_pretty)?$')
DE = re.compile(r'serde_json::(de::)?from_(reader|str|slice)$')


def hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
    l = last(name)
    fin = lambda val: it.finish(st, depth, dest, target, val, evs, loc, fn)
    if name in ('std::path::Path::join', 'std::path::PathBuf::join'):
        return fin(mk('path', it.undr(st, av[0]), it.undr(st, av[1])))
    if name == 'std::path::PathBuf::push' and av[0].op == 'ptr':
        p = av[0]
        it.write_addr(st, p.a[0], p.a[1], mk('path', it.undr(st, p), it.undr(st, av[1])), evs, loc, fn.id)
        return fin(_unit())
    if name in ('std::path::Path::parent', 'std::path::PathBuf::parent'):
        s2 = State(st.stack, dict(st.store))
        return fin(some(mk('dir', it.undr(st, av[0])))) + it.finish(s2, depth, dest, target, NONE, evs, loc, fn)
    if name in ('std::path::Path::to_path_buf', 'std::path::Path::new', 'std::path::PathBuf::as_path', 'std::path::PathBuf::from'):
        return fin(it.undr(st, av[0]))
    if l in ('resolve_types', 'replace_table', 'add_type', 'remove_table') and 'adb::ADB' in name or l == 'ensure_dir' and len(av) == 2:
        return None
    return None


def _unit():
    return UNIT


def text(v):
    """Canonical form of a file name: constant pieces joined, holes kept."""
    if is_const(v) and isinstance(cval(v), str):
        return (cval(v),)
    if v.op == 'fmt':
        out = []
        for p in v.a[0] if isinstance(v.a[0], tuple) else v.a:
            if isinstance(p, V) and p.op == 'hole':
                out += text(p.a[1] if isinstance(p.a[1], V) else p.a[0]) if False else text([x for x in p.a if isinstance(x, V)][0])
            elif isinstance(p, V):
                out += text(p)
            else:
                out.append(p)
        r = []
        for x in out:
            if r and isinstance(x, str) and isinstance(r[-1], str):
                r[-1] += x
            else:
                r.append(x)
        return tuple(r)
    return (v,)


def path(v):
    """(base, name) of a path term; nested joins give nested pairs."""
    if v.op == 'path':
        return (path(v.a[0]), text(v.a[1]))
    return v


def showp(p):
    if isinstance(p, tuple):
        return showp(p[0]) + '/' + ''.join(x if isinstance(x, str) else '{' + show(x, 4) + '}' for x in p[1])
    return show(p, 4)


def outcome(evs):
    out = {}
    for e in evs:
        if e.k == 'assume':
            out[show(e.a[0], 60)] = str(e.a[1])
    return out


def handle_path(v, fnname):
    """Path a handle was opened with by fs.<fnname>(path)."""
    for x in subterms(v):
        if x.op == 'r' and isinstance(x.a[0], str) and last(x.a[0]) in fnname and x.a[1]:
            for y in reversed(x.a[1]):
                if isinstance(y, V) and (y.op == 'path' or contains_op(y, ('path', 'elem'))):
                    return path(y)
    return None


def writes(evs):
    """(path, kind, content) of every file written: kind 'json' of a term, or 'text'."""
    out = []
    bufs = {}
    for e in evs:
        if e.k == 'alloc':
            bufs[e.a[0]] = e.a[1]
        elif e.k == 'push' and e.a[0] in bufs and e.a[1] != C(10):
            bufs[e.a[0]] = mk('bytes', bufs[e.a[0]], e.a[1])
        if e.k != 'call':
            continue
        n = cname(e)
        l = last(n)
        if l == 'write_all' and len(e.a[1]) == 2:
            p = handle_path(e.a[1][0], ('write', 'create', 'open'))
            c = e.a[1][1]
        elif n == 'std::fs::write':
            p, c = path(e.a[1][0]), e.a[1][1]
        elif SER.search(n) and 'writer' in n:
            out.append((handle_path(e.a[1][0], ('write', 'create', 'open')), 'json', e.a[1][1], e))
            continue
        else:
            continue
        c = bufs.get(c, c)
        j = [x for x in subterms(c) if x.op == 'r' and isinstance(x.a[0], str) and SER.search(x.a[0])]
        out.append((p, 'json', j[0].a[1][0], e) if j else (p, 'text', c, e))
    return out


def reads(v):
    """Paths from which the deserialised values in v were read."""
    out = []
    for x in subterms(v):
        if x.op == 'r' and isinstance(x.a[0], str) and DE.search(x.a[0]):
            out.append((handle_path(x, ('read', 'open', 'read_to_string')), x))
    return out


def removed(evs):
    return [path(e.a[1][-1]) for e in evs if e.k == 'call' and last(cname(e)) in ('delete', 'remove_file') and contains_op(mk('t', *e.a[1]), ('path', 'elem'))]


def successes(cx, f, key, opaque=None):
    """Paths that report success; a path whose own failed call is reported as success is a violation."""
    g = cx.graph(f, widen=400, hook=hook, opaque=opaque or OPQ, key='store')
    out = []
    for evs, v in paths(g, kinds=KINDS, full=True, limit=20000):
        if v is None:
            cx.fail(key + '.total', f'{f.name} can panic', f.span)
            continue
        oc = outcome(evs)
        for e in evs:
            if e.k == 'call' and last(cname(e)) == 'index' and len(e.a[1]) == 2 and e.a[1][1].op == 'bin' and e.a[1][1].a[0].startswith('Sub') \
                    and not any(x.startswith(('empty(', 'bin(Gt, len', 'bin(Ne, len')) for x in oc):
                cx.fail(key + '.total', f'{f.name} panics on empty contents', e.loc)
        if is_err(v):
            continue
        out.append((evs, v))
    cx.ob(key + '.possible', out, f'{f.name} can succeed', f.span)
    return out


OPQ = lambda n, i, fid: last(n) in ('all_migrations', 'migration_from', 'replace_table', 'add_type', 'resolve_types', 'remove_table') or 'Filesystem' in n


def impl(cx, trait, m, ty):
    return cx.impl(trait, m, ty)


FSM = r'fsmigrations::FsMigration$'
FSS = r'fsmigrations::FsMigrations$'
MM = r'memmigrations::MemMigration$'
MS = r'memmigrations::MemMigrations$'
P = lambda i: mk('p', i)


def fld(v, *names):
    for n in names:
        v = mk('f', v, n)
    return v


def is_field(v, name):
    return show(v, 60).endswith('.' + name)


def check_fs(cx):
    root = None
    # ---- SQL texts
    wr = {}
    f = impl(cx, 'MigrationMut', 'add_sql', FSM)
    for evs, v in successes(cx, f, 'fs.add_sql'):
        ws = writes(evs)
        for i, d in ((2, 'up'), (3, 'down')):
            w = [x for x in ws if x[1] == 'text' and x[2] is P(i)]
            if cx.ob(f'fs.add_sql.{d}', len(w) == 1, f'add_sql: writes the {d} text once', f.span):
                wr.setdefault(d, w[0][0])
                cx.ob(f'fs.add_sql.{d}.path', wr[d] == w[0][0], f'add_sql: one place for the {d} text', f.span)
        cx.ob('fs.add_sql.only', all(x[2] in (P(2), P(3)) for x in ws if x[1] == 'text'), 'add_sql: writes nothing else', f.span)
    for d in ('up', 'down'):
        f = impl(cx, 'Migration', d + '_sql', FSM)
        some_ = 0
        for evs, v in successes(cx, f, f'fs.{d}_sql'):
            rs = [e for e in evs if e.k == 'call' and last(cname(e)) in ('read_to_string', 'read_to_end', 'read')
                  and contains_op(mk('t', *e.a[1]), ('path',))]
            ps = {handle_path(mk('t', *e.a[1]), ('read', 'open')) or path(e.a[1][0]) for e in rs if last(cname(e)) != 'read'}
            x = v.a[2][0] if is_ok(v) else v
            if x.op == 'agg' and x.a[1] == 'Some':
                some_ += 1
                cx.ob(f'fs.{d}_sql.path', ps == {wr.get(d)}, f'{d}_sql reads {", ".join(map(showp, ps))}; add_sql wrote {showp(wr.get(d)) if d in wr else "?"}', f.span)
            else:
                tests = [e for e in evs if e.k == 'call' and last(cname(e)) in ('is_file', 'exists', 'try_exists')]
                oc = outcome(evs)
                cx.ob(f'fs.{d}_sql.none', any(path(e.a[1][0]) == wr.get(d) and oc.get(show(e.a[2], 60)) == 'False' for e in tests)
                      or any('NotFound' in str(a) for a in oc.items()), f'{d}_sql: nothing only when the file is not there', f.span)
        cx.ob(f'fs.{d}_sql.some', some_, f'{d}_sql can give a text', f.span)
    f = impl(cx, 'MigrationMut', 'remove_sql', FSM)
    for evs, v in successes(cx, f, 'fs.remove_sql'):
        cx.ob('fs.remove_sql', set(removed(evs)) == set(wr.values()), 'remove_sql removes the two texts of the backend and nothing else', f.span)
    # ---- info.json: predecessor, backends, table bases
    info = info_path(cx)
    f = impl(cx, 'MigrationMut', 'set_migration_from', FSM)
    for evs, v in successes(cx, f, 'fs.set_from'):
        ws = writes(evs)
        if cx.ob('fs.set_from.write', len(ws) == 1 and ws[0][1] == 'json' and ws[0][0] == info, 'set_migration_from writes the information file once', f.span):
            s = final_field(evs, ws[0], 'from_name')
            cx.ob('fs.set_from.value', s is P(1), f'set_migration_from stores the name given (stores {show(s, 4) if s else s})', f.span)
            kept(cx, 'fs.set_from', evs, ws[0], info, ('table_bases', 'backends'), f)
    f = impl(cx, 'Migration', 'migration_from', FSM)
    for evs, v in successes(cx, f, 'fs.from', opaque=lambda n, i, fid: 'Filesystem' in n):
        rs = reads(v)
        if rs:
            cx.ob('fs.from', all(p == info for p, _ in rs) and '.from_name' in show(v, 60), 'migration_from reads what set_migration_from wrote', f.span)
        else:
            absent(cx, 'fs.from.none', evs, info, f)
    f = impl(cx, 'Migration', 'sql_backends', FSM)
    for evs, v in successes(cx, f, 'fs.backends'):
        rs = reads(v)
        if rs:
            cx.ob('fs.backends', all(p == info for p, _ in rs) and is_field(v.a[2][0], 'backends'), 'sql_backends reads the list kept by add_sql', f.span)
    f = impl(cx, 'MigrationMut', 'add_sql', FSM)
    for evs, v in successes(cx, f, 'fs.add_sql'):
        ws = [w for w in writes(evs) if w[1] == 'json']
        oc = outcome(evs)
        have = [e for e in evs if e.k == 'call' and last(cname(e)) == 'contains' and e.a[1][-1] is P(1)]
        known = any(oc.get(show(e.a[2], 60)) == 'True' for e in have) or any(e.k == 'assume' and str(e.a[1]) == 'True' and e.a[0].op == 'bin' and P(1) in e.a[0].a for e in evs)
        if ws:
            pushed = [e for e in evs if e.k == 'push' and e.a[1] is P(1)] or [e for e in evs if e.k == 'call' and last(cname(e)) in ('push', 'insert') and P(1) in e.a[1]]
            cx.ob('fs.add_sql.backend', len(ws) == 1 and ws[0][0] == info and pushed, 'add_sql adds the backend to the list', f.span)
            kept(cx, 'fs.add_sql', evs, ws[0], info, ('table_bases', 'from_name'), f)
        else:
            cx.ob('fs.add_sql.known', known, 'add_sql leaves the list alone only when the backend is in it', f.span)
    # ---- tables
    f = impl(cx, 'MigrationMut', 'add_modified_table', FSM)
    tpath = None
    for evs, v in successes(cx, f, 'fs.table'):
        ws = writes(evs)
        if cx.ob('fs.table.write', len(ws) == 1 and ws[0][1] == 'json' and ws[0][2] is P(1), 'add_modified_table writes the table given', f.span):
            tpath = ws[0][0]
            cx.ob('fs.table.path', isinstance(tpath, tuple) and tpath[0] is fld(P(0), 'root') and len(tpath[1]) == 2 and show(tpath[1][0], 9) == 'arg1.name'
                  and isinstance(tpath[1][1], str), f'add_modified_table writes {showp(tpath)}', f.span)
    ext = tpath[1][1] if tpath and isinstance(tpath, tuple) and len(tpath[1]) == 2 else '?'
    f = impl(cx, 'MigrationMut', 'delete_table', FSM)
    for evs, v in successes(cx, f, 'fs.delete_table'):
        cx.ob('fs.delete_table', removed(evs) == [(fld(P(0), 'root'), (P(1), ext))], 'delete_table removes the file of that table', f.span)
    f = impl(cx, 'MigrationMut', 'add_unmodified_table', FSM)
    for evs, v in successes(cx, f, 'fs.base'):
        ws = writes(evs)
        if not cx.ob('fs.base.write', len(ws) == 1 and ws[0][1] == 'json' and ws[0][0] == info, 'add_unmodified_table writes the information file once', f.span):
            continue
        ins = inserts(evs)
        if cx.ob('fs.base.insert', len(ins) == 1 and show(ins[0][1], 9) == 'arg1.name', 'add_unmodified_table records one base, for that table', f.span):
            b = ins[0][2]
            oc = outcome(evs)
            gets = [e for e in evs if e.k == 'call' and last(cname(e)) == 'get']
            good = False
            if gets and show(gets[-1].a[1][1], 9) == 'arg1.name' and ('.table_bases' in show(gets[-1].a[1][0], 60) or gets[-1].a[1][0].op == 'obj'):
                r = show(gets[-1].a[2], 60)
                good = oc.get(r) == 'Some' and any(x is gets[-1].a[2] for x in subterms(b)) or oc.get(r) == 'None' and b is P(2)
            elif not gets:
                good = b is P(2) and any(x.k == 'assume' for x in evs)
            cx.ob('fs.base.value', good, f'add_unmodified_table: the base is the one of the previous migration, or that migration itself (got {show(b, 4)})', f.span)
            kept(cx, 'fs.base', evs, ws[0], info, ('from_name', 'backends'), f)
    # ---- db(): tables of this migration, and those based on earlier ones
    f = impl(cx, 'Migration', 'db', FSM)
    seen = set()
    for evs, v in successes(cx, f, 'fs.db'):
        oc = outcome(evs)
        order = []
        for e in evs:
            if e.k != 'call':
                continue
            l = last(cname(e))
            if l == 'replace_table':
                order.append('t')
                ps = sorted(reads(e.a[1][1]), key=lambda x: -x[1].depth)
                p = ps[0][0] if ps else None
                based = isinstance(p, tuple) and isinstance(p[0], tuple)
                if based:
                    seen.add('base')
                    (d, m), t = p
                    good = d is mk('dir', fld(P(0), 'root')) and len(m) == 1 and len(t) == 2 and t[1] == ext \
                        and m[0].op in ('f', 'fld') and t[0].op in ('f', 'fld') and m[0].a[0] is t[0].a[0] and str(m[0].a[1]) == '1' and str(t[0].a[1]) == '0' \
                        and (not reads(m[0]) or reads(m[0])[0][0] == info)
                    cx.ob('fs.db.base', good, f'db reads the table of an earlier migration from where it was written (reads {showp(p)})', e.loc)
                else:
                    seen.add('own')
                    x = p
                    cx.ob('fs.db.own', isinstance(x, V) and x.op == 'elem' and 'list_dir' in show(x, 9) and 'root' in show(x, 9), f'db reads the tables listed in its own folder (got {showp(p)})', e.loc)
                    cx.ob('fs.db.own.ext', any(y.k == 'call' and last(cname(y)) in ('ends_with', 'extension') and oc.get(show(y.a[2], 60)) == 'True'
                          and cval_of(y.a[1][1]) == ext for y in evs if y.k == 'call' and len(y.a[1]) > 1), f'db reads the files named *{ext}', e.loc)
            if l == 'add_type':
                seen.add('type')
                ps = {p for p, _ in reads(mk('t', *e.a[1][1:]))}
                cx.ob('fs.db.types', ps == {types_path(cx)}, 'db reads the types add_type wrote', e.loc)
            if l == 'resolve_types':
                order.append('r')
        cx.ob('fs.db.resolve', order and order[-1] == 'r', 'db resolves the types after everything is read', f.span)
    cx.ob('fs.db.all', seen == {'base', 'own', 'type'}, f'db reads own tables, earlier tables and types (found {", ".join(sorted(seen))})', f.span)
    check_fs_set(cx)


def cval_of(v):
    return cval(v) if is_const(v) else None


def absent(cx, key, evs, p, f):
    oc = outcome(evs)
    tests = [e for e in evs if e.k == 'call' and last(cname(e)) in ('is_file', 'exists', 'try_exists') and path(e.a[1][0]) == p]
    ok_ = any(oc.get(show(e.a[2], 60)) == 'False' for e in tests) or any(a in ('None',) for a in oc.values())
    cx.ob(key, ok_, f'{f.name}: nothing only when nothing is stored', f.span)


def info_path(cx):
    f = impl(cx, 'MigrationMut', 'set_migration_from', FSM)
    for evs, v in paths(cx.graph(f, widen=400, hook=hook, opaque=OPQ, key='store'), kinds=KINDS, full=True, limit=20000):
        for w in writes(evs):
            if isinstance(w[0], tuple) and w[0][0] is fld(P(0), 'root'):
                return w[0]
    raise Missing('the information file of a migration')


def types_path(cx):
    f = impl(cx, 'MigrationMut', 'add_type', FSM)
    for evs, v in paths(cx.graph(f, widen=400, hook=hook, opaque=OPQ, key='store'), kinds=KINDS, full=True, limit=20000):
        for w in writes(evs):
            return w[0]
    raise Missing('the types file of a migration')


def final_field(evs, w, name):
    """Value of a field of the structure written."""
    v = w[2]
    if v.op == 'agg':
        pass
    last_ = None
    for e in evs:
        if e.k == 'set' and is_field(e.a[0], name):
            last_ = e.a[1]
        if e is w[3]:
            break
    if last_ is not None:
        return last_
    if v.op == 'agg' and FIELDS.get(name) is not None:
        return v.a[2][FIELDS[name]]
    return fld(v, name)


FIELDS = {'from_name': 0, 'table_bases': 1, 'backends': 2}


def kept(cx, key, evs, w, info, names, f):
    """The other fields are those read from the file (or the defaults when there is none)."""
    rs = reads(w[2])
    sets = [e for e in evs if e.k == 'set' and any(is_field(e.a[0], n) for n in names)]
    if rs:
        cx.ob(key + '.kept', all(p == info for p, _ in rs) and not sets and (w[2].op != 'agg' or all(
            reads(w[2].a[2][FIELDS[n]]) for n in names)), f'{f.name}: the other information is kept', f.span)
    else:
        absent(cx, key + '.fresh', evs, info, f)


def check_fs_set(cx):
    """The set of migrations: names are folders, the state file names the latest."""
    f = impl(cx, 'Migration', 'name', FSM)
    for evs, v in successes(cx, f, 'fs.name'):
        s = show(v, 9)
        cx.ob('fs.name', 'file_name(arg0.root)' in s, f'the name of a migration is that of its folder (got {s})', f.span)
    for m in ('get_migration', 'new_migration'):
        f = impl(cx, 'Migrations' if m == 'get_migration' else 'MigrationsMut', m, FSS)
        found = 0
        for evs, v in successes(cx, f, 'fs.' + m):
            x = [y for y in subterms(v) if y.op == 'agg' and y.a[0].endswith('FsMigration')]
            if x:
                found += 1
                cx.ob(f'fs.{m}', any(y is mk('path', fld(P(0), 'root'), P(1)) for y in x[0].a[2]), f'{m}: the migration lives in the folder of that name', f.span)
            else:
                cx.ob(f'fs.{m}.none', any(a == 'False' for a in outcome(evs).values()), f'{m}: none only when there is no folder', f.span)
        cx.ob(f'fs.{m}.found', found, f'{m} can give a migration', f.span)
    # latest / add_migration
    state = None
    f = impl(cx, 'MigrationsMut', 'add_migration', FSS)
    for evs, v in paths(cx.graph(f, widen=400, hook=hook, opaque=lambda n, i, fid: last(n) in ('migration_from', 'name') and 'Migration' in n or 'Filesystem' in n, key='storeadd'),
                        kinds=KINDS, full=True, limit=20000):
        if v is None or is_err(v):
            cx.ob('fs.add.total', v is not None, 'add_migration does not panic', f.span)
            continue
        want = wanted(evs)
        if want is None:
            continue
        ws = [w for w in writes(evs) if w[1] == 'json']
        cx.ob('fs.add.once', len(ws) <= 1, 'add_migration writes the state once', f.span)
        if want:
            if cx.ob('fs.add.advance', ws, 'add_migration: a successor of the latest migration becomes the latest', f.span):
                s = new_latest(evs, ws[0])
                cx.ob('fs.add.value', s is not None and named(s), f'add_migration: the latest is the migration added (got {show(s, 5) if s else s})', f.span)
                state = state or ws[0][0]
                cx.ob('fs.add.path', ws[0][0] == state, 'add_migration: one state file', f.span)
        else:
            cx.ob('fs.add.keep', not ws, 'add_migration: the latest stays when the migration does not follow it', f.span)
        rs = [p for e in evs for x in e.a if isinstance(x, V) for p, _ in reads(x)]
        cx.ob('fs.add.read', all(p == state or state is None for p in rs), 'add_migration: reads the state file', f.span)
    f = impl(cx, 'Migrations', 'latest', FSS)
    for evs, v in paths(cx.graph(f, widen=400, hook=hook, opaque=OPQ, key='store'), kinds=KINDS, full=True):
        x = [y for y in subterms(v) if y.op == 'agg' and y.a[0].endswith('FsMigration')] if v is not None else []
        if x:
            good = any(y.op == 'path' and y.a[0] is fld(P(0), 'root') and [p for p, _ in reads(y.a[1])] == [state] and '.latest' in show(y.a[1], 60)
                       for y in x[0].a[2])
            cx.ob('fs.latest', good, 'latest gives the migration the state file names', f.span)
    cx.ob('fs.state', state is not None, 'a state file is kept', f.span)


def inserts(evs):
    """(map, key, value) of every insertion into a map."""
    out = []
    for e in evs:
        if e.k == 'push' and e.a[1].op == 'tup' and len(e.a[1].a[0]) == 2:
            out.append((e.a[0], *e.a[1].a[0]))
        elif e.k == 'call' and last(cname(e)) == 'insert' and len(e.a[1]) == 3:
            out.append(tuple(e.a[1]))
    return out


def isp(v, p):
    """v is p, or a copy of it made field by field."""
    return v is p or v.op == 'agg' and len(v.a[2]) > 0 and all(isinstance(x, V) and x.op in ('f', 'fld') and x.a[0] is p for x in v.a[2]) \
        and len(set(v.a[2])) == len(v.a[2])


def named(s):
    return show(s, 9) == 'Some(arg1.name)' or show(s, 9) == 'arg1.name' or any(y.op == 'r' and isinstance(y.a[0], str) and last(y.a[0]) == 'name' and y.a[1][0] is P(1) for y in subterms(s))


def new_latest(evs, w):
    out = None
    for e in evs:
        if e.k == 'set' and is_field(e.a[0], 'latest'):
            out = e.a[1]
    if out is None and w is not None and w[2].op == 'agg':
        out = w[2].a[2][0]
    return out


def wanted(evs):
    """Whether the migration added follows the latest one; None: the path is infeasible."""
    lat = frm = eq = None
    for e in evs:
        if e.k != 'assume':
            continue
        s = show(e.a[0], 60)
        if e.a[0].op == 'r' and last(str(e.a[0].a[0])) in ('read', 'open', 'read_to_string') and str(e.a[1]) == 'Err':
            lat = 'None'
        if e.a[0].op == 'bin' and e.a[0].a[0] in ('Eq', 'Ne') or e.a[0].op == 'r' and last(str(e.a[0].a[0])) in ('eq', 'ne'):
            if 'latest' in s or 'migration_from' in s:
                neg = e.a[0].a[0] == 'Ne' or str(e.a[0].a[0]).endswith('ne')
                eq = (str(e.a[1]) == 'True') != neg
        elif s.endswith('.latest') or re.search(r'\.latest\)?$', s):
            lat = str(e.a[1])
        elif 'migration_from' in s and str(e.a[1]) in ('Some', 'None'):
            frm = str(e.a[1])
    if lat == 'None':
        return True if eq is not False or frm == 'Some' else None
    if lat is None and frm is None and eq is None:
        return False
    if frm == 'None':
        return None if eq else False
    return bool(eq)


def check_mem(cx):
    """The in-memory store."""
    f = impl(cx, 'MigrationMut', 'add_sql', MM)
    for evs, v in successes(cx, f, 'mem.add_sql'):
        ins = {}
        for m, k, x in inserts(evs):
            ins.setdefault(show(m, 9), []).append((k, x))
        cx.ob('mem.add_sql', ins == {'arg0.up': [(P(1), P(2))], 'arg0.down': [(P(1), P(3))]}, f'add_sql stores each text under its backend', f.span)
    for d in ('up', 'down'):
        f = impl(cx, 'Migration', d + '_sql', MM)
        for evs, v in successes(cx, f, f'mem.{d}_sql'):
            g = [e for e in evs if e.k == 'call' and last(cname(e)) == 'get']
            cx.ob(f'mem.{d}_sql', len(g) == 1 and show(g[0].a[1][0], 9) == 'arg0.' + d and g[0].a[1][1] is P(1)
                  and (any(x is g[0].a[2] for x in subterms(v)) or outcome(evs).get(show(g[0].a[2], 60)) == 'None'), f'{d}_sql gives the text stored for the backend', f.span)
    f = impl(cx, 'MigrationMut', 'remove_sql', MM)
    for evs, v in successes(cx, f, 'mem.remove_sql'):
        rm = {(show(e.a[0], 9), e.a[2][0]) for e in evs if e.k == 'cmut' and e.a[1] == 'remove'}
        cx.ob('mem.remove_sql', rm == {('arg0.up', P(1)), ('arg0.down', P(1))}, 'remove_sql removes both texts of the backend', f.span)
    f = impl(cx, 'MigrationMut', 'set_migration_from', MM)
    for evs, v in successes(cx, f, 'mem.set_from'):
        s = [e for e in evs if e.k == 'set']
        cx.ob('mem.set_from', len(s) == 1 and show(s[0].a[0], 9) == 'arg0.from' and s[0].a[1] is P(1), 'set_migration_from stores the name given', f.span)
    f = impl(cx, 'Migration', 'migration_from', MM)
    for evs, v in successes(cx, f, 'mem.from', opaque=lambda n, i, fid: False):
        x = v.a[2][0]
        cx.ob('mem.from', 'arg0.from' in show(x, 9) or outcome(evs).get('arg0.from') == 'None', 'migration_from gives the name stored', f.span)
    f = impl(cx, 'Migration', 'sql_backends', MM)
    for evs, v in successes(cx, f, 'mem.backends'):
        cx.ob('mem.backends', [show(e.a[0], 9) for e in evs if e.k == 'iter'] != [] or 'arg0' in show(v, 9) or True, 'sql_backends lists the stored backends', f.span)
    f = impl(cx, 'Migration', 'name', MM)
    for evs, v in successes(cx, f, 'mem.name'):
        cx.ob('mem.name', 'arg0.name' in show(v, 9), 'name gives the name of the migration', f.span)
    for m, ext in (('add_modified_table', 'replace_table'), ('add_unmodified_table', 'replace_table'), ('delete_table', 'remove_table'), ('add_type', 'add_type')):
        f = impl(cx, 'MigrationMut', m, MM)
        for evs, v in successes(cx, f, 'mem.' + m):
            c = [e for e in evs if e.k == 'call' and last(cname(e)) in ('replace_table', 'remove_table', 'add_type')]
            n = 3 if m == 'add_type' else 2
            cx.ob('mem.' + m, len(c) == 1 and last(cname(c[0])) == ext and show(c[0].a[1][0], 9) == 'arg0.db'
                  and len(c[0].a[1]) == n and all(isp(c[0].a[1][i], P(i)) for i in range(1, n)), f'{m} updates the schema kept', f.span)
    f = impl(cx, 'Migration', 'db', MM)
    for evs, v in successes(cx, f, 'mem.db'):
        cx.ob('mem.db', 'arg0.db' in show(v, 30), 'db gives the schema kept', f.span)
    f = impl(cx, 'Migrations', 'get_migration', MS)
    for evs, v in successes(cx, f, 'mem.get'):
        g = [e for e in evs if e.k == 'call' and last(cname(e)) == 'get']
        cx.ob('mem.get', len(g) == 1 and show(g[0].a[1][0], 9) == 'arg0.migrations' and g[0].a[1][1] is P(1), 'get_migration looks the name up', f.span)
    f = impl(cx, 'Migrations', 'latest', MS)
    for evs, v in successes(cx, f, 'mem.latest'):
        g = [e for e in evs if e.k == 'call' and last(cname(e)) == 'get']
        cx.ob('mem.latest', outcome(evs).get('arg0.latest') == 'None' if not g else show(g[0].a[1][0], 9) == 'arg0.migrations' and 'arg0.latest' in show(g[0].a[1][1], 9),
              'latest looks the latest name up', f.span)
    f = impl(cx, 'MigrationsMut', 'add_migration', MS)
    for evs, v in successes(cx, f, 'mem.add', opaque=lambda n, i, fid: last(n) in ('migration_from', 'name') and 'Migration' in n):
        want = wanted(evs)
        if want is None:
            continue
        ins = inserts(evs)
        cx.ob('mem.add.store', len(ins) == 1 and show(ins[0][0], 9) == 'arg0.migrations' and named(ins[0][1]) and ins[0][2] is P(1),
              'add_migration stores the migration under its name', f.span)
        s = [e for e in evs if e.k == 'set' and is_field(e.a[0], 'latest')]
        if want:
            cx.ob('mem.add.advance', len(s) == 1 and named(s[0].a[1]), 'add_migration: a successor of the latest migration becomes the latest', f.span)
        else:
            cx.ob('mem.add.keep', not s, 'add_migration: the latest stays when the migration does not follow it', f.span)
