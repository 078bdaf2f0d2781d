"""P26: what is taken away from the recorded migrations is exactly what was asked for."""
from flow import *
import known
from schema import adt, build, agg_, field, NONE
from store import FSM, FSS, MS
from interp import Ev

ROOT = '/r'


class Disk:
    """A directory of migrations: names of entries, 'n/' a directory; contents of the JSON files as terms."""
    def __init__(self, entries, json):
        self.entries = {ROOT + '/' + e.rstrip('/'): e.endswith('/') for e in entries}
        self.entries[ROOT] = True
        self.json = {ROOT + '/' + k: v for k, v in json.items()}

    def within(self, p):
        n = p.count('/') + 1
        return sorted(x for x in self.entries if x.startswith(p + '/') and x.count('/') == n)


def seq(vs):
    return mk('it', mk('arr', tuple(vs)), 0)


def strof(it, st, v):
    v = it.undr(st, v)
    while v.op == 'agg' and v.a[1] in ('Borrowed', 'Owned', 'Normal') and v.a[2]:
        v = it.undr(st, v.a[2][0])
    if v.op == 'fmt' and all(isinstance(x, str) or is_const(x) or x.op == 'hole' and is_const(x.a[1]) for x in v.a[0]):
        return ''.join(x if isinstance(x, str) else str(cval(x if is_const(x) else x.a[1])) for x in v.a[0])
    return cval(v) if is_const(v) and isinstance(cval(v), str) else None


class OnDisk:
    def __init__(self, disk):
        self.d = disk

    def __call__(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l, d = last(name), self.d
        fin = lambda val, *more: it.finish(st, depth, dest, target, val, list(evs) + list(more), loc, fn)
        op = lambda kind, *a: Ev('fs', (kind,) + a, loc, fn.id)
        vs = [strof(it, st, a) for a in av]
        good = lambda v: mk('agg', 'std::result::Result', 'Ok', (v,))
        p = vs[0] if vs else None
        inpath = 'std::path::' in name
        if inpath and p is not None:
            if l == 'join' and len(vs) == 2 and vs[1] is not None:
                return fin(C(p + '/' + vs[1]))
            if l == 'push' and len(vs) == 2 and vs[1] is not None and av[0].op == 'ptr':
                t = known.target_of(it, st, av[0])
                it.write_addr(st, t.a[0], t.a[1], C(p + '/' + vs[1]), evs, loc, fn.id)
                return fin(UNIT)
            if l == 'file_name':
                return fin(some(C(p.rsplit('/', 1)[1])))
            if l == 'file_stem':
                return fin(some(C(p.rsplit('/', 1)[1].rsplit('.', 1)[0])))
            if l == 'parent':
                return fin(some(C(p.rsplit('/', 1)[0])))
            if l in ('ends_with', 'starts_with') and len(vs) == 2 and vs[1] is not None:
                return fin(C((p == vs[1] or p.endswith('/' + vs[1])) if l == 'ends_with' else p == vs[1] or p.startswith(vs[1] + '/')))
            if l in ('is_dir', 'is_file', 'exists'):
                return fin(C(p in d.entries and (l == 'exists' or d.entries[p] == (l == 'is_dir'))))
            if l in ('display', 'to_path_buf', 'as_path', 'to_string_lossy', 'as_os_str', 'into_os_string', 'new', 'from'):
                return fin(C(p))
            if l == 'to_str':
                return fin(some(C(p)))
            if l == 'read_dir':
                return fin(good(seq(good(C(x)) for x in d.within(p))))
        if 'OsStr' in name and p is not None:
            if l in ('to_str', 'into_string'):
                return fin(some(C(p)) if l == 'to_str' else good(C(p)))
            if l in ('to_string_lossy', 'to_os_string', 'new', 'as_ref', 'to_owned'):
                return fin(C(p))
        if 'DirEntry' in name and p is not None:
            if l == 'path':
                return fin(C(p))
            if l == 'file_name':
                return fin(C(p.rsplit('/', 1)[1]))
            if l in ('file_type', 'metadata'):
                return fin(good(mk('ft', p)))
        if l in ('is_dir', 'is_file') and av and it.undr(st, av[0]).op == 'ft':
            return fin(C(d.entries[it.undr(st, av[0]).a[0]] == (l == 'is_dir')))
        if l in ('eq', 'ne') and len(vs) == 2 and None not in vs and 'Option' not in str(info):
            return fin(C((vs[0] == vs[1]) == (l == 'eq')))
        if name.startswith('std::fs::') and p is not None:
            if l == 'read_dir':
                return fin(good(seq(good(C(x)) for x in d.within(p))))
            if l in ('remove_file', 'remove_dir', 'remove_dir_all'):
                return fin(good(UNIT), op('rmdir' if l != 'remove_file' else 'rm', p))
            if l in ('create_dir_all', 'create_dir'):
                return fin(good(UNIT))
            if l in ('open', 'read', 'read_to_string'):
                return fin(good(mk('file', p)))
            if l == 'create':
                return fin(good(mk('file', p)), op('open', p))
            if l == 'write' and len(av) == 2:
                return fin(good(UNIT), op('write', p, it.undr(st, av[1])))
            if l in ('rename', 'copy') and vs[1] is not None:
                return fin(good(UNIT), op(l, p, vs[1]))
            if l in ('is_dir', 'is_file', 'exists'):
                return fin(C(p in d.entries))
        if 'Filesystem' in name and len(vs) > 1 and vs[1] is not None:
            p = vs[1]
            if l == 'list_dir':
                return fin(good(mk('arr', tuple(C(x) for x in d.within(p)))))
            if l == 'ensure_dir':
                return fin(good(UNIT))
            if l == 'read':
                return fin(good(mk('file', p)) if p in d.entries else mk('agg', 'std::result::Result', 'Err', (mk('ioerr', p),)))
            if l == 'write':
                return fin(good(mk('file', p)), op('open', p))
            if l == 'delete':
                return fin(good(UNIT), op('rm', p))
        if l in ('default', 'new') and not av:
            t = name if l == 'new' else fn.ty(info['self']) if isinstance(info, dict) and 'self' in info else name
            if known.MAPTY.search(t):
                return fin(known.mkmap({}))
            if re.search(r'\bVec\b|vec::Vec', t):
                return fin(mk('arr', ()))
        if l == 'kind' and av and it.undr(st, av[0]).op == 'ioerr':
            return fin(mk('agg', 'core::io::error::ErrorKind', 'NotFound', ()))
        if name.startswith('serde_json::') and l in ('from_reader', 'from_str', 'from_slice') and av:
            f = [x for x in subterms(it.undr(st, av[0])) if x.op == 'file']
            if len(f) == 1 and f[0].a[0] in d.json:
                return fin(good(d.json[f[0].a[0]]))
        if name.startswith('serde_json::') and l in ('to_string', 'to_string_pretty', 'to_vec', 'to_vec_pretty') and av:
            return fin(good(mk('json', it.undr(st, av[0]))))
        if name.startswith('serde_json::') and l in ('to_writer', 'to_writer_pretty') and len(av) == 2:
            return fin(good(UNIT), op('write', handle(it.undr(st, av[0])), mk('json', it.undr(st, av[1]))))
        if l in ('write_all', 'write') and len(av) == 2 and handle(it.undr(st, av[0])) is not None:
            return fin(good(UNIT), op('write', handle(it.undr(st, av[0])), it.undr(st, av[1])))
        if l == 'copy' and len(av) == 2 and 'io' in name and handle(it.undr(st, av[0])) is not None:
            return fin(good(C(0)), op('copy', handle(it.undr(st, av[0])), handle(it.undr(st, av[1]))))
        if l in ('push', 'push_str') and len(av) == 2 and it.undr(st, av[0]).op == 'json':
            return fin(UNIT)
        if 'lock_exclusive' in l or 'lock_shared' in l:
            return fin(good(UNIT)) if 'fs2' in name else None
        return known.hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)


def handle(v):
    f = [x for x in subterms(v) if x.op == 'file']
    return f[0].a[0] if len(f) == 1 else None


def state(cx, latest):
    return build(cx, 'MigrationsState', latest=some(C(latest)) if latest else NONE)


def info(cx, frm, bases=(), backends=('x',)):
    return build(cx, 'MigrationInfo', from_name=some(C(frm)) if frm else NONE, table_bases=known.mkmap({b: C(frm) for b in bases}), backends=mk('arr', tuple(C(b) for b in backends)))


def series(cx, links, latest, extra=(), files=()):
    """A directory with migrations {name: predecessor}."""
    es, js = ['current/', *extra], {}
    if latest:
        es += ['state.json', '.gitignore', 'embedded.json']
        js['state.json'] = state(cx, latest)
    for n, frm in links.items():
        es += [n + '/', n + '/info.json', n + '/a.table', n + '/x_up.sql', n + '/x_down.sql']
        js[n + '/info.json'] = info(cx, frm, ('b',) if frm else ())
    return Disk(es, js)


def fsm(cx, path):
    return build(cx, 'FsMigration', fs=mk('fsys'), root=C(path))


def migrations(cx):
    return build(cx, 'FsMigrations', fs=mk('fsys'), root=C(ROOT), current=fsm(cx, ROOT + '/current'))


def run(cx, key, f, args, cells, disk):
    """The ways f goes on this disk when nothing fails: (what it did to files, result, cells)."""
    g = cx.graph(f, args=args, cells=cells, hook=OnDisk(disk), widen=1500, exact=50)
    ps = list(paths(g, kinds=('fs',), full='cells'))
    cx.ob(key + '.decided', ps, f'{f.name} ({key}): never returns', f.span)
    for evs, v, cs in ps:
        if cx.ob(key + '.returns', v is not None, f'{f.name} ({key}): can panic', f.span):
            yield [e.a for e in evs if e.k == 'fs'], v, cs


def changes(ops):
    """Files and directories touched, without the marker that is written once."""
    return [o for o in ops if o[0] != 'open' and not o[1].endswith('/.gitignore')]


LINKS = {'m1': None, 'm2': 'm1', 'm3': 'm2'}


def check_detach(cx):
    """Detaching moves the end of the chain back by one and leaves everything else."""
    f = cx.inherent(r'FsMigrations$', 'detach_latest_migration', CORE)
    for latest, want in (('m3', 'm2'), ('m2', 'm1'), ('m1', None), (None, None)):
        key = f'detach.{latest}'
        for r in run(cx, key, f, (cell('ms'),), {'ms': migrations(cx)}, series(cx, LINKS if latest else {}, latest)):
            ops, v, _ = r
            did = changes(ops)
            if want is None:
                cx.ob(key, is_err(v) and not did, f'detach_latest_migration with latest {latest}: {show(v, 3)}, does {did}', f.span)
                continue
            x = did[0] if len(did) == 1 else None
            now = x[2].a[0] if x and x[0] == 'write' and x[1] == ROOT + '/state.json' and x[2].op == 'json' else None
            l = field(cx, now, 'MigrationsState', 'latest') if now is not None else None
            cx.ob(key, not is_err(v) and l is some(C(want)), f'detach_latest_migration with latest {latest}: writes {show(l, 3) if l else did}', f.span)


def check_detached(cx):
    """The detached directories are those of migrations that are not in the chain."""
    f = cx.inherent(r'FsMigrations$', 'detached_migration_paths', CORE)
    for latest, extra, want in (('m3', (), []), ('m2', (), ['m3']), ('m1', (), ['m2', 'm3']), ('m2', ('m22/', 'currents/', 'notes'), ['currents', 'm22', 'm3'])):
        key = f'detached.{latest}.{len(extra)}'
        for r in run(cx, key, f, (cell('ms'),), {'ms': migrations(cx)}, series(cx, LINKS, latest, extra)):
            ops, v, cs = r
            x = v.a[2][0] if not is_err(v) else v
            got = sorted(cval(y) if is_const(y) else show(y, 4) for y in x.a[0]) if x.op == 'arr' else show(x, 5)
            cx.ob(key, got == [ROOT + '/' + w for w in want] and not changes(ops), f'detached_migration_paths with latest {latest}: {got}, wanted {want}', f.span)


def check_delete(cx):
    """Deleting the migrations takes every entry but the current schema, clearing the current schema only that."""
    f = cx.impl('MigrationsMut', 'delete_migrations', FSS)
    for links, extra in ((LINKS, ()), (LINKS, ('m22/', 'currents/', 'current.json', 'notes')), ({}, ())):
        d = series(cx, links, 'm3' if links else None, extra)
        for r in run(cx, f'delete.{len(links)}.{len(extra)}', f, (cell('ms'),), {'ms': migrations(cx)}, d):
            got = sorted(changes(r[0]))
            want = sorted(('rmdir' if d.entries[p] else 'rm', p) for p in d.within(ROOT) if p != ROOT + '/current')
            gone = [o for o in r[0] if o[0] in ('rm', 'rmdir')]
            cx.ob(f'delete.{len(links)}.{len(extra)}', sorted(gone) == want and len(gone) == len([o for o in r[0] if o[0] != 'open']) and not is_err(r[1]),
                  f'delete_migrations: {got}, wanted {want}', f.span)
    f = cx.impl('MigrationsMut', 'clear_current', FSS)
    for r in run(cx, 'current', f, (cell('ms'),), {'ms': migrations(cx)}, series(cx, LINKS, 'm3', ('currents/',))):
        cx.ob('current', r[0] == [('rmdir', ROOT + '/current')], f'clear_current: {r[0]}', f.span)


def check_strip(cx):
    """A migration stripped of its schema keeps only its place in the chain."""
    f = cx.inherent(r'FsMigration$', 'delete_db', CORE)
    for n, frm in LINKS.items():
        d = series(cx, LINKS, 'm3')
        for r in run(cx, 'strip.' + n, f, (cell('m'),), {'m': fsm(cx, ROOT + '/' + n)}, d):
            ops = [o for o in r[0] if o[0] != 'open']
            gone = sorted(o[1] for o in ops if o[0] != 'write')
            wr = [o for o in ops if o[0] == 'write']
            inf = ROOT + '/' + n + '/info.json'
            cx.ob(f'strip.{n}.gone', gone == [p for p in d.within(ROOT + '/' + n) if p != inf], f'delete_db of {n}: removes {gone}', f.span)
            if not cx.ob(f'strip.{n}.kept', [o[1] for o in wr] == [inf] and written(wr[0][2]) is not None, f'delete_db of {n}: writes {[o[1] for o in wr]}', f.span):
                continue
            x = written(wr[0][2])
            fr, bases, bk = (field(cx, x, 'MigrationInfo', k) for k in ('from_name', 'table_bases', 'backends'))
            cx.ob(f'strip.{n}.info', fr is (some(C(frm)) if frm else NONE) and nothing(bases) and nothing(bk),
                  f'delete_db of {n}: keeps from {show(fr, 3)}, tables {show(bases, 3)}, backends {show(bk, 3)}', f.span)


def written(v):
    j = [x for x in subterms(v) if x.op == 'json']
    return j[0].a[0] if len(j) == 1 else None


def nothing(v):
    return v.op in ('map', 'arr') and not v.a[0]


def check_copy(cx):
    """Copying a migration's directory copies every file under its own name."""
    f = cx.inherent(r'FsMigration$', 'copy_to', CORE)
    d = series(cx, LINKS, 'm3')
    for r in run(cx, 'copy', f, (cell('m'), cell('o')), {'m': fsm(cx, ROOT + '/m2'), 'o': fsm(cx, ROOT + '/current')}, d):
        got = sorted(o for o in r[0] if o[0] != 'open')
        want = [('copy', p, p.replace('/m2/', '/current/')) for p in d.within(ROOT + '/m2')]
        cx.ob('copy', got == want, f'copy_to: {got}, wanted {want}', f.span)


def check_memory(cx):
    """The same in memory."""
    T = lambda n: mk('tok', n)
    ms = lambda: build(cx, 'MemMigrations', migrations=known.mkmap({'m1': T('m1'), 'm2': T('m2')}), current=T('cur'), latest=some(C('m2')))
    f = cx.impl('MigrationsMut', 'delete_migrations', MS)
    for r in run(cx, 'memory.delete', f, (cell('ms'),), {'ms': ms()}, Disk((), {})):
        x = r[2]['ms']
        m, c, l = (field(cx, x, 'MemMigrations', k) for k in ('migrations', 'current', 'latest'))
        cx.ob('memory.delete', m.op in ('map', 'obj') and not (m.op == 'map' and m.a[0]) and l.a[1] == 'None' and c is T('cur'),
              f'delete_migrations in memory: leaves {show(m, 3)}, latest {show(l, 3)}, current {show(c, 3)}', f.span)
    f = cx.impl('MigrationsMut', 'clear_current', MS)
    for r in run(cx, 'memory.current', f, (cell('ms'),), {'ms': ms()}, Disk((), {})):
        x = r[2]['ms']
        m, c, l = (field(cx, x, 'MemMigrations', k) for k in ('migrations', 'current', 'latest'))
        cx.ob('memory.current', m is known.mkmap({'m1': T('m1'), 'm2': T('m2')}) and l is some(C('m2')) and not contains_op(c, ('tok',)),
              f'clear_current in memory: leaves {show(m, 3)}, latest {show(l, 3)}, current {show(c, 3)}', f.span)


def check_clear(cx):
    """Clearing the migrations deletes them and every record of one applied, nothing else of the database."""
    f = [f for f in cx.F.fns.values() if f.name == 'clear_migrations' and f.id.startswith(CORE)]
    if len(f) != 1:
        raise Missing('MigrationsMut::clear_migrations')
    f = f[0]
    n = 0
    for evs, v in paths(cx.graph(f, opaque=lambda n, i, fid: last(n) in ('delete_migrations', 'delete_where', 'delete', 'execute'), widen=300), kinds=('call', 'assume'), full=True):
        if v is None or is_err(v):
            cx.ob('clear.total', v is not None, 'clear_migrations can panic', f.span)
            continue
        n += 1
        d = [e for e in evs if e.k == 'call' and last(cname(e)) == 'delete_migrations' and e.a[1][0] is mk('p', 0)]
        w = [e for e in evs if e.k == 'call' and last(cname(e)) in ('delete_where', 'delete', 'execute')]
        cx.ob('clear.store', len(d) == 1, f'clear_migrations deletes the migrations ({len(d)} times)', f.span)
        cx.ob('clear.records', len(w) == 1 and last(cname(w[0])) == 'delete_where' and w[0].a[1][0] is mk('p', 1) and 'butane_migrations' in show(w[0].a[1][1], 9)
              and show(w[0].a[1][2], 9) == 'True', f'clear_migrations: {[(last(cname(e)), [show(a, 4) for a in e.a[1][1:]]) for e in w]}', f.span)
    cx.ob('clear.possible', n, 'clear_migrations can succeed', f.span)
