"""P22: a database, file or migration operation that fails is never passed over."""
from lib import *
from rows import is_err
import re

CRATES = ('butane_core', 'butane', 'butane_cli', 'butane_bin')
# what touches something outside the program
OUTSIDE = re.compile(r'^(std::fs|std::io|std::process|rusqlite|tokio_postgres|postgres_native_tls|turso|r2d2|r2d2_sqlite|deadpool|bb8|fs2|cargo_metadata)\b')
OPTRAITS = re.compile(r'::(ConnectionMethods(Async)?|BackendConnection(Async)?|BackendTransaction(Async)?|Backend|BackendRows|Filesystem|Migrations|MigrationsMut|Migration|MigrationMut|'
                      r'DataObjectOps(Sync|Async)|QueryOps(Sync|Async)|ManyOps(Sync|Async)|ForeignKeyOps(Sync|Async)|DataObjectInternal|DataObject|FromSql)$')
# reporting itself, not an operation on data
NOT_OPS = re.compile(r'(::config_log|::connection_string|::backend_name|::write_fmt|::flush|::from_row|::pk|::_print|::current_dir|stdout|stderr)$')
ERRORS = re.compile(r'^(std::result::)?Result<.*, (butane_core::Error|std::io::Error|rusqlite::Error|tokio_postgres::Error|turso::Error|r2d2::Error|serde_json::Error|anyhow::Error|'
                    r'butane_core::db::\w+::\w*Error|deadpool[\w:]*Error[^,]*|std::boxed::Box<dyn std::error::Error.*)>$')
# a question about something that is not there yet, not a failure
UNKNOWN = {'NotInitialized', 'UnknownSqlType', 'CannotResolveType'}
SILENT = ('Drop', 'Debug', 'Display')


def operations(cx):
    """Functions of the program that operate, directly or through others, on something outside it."""
    F = cx.F
    calls, ops = {}, set()
    for f in F.fns.values():
        c = calls.setdefault(f.id, set())
        if f.parent:
            calls.setdefault(f.parent, set()).add(f.id)
        for b in f.blocks:
            t = b[1]
            if t[0] == 'call' and t[1][0] == 'fn' and len(t[1]) > 2:
                i = t[1][2]
                c.add(i.get('r') or i['d'])
                if is_op(i):
                    ops.add(f.id)
    back = {}
    for a, bs in calls.items():
        for b in bs:
            back.setdefault(b, set()).add(a)
    todo = list(ops)
    while todo:
        for a in back.get(todo.pop(), ()):
            if a not in ops:
                ops.add(a)
                todo.append(a)
    return ops


def is_op(i):
    n = i.get('p') or i['d']
    return bool((OUTSIDE.match(n) or OUTSIDE.match(i['d']) or i.get('tr') and OPTRAITS.search(i['tr'])) and not NOT_OPS.search(n))


def mentioned(x, out):
    if isinstance(x, list):
        if x and isinstance(x[0], int) and all(isinstance(y, (int, str, list)) for y in x):
            out.add(x[0])
        for y in x:
            mentioned(y, out)


def is_future(t):
    return 'Future' in t or 'future' in t or 'oroutine' in t or 'async' in t and 'closure' in t


def check_unread(cx):
    """No result of an operation, and no future, is dropped without being looked at."""
    F = cx.F
    n = 0
    for f in F.fns.values():
        if f.crate not in CRATES or f.derived or silent(F, f):
            continue
        dests, used = [], set()
        for b in f.blocks:
            for s in b[0]:
                if s[0] in ('live', 'dead'):
                    continue
                mentioned(s[2:] if s[0] == '=' else s[1:], used)
                if s[0] == '=' and len(s[1]) > 1:
                    used.add(s[1][0])
            t = b[1]
            if t[0] == 'call':
                dests.append((t[3], t))
                mentioned(t[1], used)
                mentioned(t[2], used)
            elif t[0] != 'drop':
                mentioned(t[1:], used)
        for d, t in dests:
            if len(d) != 1:
                continue
            ty = f.local_ty(d[0])
            fut = is_future(ty)
            if not (fut or ERRORS.match(ty)):
                continue
            n += 1
            nm = t[1][2]['d'] if t[1][0] == 'fn' and len(t[1]) > 2 else 'a function value'
            if NOT_OPS.search(nm):
                continue
            cx.ob(f'unread.{f.id}.{last(nm)}', d[0] == 0 or d[0] in used,
                  f'{f.id} ' + (f'makes the future of {last(nm)} and never runs it' if fut else f'never looks at the result of {last(nm)}'), t[5])
    cx.note(f'{n} results and futures')


def check_skipped(cx):
    """No sequence of results is filtered down to those that succeeded."""
    F = cx.F
    n = 0
    for f in F.fns.values():
        if f.crate not in CRATES or f.derived or silent(F, f):
            continue
        for b in f.blocks:
            t = b[1]
            if t[0] != 'call' or t[1][0] != 'fn' or len(t[1]) < 3 or not t[1][2]['d'].startswith('core::iter::'):
                continue
            i = t[1][2]
            nm = last(i['d'])
            n += 1
            if nm in ('flatten', 'count', 'last', 'nth', 'skip'):
                cx.ob(f'skipped.{f.id}.{nm}', not ERRORS.match(item(F, f, i['self'])), f'{f.id}: {nm} drops the errors of a sequence of results', t[5])
            for a in t[2]:
                if a[0] == 'fn' and a[2]['d'].startswith('core::result::') and last(a[2]['d']) in ('ok', 'is_ok', 'into_iter', 'unwrap_or_default'):
                    cx.ob(f'skipped.{f.id}.{nm}', not ERRORS.match('Result<_, ' + f.ty((a[2].get('a') or [-1])[-1]) + '>'), f'{f.id}: {nm} keeps only the results that are {last(a[2]["d"])}', t[5])
    cx.note(f'{n} calls on sequences')


def item(F, f, ty):
    """What a sequence of this type yields, where a function of the program makes the items."""
    ti = f.tinfo[ty]
    while ti.get('k') == 'adt' and ti.get('a') and not ti['d'].endswith('::Map'):
        ti = f.tinfo[ti['a'][0]]
    if ti.get('k') != 'adt' or not ti.get('a'):
        return '?'
    fn = f.tinfo[ti['a'][-1]]
    c = F.fns.get(fn.get('d'))
    return c.local_ty(0) if c else '?'


def silent(F, f):
    while f:
        if f.trait and f.trait.split('<')[0].rsplit('::', 1)[-1] in SILENT:
            return True
        f = F.fns.get(f.parent) if f.parent else None
    return False


def check_passed(cx, crate='butane_core'):
    """From every failed operation only error returns can be reached, unless the kind of error was looked at."""
    F = cx.F
    ops = operations(cx)
    n = fns = 0
    for f in list(F.fns.values()):
        if f.crate != crate or f.coroutine or f.derived or silent(F, f) or f.kind not in ('Fn', 'AssocFn', 'Method', 'Closure'):
            continue
        if f.parent and f.kind != 'Closure':
            continue
        if f.id not in ops and not any(ERRORS.match(f.local_ty(a)) for a in range(len(f.locals))):
            continue

        def opaque(nm, i, fid, me=f):
            return fid in F.fns and not F.fns[fid].coroutine and fid != me.id and F.fns[fid].kind != 'Closure'
        g = cx.graph(f, opaque=opaque, key=('errors',), widen=100)
        calls = {}
        for s, i, e, d in g.events():
            if e.k in ('call',) and hasattr(e.a[2], 'op'):
                calls[e.a[2]] = e
        fns += 1
        given = [mk('p', a) for a in range(f.argc) if f.kind == 'Closure' and ERRORS.match(f.local_ty(a + 1))]
        for s, l in g.succ.items():
            for evs, d in l:
                for i, e in enumerate(evs):
                    if e.k != 'assume' or str(e.a[1]) != 'Err' or callback(F, f, e.fn):
                        continue
                    c = calls.get(e.a[0])
                    if e.a[0] in given:
                        nm = 'its argument'
                    elif c is None or callback(F, f, c.fn) or not operation(F, ops, c):
                        continue
                    else:
                        nm = last(str(c.a[0])) if isinstance(c.a[0], str) else 'a function value'
                    n += 1
                    r = escape(g, e.a[0], evs[i + 1:], d)
                    cx.ob(f'passed.{f.id}.{nm}', r is None, f'{f.id}: {nm} can fail and {show(r, 4)[:120] if r is not None else ""} is returned', e.loc or c.loc or f.span)
    cx.note(f'{n} failures in {fns} functions')


def made(F, f):
    """The errors that a function makes itself."""
    out = set()
    for b in f.blocks + [b for c in F.children(f.id) for b in c.blocks]:
        for s in b[0]:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == 'butane_core::Error':
                out.add(s[2][1][2])
    return out


def callback(F, f, fid):
    """Is this in a closure of f, which is looked at by itself?"""
    while fid in F.fns and fid != f.id:
        if F.fns[fid].kind == 'Closure' and not F.fns[fid].coroutine:
            return True
        fid = F.fns[fid].parent
    return False


def operation(F, ops, c):
    rid, nm = c.a[4], c.a[0]
    if not isinstance(nm, str) or NOT_OPS.search(nm):
        return False
    f = F.fns.get(rid) if isinstance(rid, str) else None
    if f is not None:
        return f.id in ops or bool(ERRORS.match(f.local_ty(0))) and (not made(F, f) or not made(F, f) <= UNKNOWN)
    tr = nm.rsplit('::', 1)[0]
    return bool(OUTSIDE.match(nm) or OPTRAITS.search(tr))


def escape(g, t, evs, d):
    """A value other than an error that is returned after the failure t, or None."""
    seen = set()
    todo = [(evs, d)]
    while todo:
        evs, d = todo.pop()
        if any(looked(e, t) or e.k == 'mayrun' for e in evs):
            continue
        if d in g.finals:
            v = g.finals[d]
            if not (is_err(v) or show(v).endswith('~Break.0') or any(x is t for x in subterms(v))):
                return v
            continue
        if d in seen:
            continue
        seen.add(d)
        todo += g.succ.get(d, [])
    return None


def looked(e, t):
    """Is the error itself examined here?"""
    return e.k == 'assume' and e.a[0] is not t and any(x is t for x in subterms(e.a[0])) or e.k == 'diverge' or \
        e.k in ('call', 'emit', 'push') and 'compile_error' in str([show(x, 3) if hasattr(x, 'op') else [show(y, 3) for y in x if hasattr(y, 'op')] for x in e.a[:2]
                                                                   if hasattr(x, 'op') or isinstance(x, tuple)])
