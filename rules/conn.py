"""P31, P15: connection strings reach the backend that understands them; connections enforce foreign keys."""
from schema import *
from flow import *
from conv import contains
import flow, known

VALUE, NAMEP, CONN = mk('p', 'value'), mk('p', 'name'), mk('p', 'conn_str')
OK = lambda v: agg(RES, 'Ok', v)
SCHEMES = ('sqlite', 'file', 'postgres', 'postgresql', 'libsql', 'turso', 'mysql')
TRANSP = ('to_string', 'to_owned', 'clone', 'into', 'as_str', 'as_ref', 'deref', 'borrow', 'from', 'into_string', 'as_mut_str')


class Route:
    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
        args = tuple(it.undr(st, x) for x in av)
        a = args[0] if args else None

        def fork(outs):
            r = []
            for val, ev in outs:
                r += fin(val, evs + [Ev('is', ev, loc, fn.id)], State(st.stack, dict(st.store)))
            return r
        if l == 'parse' and 'Url' in name + fid + str(info.get('self', '')) and a is VALUE:
            E = 'url::ParseError'
            return fork([(OK(mk('url', C(s))), ('scheme', s)) for s in SCHEMES] +
                        [(agg(RES, 'Err', mk('agg', E, v, ())), ('error', v)) for v in ('InvalidPort', 'RelativeUrlWithoutBase', 'EmptyHost')])
        if a is not None and a.op == 'url' and l == 'scheme':
            return fin(a.a[0])
        if l in ('replacen', 'replace') and len(args) >= 3:
            return fin(mk(l, *args))
        if l == 'contains' and len(args) == 2 and a in (VALUE, CONN) and is_const(args[1]):
            return fork([(TRUE, ('contains', cval(args[1]))), (FALSE, ('lacks', cval(args[1])))])
        if l == 'starts_with' and len(args) == 2 and a is VALUE and is_const(args[1]):
            return fork([(TRUE, ('starts', cval(args[1]))), (FALSE, ('starts not', cval(args[1])))])
        if l == 'new' and 'Regex' in name + fid:
            return fin(OK(mk('regex', a)))
        if l == 'is_match' and a is not None and a.op == 'regex' and args[1] in (VALUE, CONN):
            return fork([(TRUE, ('match', cval(a.a[0]))), (FALSE, ('no match', cval(a.a[0])))])
        if a is VALUE and l in TRANSP and len(args) == 1:
            return fin(a)
        return None


def spec(cx, b, c):
    r = [k for k in cx.F.adts if k.endswith('::ConnectionSpec')]
    if len(r) != 1:
        raise Missing('type ConnectionSpec')
    names = [f[0] for f in cx.F.adts[r[0]]['variants'][0][2]]
    if sorted(names) != ['backend_name', 'conn_str']:
        raise Missing(f'fields of ConnectionSpec: {names}')
    return agg_(r[0], 'ConnectionSpec', [{'backend_name': b, 'conn_str': c}[n] for n in names])


def spec_of(cx, v):
    """(backend name, connection string) of a specification."""
    if v.op != 'agg' or not str(v.a[0]).endswith('::ConnectionSpec'):
        return None
    names = [f[0] for f in cx.F.adts[v.a[0]]['variants'][0][2]]
    d = dict(zip(names, v.a[2]))
    return d['backend_name'], d['conn_str']


KEYS = ('host', 'hostaddr', 'dbname', 'user')
PATHS = ('/tmp/a.db', 'a.db', ':memory:', './dir/x.sqlite3', 'hosts.db', 'C:\\data\\users.db', '')


def check_route(cx):
    """Backend and string made of a connection string, by its scheme."""
    fs = [f for f in cx.impls('TryFrom', 'try_from') if (f.selfty or '').endswith('::ConnectionSpec')]
    cx.ob('route.ways', len(fs) >= 3, f'{len(fs)} ways to make a connection specification of a text')
    for f in fs:
        h = Route()
        got = set()
        for evs, v in paths(cx.graph(f, args=[VALUE], hook=h.hook, exact=50, widen=100), full=True, limit=20000):
            facts = [e.a for e in evs if e.k == 'is']
            if not facts:
                cx.fail('route.parse', f'a connection string is not parsed: gives {show(v)[:80] if v is not None else "a panic"}', f.span)
                continue
            kind, what = facts[0]
            rest = dict(facts[1:])
            say = f'a connection string with the scheme {what}' if kind == 'scheme' else f'a connection string that is no URL ({what})' + ''.join(f', {k} {x!r}' for k, x in facts[1:])
            if v is None or not is_ok(v):
                cx.fail(f'route.{what}', f'{say} gives {show(v)[:80] if v is not None else "a panic"}', f.span)
                continue
            s = spec_of(cx, v.a[2][0])
            if s is None or not is_const(s[0]):
                cx.fail(f'route.{what}', f'{say} gives {show(v)[:80]}', f.span)
                continue
            b, c = cval(s[0]), s[1]
            got.add((kind, what, b))
            if kind == 'scheme':
                want = {'sqlite': 'sqlite', 'file': 'sqlite', 'postgres': 'pg', 'postgresql': 'pg', 'libsql': 'turso'}.get(what, what)
                other = {'sqlite': 'file', 'libsql': 'turso'}.get(what)
                cx.ob(f'route.{what}', b == want, f'{say} is for the backend {b}', f.span)
                cx.ob(f'route.{what}.string', renamed(c, what, other) if other else c is VALUE, f'{say} is passed on as {show(c, 4)[:100]}', f.span)
            elif what == 'InvalidPort':
                pg = [x for k, x in facts[1:] if k == 'starts']
                cx.ob('route.hosts', (b == 'pg') == bool(pg) and b in ('pg', 'sqlite') and all('postgres'.startswith(x) or x.startswith('postgres') for x in pg), f'{say} is for the backend {b}', f.span)
                cx.ob('route.hosts.string', c is VALUE, f'{say} is passed on as {show(c, 4)[:100]}', f.span)
            else:
                pat = [x for k, x in facts[1:] if k == 'match']
                cx.ob('route.pairs', (b == 'pg') == bool(pat) and b in ('pg', 'sqlite'), f'{say} is for the backend {b}', f.span)
                cx.ob('route.pairs.string', c is VALUE, f'{say} is passed on as {show(c, 4)[:100]}', f.span)
                for x in pat:
                    try:
                        r = re.compile(x)
                    except re.error:
                        cx.fail('route.pattern', f'the pattern {x!r} of key-value pairs cannot be analysed', f.span)
                        continue
                    for k in KEYS:
                        for g in ('', ' ', '  '):
                            cx.ob('route.pattern.key', bool(r.search(f'{k}{g}=x')) and bool(r.search(f'options=1 {k}{g}=x')), f'the pattern {x!r} does not recognise {k}{g}=', f.span)
                    for p in PATHS:
                        cx.ob('route.pattern.path', not r.search(p), f'the pattern {x!r} takes the path {p!r} for key-value pairs', f.span)
        for w in [('error', 'InvalidPort', 'pg'), ('error', 'RelativeUrlWithoutBase', 'pg'), ('error', 'RelativeUrlWithoutBase', 'sqlite')] + [('scheme', s) for s in SCHEMES]:
            cx.ob('route.all', any(g[:len(w)] == w for g in got), f'no way to {w}', f.span)


def renamed(c, a, b):
    """c is the connection string with its scheme replaced."""
    if c.op == 'replacen':
        return c.a[0] is VALUE and [x for x in c.a[1:]] == [C(a + ':'), C(b + ':'), C(1)]
    if c.op == 'replace':
        return False
    t = [x for x in subterms(c) if x.op == 'fmt']
    return bool(t) and contains(c, VALUE) and is_const(t[0].a[0][0]) and cval(t[0].a[0][0]) in (b, b + ':')


def backend_types(cx):
    """Name of each backend, by type."""
    out = {}
    for f in cx.impls('Backend', 'name', crate='butane_core'):
        if 'dyn' in f.selfty or '<T>' in f.selfty or 'SyncAdapter' in f.selfty:
            continue
        vs = [v for _, v in paths(cx.graph(f))]
        if len(vs) != 1 or vs[0] is None or not is_const(vs[0]):
            cx.fail('name.const', f'the name of the backend {f.selfty} is {[show(v)[:40] for v in vs if v is not None]}', f.span)
            continue
        out[f.selfty] = cval(vs[0])
    return out


def ty_of(v):
    for x in subterms(v):
        if x.op == 'agg' and str(x.a[0]).startswith('butane_core') and 'Backend' in str(x.a[0]):
            return str(x.a[0])
    return None


def check_names(cx):
    """A backend is found by its own name, and connections bear the name of their backend."""
    names = backend_types(cx)
    cx.ob('name.distinct', len(set(names.values())) == len(names), f'two backends have one name: {names}')
    f = cx.fn('butane_core::db::get_backend')
    real = {n: t for t, n in names.items() if 'dummy' not in t.lower()}
    cx.ob('name.known', set(real) == {'sqlite', 'pg', 'turso'}, f'the backends are named {sorted(real)}', f.span)
    for n in list(real) + ['', 'postgres', 'nope', 'SQLITE']:
        for evs, v in paths(cx.graph(f, args=[C(n)], hook=known.hook, exact=50), full=True):
            if n in real:
                t = ty_of(v) if v is not None else None
                cx.ob(f'find.{n}', t is not None and v.a[1] == 'Some' and same_ty(t, real[n]), f'the backend named {n} is {show(v, 3)[:80] if v is not None else "a panic"}', f.span)
            else:
                cx.ob('find.unknown', v is NONE, f'there is a backend named {n!r}: {show(v)[:80] if v is not None else "a panic"}', f.span)
    seen = 0
    for trait in ('BackendConnection', 'BackendConnectionAsync'):
        for f in cx.impls(trait, 'backend_name', crate='butane_core'):
            vs = [v for _, v in paths(cx.graph(f, opaque=lambda n, i, d: last(n) in ('backend_name', 'name')))]
            if not all(v is not None and is_const(v) for v in vs):
                continue
            g = [x for x in cx.impls(trait, 'backend', crate='butane_core') if x.selfty == f.selfty]
            ts = [ty_of(v) for x in g for _, v in paths(cx.graph(x), full=True) if v is not None]
            ok = len(ts) == 1 and all(any(same_ty(t, k) and names[k] == cval(v) for k in names) for t in ts for v in vs)
            seen += 1
            cx.ob(f'conn.{short_ty(f.selfty)}', ok, f'{f.selfty} has the backend {ts} and the backend name {[show(v) for v in vs]}', f.span)
    cx.ob('conn.count', seen >= 4, f'{seen} kinds of connection have a backend name of their own')


def same_ty(a, b):
    return a.split('<')[0] == b.split('<')[0]


class Connect:
    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
        args = tuple(it.undr(st, x) for x in av)
        a = args[0] if args else None
        if l == 'get_backend' and a is NAMEP:
            s2 = State(st.stack, dict(st.store))
            return fin(some(mk('p', 'be')), evs + [Ev('is', ('known',), loc, fn.id)]) + fin(NONE, evs + [Ev('is', ('unknown',), loc, fn.id)], s2)
        return None


def check_connect(cx):
    """Connecting asks the backend named for a connection to the string given."""
    for fname, m in (('butane_core::db::connect', 'connect'), ('butane_core::db::connect_async', 'connect_async')):
        f = cx.fn(fname)
        h = Connect()
        oks = 0
        for evs, v in paths(cx.graph(f, args=[spec(cx, NAMEP, CONN)], hook=h.hook, opaque=lambda n, i, d: last(n) == m and 'Backend' in n + str(i)), full=True):
            cs = [e for e in evs if e.k == 'call' and last(str(e.a[0])) == m]
            known_ = [e.a[0] for e in evs if e.k == 'is']
            if known_ == ['unknown']:
                cx.ob(f'{m}.unknown', not cs and v is not None and is_err(v) and any(x.op == 'agg' and x.a[1] == 'UnknownBackend' and contains(x, NAMEP) for x in subterms(v)),
                      f'connecting to an unknown backend gives {show(v, 3)[:80] if v is not None else "a panic"}', f.span)
                continue
            ok = known_ == ['known'] and len(cs) == 1 and cs[0].a[1][0] is mk('p', 'be') and cs[0].a[1][1] is CONN and v is not None and contains(v, cs[0].a[2])
            oks += ok
            cx.ob(m, ok, f'{fname} asks {[[show(x) for x in e.a[1]] for e in cs]} and gives {show(v, 3)[:80] if v is not None else "a panic"}', f.span)
        cx.ob(f'{m}.ok', oks >= 1, f'{fname} never connects', f.span)
    # pools
    for trait, meth, want in (('ManageConnection', 'connect', 'connect'), ('Manager', 'create', 'connect_async')):
        fs = [f for f in cx.impls(trait, meth, crate='butane') if 'ConnectionManager' in f.selfty]
        cx.ob(f'pool.{trait}', len(fs) == 1, f'{len(fs)} implementations of {trait} for ConnectionManager')
        for f in fs:
            for evs, v in paths(cx.graph(f, args=[mk('p', 'pool')], opaque=lambda n, i, d: last(n) == want), full=True):
                cs = [e for e in evs if e.k == 'call' and last(str(e.a[0])) == want]
                ok = len(cs) == 1 and show(cs[0].a[1][0]).endswith('.spec') and contains(cs[0].a[1][0], mk('p', 'pool')) and v is not None and contains(v, cs[0].a[2])
                cx.ob(f'pool.{trait}.{meth}', ok, f'a pool connects with {[[show(x) for x in e.a[1]] for e in cs]} and gives {show(v, 3)[:80] if v is not None else "a panic"}', f.span)
    closed = lambda n, i, d: last(n) in ('is_closed', 'execute')
    for f in [f for f in cx.impls('ManageConnection', 'has_broken', crate='butane')]:
        for evs, v in paths(cx.graph(f, args=[mk('p', 'pool'), mk('p', 'c')], opaque=closed)):
            ok = v is not None and v.op == 'r' and last(str(v.a[0])) == 'is_closed' and contains(v, mk('p', 'c'))
            cx.ob('pool.broken', ok, f'a pooled connection is broken if {show(v)[:80] if v is not None else "a panic"}', f.span)
    for f in [f for f in cx.impls('ManageConnection', 'is_valid', crate='butane')]:
        for evs, v in paths(cx.graph(f, args=[mk('p', 'pool'), mk('p', 'c')], opaque=closed)):
            cs = [e for e in evs if e.k == 'call' and last(str(e.a[0])) == 'execute']
            ok = len(cs) == 1 and contains(cs[0].a[1][0], mk('p', 'c')) and v is not None and (v is cs[0].a[2] or is_ok(v) or contains(v, cs[0].a[2]))
            bad = any(e.k == 'assume' and str(e.a[1]) == 'Err' for e in evs) and v is not None and is_ok(v)
            cx.ob('pool.valid', ok and not bad, f'a pooled connection is tested by {[show(e.a[1][0]) for e in cs]}', f.span)
    for f in [f for f in cx.impls('Manager', 'recycle', crate='butane')]:
        ends = set()
        for evs, v in paths(cx.graph(f, args=[mk('p', 'pool'), mk('p', 'c'), mk('p', 'm')], opaque=closed), full=True):
            shut = [str(e.a[1]) for e in evs if e.k == 'assume' and isinstance(e.a[0], V) and e.a[0].op == 'r' and last(str(e.a[0].a[0])) == 'is_closed']
            ends.add((shut[0] if shut else None, v is not None and is_ok(v)))
        cx.ob('pool.recycle', ends == {('True', False), ('False', True)}, f'a pooled connection that is closed / usable is used again: {sorted(map(str, ends))}', f.span)


def check_parameter(cx):
    """A parameter is appended in the syntax of the connection string."""
    f = cx.inherent('ConnectionSpec', 'add_parameter', crate='butane_core')
    N, W = mk('p', 'pname'), mk('p', 'pvalue')
    for b in ('pg', 'sqlite', 'turso'):
        class H(Route):
            def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
                l = last(name)
                fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
                args = tuple(it.undr(st, x) for x in av)
                if l == 'parse' and 'Url' in name + fid + str(info.get('self', '')):
                    s2 = State(st.stack, dict(st.store))
                    return fin(OK(mk('url', C('x'))), evs + [Ev('is', ('url', True), loc, fn.id)]) + \
                        fin(agg(RES, 'Err', mk('p', 'e')), evs + [Ev('is', ('url', False), loc, fn.id)], s2)
                return Route.hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)
        g = cx.graph(f, args=[flow.cell('spec'), N, W], hook=H().hook, cells={'spec': spec(cx, C(b), CONN)}, exact=50, widen=100)
        for evs, v, cells in paths(g, full='cells', limit=20000):
            facts = [e.a for e in evs if e.k == 'is']
            kinds = [k for k, _ in facts]
            pushed = [e for e in evs if e.k in ('emit', 'cmut')]
            sep = None
            txt = ''.join(piece(x, N, W) for e in evs if e.k == 'emit' for x in flat(e.a[1]))
            end = cells.get('spec')
            if not txt and end is not None:
                s = spec_of(cx, end)
                txt = '' if s and s[1] is CONN else ''.join(piece(x, N, W) for x in flat(s[1])) if s else '?'
            pairs = b == 'pg' and 'match' in kinds and (('lacks', '://') in facts or ('url', False) in facts)
            url = ('url', True) in facts
            want = ' N=W' if pairs else '' if not url else '&N=W' if ('contains', '?') in facts else '?N=W'
            cx.ob(f'param.{b}', txt.replace('S', '') == want if want else txt == '', f'adding a parameter for {b} where {facts} appends {txt!r}', f.span)
            cx.ob(f'param.{b}.end', v is not None and is_ok(v) == bool(want), f'adding a parameter for {b} where {facts} gives {show(v)[:60] if v is not None else "a panic"}', f.span)


def flat(v):
    if isinstance(v, tuple):
        return [y for x in v for y in flat(x)]
    if isinstance(v, V) and v.op == 'fmt':
        return flat(v.a[0])
    if isinstance(v, V) and v.op == 'r' and last(str(v.a[0])) in ('format', 'to_string', 'into', 'from', 'must_use'):
        return [y for x in v.a[1] for y in flat(x)]
    return [v]


def piece(x, n, w):
    if isinstance(x, str):
        return x
    if is_const(x):
        return str(cval(x))
    if x.op == 'hole':
        x = x.a[1]
    return 'N' if x is n else 'W' if x is w else 'S' if x is CONN else '\u00bf' + show(x)[:30] + '?'


def check_saved(cx):
    """A specification is read back from where it was written."""
    out = {}
    for m, op in (('save', 'create'), ('load', 'open')):
        f = cx.inherent('ConnectionSpec', m, crate='butane_core')
        args = [mk('p', 'me'), mk('p', 'path')] if m == 'save' else [mk('p', 'path')]
        for evs, v in paths(cx.graph(f, args=args, opaque=lambda n, i, d: last(n) in ('create', 'open', 'to_string_pretty', 'to_string', 'to_vec', 'from_reader', 'to_writer', 'to_writer_pretty', 'write_all', 'join', 'is_dir')), full=True):
            cs = [e for e in evs if e.k == 'call' and last(str(e.a[0])) == op]
            isdir = [str(e.a[1]) for e in evs if e.k == 'assume' and isinstance(e.a[0], V) and e.a[0].op == 'r' and last(str(e.a[0].a[0])) == 'is_dir']
            for e in cs:
                out.setdefault((m, tuple(isdir)), set()).add(show(e.a[1][0], 6))
            err = any(e.k == 'assume' and str(e.a[1]) == 'Err' for e in evs)
            if v is None:
                cx.fail(f'{m}.panic', f'{m} of a connection specification can panic', f.span)
                continue
            if is_ok(v):
                cx.ob(f'{m}.swallow', not err, f'{m} of a connection specification ignores a failure', f.span)
            if m == 'save' and not is_err(v):
                ser = [e for e in evs if e.k == 'call' and last(str(e.a[0])).startswith('to_') and 'serde_json' in str(e.a[0])]
                cx.ob('save.whole', any(x is mk('p', 'me') for e in ser for x in e.a[1]), f'what is saved is {[show(x)[:40] for e in ser for x in e.a[1]]}', f.span)
    f = cx.inherent('ConnectionSpec', 'save', crate='butane_core')
    for d in (('True',), ('False',)):
        a, b = out.get(('save', d)), out.get(('load', d))
        cx.ob('saved.where', bool(a) and a == b and len(a) == 1, f'a connection specification is saved to {sorted(a or [])} and loaded from {sorted(b or [])}', f.span)


# ---- P15: foreign keys are enforced on every connection -------------------------------------------
def pragma(sql):
    """(name, value) of a pragma that is set by `sql`, or None."""
    m = re.fullmatch(r'''\s*PRAGMA\s+(?:main\s*\.\s*)?(\w+)\s*(?:=\s*['"]?(\w+)['"]?|\(\s*['"]?(\w+)['"]?\s*\))\s*;?\s*''', sql, re.I)
    return (m[1].lower(), (m[2] or m[3]).lower()) if m else None


def text_of(v):
    v = deref(v)
    return str(cval(v)) if is_const(v) else None


def deref(v):
    while v is not None and v.op in ('ref', 'deref', 'copy') and v.a and isinstance(v.a[0], V):
        v = v.a[0]
    return v


RUN = ('execute', 'execute_batch', 'prepare', 'query', 'query_row', 'pragma_update', 'pragma_query_value', 'prepare_cached', 'pragma')
OPENERS = ('open', 'open_in_memory', 'open_with_flags', 'new_local', 'build', 'connect', 'open_with_flags_and_vfs', 'open_in_memory_with_flags')


def foreign(n, i):
    s = n + str(i)
    return 'butane' not in n.split('<')[0] and ('rusqlite::' in s or 'turso::' in s or 'libsql' in s)


def check_enforce(cx):
    """A SQLite or Turso connection only comes to be with foreign keys enforced, on the database asked for."""
    for b, m, conn in (('SQLiteBackend', 'connect', 'SQLiteConnection'), ('TursoBackend', 'connect_async', 'TursoConnection')):
        f = cx.impl('Backend', m, b)
        oks = 0
        for evs, v in paths(cx.graph(f, args=[mk('p', 'be'), CONN], opaque=lambda n, i, d: foreign(n, i)), full=True):
            if v is None:
                continue
            if is_err(v):
                continue
            oks += 1
            inner = [x for x in subterms(v) if x.op == 'agg' and str(x.a[0]).endswith('::' + conn)]
            calls = [e for e in evs if e.k == 'call']
            opens = [e for e in calls if last(str(e.a[0])) in OPENERS and foreign(str(e.a[0]), '')]
            if not cx.ob('made', len(inner) == 1 and len(inner[0].a[2]) == 1 and opens, f'{b}::{m} gives {show(v, 5)[:120]}', f.span):
                continue
            c = inner[0].a[2][0]
            src = opens[-1].a[2]
            cx.ob('opened', contains(c, src), f'{b}::{m} gives a connection other than the one it opened: {show(c, 5)[:100]}', f.span)
            where = [x for e in opens for x in e.a[1] if not contains_op(x, 'r')]
            same = {(show(e.a[0].a[0]) if False else str(e.a[1])) for e in evs if e.k == 'assume' and isinstance(e.a[0], V) and contains(e.a[0], CONN) and not contains(e.a[0], src)}
            cx.ob('path', any(whole(x) is CONN or is_const(x) and spelled(evs, x) for x in where) and len(where) >= 1,
                  f'{b}::{m} opens {[show(x) for x in where]} (when {sorted(same)})', f.span)
            on = 0
            for k, e in enumerate(evs):
                if e.k != 'call' or not last(str(e.a[0])) in RUN or not any(x is c for x in e.a[1]):
                    continue
                txt = [text_of(x) for x in e.a[1] if text_of(x) is not None]
                sets = [pragma(t) for t in txt if pragma(t)]
                if last(str(e.a[0])) == 'pragma_update' and txt[:1] == ['foreign_keys']:
                    sets = [('foreign_keys', str(x).lower()) for x in txt[1:2]]
                done = any(d.k == 'assume' and str(d.a[1]) == 'Ok' and isinstance(d.a[0], V) and contains(d.a[0], e.a[2]) for d in evs[k:]) or contains(v, e.a[2])
                for n, val in sets:
                    if n == 'foreign_keys':
                        on = (val in ('on', '1', 'true', 'yes')) and done
            cx.ob('enforced', bool(on), f'{b}::{m} gives a connection on which foreign keys were not (successfully) switched on', f.span)
        cx.ob(f'{b}.ok', oks >= 1, f'{b}::{m} never connects', f.span)
        # every place that makes such a connection is only reached through there
        todo, seen = builders(cx, conn), set()
        cx.ob('builders', bool(todo), f'nothing makes a {conn}')
        while todo:
            o = todo.pop()
            o = root(cx, o)
            if o.id in seen or o is root(cx, f):
                continue
            seen.add(o.id)
            up = callers(cx, o)
            cx.ob('only', bool(up) and not o.reach and not o.trait, f'{o.id} makes a {conn} apart from {b}::{m}', o.span)
            todo += up
    for o in cx.F.fns.values():
        for t in literals(o):
            for q in re.findall(r'PRAGMA[^;]*', t, re.I):
                n = pragma(q)
                cx.ob('kept', not (n and n[0] in ('foreign_keys', 'defer_foreign_keys') and n[1] not in ('on', '1', 'true', 'yes')), f'{o.id} says {q!r}', o.span)


def whole(v):
    """The value behind conversions of text."""
    while v is not None and v.op == 'r' and last(str(v.a[0])) in TRANSP + ('new', 'as_ref') and len(v.a) > 1 and isinstance(v.a[1], V):
        v = v.a[1]
    return v


def spelled(evs, x):
    """On this path the text asked for was found to equal the constant x."""
    return any(e.k == 'assume' and str(e.a[1]) == 'True' and isinstance(e.a[0], V) and contains(e.a[0], CONN) and contains(e.a[0], x) for e in evs)


def contains_op(v, op):
    return any(x.op == op for x in subterms(v))


def root(cx, f):
    while f.parent and f.parent in cx.F.fns:
        f = cx.F.fns[f.parent]
    return f


def builders(cx, ty):
    return [f for f in cx.F.fns.values() if not f.derived and any(
        s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1].endswith('::' + ty) for b in f.blocks for s in b[0])]


def callers(cx, g):
    def names(o):
        if isinstance(o, list):
            if len(o) >= 3 and o[0] == 'fn' and isinstance(o[2], dict):
                yield o[2].get('d')
            for x in o:
                yield from names(x)
    if not hasattr(cx.F, '_callers'):
        m = {}
        for f in cx.F.fns.values():
            for n in names(f.blocks):
                m.setdefault(n, set()).add(f.id)
        cx.F._callers = m
    return [cx.F.fns[i] for i in sorted(cx.F._callers.get(g.id, ()))]


def literals(f):
    """The constant strings in a function."""
    def go(o):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == 'str' and isinstance(o[1], str):
                yield o[1]
            for x in o:
                yield from go(x)
    return set(go(f.blocks))
