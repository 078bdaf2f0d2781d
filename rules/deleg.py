"""P01: the layers between a caller and the driver pass every operation on unchanged."""
from flow import *

TRAITS = ('ConnectionMethods', 'BackendConnection', 'BackendTransaction', 'Backend')
# where the operations are really carried out (the other properties decide these)
BASE = {
    'ConnectionMethods': r'^rusqlite::Connection$|^T$|TursoConnection$|DummyConnection$',
    'BackendConnection': r'SQLiteConnection$|PgConnection$|TursoConnection$|DummyConnection$',
    'BackendTransaction': r'SqliteTransaction<|PgTransaction<|TursoTransaction<',
    'Backend': r'SQLiteBackend$|PgBackend$|TursoBackend$|DummyBackend$',
}


def trait_of(p):
    return re.sub(r'<.*', '', p or '').rsplit('::', 1)[-1]


def flavourless(t):
    return t[:-5] if t.endswith('Async') else t


def family(cx):
    for f in sorted(cx.F.fns.values(), key=lambda f: f.id):
        if f.trait and not f.parent and f.crate == CORE and flavourless(trait_of(f.trait)) in TRAITS and 'db' in f.trait:
            yield flavourless(trait_of(f.trait)), f


def run(cx, names=None):
    fam = list(family(cx))
    ops = {}
    for t, f in fam:
        ops.setdefault(t, set()).add(f.name)
    allops = set().union(*ops.values())
    famid = {f.id for _, f in fam}

    def traitname(e):
        """Trait and method of a call event when it is an operation of the family."""
        n = cname(e)
        m = last(n)
        if m not in allops:
            return None
        rid = e.a[4]
        if rid in famid:
            return trait_of(cx.F.fns[rid].trait), m
        t = trait_of(n.rsplit('::', 1)[0])
        return (t, m) if flavourless(t) in TRAITS else None

    def opaque(name, info, fid):
        if fid in famid or last(name) in allops and flavourless(trait_of(name.rsplit('::', 1)[0])) in TRAITS:
            return True
        return last(name) == 'vec_from_backend_rows'

    n = 0
    for t, f in fam:
        if re.search(BASE[t], f.selfty):
            continue
        if t == 'Backend' and f.name in ('connect', 'connect_async') and 'SyncAdapter' in f.selfty:
            accept = {'connect', 'connect_async'}
        else:
            accept = {f.name}
        n += 1
        key = f'{short_ty(f.selfty)}.{f.name}{"/async" if trait_of(f.trait).endswith("Async") else ""}'
        g = cx.graph(f, opaque=opaque, hook=channel_hook, key='deleg')
        ps = paths(g, kinds={'call', 'assume', 'diverge', 'panic', 'sendfail', 'recvfail', 'lost', 'await', 'job'})
        bad = None
        done = False
        for evs, v in ps:
            bad = one(cx, f, t, g, evs, v, traitname, accept)
            if bad:
                break
            done |= any(e.k == 'call' and traitname(e) for e in evs) or f.name == 'connection_methods'
        if not bad and not done:
            bad = 'never calls the layer below'
        cx.ob(key, not bad, bad or f'{f.path} passes {f.name} on', f.span)
    return n


def one(cx, f, t, g, evs, v, traitname, accept):
    cs = [e for e in evs if e.k == 'call' and traitname(e) and (f.name == 'connection_methods' or traitname(e)[1] != 'connection_methods')]
    failed = any(e.k in ('sendfail', 'recvfail') for e in evs)
    if f.name == 'connection_methods' and not cs:
        return None if v is not None and show(v) in ('arg0', 'arg0.trans', 'arg0.inner', 'arg0.conn') else 'does not return the transaction itself'
    if len(cs) > 1:
        return f'calls the layer below {len(cs)} times: ' + ', '.join(last(cname(e)) for e in cs)
    if any(e.k == 'lost' for e in evs):
        return 'waits for an answer that is never sent'
    if not cs:
        if v is None:
            return None if failed else 'panics without calling the layer below'
        if not is_err(v):
            return f'returns {show(v, 3)} without calling the layer below'
        own = [e for e in evs if e.k == 'assume' and show(e.a[0], 8).startswith('arg0')]
        return None if own or failed else 'fails without calling the layer below'
    e = cs[0]
    ct, m = traitname(e)
    if m not in accept or flavourless(ct) != t:
        return f'calls {ct}::{m} instead of {t}::{f.name}'
    if e.a[4] == f.id or e.a[5]:
        return 'calls itself'
    args = e.a[1]
    recv = show(args[0], 8)
    if 'arg0' not in recv:
        return f'calls {m} of {recv}, which is not part of it'
    want = [f'arg{i}' for i in range(1, f.argc)]
    got = [show(a, 8) for a in args[1:]]
    if want != got:
        return f'passes ({", ".join(got)}) instead of its own arguments ({", ".join(want)})'
    r = e.a[2]
    res = show(r, 30)
    if v is None:
        return None if failed else 'panics after calling the layer below'
    if any(x.op == 'r' and show(x, 30) == res for x in [v]):
        return None
    awaited = any(x.k == 'await' and show(x.a[0], 30) == res for x in evs)
    if ct.endswith('Async') and f.name not in ('backend', 'backend_name', 'is_closed', 'name', 'row_id_column', 'create_migration_sql') \
            and not awaited:
        return 'does not await the call'
    inner = r
    if is_err(v):
        if failed:
            return None
        bad = [x for x in evs if x.k == 'assume' and x.a[1] == 'Ok' and show(x.a[0], 30) == res]
        if bad and not any(x.k == 'call' and last(cname(x)) == 'vec_from_backend_rows' for x in evs):
            return 'fails although the layer below succeeded'
        if not bad and not any(x is r for x in subterms(v)):
            return 'replaces the error of the layer below'
        return None
    good = [x for x in evs if x.k == 'assume' and x.a[1] == 'Ok' and show(x.a[0], 30) == res]
    if not good:
        return f'returns {show(v, 3)} whether or not the layer below succeeded'
    x = show(v, 40)
    okp = f'{res}~Ok.0'
    if x == f'Ok({okp})':
        return None
    if f.name == 'transaction' and is_ok(v) and any(y is r for y in subterms(v)):
        return None
    if f.name == 'query' and 'vec_from_backend_rows' in x and any(y is r for y in subterms(v)):
        conv = [y for y in subterms(v) if y.op == 'r' and last(str(y.a[0])) == 'vec_from_backend_rows']
        if conv and show(conv[0].a[1][1]) == 'arg2' and x == f'Ok({show(conv[0], 40)}~Ok.0)':
            return None
    if f.name in ('connect', 'connect_async') and any(y is r for y in subterms(v)):
        return None
    return f'returns {show(v, 4)} instead of the result of the layer below'
