"""P02: transactions begin, commit, roll back and are abandoned as promised."""
from flow import *
import deleg

KINDS = {'call', 'assume', 'set', 'drop', 'await', 'panic', 'diverge', 'sendfail', 'recvfail', 'lost'}
BEGIN = re.compile(r'^\s*BEGIN(\s+(DEFERRED|IMMEDIATE|EXCLUSIVE|CONCURRENT))?(\s+TRANSACTION)?\s*;?\s*$', re.I)
COMMIT = re.compile(r'^\s*(COMMIT|END)(\s+TRANSACTION)?\s*;?\s*$', re.I)
ROLLBACK = re.compile(r'^\s*ROLLBACK(\s+TRANSACTION)?\s*;?\s*$', re.I)
DRIVER = re.compile(r'^(rusqlite|tokio_postgres|postgres|turso)::')
TX = {'sqlite': ('SQLiteConnection$', 'SqliteTransaction<'), 'pg': ('PgConnection$', 'PgTransaction<'),
      'turso': ('TursoConnection$', 'TursoTransaction<')}


def text_of(e):
    """Constant statement text among the arguments of a call."""
    for a in e.a[1]:
        if is_const(a) and isinstance(cval(a), str):
            return cval(a)
    return None


def action(e):
    """What a call does to the database transaction: begin / commit / rollback / other."""
    if e.k not in ('call', 'diverge'):
        return None
    n = cname(e)
    m = last(n)
    t = text_of(e)
    if m in ('execute', 'execute_batch', 'batch_execute', 'simple_query', 'query', 'prepare'):
        if t is not None:
            for w, r in (('begin', BEGIN), ('commit', COMMIT), ('rollback', ROLLBACK)):
                if r.match(t):
                    return w
        return 'other'
    if DRIVER.match(n):
        if 'ransaction' in n or m in ('transaction', 'transaction_with_behavior', 'unchecked_transaction', 'build_transaction', 'start'):
            if m in ('commit', 'rollback'):
                return m
            if m in ('transaction', 'transaction_with_behavior', 'unchecked_transaction', 'start') or n.endswith('Transaction::new'):
                return 'begin'
            if m in ('finish',):
                return 'rollback'
            if m in ('set_drop_behavior', 'savepoint'):
                return 'drop-behaviour'
        return None
    return None


def opaque(name, info, fid):
    return last(name) == 'execute' and 'ConnectionMethods' in name


def outcome(evs, e):
    """'Ok' / 'Err' when the path has looked at the result of call e."""
    r = show(e.a[2], 40)
    for x in evs:
        if x.k == 'assume' and show(x.a[0], 40) == r and x.a[1] in ('Ok', 'Err'):
            return x.a[1]
    return None


def awaited(evs, e):
    if 'rusqlite' in cname(e):
        return True
    r = show(e.a[2], 40)
    return any(x.k == 'await' and show(x.a[0], 40) == r for x in evs)


def sets(evs):
    out = {}
    for e in evs:
        if e.k == 'set':
            m = re.match(r'^arg0\.(\w+)$', show(e.a[0], 6))
            if m:
                out[m.group(1)] = e.a[1]
    return out


def variant(v):
    if v.op == 'agg':
        return v.a[1]
    if is_const(v):
        return str(cval(v))
    return None


def compatible(evs, state):
    for e in evs:
        if e.k == 'assume':
            m = re.match(r'^arg0\.(\w+)$', show(e.a[0], 6))
            if m and m.group(1) in state:
                w = variant(state[m.group(1)])
                if w is not None and w != str(e.a[1]):
                    return False
    return True


def finaliser(cx, b, what, f):
    """commit / rollback of a backend transaction; returns the states it can leave behind."""
    g = cx.graph(f, opaque=opaque, key='tx')
    k = f'{b}.{what}'
    states = []
    succ = 0
    for evs, v in paths(g, kinds=KINDS):
        acts = [(action(e), e) for e in evs if action(e)]
        st = sets(evs)
        if v is None:
            cx.fail(k + '.total', f'{b} {what}: panics', f.span)
            continue
        if len(acts) > 1 or any(a != what for a, _ in acts):
            cx.fail(k + '.only', f'{b} {what}: does {", ".join(a for a, _ in acts)}', f.span)
            continue
        if not acts:
            cx.ob(k + '.refused', is_err(v), f'{b} {what}: reports success without {what} reaching the database', f.span)
            cx.ob(k + '.refused.why', any(e.k == 'assume' and show(e.a[0], 6).startswith('arg0.') for e in evs),
                  f'{b} {what}: refuses only when the transaction was consumed', f.span)
            continue
        e = acts[0][1]
        cx.ob(k + '.receiver', 'arg0' in show(e.a[1][0], 8), f'{b} {what}: acts on this transaction', e.loc)
        cx.ob(k + '.await', awaited(evs, e), f'{b} {what}: the {what} is awaited', e.loc)
        o = outcome(evs, e)
        r = e.a[2]
        if is_ok(v):
            cx.ob(k + '.success', o == 'Ok', f'{b} {what}: success is reported only when the database has confirmed it', f.span)
            succ += 1
            gone = any(variant(x) == 'None' for x in st.values())
            cx.ob(k + '.consumed', gone, f'{b} {what}: the transaction is consumed', f.span)
            states.append(('ok', st))
        elif is_err(v):
            cx.ob(k + '.failure', o == 'Err' and any(x is r for x in subterms(v)), f'{b} {what}: a failure of the database is reported as it is', f.span)
            states.append(('err', st))
        else:
            cx.ob(k + '.result', any(x is r for x in subterms(v)) or show(v, 40) == show(r, 40), f'{b} {what}: the result is that of the database', f.span)
            succ += 1
            gone = any(variant(x) == 'None' for x in st.values())
            cx.ob(k + '.consumed', gone, f'{b} {what}: the transaction is consumed', f.span)
            states.append(('ok', st))
    cx.ob(k + '.possible', succ > 0, f'{b} {what}: can succeed', f.span)
    return states


def check_backend(cx, b):
    conn, tx = TX[b]
    tr = 'BackendConnection' + ('' if b == 'sqlite' else 'Async')
    tt = 'BackendTransaction' + ('' if b == 'sqlite' else 'Async')
    # ---- begin
    f = cx.impl(tr, 'transaction', conn)
    g = cx.graph(f, opaque=opaque, key='tx')
    fresh, n = {}, 0
    for evs, v in paths(g, kinds=KINDS):
        acts = [(action(e), e) for e in evs if action(e)]
        ok1 = len(acts) == 1 and acts[0][0] == 'begin'
        if v is None:
            cx.fail(f'{b}.begin.total', f'{b} transaction: panics', f.span)
        elif is_err(v):
            cx.ob(f'{b}.begin.err', not acts or ok1 and outcome(evs, acts[0][1]) == 'Err',
                  f'{b} transaction: fails only when BEGIN fails', f.span)
        else:
            n += 1
            cx.ob(f'{b}.begin', ok1, f'{b} transaction: begins exactly one database transaction', f.span)
            if ok1:
                e = acts[0][1]
                cx.ob(f'{b}.begin.ok', outcome(evs, e) == 'Ok' and awaited(evs, e), f'{b} transaction: BEGIN has succeeded', e.loc)
                if b != 'turso':
                    cx.ob(f'{b}.begin.holds', any(x is e.a[2] for x in subterms(v)), f'{b} transaction: holds the transaction begun', f.span)
            ag = [x for x in subterms(v) if x.op == 'agg' and isinstance(x.a[0], str) and re.search(tx[:-1] + '$', x.a[0])]
            if len(ag) != 1:
                cx.fail(f'{b}.begin.value', f'{b} transaction: does not return a {tx[:-1]}', f.span)
            else:
                names = [y[0] for y in fields(cx, ag[0].a[0])]
                fresh = dict(zip(names, ag[0].a[2]))
    cx.ob(f'{b}.begin.possible', n > 0, f'{b} transaction: can succeed', f.span)
    # ---- commit, rollback
    after = []
    for what in ('commit', 'rollback'):
        after += [(what, o, st) for o, st in finaliser(cx, b, what, cx.impl(tt, what, tx))]
    # ---- abandoning
    drops = [f for f in cx.F.fns.values() if f.name == 'drop' and trait_is(f, 'Drop') and re.search(tx, f.selfty or '')]
    dps = []
    for f in drops:
        dps += [(f, evs) for evs, v in paths(cx.graph(f, opaque=opaque, key='tx'), kinds=KINDS)]
    for f, evs in dps:
        acts = [action(e) for e in evs if action(e)]
        cx.ob(f'{b}.drop.only', all(a == 'rollback' for a in acts) and len(acts) <= 1,
              f'{b}: dropping a transaction can do {", ".join(a for a in acts if a)}', f.span)
    if b == 'turso':
        if not drops:
            cx.fail('turso.drop', 'turso: a dropped transaction is never rolled back', '')
        for label, st in [('begin', fresh)] + [(f'a {o == "ok" and "successful" or "failed"} {w}', {**fresh, **s}) for w, o, s in after]:
            want = label == 'begin' or 'failed' in label
            key = 'turso.drop.after.' + label.replace(' ', '-')
            for f, evs in dps:
                if not compatible(evs, st):
                    continue
                acts = [(action(e), e) for e in evs if action(e)]
                noruntime = any(e.k == 'assume' and 'try_current' in show(e.a[0], 6) and e.a[1] == 'Err' for e in evs)
                if want:
                    cx.ob(key, noruntime or any(a == 'rollback' and awaited(evs, e) for a, e in acts),
                          f'turso: dropping the transaction after {label} rolls it back', f.span)
                else:
                    cx.ob(key, not acts, f'turso: dropping the transaction after {label} leaves the connection alone', f.span)
    # ---- a consumed transaction
    if b == 'pg':
        f = cx.impl('PgConnectionLike', 'client', tx)
        for evs, v in paths(cx.graph(f), kinds=KINDS):
            a = [e for e in evs if e.k == 'assume']
            x = show(v, 8)
            cx.ob('pg.consumed', is_err(v) and a and a[0].a[1] == 'None' or re.match(r'^Ok\(arg0\.(\w+)~Some\.0\)$', x),
                  f'pg: statements of a transaction go through it and are refused once it was consumed (got {x})', f.span)
    else:
        for t, f in deleg.family(cx):
            if t == 'ConnectionMethods' and re.search(tx, f.selfty):
                g = cx.graph(f, opaque=lambda n, i, fid: fid != f.id and last(n) == f.name and 'ConnectionMethods' in n, key='txuse')
                for evs, v in paths(g, kinds=KINDS):
                    cs = [e for e in evs if e.k == 'call' and last(cname(e)) == f.name]
                    if not cs:
                        cx.ob(f'{b}.consumed.{f.name}', is_err(v) and any(e.k == 'assume' and e.a[1] == 'None' for e in evs),
                              f'{b} {f.name}: refused only once the transaction was consumed', f.span)
                    else:
                        cx.ob(f'{b}.inside.{f.name}', re.match(r'^arg0\.\w+~Some\.0(\.conn)?$', show(cs[0].a[1][0], 8)),
                              f'{b} {f.name}: runs inside the transaction', f.span)


def trait_is(f, t):
    return f.trait and re.sub(r'<.*', '', f.trait).rsplit('::', 1)[-1] == t


def fields(cx, adt):
    return cx.F.adts[adt]['variants'][0][2]


def check_public(cx):
    """Transaction::commit / rollback hand over to the backend; nothing else touches transactions."""
    famid = {f.id for _, f in deleg.family(cx)}
    for f in cx.F.fns.values():
        if f.crate == CORE and not f.trait and not f.parent and f.name in ('commit', 'rollback') \
                and re.search(r'::Transaction(Async)?(<.*>)?$', f.selfty or ''):
            def traitname(e):
                n = cname(e)
                m = last(n)
                t = deleg.trait_of(cx.F.fns[e.a[4]].trait) if e.a[4] in famid else deleg.trait_of(n.rsplit('::', 1)[0])
                return (t, m) if deleg.flavourless(t) in deleg.TRAITS else None
            g = cx.graph(f, opaque=lambda n, i, fid: fid in famid or last(n) in ('commit', 'rollback') and fid != f.id, key='pub')
            bad = None
            for evs, v in paths(g, kinds=KINDS):
                bad = bad or deleg.one(cx, f, 'BackendTransaction', g, evs, v, traitname, {f.name})
            cx.ob(f'{short_ty(f.selfty)}.{f.name}', not bad, bad or 'hands over to the backend', f.span)
    mine = set()
    for b, (conn, tx) in TX.items():
        for f in cx.F.fns.values():
            if f.trait and not f.parent and (f.name == 'transaction' and re.search(conn, f.selfty or '')
                                             or f.name in ('commit', 'rollback', 'drop') and re.search(tx, f.selfty or '')):
                mine |= cx.graph(f, opaque=opaque, key='tx').inlined | {f.id}
    for f in sorted(cx.F.fns.values(), key=lambda f: f.id):
        if not f.span.startswith(('butane_core/', 'butane/')):
            continue
        for n, ga, loc in callees(f):
            m = last(n)
            if m in ('set_drop_behavior', 'set_transaction_behavior') and 'rusqlite' in n:
                cx.fail(f'drop-behaviour.{fnlabel(f)}', f'{f.path} changes what dropping a transaction does', loc)
            if m in ('forget', 'leak', 'new') and (n.startswith('std::mem::') or 'ManuallyDrop' in n or m == 'leak') \
                    and any('ransaction' in a for a in ga):
                cx.fail(f'forget.{fnlabel(f)}', f'{f.path} keeps a transaction from being dropped', loc)
        if f.id in mine:
            continue
        for s in strings(f):
            if BEGIN.match(s) or COMMIT.match(s) or ROLLBACK.match(s):
                cx.fail(f'stray.{fnlabel(f)}', f'{f.path} controls a transaction with `{s}` on its own', f.span)
    cx.ob('swept', True, 'no other function controls transactions', '')


def callees(f):
    for b in f.blocks:
        t = b[1]
        if t and t[0] == 'call' and t[1][0] == 'fn':
            i = t[1][2]
            yield interp.normc(i['p']), [f.types[x] for x in i.get('a', ()) if isinstance(x, int) and x < len(f.types)], t[5]


def strings(f):
    out = set()

    def go(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == 'str' and isinstance(x[1], str):
                out.add(x[1])
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for y in x.values():
                go(y)
    go(f.blocks)
    return out
