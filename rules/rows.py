"""P41: result sets deliver every row, once and in order, with its own values."""
from conv import *
from flow import *
import known
from ops import awaited

N = 3
RV = 'butane_core::sqlval::SqlValRef'


class Rows:
    """Cursors over N rows of 2 columns, each step of which can fail."""

    def __init__(self, n=N, width=2):
        self.n, self.width = n, width

    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
        if l == 'next' and av and re.search(r'(turso::Rows|StreamExt|TryStreamExt|BackendRows|rusqlite::Rows|FallibleStreamingIterator)::(try_)?next$', name):
            kind = 'stream' if 'Stream' in name and 'Fallible' not in name else 'try'
            k = ('chan', mk('rowidx'))
            i = cval(st.store[k]) if k in st.store else 0
            out = []
            s2 = State(st.stack, dict(st.store))
            e2 = evs + [Ev('rowfail', (i,), loc, fn.id)]
            bad = _err(mk('r', 'row-error', (), ''))
            out += fin(some(bad) if kind == 'stream' else bad, e2, s2)
            e1 = evs + [Ev('row', (i,), loc, fn.id)]
            if i >= self.n:
                return out + fin(NONE if kind == 'stream' else _ok(NONE), e1)
            st.store[k] = C(i + 1)
            row = mk('row', i)
            return out + fin(some(_ok(row)) if kind == 'stream' else _ok(some(row)), e1)
        if av:
            a = it.undr(st, av[0])
            if a.op == 'row':
                if l == 'len' or l == 'column_count':
                    return fin(C(self.width))
                if l in ('get', 'get_value', 'get_ref'):
                    s2 = State(st.stack, dict(st.store))
                    rest = tuple(it.undr(st, x) for x in av[1:])
                    return fin(_ok(mk('cell', a.a[0], rest))) + fin(_err(mk('r', 'cell-error', (), '')), evs + [Ev('rowfail', (a.a[0],), loc, fn.id)], s2)
        return known.hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)


def _ok(v):
    return agg(RES, 'Ok', v)


def _err(v):
    return agg(RES, 'Err', v)


def columns_(cx, n=2):
    k = one([k for k in cx.F.adts if k.endswith('::db::Column') or k.endswith('::connmethods::Column')], 'Column')
    return mk('arr', tuple(agg(k, None, mk('p', f'col{i}'), agg('butane_core::SqlType', t)) for i, t in enumerate(('Text', 'BigInt')[:n])))


def vecrows(cx):
    k = one([k for k in cx.F.adts if k.endswith('::VecRows')], 'VecRows')
    return k, [f[0] for f in cx.F.adts[k]['variants'][0][2]]


def row_value(v):
    """Element a Some/Ok(Some) result holds, None for the end, 'bad' otherwise."""
    if v is not None and is_ok(v):
        v = v.a[2][0]
    if v is None or v.op != 'agg' or v.a[1] not in ('Some', 'None'):
        return 'bad'
    return v.a[2][0] if v.a[1] == 'Some' else None


def check_vecrows(cx):
    """The rows of a list are given out one by one, and the current row is the one given out last."""
    k, names = vecrows(cx)
    nxt, cur = cx.impl('BackendRows', 'next', 'VecRows<'), cx.impl('BackendRows', 'current', 'VecRows<')
    new = cx.inherent('VecRows<', 'new')
    for n in range(4):
        rows = mk('arr', tuple(mk('p', f'r{i}') for i in range(n)))
        st = [v for _, v in paths(cx.graph(new, args=[rows], hook=known.hook), full=True)]
        if not cx.ob('new', len(st) == 1 and st[0] is not None and st[0].op == 'agg', 'VecRows::new has several results', new.span):
            continue
        st = st[0]
        lastrow = None
        for i in range(n + 3):
            now = [v for _, v in paths(cx.graph(cur, args=[cell('s')], cells={'s': st}, hook=known.hook, exact=50), full=True)]
            for v in now:
                cx.ob('current', v is not None and row_value(v) is lastrow, f'after {i} rows of {n} the current row is {show(v) if v is not None else "a panic"}, the last one returned '
                      f'was {show(lastrow) if lastrow else "none"}', cur.span)
            ps = list(paths(cx.graph(nxt, args=[cell('s')], cells={'s': st}, hook=known.hook, exact=50), full='cells'))
            want = rows.a[0][i] if i < n else None
            if not cx.ob('next', len(ps) == 1 and ps[0][1] is not None and is_ok(ps[0][1]) and row_value(ps[0][1]) is want,
                         f'call {i} of next on {n} rows gives {show(ps[0][1]) if ps and ps[0][1] is not None else "a panic"}', nxt.span):
                break
            st, lastrow = ps[0][2]['s'], want


def check_pass(cx):
    """What passes rows through passes on each of them, and every error."""
    R = Rows()
    f = cx.impl('FallibleIterator', 'next', 'MapDeref')
    k = one([k for k in cx.F.adts if k.endswith('::MapDeref')], 'MapDeref')
    for i in (0, N):
        g = cx.graph(f, args=[cell('s')], cells={'s': agg(k, None, mk('p', 'it'), mk('p', 'fun'))}, hook=Rows(0 if i else N).hook)
        for evs, v in paths(g, full=True):
            fails = any(e.k == 'rowfail' for e in evs)
            calls = [e for e in evs if e.k == 'call' and not isinstance(e.a[0], str)]
            bad = any(e.k == 'assume' and str(e.a[1]) == 'Err' for e in evs)
            if fails or bad:
                cx.ob('mapped.err', is_err(v), f'a mapped row that fails gives {show(v)[:80] if v is not None else "a panic"}', f.span)
            elif i:
                cx.ob('mapped.end', v is not None and is_ok(v) and row_value(v) is None, f'the end of the rows becomes {show(v)[:80] if v is not None else "a panic"}', f.span)
            else:
                x = row_value(v)
                okay = x not in (None, 'bad') and len(calls) == 1 and any(y is mk('row', 0) for a in calls[0].a[1] for y in subterms(a)) and contains_op(x, ('r',))
                cx.ob('mapped.row', okay, f'a row becomes {show(v)[:80] if v is not None else "a panic"}', f.span)
    for m in ('next', 'current'):
        f = cx.impl('BackendRows', m, r'^(std|alloc)::boxed::Box<dyn .*BackendRows')
        for evs, v in paths(cx.graph(f), full=True):
            cs = [e for e in evs if e.k == 'call' and last(str(e.a[0])) == m]
            cx.ob(f'boxed.{m}', len(cs) == 1 and v is cs[0].a[2], f'boxed rows: {m} gives {show(v)[:80] if v is not None else "a panic"}', f.span)
    f = cx.impl('BackendRows', 'next', 'QueryAdapter')
    for n in (0, N):
        for evs, v in paths(cx.graph(f, hook=Rows(n).hook), full=True):
            if any(e.k == 'rowfail' for e in evs):
                cx.ob('sqlite.err', is_err(v), f'a failed step of a query gives {show(v)[:80] if v is not None else "a panic"}', f.span)
            else:
                rows = [e for e in evs if e.k == 'row']
                cx.ob('sqlite.next', len(rows) == 1 and is_ok(v) and row_value(v) is (mk('row', 0) if n else None), f'{len(rows)} rows read, {show(v)[:80]} returned', f.span)
    f = cx.impl('BackendRows', 'current', 'QueryAdapter')
    for evs, v in paths(cx.graph(f), full=True):
        cs = [e for e in evs if e.k == 'call' and last(str(e.a[0])) == 'get']
        cx.ob('sqlite.current', len(cs) == 1 and (row_value(v) is None or contains(row_value(v), cs[0].a[2])), f'the current row is {show(v)[:80] if v is not None else "a panic"}', f.span)


def check_collect(cx, which):
    """Rows copied to a list: all of them, in order, with their values; any error is reported."""
    k, names = vecrows(cx)
    C_ = columns_(cx)
    NM = ('sql_for_expr', 'sql_select', 'sql_order', 'sql_limit', 'sql_offset', 'check_columns', 'turso_value_to_sqlval_typed', 'client', 'conn')
    opaque = lambda n, i, d: last(n) in NM
    if which == 'copy':
        f = cx.fn('butane_core::db::connmethods::vec_from_backend_rows')
        args = [mk('p', 'rows'), C_]
    elif which == 'turso':
        f = cx.impl('ConnectionMethodsAsync', 'query', 'TursoConnection$')
        args = None
    else:
        f = one([x for x in cx.impls('ConnectionMethodsAsync', 'query') if x.file().endswith('pg.rs')], 'PostgreSQL query')
        args = None
    oks = 0
    for n in range(N + 1):
        h = Rows(n)
        if args is None:
            a = [mk('p', 'self'), mk('p', 'tbl'), C_, NONE, NONE, NONE, NONE]
            g = cx.graph(f, args=a, hook=h.hook, opaque=opaque)
        else:
            g = cx.graph(f, args=args, hook=h.hook, opaque=opaque)
        for evs, v in paths(g, full=True, limit=20000):
            got = [e.a[0] for e in evs if e.k == 'row']
            fails = any(e.k == 'rowfail' for e in evs) or any(e.k == 'assume' and str(e.a[1]) == 'Err' for e in evs)
            if v is None:
                cx.fail(f'{which}.panic', f'{f.name} can panic', f.span)
                continue
            if is_err(v):
                cx.ob(f'{which}.err', fails, f'reading {n} good rows fails with {show(v)[:80]}', f.span)
                continue
            cx.ob(f'{which}.swallow', not fails, f'a failure while reading rows is ignored', f.span)
            cx.ob(f'{which}.end', got == list(range(n + 1)), f'{f.name} stops after {len(got)} steps where there are {n} rows', f.span)
            x = v.a[2][0] if is_ok(v) else v
            while x.op == 'agg' and last(x.a[0]) == 'Box':
                x = x.a[2][0]
            good = x.op == 'agg' and x.a[0] == k
            rows = x.a[2][names.index('rows')] if good and 'rows' in names else None
            if rows is None or rows.op != 'arr' or len(rows.a[0]) != n:
                cx.fail(f'{which}.rows', f'{n} rows become {show(x)[:150]}', f.span)
                continue
            oks += 1
            for i, r in enumerate(rows.a[0]):
                cs = sorted({(z.a[0], show(z.a[1][0])) for z in subterms(r) if z.op == 'cell'})
                if r is mk('row', i):
                    cx.ob(f'{which}.row', True)
                    continue
                vals = r.a[2][0] if r.op == 'agg' and len(r.a[2]) == 1 else None
                okay = vals is not None and vals.op == 'arr' and len(vals.a[0]) == 2
                if okay:
                    for j, y in enumerate(vals.a[0]):
                        cl = {z for z in subterms(y) if z.op == 'cell'}
                        okay &= len(cl) == 1 and [(z.a[0], cval(z.a[1][0])) for z in cl] == [(i, j)]
                        ty = C_.a[0][j].a[2][1]
                        okay &= any(ty is w for z in subterms(y) for w in ([z] if z.op == 'agg' else [])) or which != 'copy' and contains(y, ty)
                cx.ob(f'{which}.row', okay, f'row {i} of {n} becomes {show(r)[:200]}', f.span)
    cx.ob(f'{which}.ok', oks >= N + 1, f'{f.name} never succeeds for some number of rows', f.span)

    if which == 'copy':
        for w in (1, 3):
            for evs, v in paths(cx.graph(f, args=args, hook=Rows(1, w).hook), full=True):
                if not any(e.k == 'rowfail' for e in evs):
                    cx.ob('copy.width', is_err(v), f'a row of {w} values for 2 columns becomes {show(v)[:100] if v is not None else "a panic"}', f.span)


def check_copied(cx):
    """A copied row gives the value of each position, when it has the type asked for."""
    f = cx.impl('BackendRow', 'get', r'VecRow$')
    k = one([k for k in cx.F.adts if k.endswith('::VecRow')], 'VecRow')
    vals = tuple(mk('p', f'v{i}') for i in range(3))
    for i in range(5):
        ps = list(paths(cx.graph(f, args=[agg(k, None, mk('arr', vals)), C(i), mk('p', 'ty')], hook=known.hook, opaque=lambda n, i, d: last(n) in ('is_compatible', 'as_ref', 'clone', 'fmt'), exact=50, widen=100), full=True))
        oks = 0
        for evs, v in ps:
            comp = [e for e in evs if e.k == 'assume' and last(str(e.a[0].a[0])) == 'is_compatible']
            if is_ok(v):
                x = v.a[2][0]
                oks += 1
                cx.ob('get.value', i < 3 and (x is vals[i] or show(x) == f'as_ref(v{i})' or {y for y in subterms(x) if y.op == 'p'} == {vals[i]}), f'position {i} of 3 gives {show(x)[:80]}', f.span)
                cx.ob('get.type', any(bool(e.a[1]) and show(e.a[0].a[1][0]) == f'v{i}' and show(e.a[0].a[1][1]) == 'ty' for e in comp), 'a value is given whatever its type', f.span)
            else:
                cx.ob('get.err', is_err(v) and (i >= 3 or any(not bool(e.a[1]) for e in comp)), f'position {i} of 3 gives {show(v)[:80] if v is not None else "a panic"}', f.span)
        cx.ob('get.ok', oks >= (i < 3), f'position {i} of 3 is never given', f.span)
    SV, ST = 'butane_core::sqlval::SqlVal', 'butane_core::SqlType'
    kinds = [v[0] for v in cx.F.adts[SV]['variants']]
    types = {v[0] for v in cx.F.adts[ST]['variants']}
    for kd in kinds:
        if kd == 'Custom':
            continue
        x = agg(SV, kd) if kd == 'Null' else agg(SV, kd, mk('p', 'x'))
        for ty in sorted(types & set(kinds) - {'Custom'}):
            want = kd in ('Null', ty)
            for evs, v in paths(cx.graph(f, args=[agg(k, None, mk('arr', (x,))), C(0), agg(ST, ty)], hook=known.hook), full=True):
                good = is_ok(v) and v.a[2][0].op == 'agg' and v.a[2][0].a[1] == kd and (kd == 'Null' or contains(v.a[2][0], mk('p', 'x'))) if want else is_err(v)
                cx.ob('get.kind', good, f'a copied {kd} asked for as {ty} is {show(v)[:80] if v is not None else "a panic"}', f.span)
    f = cx.impl('BackendRow', 'len', r'VecRow$')
    for n in range(3):
        for evs, v in paths(cx.graph(f, args=[agg(k, None, mk('arr', vals[:n]))], hook=known.hook), full=True):
            cx.ob('len', v is not None and is_const(v) and cval(v) == n, f'the length of a row of {n} values is {show(v) if v is not None else "a panic"}', f.span)
