"""P07/P21: Turso has no subqueries; a condition is rewritten with the keys they select before it is rendered."""
from rows import *
from expr import Gen, recursive, B, E, EX
from sqlforms import *
import expr as X


def transform_fn(cx):
    fs = [f for f in cx.F.fns.values() if is_subquery_transform(cx.F, f.id) and not f.parent and 'turso' in f.id]
    if not fs:
        raise Missing('the rewriting of subqueries for Turso')
    return fs


def check_lowered(cx):
    F = cx.F
    # the one queries use
    fs = transform_fn(cx)
    called = set()
    f = cx.impl('ConnectionMethodsAsync', 'query', 'TursoConnection$')
    q = cx.graph(f, opaque=opaque_for(F))
    for s, i, e, d in q.events():
        if e.k == 'call' and isinstance(e.a[4], str) and is_subquery_transform(F, e.a[4]):
            called.add(e.a[4])
    if len(called) != 1:
        raise Missing('the rewriting of subqueries in Turso queries')
    tf = F.fns[called.pop()]
    base = recursive(F)
    for tag, g, term, want in shapes(F):
        for n in (0, 1, 2) if want else (0,):
            key = f'turso.lowered.{tag}.{n}'
            R = Rows(n)

            def hook(*a):
                return base['hook'](*a) or R.hook(*a)

            def graph(_):
                return cx.graph(tf, args=(mk('p', 0), term), opaque=lambda nm, i, fid: is_quoter(F, fid) or is_value_conv(F, fid) or last(nm) == 'conn',
                                **dict(base, hook=hook))
            f = Forms(cx, 'turso', 'query', names=g.names, graph=graph)
            done = 0
            for evs, v in paths(f.g, full=True):
                fault = any(e.k == 'rowfail' or e.k == 'assume' and str(e.a[1]) == 'Err' for e in evs)
                if v is None or is_err(v):
                    cx.ob(key + '.refused', v is not None and fault, f'{describe(want, term)} can {"be refused" if v is not None else "panic"} on Turso although nothing failed', tf.span)
                    continue
                done += 1
                cx.ob(key + '.err', not fault, f'{describe(want, term)}: a failure is passed over', tf.span)
                cx.ob(key + '.value', is_ok(v) and same(pushed(v.a[2][0], evs), term, n), f'{describe(want, term)} with {n} keys becomes {show(v, 6)[:200]}', tf.span)
                if want:
                    qs = [e for e in evs if e.k == 'call' and sink(e)]
                    cx.ob(key + '.once', len(qs) == 1, f'{describe(want, term)} sends {len(qs)} statements', tf.span)
            cx.ob(key + '.total', done > 0, f'{describe(want, term)} is rewritten for Turso', tf.span)
            for k, s, i, e in f.sinks if want and n == 2 else ():
                ws = list(f.sql(k, s, i, e).words(3, 4000))
                vs = list(f.params(e.a[1][k[2]], (s, i, e)).det().words(3, 4000)) if k[2] is not None else [()]
                for w in ws:
                    got = f'`{word(w)}`'
                    try:
                        got = read(w, vs[0] if len(vs) == 1 else (), want)
                    except X.Bad as ex:
                        got = f'{got}: {ex}'
                    cx.ob(key + '.keys', got == want, f'the keys of {X.describe(want)} are selected by `{word(w)}` with {[word(x) for x in vs]}, which means {got}', e.loc or tf.span)
                cx.ob(key + '.text', ws and vs, f'the statement that selects the keys of {X.describe(want)} is known', e.loc or tf.span)


def describe(want, term):
    return X.describe(want) if want else show(term, 3)


def plain(x):
    return re.sub(r'transform_subqueries\([^,]*,(\w+)\)(~Ok\.0)?', r'\1', x) if isinstance(x, str) else x


def read(w, vals, want):
    """Meaning of `col IN (w)`."""
    t = [plain(x) for x in w]
    sel = ''.join(x if len(x) == 1 else '\0' for x in t)
    m = re.match(r'SELECT DISTINCT ', sel, re.I)
    if m:
        t = t[:7] + t[m.end():]
    return X.norm(X.Parser(['{q ' + want[1][1] + '}', ' '] + list('IN (') + t + [')'], [plain(x) for x in vals], False).whole())


def pushed(v, evs):
    """v with the lists in it that are still objects replaced by what the path put into them."""
    c = {}
    for e in evs:
        if e.k == 'alloc':
            c[e.a[0]] = list(e.a[1].a[0]) if e.a[1] is not None and e.a[1].op == 'arr' else [] if e.a[1] is None else None
        elif e.k == 'push' and c.get(e.a[0]) is not None:
            c[e.a[0]].append(e.a[1])
        elif e.k in ('cmut', 'set') and e.a and e.a[0] in c:
            c[e.a[0]] = None
    return contents(v, {o: l for o, l in c.items() if l is not None and o is not None})


def same(v, t, n):
    """Is v the condition t, with the keys read in place of a subquery?"""
    if v is t:
        return True
    if t.op == 'p':
        return v.op == 'fld' and contains(v, t) or v.op != 'agg' and 'transform' in show(v) and contains(v, t)
    if v.op == 'arr' and t.op == 'arr':
        return len(v.a[0]) == len(t.a[0]) and all(same(x, y, n) for x, y in zip(v.a[0], t.a[0]))
    if v.op != 'agg' or t.op != 'agg':
        return False
    if t.a[1] in ('Subquery', 'SubqueryJoin'):
        if v.a[1] != 'In' or v.a[2][0] is not t.a[2][0]:
            return False
        l = v.a[2][1]
        return l.op == 'arr' and len(l.a[0]) == n and all(contains(x, mk('cell', i, (C(0),))) for i, x in enumerate(l.a[0]))
    return v.a[1] == t.a[1] and len(v.a[2]) == len(t.a[2]) and all(same(x, y, n) for x, y in zip(v.a[2], t.a[2]))


def shapes(F):
    """(name, generator, condition, meaning of the subquery in it)."""
    for kind in ('Subquery', 'SubqueryJoin0', 'SubqueryJoin1', 'SubqueryJoin2', 'SubqueryJoin1u'):
        g = Gen(F)
        t, w = g.comp(kind, g.leaf())
        yield kind, g, t, X.norm(w)
        g = Gen(F)
        t, w = g.comp(kind, g.comp('And', g.atom('Eq'), g.atom('Lt')))
        yield kind + '.values', g, t, X.norm(w)
    for k in ('And', 'Or', 'Not', 'AllOf0', 'AllOf1', 'AllOf3'):
        g = Gen(F)
        kids = [g.leaf() for _ in range({'Not': 1}.get(k, int(k[5:]) if k[5:] else 2))]
        yield k, g, g.comp(k[:5], *kids)[0], None
        if kids:
            g = Gen(F)
            sub = g.comp('Subquery', g.leaf())
            kids = [sub] + [g.leaf() for _ in kids[1:]]
            yield k + '.first', g, g.comp(k[:5], *kids)[0], X.norm(sub[1])
            if len(kids) > 1:
                yield k + '.last', g, g.comp(k[:5], *kids[::-1])[0], X.norm(sub[1])
    for a in list(X.SIMPLE) + ['True', 'In2']:
        g = Gen(F)
        yield a, g, g.atom(a)[0], None
