"""P11: values of custom types keep their type and every byte."""
from flow import *

PUT = ('put', 'put_slice', 'extend_from_slice', 'extend', 'write_all', 'unsplit')


def check_custom(cx):
    """A custom value is taken from, lent as and sent to PostgreSQL with its own type and all its bytes."""
    fs = [f for f in cx.F.fns.values() if f.crate == 'butane_core']
    one = lambda what, p: (lambda r: r[0] if len(r) == 1 else missing(what))([f for f in fs if p(f)])
    own = mk('p', 0)

    def part(v, n):
        return re.fullmatch(r'arg0~\w+\.' + n, show(v, 9)) is not None
    f = one('SqlValCustom::as_valref', lambda f: f.name == 'as_valref' and re.search(r'::SqlValCustom$', f.selfty or ''))
    for _, v in paths(cx.graph(f, widen=200)):
        cx.ob('custom.lent', v is not None and v.op == 'agg' and v.a[1] == 'PgBytes' and [part(x, n) for x, n in zip(v.a[2], ('ty', 'data'))] == [True, True],
              f'a custom value is lent as {show(v, 4) if v is not None else "a panic"}', f.span)
    f = one('SqlValCustom from SqlValRefCustom', lambda f: f.name == 'from' and re.search(r'::SqlValCustom$', f.selfty or '') and 'SqlValRefCustom' in f.local_ty(1))
    seen = set()
    for evs, v in paths(cx.graph(f, widen=200), kinds=('call', 'assume'), full=True):
        how = [str(e.a[1]) for e in evs if e.k == 'assume' and e.a[0] is own]
        seen |= set(how)
        ok = v is not None and v.op == 'agg' and v.a[1] == 'Pg' and part(v.a[2][0], 'ty')
        if ok and how == ['PgToSql']:
            # what the value wrote of itself, as the type it is for
            c = [e for e in evs if e.k == 'call' and last(cname(e)) in ('to_sql_checked', 'to_sql')]
            ok = len(c) == 1 and part(c[0].a[1][0], 'tosql') and part(c[0].a[1][1], 'ty') and whole(v.a[2][1]) is whole(c[0].a[1][2])
        elif ok:
            ok = part(v.a[2][1], 'data')
        elif v is None:
            # the value itself refused its type
            ok = any(last(cname(e)) in ('to_sql_checked', 'to_sql') for e in evs if e.k == 'call')
        cx.ob('custom.kept', ok, f'a custom value ({how}) is kept as {show(v, 4) if v is not None else "a panic"}', f.span)
    cx.ob('custom.kinds', {'PgBytes', 'PgToSql'} <= seen, f'kinds of custom values: {sorted(seen)}', f.span)
    f = one('ToSql of SqlValCustom', lambda f: f.name == 'to_sql' and re.search(r'::SqlValCustom$', f.selfty or '') and last((f.trait or '').split('<')[0]) == 'ToSql')
    done = 0
    for evs, v in paths(cx.graph(f, widen=200), kinds=('call', 'assume', 'cmut', 'push'), full=True):
        eq = [(e.a[0], e.a[1]) for e in evs if e.k == 'assume' and isinstance(e.a[0], V) and e.a[0].op == 'bin' and {part(x, 'ty') for x in e.a[0].a[1:] if isinstance(x, V)} == {True, False}
              and mk('p', 1) in e.a[0].a[1:]]
        same = [str(a) == ('True' if x.a[0] == 'Eq' else 'False') for x, a in eq if x.a[0] in ('Eq', 'Ne')]
        out = [e.a[1][1:] if e.k == 'call' else e.a[1:2] for e in evs if e.k == 'call' and last(cname(e)) in PUT and e.a[1][0] is mk('p', 2) or e.k in ('push', 'cmut') and e.a[0] is mk('p', 2)]
        if v is not None and not is_err(v):
            done += 1
            cx.ob('custom.sent', len(out) == 1 and len(out[0]) == 1 and part(out[0][0], 'data') and show(v, 3) == 'Ok(No)' and same == [True],
                  f'a custom value is sent as {[[show(x, 3) for x in o] for o in out]}, {show(v, 3)}, its own type: {same}', f.span)
        else:
            cx.ob('custom.refused', v is not None and same == [False], f'a custom value of the type wanted: {show(v, 3) if v is not None else "a panic"}', f.span)
    cx.ob('custom.possible', done, 'a custom value can be sent', f.span)


def whole(v):
    while v.op == 'r' and last(str(v.a[0])) in ('freeze', 'to_vec', 'into_vec') and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v


def missing(what):
    raise Missing(what)
