"""P09: every table and column name a statement mentions goes through the one function that quotes names."""
from lib import *
from sqlforms import *
import stmts, expr, ddl, lowered, re
from flow import paths


def collect(cx, f, strict, *args):
    QUOTED.on = strict
    try:
        sub = Ctx.fork(cx)
        sub.graphs = cx.graphs
        f(sub, *args)
    finally:
        QUOTED.on = False
    cx.analysed |= sub.analysed
    return sub.obs


def check_names(cx, mod, fn, *args):
    """What only the quoted form of the specification rejects mentions a name bare."""
    f = getattr({'stmts': stmts, 'expr': expr, 'ddl': ddl, 'lowered': lowered}[mod], fn)
    got = collect(cx, f, True, *args)
    bad = {k for k, o, *_ in got if not o}
    other = {k for k, o, *_ in collect(cx, f, False, *args) if not o} if bad else set()
    for k, o, m, sp in got:
        cx.ob(f'{fn}.{k}', o or k in other, f'a name is written without quoting it where it is a keyword: {m}', sp)


def check_quoter(cx):
    """Keywords are quoted, whatever their case; nothing else is added to a name."""
    fs = [f for f in cx.F.fns.values() if is_quoter(cx.F, f.id)]
    if len(fs) != 1:
        raise Missing('the function that quotes names')
    f = fs[0]
    g = cx.graph(f, args=(mk('p', 0),))
    ps = list(paths(g))
    # a search through the list by hand: every keyword is compared, and the comparison is one that ignores case
    byhand = any(e.k == 'assume' and elem_test(e.a[0]) for evs, _ in ps for e in evs)
    n = 0
    for evs, v in ps:
        if v is None:
            cx.fail('quoter.total', 'the function that quotes names can panic', f.span)
            continue
        t = text_of(v, evs)
        n += 1
        if t == '"{}"':
            continue
        found = any(e.k == 'assume' and truth(e.a[1]) and elem_test(e.a[0]) for e in evs)
        plain = any(e.k == 'assume' and not truth(e.a[1]) and keyword_test(e.a[0]) for e in evs) or \
            byhand and not found and any(e.k == 'iterend' and 'ALL_KEYWORDS' in show(e.a[0]) for e in evs)
        cx.ob('quoter.keywords', t == '{}' and plain, f'a name is written as {t}' + ('' if plain else ' without having been found not to be a keyword, whatever its case'), f.span)
    cx.ob('quoter.paths', n > 0, f'the function that quotes names writes a name as it is unless it is a keyword ({n} ways)', f.span)


def truth(x):
    return str(x) in ('True', 'Ok') or hasattr(x, 'op') and show(x) in ('True', 'true')


def text_of(v, evs):
    """Text of a value, with {} for the word."""
    t = lambda x: text_of(x, evs)
    if v.op == 'p':
        return '{}'
    if is_const(v):
        return str(cval(v))
    if v.op == 'obj':
        r = ''
        for e in evs:
            if e.k == 'alloc' and e.a[0] is v:
                r = t(e.a[1]) if e.a[1] is not None else ''
            elif e.k == 'emit' and e.a[0] is v:
                r += ''.join(x if isinstance(x, str) else t(x) for x in (e.a[1] if isinstance(e.a[1], tuple) else (e.a[1],)))
        return r
    if v.op == 'agg' and len(v.a[2]) == 1:
        return t(v.a[2][0])
    if v.op == 'hole':
        return t(v.a[1])
    if v.op == 'fmt':
        return ''.join(x if isinstance(x, str) else t(x) for x in v.a[0])
    if v.op == 'join':
        return t(v.a[0]) + t(v.a[1])
    if v.op == 'r' and last(v.a[0]) == 'replace' and [str(cval(x)) for x in v.a[1][1:] if is_const(x)] == ['"', '""']:
        return t(v.a[1][0])
    return show(v, 4)


def folded(v):
    return v.op == 'r' and last(v.a[0]) in ('to_uppercase', 'to_ascii_uppercase') and v.a[1][0].op == 'p'


def keyword_test(v):
    """Is this true exactly of the keywords?"""
    if v.op == 'r' and last(v.a[0]) in ('is_ok',):
        v = v.a[1][0]
    return v.op == 'r' and last(v.a[0]) in ('contains', 'binary_search') and 'ALL_KEYWORDS' in show(v.a[1][0]) and folded(v.a[1][1])


def elem_test(v):
    """Does this compare a keyword of the list with the word, whatever its case?"""
    if v.op == 'bin' and v.a[0] == 'Eq' or v.op == 'r' and last(v.a[0]) == 'eq':
        x, y = v.a[1:3] if v.op == 'bin' else v.a[1][:2]
        x, y = (y, x) if folded(x) else (x, y)
        return x.op == 'elem' and 'ALL_KEYWORDS' in show(x) and folded(y)
    return v.op == 'r' and last(v.a[0]) == 'eq_ignore_ascii_case' and sorted(x.op for x in v.a[1]) == ['elem', 'p'] and 'ALL_KEYWORDS' in show(v)


KEYWORD = {'USER', 'ORDER', 'TABLE'}


def quoted(n):
    return '"' + n + '"' if n.upper() in KEYWORD else n


def check_constraints(cx):
    """PostgreSQL names a constraint after the table as stored: unquoted names are folded to lower case."""
    import known
    from ddl import tc, reference, C, TRUE, FALSE, NONE, change_cases
    F = cx.F

    def hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        if is_quoter(F, fid):
            x = ddl.ctext(it.undr(st, av[0]))
            if x is None:
                raise Limit('a name is quoted that is not known')
            return it.finish(st, depth, dest, target, C(quoted(x)), evs, loc, fn)
        return known.hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)
    n = 0
    for t in ('User', 'Blog', 'blog'):
        o = {'pkey': (tc(cx, 'j'), tc(cx, 'j', pk=TRUE)), 'j_key': (tc(cx, 'j', unique=TRUE), tc(cx, 'j')),
             'j_fkey': (tc(cx, 'j', reference=reference(cx, 'b', 'k')), tc(cx, 'j'))}
        for suffix, (x, y) in o.items():
            i = tc(cx, 'i', pk=FALSE if suffix == 'pkey' else TRUE)
            key = f'constraint.{t}.{suffix}'
            f, texts, errs, panics = ddl.sql_of(cx, 'pg', dict(ddl.others(cx), **{t: [i, x]}), [('ChangeColumn', [C(t), x, y])], hook=hook)
            for w in texts:
                m = re.search(r'DROP CONSTRAINT (?:IF EXISTS )?(\S+?);', word(w))
                got = m and (m.group(1)[1:-1] if m.group(1)[0] == '"' else m.group(1).lower())
                want = (t if t.upper() in KEYWORD else t.lower()) + '_' + suffix
                n += cx.ob(key, got == want, f'changing a column of a table stored as {want.rsplit(suffix)[0][:-1]} drops the constraint {got}, its name is {want}', f.span)
            cx.ob(key + '.total', texts and not errs and not panics, f'no SQL drops the constraint {suffix} of {t}', f.span)
