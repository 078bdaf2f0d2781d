"""P08, P17, P18, P39: filters, saving, generated keys, queries and lookups."""
from model import *
import known

# ------------------------------------------------------------------ filters


def unify(pat, ty, env):
    """Bind the type parameters of pat (a type with single-letter parameters) to the parts of ty."""
    pat, ty = simple(pat), simple(ty)
    if re.fullmatch(r'[A-Z]', pat):
        env.setdefault(pat, ty)
        return True
    m, n = re.fullmatch(r'(\w+)<(.*)>', pat), re.fullmatch(r'(\w+)<(.*)>', ty)
    if m and n and m.group(1) == n.group(1):
        p, q = split_args(m.group(2)), split_args(n.group(2))
        return len(p) == len(q) and all(unify(a, b, env) for a, b in zip(p, q))
    return pat == ty


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        d += (c in '<([') - (c in '>)]')
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur] if cur else out


class Norm:
    """Terms of filters as nested tuples, with the constants of models replaced by their values."""

    def __init__(self, cx, env):
        self.cx, self.env = cx, env

    def const(self, what, ty):
        t = simple(ty)
        t = self.env.get(t, t)
        if t == 'Part':
            t = 'Plain'
        if t not in SPEC:
            return ('?', what, ty)
        return SPEC[t][0] if what == 'TABLE' else SPEC[t][1] if what == 'PKCOL' else ('?', what, ty)

    def __call__(self, v):
        if is_const(v):
            return cval(v)
        if v.op == 'kc':
            return self.const(last(v.a[0]), v.a[2][0] if len(v.a) > 2 and v.a[2] else '?')
        if v.op == 'agg':
            if v.a[1] in ('Borrowed', 'Owned') or last(v.a[0]) == 'Box':
                return self(v.a[2][0])
            if v.a[1] == 'None':
                return None
            if v.a[1] == 'Some':
                return ('Some', self(v.a[2][0]))
            return (v.a[1] or last(v.a[0]),) + tuple(self(x) for x in v.a[2])
        if v.op == 'arr':
            return [self(x) for x in v.a[0]]
        if v.op == 'r' and last(str(v.a[0])) in ('to_sql', 'into_sql'):
            return ('sql', self(v.a[1][0]))
        return show(v)


def val(x):
    return ('Val', ('sql', x))


def same_filter(got, want):
    if callable(want):
        return want(got)
    if isinstance(want, (tuple, list)) and isinstance(got, type(want)):
        return len(got) == len(want) and all(same_filter(g, w) for g, w in zip(got, want))
    if want == val(None) and got == ('Val', ('Null',)):
        return True
    return type(got) is type(want) and got == want


def column(c, table, name):
    """A column of a join names this column (and its table, if it says one)."""
    return isinstance(c, tuple) and c[0] == 'Column' and len(c) == 3 and c[2] == name and (c[1] is None or c[1] == ('Some', table))


def contains_(owner, many, target, inner):
    """The objects of owner linked, through many, to an object of target with inner."""
    (ot, opk), (tt, tpk) = SPEC[owner][:2], SPEC[target][:2]

    def check(g):
        if not isinstance(g, tuple):
            return False
        if g[0] == 'SubqueryJoin' and len(g) == 6:
            _, col, tbl2, col2, joins, e = g
            if col != opk or tbl2 != tt or not column(col2, many, 'owner') or len(joins) != 1 or joins[0][0] != 'Inner' or joins[0][1] != many:
                return False
            a, b = joins[0][2:]
            return same_filter(e, inner) and (column(a, many, 'has') and column(b, tt, tpk) or column(b, many, 'has') and column(a, tt, tpk))
        if g[0] == 'Subquery' and len(g) == 5 and g[1] == opk and g[2] == many and g[3] == 'owner':
            e = g[4]
            if same_filter(e, ('Subquery', 'has', tt, tpk, inner)):
                return True
            return isinstance(inner, tuple) and inner[:2] == ('Eq', tpk) and same_filter(e, ('Eq', 'has', inner[2]))
        return False
    return check


def matches_(col, target, inner):
    tt, tpk = SPEC[target][:2]

    def check(g):
        if same_filter(g, ('Subquery', col, tt, tpk, inner)):
            return True
        return isinstance(inner, tuple) and inner[:2] == ('Eq', tpk) and same_filter(g, ('Eq', col, inner[2]))
    return check


def cmp_(op, col, x):
    return (op, col, val(x))


I = 'a_i32'
FILTERS = {
    'eq': cmp_('Eq', I, 'arg0'), 'ne': cmp_('Ne', I, 'arg0'), 'lt': cmp_('Lt', I, 'arg0'), 'gt': cmp_('Gt', I, 'arg0'), 'le': cmp_('Le', I, 'arg0'),
    'ge': cmp_('Ge', I, 'arg0'), 'eq_lit': cmp_('Eq', 'a_text', 'lit'), 'eq_none': cmp_('Eq', 'o_int', None), 'ne_none': cmp_('Ne', 'o_int', None),
    'like': cmp_('Like', 'a_text', 'arg0'), 'is_in': ('In', I, [('sql', 'arg0'), ('sql', 'arg1'), ('sql', 'arg2')]),
    'and': ('And', cmp_('Eq', I, 'arg0'), cmp_('Eq', 'a_text', 'arg1')), 'or': ('Or', cmp_('Eq', I, 'arg0'), cmp_('Eq', 'a_text', 'arg1')),
    'and_or': ('Or', cmp_('Eq', I, 'arg0'), ('And', cmp_('Lt', I, 'arg1'), cmp_('Gt', I, 'arg2'))),
    'or_or': ('Or', ('Or', cmp_('Eq', I, 'arg0'), cmp_('Lt', I, 'arg1')), cmp_('Gt', I, 'arg2')),
    'named': cmp_('Eq', 'select', 'arg0'),
    'matches': matches_('link', 'Auto', cmp_('Eq', 'name', 'arg0')),
    'matches_pk': matches_('parent', 'Plain', cmp_('Eq', 'id', 7)),
    'contains': contains_('Linked', 'Linked_autos_Many', 'Auto', cmp_('Eq', 'name', 'arg0')),
    'contains_pk': contains_('Linked', 'Linked_autos_Many', 'Auto', cmp_('Eq', 'id', 7)),
    'contains_own': contains_('OwnLinked', 'links_autos_Many', 'Auto', cmp_('Eq', 'name', 'arg0')),
    'contains_named': contains_('Linked', 'Linked_named_Many', 'Named', cmp_('Eq', 'select', 'arg0')),
    'part': cmp_('Eq', I, 'arg0'),
    'contains_own_pk': contains_('OwnLinked', 'links_autos_Many', 'Auto', cmp_('Eq', 'id', 7)),
    'contains_named_pk': contains_('Linked', 'Linked_named_Many', 'Named', cmp_('Eq', 'key', 'lit')),
    'nested': ('And', contains_('Linked', 'Linked_named_Many', 'Named', ('Or', matches_('link', 'Auto', cmp_('Eq', 'name', 'arg0')), cmp_('Lt', 'select', 'arg1'))),
               cmp_('Ne', 'before', 'lit')),
    'raw': cmp_('Eq', 'type', 'arg0'),
}
LINKED = {'matches': 'Named.link', 'matches_pk': 'Derived.parent', 'contains': 'Linked.autos', 'contains_pk': 'Linked.autos',
          'contains_own': 'OwnLinked.autos', 'contains_named': 'Linked.named', 'contains_own_pk': 'OwnLinked.autos', 'contains_named_pk': 'Linked.named',
          'nested': 'Linked.named Named.link'}
QUERIES = {'query': 'Plain', 'query_part': 'Plain'}


def generated(cx, model, field):
    r = [f for f in cx.F.fns.values() if f.crate == W and (f.name or '').replace('r#', '') == field and (f.selfty or '').endswith(f'::{model}Fields') and not f.parent]
    return one(r, f'{model}Fields::{field}')


def wfilter(cx, name):
    return one([f for f in cx.F.fns.values() if f.crate == W and f.name == name and '::filters::' in f.path and not f.parent], f'witness filter {name}')


def check_filters(cx):
    """Each filter of the witness program means what it says."""
    cx.witness()
    tmpl = {simple(f.selfty) for f in cx.F.fns.values() if f.crate == CORE and 'FieldExpr<' in (f.selfty or '') and not f.parent and not f.trait}
    for name, want in FILTERS.items():
        f = wfilter(cx, name)
        env = {}
        for acc in [x for x in LINKED.get(name, '').split() if x]:
            ret = simple(generated(cx, *acc.split('.')).local_ty(0))
            for t in tmpl:
                e = {}
                if unify(t, ret, e):
                    env.update({k: v for k, v in e.items() if v in SPEC})
        n = Norm(cx, env)
        args, hook = None, None
        if name == 'is_in':
            args, hook = [mk('arr', (mk('p', 'arg0'), mk('p', 'arg1'), mk('p', 'arg2')))], known.hook
        g = cx.graph(f, args=args, hook=hook, opaque=lambda n, i, d: last(n) in ('to_sql', 'into_sql', 'to_sql_ref'))
        ps = list(paths(g, full=True))
        cx.ob(f'{name}.paths', ps != [], 'no path', f.span)
        for _, v in ps:
            got = n(v) if v is not None else 'a panic'
            cx.ob(f'{name}', v is not None and same_filter(got, want), f'the filter {name} of the witness program becomes {str(got)[:300]}', f.span)
    for name, table in QUERIES.items():
        f = wfilter(cx, name)
        n = Norm(cx, {})
        for _, v in paths(cx.graph(f, opaque=lambda n, i, d: last(n) in ('to_sql', 'into_sql', 'to_sql_ref')), full=True):
            got = n(v) if v is not None else ('a panic',)
            q = qfields(cx, v)
            cx.ob(name, q is not None and same_filter(n(q['table']), table) and same_filter(n(q['filter']), ('Some', FILTERS['eq'])) and q['limit'] is NONE
                  and q['offset'] is NONE and empty(q['sort']), f'the query {name} of the witness program becomes {str(got)[:300]}', f.span)
    # field accessors: the name and type of every field
    for name in SPEC:
        m = Model(cx, name)
        for fn_, t in m.fields:
            f = generated(cx, name, fn_)
            ret = simple(f.local_ty(0))
            n = Norm(cx, {})
            for _, v in paths(cx.graph(f), full=True):
                got = n(v) if v is not None else ('a panic',)
                cs = [x for x in got[1:] if isinstance(x, str)]
                if t.startswith('Many<'):
                    okay = ret == f'ManyFieldExpr<{name},{t[5:-1]}>' and f'{m.table}_{fn_}_Many' in cs
                else:
                    okay = ret == f'FieldExpr<{t}>' and cs and cs[0] == fn_
                cx.ob(f'{name}.{fn_}.accessor', okay, f'{name}Fields::{fn_} is {str(got)[:120]} of type {ret}; the field has type {t}', f.span)


def empty(v):
    return v.op == 'arr' and not v.a[0]


QF = ('table', 'filter', 'limit', 'offset', 'sort')


def qnames(cx):
    r = [a for k, a in cx.F.adts.items() if k.endswith('::query::Query')]
    return [f[0] for f in one(r, 'Query')['variants'][0][2]]


def qfields(cx, v):
    """Fields of a Query value by name."""
    if v is None or v.op != 'agg' or not v.a[0].endswith('::query::Query'):
        return None
    d = dict(zip(qnames(cx), v.a[2]))
    return d if all(k in d for k in QF) else None


def check_find(cx):
    """find! and find_async! load one object with the filter, or report that there is none."""
    cx.witness()
    n = Norm(cx, {})
    for name in ('find', 'find_async'):
        f = wfilter(cx, name)
        fs = [f] if not f.is_async else [f]
        g = cx.graph(f, opaque=lambda n, i, d: last(n) in ('to_sql', 'into_sql', 'to_sql_ref'))
        oks = 0
        for evs, v in paths(g, full=True):
            q = [e for e in evs if e.k == 'call' and last(e.a[0]) == 'query' and len(e.a[1]) == 7]
            if v is None:
                cx.fail(f'{name}.panic', f'{name} can panic', f.span)
                continue
            cx.ob(f'{name}.once', len(q) == 1, f'{name} runs {len(q)} queries', f.span)
            if len(q) != 1:
                continue
            a = q[0].a[1]
            cx.ob(f'{name}.query', show(a[0]) == 'arg1' and n(a[1]) == 'Plain' and same_filter(n(a[3]), ('Some', FILTERS['eq'])) and n(a[4]) in (('Some', 1), )
                  and a[5] is NONE and a[6] is NONE, f'{name} runs the query {[show(x)[:60] for x in a]}', f.span)
            oks += is_ok(v)
            failed = [e for e in evs if e.k == 'assume' and str(e.a[1]) == 'Err']
            cx.ob(f'{name}.errors', not failed or is_err(v), f'{name} succeeds although a step failed', f.span)
            if is_err(v):
                s = show(v)
                cx.ob(f'{name}.none', failed or '~Err' in s or 'NoSuchObject' in s, f'{name} reports {s[:80]} without a failure', f.span)
            else:
                cx.ob(f'{name}.value', is_ok(v) and contains_op(v, ('r',)), f'{name} gives {show(v)[:100]}', f.span)
        cx.ob(f'{name}.ok', oks >= 1, f'{name} never finds anything', f.span)


# ------------------------------------------------------------------ saving

SAVE_OPAQUE = ('is_valid', 'initialize', 'pk', 'pk_mut', 'to_sql_ref', 'to_sql', 'into_sql', 'non_auto_values', 'update', 'insert_returning_pk', 'insert_or_replace', 'insert_only',
               'delete', 'delete_where', 'save_many_to_many_sync', 'save_many_to_many_async')
WRITES = ('update', 'insert_returning_pk', 'insert_or_replace', 'insert_only', 'delete', 'delete_where')


def kname(v):
    """Name of a constant of the model a term stands for."""
    if v.op == 'kc' and (len(v.a) < 3 or not v.a[2] or re.fullmatch(r'(Self|T|<Self as .*>)', v.a[2][0])):
        return last(v.a[0])
    if v.op == 'agg' and v.a[1] in ('Borrowed', 'Owned'):
        return kname(v.a[2][0])
    return None


def evaluate(v, cfg):
    """Value of a condition in a configuration (None if unknown)."""
    if is_const(v):
        return cval(v)
    k = kname(v)
    if k in cfg:
        return cfg[k]
    ev = lambda x: evaluate(x, cfg)
    if v.op == 'len':
        k = kname(v.a[0])
        return {'COLUMNS': cfg['n'], 'NON_AUTO_COLUMNS': cfg['n'] - cfg['AUTO_PK']}.get(k)
    if v.op == 'r' and last(str(v.a[0])) == 'is_empty':
        k = kname(v.a[1][0])
        n = {'COLUMNS': cfg['n'], 'NON_AUTO_COLUMNS': cfg['n'] - cfg['AUTO_PK']}.get(k)
        return None if n is None else n == 0
    if v.op == 'r' and last(str(v.a[0])) == 'is_valid':
        return cfg['valid']
    if v.op == 'not':
        x = ev(v.a[0])
        return None if x is None else not x
    if v.op == 'bin' and len(v.a) == 3:
        x, y = ev(v.a[1]), ev(v.a[2])
        if x is None or y is None:
            return None
        return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'BitAnd': x & y, 'BitOr': x | y, 'Sub': x - y,
                'Add': x + y}.get(v.a[0])
    return None


def feasible(evs, auto, n, valid):
    """Whether a path is possible in a configuration; the key is valid once it is initialized."""
    cfg = dict(AUTO_PK=auto, n=n, valid=valid)
    for e in evs:
        if e.k == 'call' and last(e.a[0]) == 'initialize':
            cfg['valid'] = True
        if e.k == 'assume':
            x = evaluate(e.a[0], cfg)
            if x is not None and isinstance(x, (bool, int)) and isinstance(e.a[1], (bool, int)) and bool(x) != bool(e.a[1]):
                return False
    return True


def keycol(v):
    """The column of the key, with the type of the key."""
    return v.op == 'agg' and v.a[0].endswith('Column') and kname(v.a[2][0]) == 'PKCOL' and 'PKType' in str(v.a[2][1].a) and last(str(v.a[2][1].a[0])) == 'SQLTYPE'


def called(v, name, recv=None, *args):
    return v.op == 'r' and last(str(v.a[0])) == name and (recv is None or show(v.a[1][0]) == recv) and \
        all(x is y for x, y in zip(v.a[1][1:], args))


def check_save(cx):
    """Saving writes the object with the one statement its key calls for, takes over the generated key, and then saves its links."""
    for kind in ('Sync', 'Async'):
        f = cx.provided(f'DataObjectOps{kind}', 'save')
        g = cx.graph(f, opaque=lambda n, i, d: last(n) in SAVE_OPAQUE)
        ps = list(paths(g, full=True))
        for auto, n, valid in ((True, 1, False), (True, 1, True), (True, 3, False), (True, 3, True), (False, 1, True), (False, 3, True)):
            k = f'{kind}.{"auto" if auto else "own"}.{n}.{"set" if valid else "new"}'
            oks = 0
            for evs, v in ps:
                if not feasible(evs, auto, n, valid):
                    continue
                good, msg = save_path(evs, v, auto, n, valid, kind == 'Async')
                oks += v is not None and is_ok(v)
                cx.ob(k, good, f'saving an object with {"a generated" if auto else "its own"} key, {n} columns, {"set" if valid else "not set"}: {msg}', f.span)
            cx.ob(k + '.ok', oks >= 1, f'saving never succeeds ({k})', f.span)
        f = cx.provided(f'DataObjectOps{kind}', 'delete')
        for evs, v in paths(cx.graph(f, opaque=lambda n, i, d: last(n) in SAVE_OPAQUE), full=True):
            ws = [e for e in evs if e.k == 'call' and last(e.a[0]) in WRITES]
            good = len(ws) == 1 and last(ws[0].a[0]) == 'delete'
            if good:
                a = ws[0].a[1]
                good = show(a[0]) == 'arg1' and kname(a[1]) == 'TABLE' and kname(a[2]) == 'PKCOL' and show(a[3]) in ('to_sql(pk(arg0))', 'to_sql(arg0)', 'into_sql(pk(arg0))')
                good = good and awaited(evs, ws[0], kind == 'Async')
            cx.ob(f'{kind}.delete', good and v is not None, f'deleting an object does {[show_call(e) for e in ws]}', f.span)
            failed = any(e.k == 'assume' and str(e.a[1]) == 'Err' for e in evs)
            cx.ob(f'{kind}.delete.err', v is not None and (is_err(v) if failed else not is_err(v)), f'deleting an object gives {show(v)[:80] if v is not None else "a panic"}', f.span)


def show_call(e):
    return last(e.a[0]) + str([show(x)[:40] for x in e.a[1]])


def awaited(evs, e, needed):
    if not needed:
        return True
    i = [j for j, x in enumerate(evs) if x is e][0]
    return any(x.k == 'await' and contains(x.a[0], e.a[2]) for x in evs[i:])


def save_path(evs, v, auto, n, valid, async_):
    if v is None:
        return False, 'it panics'
    cs = [e for e in evs if e.k == 'call' and (last(e.a[0]) in WRITES or last(e.a[0]) in ('initialize',) or last(e.a[0]).startswith('save_many'))]
    failed = [e for e in evs if e.k == 'assume' and str(e.a[1]) == 'Err']
    what = [last(e.a[0]) for e in cs]
    for e in cs:
        if last(e.a[0]) != 'initialize' and not awaited(evs, e, async_):
            return False, f'{last(e.a[0])} is never awaited'
    want = []
    if auto and not valid:
        want = ['insert_returning_pk', 'initialize']
    elif auto and n > 1:
        want = ['update']
    elif not auto:
        want = ['insert_or_replace']
    want.append('save_many')
    short = ['save_many' if x.startswith('save_many') else x for x in what]
    if failed:
        if not is_err(v):
            return False, f'a failed step is ignored ({short})'
        if short != want[:len(short)]:
            return False, f'it does {short}, not {want}'
    elif not is_ok(v) or short != want:
        return False, f'it does {short}, not {want}'
    for e in cs:
        l, a = last(e.a[0]), e.a[1]
        if l.startswith('save_many'):
            if show(a[0]) != 'arg0' or show(a[1]) != 'arg1':
                return False, f'{l} gets {[show(x)[:40] for x in a]}'
            continue
        if l == 'initialize':
            ins = [x for x in cs if last(x.a[0]) == 'insert_returning_pk'][0]
            if not called(a[0], 'pk_mut', 'arg0') or not contains(a[1], ins.a[2]):
                return False, f'the key is set to {show(a[1])[:80]}'
            continue
        if show(a[0]) != 'arg1' or kname(a[1]) != 'TABLE':
            return False, f'{l} gets {[show(x)[:40] for x in a[:2]]}'
        pk = (2 if l == 'update' else 3)
        if not keycol(a[pk]):
            return False, f'{l} gets the key column {show(a[pk])[:100]}'
        vals, names = a[-1], a[4] if l == 'update' else a[2]
        if l == 'update':
            if show(a[3]) not in ('to_sql_ref(pk(arg0))', 'to_sql_ref(arg0)'):
                return False, f'the row to update is {show(a[3])[:60]}'
            okay = kname(names) == 'NON_AUTO_COLUMNS' and called(vals, 'non_auto_values', 'arg0')
        elif l == 'insert_or_replace':
            okay = kname(names) in ('COLUMNS', 'NON_AUTO_COLUMNS') and called(vals, 'non_auto_values', 'arg0', TRUE)
        else:
            okay = kname(names) == 'NON_AUTO_COLUMNS' and called(vals, 'non_auto_values', 'arg0') or n == 1 and empty(names) and empty(vals)
        if not okay:
            return False, f'{l} gets the columns {show(names)[:60]} and the values {show(vals)[:60]}'
    return True, ''


# ------------------------------------------------------------------ generated keys

def autopk(v):
    """The inner value of an AutoPk value."""
    return v.a[2][0] if v is not None and v.op == 'agg' and v.a[0].endswith('AutoPk') else None


def check_autopk(cx):
    """A generated key is not valid until it is set, is set once, and from the value of the database."""
    f = cx.impl('PrimaryKeyType', 'is_valid', r'AutoPk<')
    aid = [k for k in cx.F.adts if k.endswith('::AutoPk')][0]
    x = mk('p', 'inner')
    for nm, inner in (('set', some(x)), ('unset', NONE)):
        ps = list(paths(cx.graph(f, args=[agg(aid, None, inner)], opaque=lambda n, i, d: last(n) == 'is_valid'), full=True))
        for evs, v in ps:
            okay = v is FALSE if inner is NONE else v is not None and (v is TRUE or called(v, 'is_valid', 'inner') or (v.op != 'c' and contains_op(v, ('r',))) or
                                                                   any(e.k == 'assume' and called(e.a[0], 'is_valid', 'inner') and bool(e.a[1]) == (v is TRUE) for e in evs))
            cx.ob(f'valid.{nm}', okay, f'is_valid of an AutoPk that is {nm} is {show(v) if v is not None else "a panic"}', f.span)
        cx.ob(f'valid.{nm}.paths', ps != [], 'no path', f.span)
    f = cx.provided('PrimaryKeyType', 'is_valid')
    for _, v in paths(cx.graph(f), full=True):
        cx.ob('valid.other', v is TRUE, f'keys are valid when {show(v)}', f.span)
    f = cx.provided('PrimaryKeyType', 'initialize')
    sets = 0
    g = cx.graph(f, opaque=lambda n, i, d: last(n) in ('is_valid', 'from_sql', 'from_sql_ref'))
    for evs, v in paths(g, full=True):
        valid = [e.a[1] for e in evs if e.k == 'assume' and last(str(e.a[0].a[0])) == 'is_valid']
        w = [e for e in evs if e.k in ('set', 'cmut')]
        failed = any(e.k == 'assume' and str(e.a[1]) == 'Err' for e in evs)
        cx.ob('init.asked', len(valid) >= 1, 'initialize does not look whether the key is valid', f.span)
        if valid and bool(valid[0]):
            cx.ob('init.valid', not w and v is not None and is_ok(v), f'initialize changes a valid key or fails: {[str(e)[:80] for e in w]}', f.span)
        elif failed:
            cx.ob('init.err', not w and is_err(v), f'initialize with a value that does not fit gives {show(v) if v is not None else "a panic"}', f.span)
        else:
            val_ = w[0].a[-1] if len(w) == 1 else None
            good = val_ is not None and isinstance(val_, V) and any(z.op == 'r' and last(str(z.a[0])) in ('from_sql', 'from_sql_ref') and 'arg1' in show(z.a[1][0])
                                                                   for z in subterms(val_))
            sets += good
            cx.ob('init.set', good and is_ok(v), f'initialize sets {[show(e.a[-1])[:80] if isinstance(e.a[-1], V) else str(e)[:80] for e in w]}', f.span)
    cx.ob('init.sets', sets >= 1, 'initialize never sets the key', f.span)
    for name in ('from_sql', 'from_sql_ref'):
        f = cx.impl('FromSql', name, r'AutoPk<')
        for evs, v in paths(cx.graph(f, opaque=lambda n, i, d: last(n) in ('from_sql', 'from_sql_ref')), full=True):
            if v is None or is_err(v):
                cx.ob(f'{name}.err', v is not None and any(e.k == 'assume' and str(e.a[1]) == 'Err' for e in evs), f'AutoPk::{name} fails on a good value', f.span)
                continue
            inner = autopk(v.a[2][0]) if is_ok(v) else None
            z = inner.a[2][0] if inner is not None and inner.op == 'agg' and inner.a[1] == 'Some' else None
            cx.ob(f'{name}.set', z is not None and any(y.op == 'r' and last(str(y.a[0])).startswith('from_sql') and 'arg0' in show(y.a[1][0]) for y in subterms(z)),
                  f'AutoPk::{name} gives {show(v)[:120]}', f.span)
    for trait, name in (('Default', 'default'), (None, 'uninitialized')):
        f = cx.impl(trait, name, 'AutoPk<') if trait else cx.inherent('AutoPk<', name)
        for _, v in paths(cx.graph(f), full=True):
            i_ = autopk(v)
            cx.ob(f'{name}.unset', i_ is not None and (i_ is NONE or show(i_) in ('None', 'default()')), f'AutoPk::{name} gives {show(v) if v is not None else "a panic"}', f.span)
    f = cx.impl('Deref', 'deref', 'AutoPk<')
    for _, v in paths(cx.graph(f, args=[agg(aid, None, some(x))]), full=True):
        cx.ob('deref', v is some(x), f'an AutoPk dereferences to {show(v) if v is not None else "a panic"}', f.span)
    for what, want in (('to_sql', 'to_sql(inner)'), ('to_sql_ref', 'to_sql_ref(inner)'), ('into_sql', 'into_sql(inner)')):
        f = cx.impl('ToSql', what, 'AutoPk<')
        for nm, inner in (('set', some(x)), ('unset', NONE)):
            for _, v in paths(cx.graph(f, args=[agg(aid, None, inner)], opaque=lambda n, i, d: last(n) in ('to_sql', 'to_sql_ref', 'into_sql')), full=True):
                cx.ob(f'{what}.{nm}', (v is not None and show(v) in (want, 'to_sql(inner)', 'into_sql(inner)')) if nm == 'set' else v is None or show(v) == 'Null',
                      f'{what} of an AutoPk that is {nm} gives {show(v)[:80] if v is not None else "a panic"}', f.span)
    y = mk('p', 'other')
    fs = [f for f in cx.F.fns.values() if f.crate == CORE and f.name == 'eq' and f.trait and 'PartialEq' in f.trait and re.search('AutoPk<T>$', f.selfty or '') and not f.parent]
    for f in fs:
        both = 'AutoPk' in str(f.local_ty(2))
        for a, b in ((NONE, NONE), (NONE, some(y)), (some(x), NONE), (some(x), some(y))):
            if not both and b is NONE:
                continue
            args = [agg(aid, None, a), agg(aid, None, b) if both else y]
            ps = list(paths(cx.graph(f, args=args, hook=known.hook), full=True))
            for _, v in ps:
                if a is NONE or b is NONE:
                    cx.ob(f'eq.{"both" if both else "plain"}.unset', v is FALSE, f'an AutoPk that is not set equals something: {show(v) if v is not None else "a panic"}', f.span)
    cx.ob('eq.found', len(fs) >= 2, f'{len(fs)} comparisons of AutoPk', '')


# ------------------------------------------------------------------ queries

def qvalue(cx, **kw):
    k = one([k for k in cx.F.adts if k.endswith('::query::Query')], 'Query')
    return agg(k, None, *[kw.get(n, mk('p', 'q.' + n)) for n in qnames(cx)])


def check_builder(cx):
    """Each step of building a query sets what it says and keeps the rest."""
    f = cx.inherent(r'query::Query<T>$', 'new')
    for _, v in paths(cx.graph(f), full=True):
        q = qfields(cx, v)
        cx.ob('new', q is not None and show(q['table']) in ("Borrowed(arg0)", 'arg0') and q['filter'] is NONE and q['limit'] is NONE and q['offset'] is NONE and empty(q['sort']),
              f'a new query is {show(v)[:150] if v is not None else "a panic"}', f.span)
    tok = {n: mk('p', 'q.' + n) for n in QF}
    tok['sort'] = mk('arr', (mk('p', 's1'),))
    orders = {}
    for name, sets in (('filter', 'filter'), ('limit', 'limit'), ('offset', 'offset'), ('order', 'sort'), ('order_asc', 'sort'), ('order_desc', 'sort'), ('clone', None)):
        f = cx.inherent(r'query::Query<T>$', name) if sets else cx.impl('Clone', 'clone', r'query::Query<T>$')
        for before in (0, 1):
            t = dict(tok) if before else dict(table=tok['table'], filter=NONE, limit=NONE, offset=NONE, sort=mk('arr', ()))
            ps = list(paths(cx.graph(f, args=[qvalue(cx, **t), mk('p', 'x'), mk('p', 'y')][:f.argc], hook=known.hook), full=True))
            for _, v in ps:
                q = qfields(cx, v)
                if q is None:
                    cx.fail(f'{name}', f'Query::{name} gives {show(v)[:100] if v is not None else "a panic"}', f.span)
                    continue
                rest = all(q[n] is t[n] or show(q[n]) == show(t[n]) for n in QF if n != sets)
                cx.ob(f'{name}.rest', rest, f'Query::{name} changes something else: {[(n, show(q[n])[:40]) for n in QF if n != sets and show(q[n]) != show(t[n])]}', f.span)
                if sets in ('filter', 'limit', 'offset'):
                    okay = show(q[sets]) == 'Some(x)'
                    if name == 'filter' and before and q[sets].op == 'agg' and q[sets].a[1] == 'Some' and 'And' in show(q[sets]):
                        okay = all(z in show(q[sets]) for z in ('x', 'q.filter'))
                    cx.ob(f'{name}.sets', okay, f'Query::{name}(x) sets {show(q[sets])[:80]}', f.span)
                elif sets == 'sort':
                    s = q['sort']
                    n = s.a[0] if s.op == 'arr' else ()
                    good = len(n) == len(t['sort'].a[0]) + 1 and all(a is b for a, b in zip(n, t['sort'].a[0]))
                    o = n[-1] if n else None
                    good = good and o.op == 'agg' and o.a[0].endswith('::Order') and any(show(z) == 'x' for z in o.a[2])
                    d = [show(z) for z in o.a[2] if show(z) != 'x'] if good else []
                    orders[name] = d
                    want = {'order': ['y'], 'order_asc': ['Ascending'], 'order_desc': ['Descending']}[name]
                    cx.ob(f'{name}.sets', good and d == want, f'Query::{name} makes the order {show(s)[:120]}', f.span)
            cx.ob(f'{name}.paths', ps != [], f'Query::{name} has no path', f.span)


def check_run(cx):
    """Running a query sends exactly its settings, and every row comes back, in order, through the reader of the model."""
    for kind in ('Sync', 'Async'):
        for name in ('load', 'load_first', 'delete'):
            f = cx.impl(f'QueryOps{kind}', name, r'query::Query<T>$')
            oks = 0
            for flt in (NONE, some(mk('p', 'cond'))):
                for srt in [mk('arr', tuple(mk('p', f's{i}') for i in range(k))) for k in range(4)]:
                    for lim, off in ((NONE, NONE), (NONE, some(mk('p', 'off'))), (some(mk('p', 'lim')), NONE), (some(mk('p', 'lim')), some(mk('p', 'off')))):
                        q = qvalue(cx, table=mk('p', 'tbl'), filter=flt, sort=srt, limit=lim, offset=off)
                        g = cx.graph(f, args=[q, mk('p', 'conn')], hook=known.hook)
                        for evs, v in paths(g, full=True):
                            key, msg = run_path(evs, v, name, flt, srt, lim, off, kind == 'Async')
                            cx.ob(f'{kind}.{name}.{key}', not msg, f'Query::{name}: {msg}', f.span)
                            oks += v is not None and (is_ok(v) or v.op == 'r') and not msg
            cx.ob(f'{kind}.{name}.ok', oks >= 32, f'Query::{name} never succeeds in some setting', f.span)
            if name != 'delete':
                made(cx, kind, name, f)
    # what a delete leaves out
    for kind in ('Sync', 'Async'):
        f = cx.impl(f'QueryOps{kind}', 'delete', r'query::Query<T>$')
        g = cx.graph(f, args=[qvalue(cx, limit=some(mk('p', 'lim')), offset=some(mk('p', 'off'))), mk('p', 'conn')], hook=known.hook)
        used = all(v is not None and is_err(v) or any(e.k == 'call' and 'lim' in str([show(x) for x in e.a[1]]) for e in evs) for evs, v in paths(g, full=True))
        cx.ob(f'{kind}.delete.limit', used, 'Query::delete deletes everything that matches, also when the query has a limit or an offset', f.span)


def run_path(evs, v, name, flt, srt, lim, off, async_):
    cs = [e for e in evs if e.k == 'call' and last(e.a[0]) in ('query', 'delete_where', 'update', 'delete', 'query_async')]
    if v is None:
        return 'panic', 'it panics'
    if len(cs) != 1:
        return 'once', f'{len(cs)} statements'
    e = cs[0]
    a = e.a[1]
    if not awaited(evs, e, async_):
        return 'await', 'the statement is never awaited'
    strip_ = lambda t: t.a[2][0] if t.op == 'agg' and t.a[1] in ('Borrowed', 'Owned') else t
    if show(a[0]) != 'conn' or show(strip_(a[1])) != 'tbl':
        return 'where', f'it goes to {[show(x)[:40] for x in a[:2]]}'
    if name == 'delete':
        if last(e.a[0]) != 'delete_where':
            return 'what', f'it runs {last(e.a[0])}'
        want = 'cond' if flt is not NONE else 'True'
        if show(a[2]) != want:
            return 'filter', f'it deletes where {show(a[2])}, the query says {want}'
        return ('value', '') if v is e.a[2] or contains(v, e.a[2]) else ('value', f'it returns {show(v)[:60]}')
    if last(e.a[0]) != 'query' or kname(a[2]) != 'COLUMNS':
        return 'columns', f'it reads {show(a[2])[:60]}'
    if a[3] is not flt:
        return 'filter', f'its condition is {show(a[3])[:60]}'
    if (a[4] is not lim) if name == 'load' else show(a[4]) not in ('Some(1)',) and not (lim is not NONE and a[4] is lim):
        return 'limit', f'its limit is {show(a[4])[:60]} where the query says {show(lim)}'
    if a[5] is not off:
        return 'offset', f'its offset is {show(a[5])[:60]}'
    if srt.a[0]:
        okay = a[6].op == 'agg' and a[6].a[1] == 'Some' and a[6].a[2][0] is srt
    else:
        okay = a[6] is NONE or a[6].op == 'agg' and a[6].a[1] == 'Some' and a[6].a[2][0] is srt
    if not okay:
        return 'order', f'its order is {show(a[6])[:60]} where the query says {show(srt)}'
    return 'value', ''


def made(cx, kind, name, f):
    """The objects a query gives are made from its rows, each once, in order; any failure is reported."""
    for n in range(4):
        oks = 0
        for off in (NONE, some(mk('p', 'off'))):
            q = qvalue(cx, table=mk('p', 'tbl'), filter=NONE, sort=mk('arr', ()), limit=NONE, offset=off)
            g = cx.graph(f, args=[q, mk('p', 'conn')], hook=Results(n, known.hook).hook, exact=50)
            for evs, v in paths(g, full=True):
                failed = any(e.k == 'rowfail' for e in evs)
                if v is None:
                    cx.fail(f'{kind}.{name}.panic', f'Query::{name} panics', f.span)
                elif failed or is_err(v):
                    cx.ob(f'{kind}.{name}.fails', is_err(v) and failed, f'Query::{name} on {n} rows{", one step failing" if failed else ""}: {show(v)[:80]}', f.span)
                else:
                    x = v.a[2][0] if is_ok(v) else v
                    want = [mk('made', i) for i in range(n)]
                    oks += 1
                    if name == 'load':
                        good = x.op == 'arr' and list(x.a[0]) == want
                    else:
                        good = x is (some(want[0]) if n else NONE)
                    cx.ob(f'{kind}.{name}.rows', good, f'Query::{name} makes {show(x)[:80]} of {n} rows', f.span)
        cx.ob(f'{kind}.{name}.makes', oks >= 1, f'Query::{name} never succeeds on {n} rows', f.span)


def check_lookup(cx):
    """get and try_get look for the one object with the key given."""
    for kind in ('Sync', 'Async'):
        f = cx.provided(f'DataObjectOps{kind}', 'try_get')
        h = cx.provided(f'DataObjectOps{kind}', 'get')
        for f in (f, h):
            oks = nones = 0
            for evs, v in paths(cx.graph(f, opaque=lambda n, i, d: last(n) in ('to_sql', 'into_sql', 'query') and 'Query' not in n), full=True):
                cs = [e for e in evs if e.k == 'call' and last(e.a[0]) == 'query' and len(e.a[1]) == 7]
                k = f'{kind}.{f.name}'
                if v is None or len(cs) != 1:
                    cx.fail(k + '.once', f'{f.name} runs {len(cs)} queries or panics', f.span)
                    continue
                e = cs[0]
                a = e.a[1]
                n = Norm(cx, {})
                flt = n(a[3])
                good = kname(a[2]) == 'COLUMNS' and isinstance(flt, tuple) and flt[0] == 'Some' and flt[1][0] == 'Eq' and a[3].a[2][0].op == 'agg' \
                    and kname(a[3].a[2][0].a[2][0]) == 'PKCOL' and flt[1][2][0] == 'Val' and 'arg1' in str(flt[1][2][1]) and flt[1][2][1][0] == 'sql'
                lim = show(a[4])
                cx.ob(k + '.query', good and lim in ('Some(1)', 'Some(2)', 'None') and a[5] in (NONE,) or good and 'offset' in show(a[5]),
                      f'{f.name} looks for {str(flt)[:150]}, limit {lim}', f.span)
                cx.ob(k + '.await', awaited(evs, e, kind == 'Async'), f'{f.name} never awaits', f.span)
                failed = any(x.k == 'assume' and str(x.a[1]) == 'Err' for x in evs)
                if is_err(v):
                    nones += 'NoSuchObject' in show(v)
                    cx.ob(k + '.err', failed or '~Err' in show(v) or f.name == 'get' and 'NoSuchObject' in show(v), f'{f.name} fails with {show(v)[:80]}', f.span)
                    continue
                cx.ob(k + '.swallow', not failed, f'{f.name} ignores a failure', f.span)
                oks += 1
            cx.ob(k + '.ok', oks >= 1 and (f.name != 'get' or nones >= 1), f'{f.name} never gives an object, or an error for none', f.span)
