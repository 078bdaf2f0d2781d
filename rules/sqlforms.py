"""Language of every SQL text and parameter list that reaches a database driver."""
from lib import *

NAMES = {
    'execute': ['self', 'sql'],
    'query': ['self', 'table', 'columns', 'expr', 'limit', 'offset', 'order'],
    'insert_returning_pk': ['self', 'table', 'columns', 'pkcol', 'values'],
    'insert_only': ['self', 'table', 'columns', 'values'],
    'insert_or_replace': ['self', 'table', 'columns', 'pkcol', 'values'],
    'update': ['self', 'table', 'pkcol', 'pk', 'columns', 'values'],
    'delete': ['self', 'table', 'pkcol', 'pk'],
    'delete_where': ['self', 'table', 'expr'],
    'has_table': ['self', 'table'],
}
BACKENDS = {
    'sqlite': ('ConnectionMethods', r'^rusqlite::Connection$'),
    'pg': ('ConnectionMethodsAsync', r'^T$'),
    'turso': ('ConnectionMethodsAsync', r'turso::TursoConnection$'),
}

# driver entry points: name suffix -> (index of the SQL text, index of the parameters)
SINKS = {
    'rusqlite::Connection::prepare': ('prepare', 1, None),
    'rusqlite::Connection::prepare_cached': ('prepare', 1, None),
    'rusqlite::Connection::prepare_with_flags': ('prepare', 1, None),
    'rusqlite::Connection::execute': ('execute', 1, 2),
    'rusqlite::Connection::execute_batch': ('batch', 1, None),
    'rusqlite::Connection::query_row': ('query', 1, 2),
    'rusqlite::Connection::query_row_and_then': ('query', 1, 2),
    'rusqlite::Connection::query_one': ('query', 1, 2),
    'rusqlite::Statement::query': ('run', None, 1),
    'rusqlite::Statement::execute': ('run', None, 1),
    'rusqlite::Statement::exists': ('run', None, 1),
    'rusqlite::Statement::query_map': ('run', None, 1),
    'rusqlite::Statement::query_row': ('run', None, 1),
    'turso::Connection::execute': ('execute', 1, 2),
    'turso::Connection::query': ('query', 1, 2),
    'turso::Connection::execute_batch': ('batch', 1, None),
    'turso::Connection::prepare': ('prepare', 1, None),
    'turso::Connection::prepare_cached': ('prepare', 1, None),
    'turso::Statement::execute': ('run', None, 1),
    'turso::Statement::query': ('run', None, 1),
}
for c in ('GenericClient', 'generic_client::GenericClient', 'Client', 'Transaction', 'client::Client', 'transaction::Transaction'):
    for k, v in {'prepare': ('prepare', 1, None), 'prepare_typed': ('prepare', 1, None), 'query_raw': ('query', 1, 2),
                 'query': ('query', 1, 2), 'query_one': ('query', 1, 2), 'query_opt': ('query', 1, 2), 'execute': ('execute', 1, 2),
                 'execute_raw': ('execute', 1, 2), 'batch_execute': ('batch', 1, None), 'simple_query': ('batch', 1, None),
                 'query_typed': ('query', 1, 2), 'query_typed_raw': ('query', 1, 2), 'execute_typed': ('execute', 1, 2)}.items():
        SINKS[f'tokio_postgres::{c}::{k}'] = v


def sink(e):
    n = cname(e)
    if n in SINKS:
        return SINKS[n]
    # any other driver call that is handed SQL is unknown to the rules
    return None


def is_expr_renderer(F, fid):
    """Local function that consumes a query::Expr, a list of SqlVals and writes text."""
    f = F.fns.get(fid)
    if not f or f.crate != CORE or f.parent:
        return False
    tys = [f.local_ty(i + 1) for i in range(f.argc)]
    return (any(t == 'butane_core::query::Expr' for t in tys)
            and any('Vec<butane_core::sqlval::SqlVal>' in t and t.startswith('&') for t in tys))


class QUOTED:
    """P09: names are accepted only from the quoter."""
    on = False


def is_quoter(F, fid):
    f = F.fns.get(fid)
    return bool(f) and f.crate == CORE and f.name == 'quote_reserved_word'


def is_placeholder(name):
    return name.endswith('::next_placeholder')


VALTYS = ('butane_core::sqlval::SqlVal', 'butane_core::sqlval::SqlValRef', 'turso::Value', 'rusqlite::types::ValueRef', 'rusqlite::types::Value')


def base_ty(t):
    t = re.sub(r"&('\w+ )?(mut )?", '', t)
    t = re.sub(r'^std::result::Result<(.*), .*>$', r'\1', t)
    return re.sub(r"<.*>$", '', t)


def is_value_conv(F, fid):
    """Local function that converts one SQL value between its representations: by type."""
    f = F.fns.get(fid)
    if not f or f.crate != CORE or f.parent or not 1 <= f.argc <= 2:
        return False
    tys = [base_ty(f.local_ty(i + 1)) for i in range(f.argc)]
    if tys[0] not in VALTYS or base_ty(f.local_ty(0)) not in VALTYS:
        return False
    return len(tys) == 1 or 'SqlType' in tys[1] or 'Column' in tys[1]


def is_subquery_transform(F, fid):
    """Async/sync local function of type (&self, BoolExpr) -> Result<BoolExpr>."""
    f = F.fns.get(fid)
    if not f or f.crate != CORE or f.trait:
        return False
    tys = [f.local_ty(i + 1) for i in range(f.argc)]
    return len(tys) == 2 and tys[1] == 'butane_core::query::BoolExpr'


def opaque_for(F, extra=None):
    def op(name, info, fid):
        if is_placeholder(name) or is_quoter(F, fid) or is_expr_renderer(F, fid) or is_value_conv(F, fid):
            return True
        if is_subquery_transform(F, fid):
            return True
        return bool(extra and extra(name, info, fid))
    return op


def is_rendering(F, e):
    return e.k == 'call' and isinstance(e.a[4], str) and is_expr_renderer(F, e.a[4])


IDENT_CONV = ('::as_ref', '::sqlval_for_pg_query', '::sqlvalref_for_pg_query')


class Forms:
    """SQL texts and parameter lists of one connection method of one backend."""

    def __init__(self, cx, backend, method, args=None, names=None, graph=None):
        self.cx, self.backend, self.method = cx, backend, method
        tr, ty = BACKENDS[backend]
        self.fn = cx.impl(tr, method, ty)
        F = cx.F
        self.g = graph(self.fn) if graph else \
            cx.graph(self.fn, args=tuple(args) if args else None, opaque=opaque_for(F), key=('forms',))
        self.names = dict(enumerate(NAMES[method]))
        self.names.update(names or {})

        def callsym(t, e, o, pt):
            if is_rendering(F, e):
                return '{expr ' + t.name(e.a[1][0], pt) + '}'
            if is_placeholder(cname(e)):
                return None
            return ('call', str(e.a[0]))

        def holef(t, v, pt):
            if v.op == 'r' and isinstance(v.a[0], str):
                n = v.a[0]
                if is_placeholder(n):
                    return '{ph}'
                if n.endswith('::quote_reserved_word'):
                    return '{q ' + t.name(v.a[1][0], pt) + '}'
            return None
        self.T = Text(self.g, self.names, holef=holef, callsym=callsym)
        self.sinks = []
        for s, i, e, d in self.g.events():
            if e.k in ('call', 'diverge'):
                k = sink(e)
                if k:
                    self.sinks.append((k, s, i, e))

    def sql(self, k, s, i, e):
        return squeeze(self.T.of(e.a[1][k[1]], (s, i, e))).det().mini()

    def conv(self, v):
        """Strip conversions of one value into the driver's representation."""
        F = self.cx.F
        while True:
            if v.op == 'r' and isinstance(v.a[0], str) and len(v.a[1]) == 1:
                f = F.find(v.a[0])
                if f and is_value_conv(F, f.id):
                    v = v.a[1][0]
                    continue
            return v

    def params(self, v, point):
        """Language of the bound values, in order."""
        n = NFA()
        e = n.new()
        n.acc = {e}
        self._params(n, n.start, e, v, point)
        return n.trim()

    def _item(self, v, point):
        return '[' + self.T.name(self.conv(v), point) + ']'

    def _params(self, n, s, d, v, point):
        if v.op == 'r' and isinstance(v.a[0], str) and len(v.a[1]) == 1 and last(v.a[0]) in ('params_from_iter', 'as_ref', 'iter', 'into_iter'):
            return self._params(n, s, d, v.a[1][0], point)
        if v.op == 'arr' or v.op == 'it':
            cur = s
            for x in (v.a[0] if v.op == 'arr' else v.a[0].a[0]):
                m = n.new()
                n.add(cur, self._item(x, point), m)
                cur = m
            n.add(cur, None, d)
            return
        if v.op == 'tup' or v is NONE or (v.op == 'agg' and not v.a[2]) or (v.op == 'c' and v.a[1] is None):
            cur = s
            for x in (v.a[0] if v.op == 'tup' else ()):
                m = n.new()
                n.add(cur, self._item(x, point), m)
                cur = m
            n.add(cur, None, d)
            return
        if v.op == 'join' and is_const(v.a[1], '') and v.a[0].op == 'arr':
            cur = s
            for x in v.a[0].a[0]:
                m = n.new()
                self._params(n, cur, m, x, point)
                cur = m
            n.add(cur, None, d)
            return
        if v.op == 'agg' and v.a[1] == 'MapM':
            src, f = v.a[2]
            if self._identity_fn(f):
                return self._params(n, s, d, src, point)
        if v.op == 'obj':
            w = self.T.view(v, point)
            if w and w[2]:
                src, item, _ = w
                it = self.conv(item)
                if it.op == 'elem' and it.a[0] is src:
                    return self._params(n, s, d, src, point)
            h = self.T.history(v, point, lambda x, pt: self._item(x, pt), self._params)
            if h is not None:
                n.embed(h, s, d)
                return
        if v.op == 'p':
            nm = self.T.name(v, point)
            n.embed(regex(EACH(nm, Y(f'[{nm}[]]'))), s, d)
            return
        n.add(s, '[*' + self.T.name(v, point) + ']', d)

    def _identity_fn(self, f):
        """Function or closure returning its only argument (possibly converted)."""
        F = self.cx.F
        if f.op == 'fnd':
            t = F.find(f.a[0])
            fid, off = (t.id, 0) if t else (None, 0)
        elif f.op == 'clo':
            fid, off = f.a[0], 1
        else:
            return False
        if fid not in F.fns:
            return False
        g = self.cx.graph(F.fns[fid], opaque=opaque_for(F), key=('forms',))
        return bool(g.finals) and all(self.conv(x) is mk('p', off) for x in g.finals.values())

    def label(self):
        return f'{self.backend}::{self.method}'


if __name__ == '__main__':
    import build
    cx = Ctx(build.ensure_facts()[0], 'P00')
    import time
    for b in ([sys.argv[1]] if len(sys.argv) > 1 else BACKENDS):
        for m in (sys.argv[2:3] or NAMES):
            t = time.time()
            try:
                f = Forms(cx, b, m)
            except Missing as ex:
                print(b, m, ex)
                continue
            print(f'=== {b} {m} {len(f.g.info)} states {time.time()-t:.1f}s trunc={f.g.truncated[:2]}')
            for k, s, i, e in f.sinks:
                print('  ', k[0], cname(e), e.loc)
                if k[1] is not None:
                    d = f.sql(k, s, i, e)
                    for w in d.words(4, 300):
                        print('      ', word(w))
                if k[2] is not None:
                    p = f.params(e.a[1][k[2]], (s, i, e)).det().mini()
                    print('       params:', [word(w) for w in p.words(5, 300)])
