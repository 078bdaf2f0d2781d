"""P12, P13, P33: the SQL generated for schema operations, replayed on an abstract database."""
from itertools import permutations, product
from schema import *
import known, sqlforms
from sqlforms import QUOTED

BACKENDS = {'sqlite': 'SQLiteBackend$', 'pg': 'PgBackend$', 'turso': 'TursoBackend$'}
LITE = {'Bool': 'INTEGER', 'Int': 'INTEGER', 'BigInt': 'INTEGER', 'Real': 'REAL', 'Text': 'TEXT', 'Blob': 'BLOB', 'Json': 'TEXT', 'Date': 'TEXT',
        'Timestamp': 'TEXT'}
TYPES = {'sqlite': LITE, 'turso': LITE,
         'pg': {'Bool': 'BOOLEAN', 'Int': 'INTEGER', 'BigInt': 'BIGINT', 'Real': 'DOUBLE PRECISION', 'Text': 'TEXT', 'Blob': 'BYTEA', 'Json': 'JSONB',
                'Date': 'DATE', 'Timestamp': 'TIMESTAMP'}}
ALIAS = {'BOOL': 'BOOLEAN', 'INT': 'INTEGER', 'INT4': 'INTEGER', 'INT8': 'BIGINT', 'FLOAT8': 'DOUBLE PRECISION', 'SERIAL4': 'SERIAL', 'SERIAL8': 'BIGSERIAL',
         'TIMESTAMP WITHOUT TIME ZONE': 'TIMESTAMP'}


def known_type(cx, n):
    k = [x for x in cx.F.adts if x.endswith('::SqlType') and x.startswith(CORE)]
    if len(k) != 1:
        raise Missing('type SqlType')
    return agg_(adt(cx, 'DeferredSqlType'), 'KnownId', [agg_(adt(cx, 'TypeIdentifier'), 'Ty', [agg_(k[0], n, [])])])


def ctext(v):
    """Constant text, if v is one."""
    if is_const(v) and isinstance(cval(v), (str, int)) and not isinstance(cval(v), bool):
        return str(cval(v))
    if v.op == 'agg' and v.a[1] in ('Borrowed', 'Owned') and len(v.a[2]) == 1:
        return ctext(v.a[2][0])
    if v.op == 'hole' and not v.a[2]:
        return ctext(v.a[1])
    ps = v.a[0] if v.op == 'fmt' else None
    if ps is not None:
        l = [x if isinstance(x, str) else ctext(x) for x in ps]
        return None if None in l else ''.join(l)
    return None


def holef(t, v, pt):
    if v.op == 'r' and isinstance(v.a[0], str):
        if v.a[0].endswith('::quote_reserved_word'):
            c = ctext(t.resolve(v.a[1][0], pt))
            return '{q ' + (c if c is not None else '?' + t.name(v.a[1][0], pt)) + '}'
    return None


class Bad(Exception):
    pass


def sql_of(cx, b, old, ops, opaque=None, hook=None):
    """(texts, errors, panics) of create_migration_sql for a list of operations on a schema."""
    f = cx.impl('Backend', 'create_migration_sql', BACKENDS[b])
    O = adt(cx, 'Operation')
    g = cx.graph(f, args=(mk('p', 0), adb(cx, old), mk('arr', tuple(agg_(O, k, v) for k, v in ops))), hook=hook or known.hook,
                 opaque=sqlforms.opaque_for(cx.F, opaque), widen=400)
    tx = Text(g, holef=holef)
    texts, errs, panics = [], [], []
    for s, i, e, d in g.events():
        if e.k == 'ret' and d in g.finals:
            v = g.finals[d]
            if v.op == 'agg' and v.a[1] == 'Ok':
                n = squeeze(tx.of(v.a[2][0], (s, i, e))).det()
                ws = list(n.words(200, 6000))
                if len(ws) >= 200 or not ws:
                    raise Limit('statement text is not determined')
                texts += [w for w in ws if w not in texts]
            elif v.op == 'agg' and v.a[1] == 'Err':
                errs.append(v)
            else:
                raise Limit(f'result {show(v, 4)}')
        if e.k in ('panic', 'diverge'):
            panics.append(e)
    return f, texts, errs, panics


# ------------------------------------------------------------------- reading DDL back

def tokens(w):
    out, cur = [], ''
    lit = None
    for c in w:
        if lit is not None:
            lit += c
            if c == "'":
                out.append(lit)
                lit = None
            continue
        if len(c) > 1:
            if cur:
                raise Bad(f'`{cur}{c}`')
            out.append(('id', c[3:-1]) if c.startswith('{q ') else ('hole', c))
        elif c == "'":
            lit = cur + c
            cur = ''
        elif c.isalnum() or c in '_.-+"\\':
            cur += c
        else:
            if cur:
                out.append(cur)
                cur = ''
            if not c.isspace():
                out.append(c)
    if cur:
        out.append(cur)
    # adjacent literals: 'it''s'
    r = []
    for t in out:
        if r and isinstance(t, str) and isinstance(r[-1], str) and t.startswith("'") and r[-1].endswith("'"):
            r[-1] += t
        else:
            r.append(t)
    return r


class DB:
    """Tables of an abstract database: columns with their attributes, and where the rows come from."""

    def __init__(self, b):
        self.b, self.t = b, {}

    def create(self, name, cols):
        self.t[name] = {'cols': cols, 'rows': None}


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def at(self, *ws):
        l = self.t[self.i:self.i + len(ws)]
        return len(l) == len(ws) and all(isinstance(x, str) and x.upper() == w for x, w in zip(l, ws))

    def opt(self, *ws):
        if self.at(*ws):
            self.i += len(ws)
            return True
        return False

    def need(self, *ws):
        if not self.opt(*ws):
            raise Bad(f'{" ".join(ws)} expected at `{show_toks(self.t[self.i:self.i + 6])}`')

    def ident(self, free=False):
        """A name; free: one made up of others, which need not be quoted."""
        x = self.next()
        if QUOTED.on and not free and not (isinstance(x, tuple) and x[0] == 'id'):
            raise Bad(f'the name {show_toks([x])} is not quoted')
        if isinstance(x, tuple) and x[0] == 'id':
            return x[1]
        if isinstance(x, str) and re.fullmatch(r'"?\w+"?', x):
            return x.strip('"')
        raise Bad(f'a name expected at `{show_toks([x])}`')


def show_toks(ts):
    return ' '.join(t if isinstance(t, str) else t[1] if t[0] == 'id' else t[1] if t else '?' for t in ts if t)


END = {'NOT', 'PRIMARY', 'UNIQUE', 'AUTOINCREMENT', 'DEFAULT', ',', ')', ';', 'REFERENCES', 'NULL'}


def type_(p):
    ts = []
    while p.peek() is not None and not (isinstance(p.peek(), str) and p.peek().upper() in END):
        x = p.next()
        ts.append(x if isinstance(x, str) else x[1])
    t = ' '.join(ts)
    return ALIAS.get(t.upper(), t)


def literal(p):
    x = p.next()
    if x is None or x in (',', ';', '('):
        raise Bad('a value expected')
    return x if isinstance(x, str) else x[1]


def coldef(p):
    n = p.ident()
    d = dict(name=n, type=type_(p), notnull=False, pk=False, unique=False, auto=False, default=None, fk=None)
    while True:
        if p.opt('NOT', 'NULL'):
            d['notnull'] = True
        elif p.opt('PRIMARY', 'KEY'):
            d['pk'] = True
        elif p.opt('UNIQUE'):
            d['unique'] = True
        elif p.opt('AUTOINCREMENT'):
            d['auto'] = True
        elif p.opt('NULL'):
            d['notnull'] = False
        elif p.opt('DEFAULT'):
            d['default'] = literal(p)
        elif p.at('REFERENCES'):
            d['fk'] = refs(p)
        else:
            return d


def refs(p):
    p.need('REFERENCES')
    t = p.ident()
    p.need('(')
    c = p.ident()
    p.need(')')
    return t, c


def run(db, w):
    """Executes the statements of a text."""
    p = P(tokens(w))
    while p.peek() is not None:
        if p.opt(';'):
            continue
        stmt(db, p)
        if p.peek() is not None:
            p.need(';')


def table_(db, n):
    if n not in db.t:
        raise Bad(f'table {n} does not exist here')
    return db.t[n]


def column_(t, c):
    for d in t['cols']:
        if d['name'] == c:
            return d
    raise Bad(f'column {c} does not exist here')


def stmt(db, p):
    if p.opt('CREATE', 'TABLE'):
        ine = p.opt('IF', 'NOT', 'EXISTS')
        n = p.ident()
        p.need('(')
        cols, fks = [], []
        while not p.opt(')'):
            if p.opt('FOREIGN', 'KEY'):
                p.need('(')
                c = p.ident()
                p.need(')')
                fks.append((c, refs(p)))
            elif p.opt('PRIMARY', 'KEY'):
                p.need('(')
                fks.append((p.ident(), 'pk'))
                p.need(')')
            elif p.opt('UNIQUE'):
                p.need('(')
                fks.append((p.ident(), 'unique'))
                p.need(')')
            else:
                if fks:
                    raise Bad('a column after the table constraints')
                cols.append(coldef(p))
            # SQLite does not need a comma between table constraints
            if not p.opt(',') and not p.at(')') and not (fks and p.at('FOREIGN', 'KEY') and db.b != 'pg'):
                raise Bad(f'a comma expected at `{show_toks(p.t[p.i:p.i + 4])}`')
        p.opt('STRICT')
        if n in db.t:
            if ine:
                return
            raise Bad(f'table {n} exists already')
        t = {'cols': cols, 'rows': {}}
        for c, x in fks:
            d = column_(t, c)
            if x in ('pk', 'unique'):
                d[x] = True
            else:
                d['fk'] = x
        db.t[n] = t
        db.ine = getattr(db, 'ine', []) + [ine]
    elif p.opt('DROP', 'TABLE'):
        p.opt('IF', 'EXISTS')
        n = p.ident()
        p.opt('CASCADE')
        table_(db, n)
        del db.t[n]
    elif p.opt('INSERT', 'INTO'):
        n = p.ident()
        t = table_(db, n)
        into = [c['name'] for c in t['cols']]
        if p.opt('('):
            into = names_(p)
            p.need(')')
        p.need('SELECT')
        src = names_(p)
        p.need('FROM')
        s = table_(db, p.ident())
        if len(src) != len(into):
            raise Bad('the numbers of columns of INSERT and SELECT differ')
        if t['rows'] != {}:
            raise Bad('rows are copied twice')
        t['rows'] = {}
        for a, c in zip(into, src):
            column_(s, c)
            column_(t, a)
            t['rows'][a] = s['rows'].get(c)
    elif p.opt('ALTER', 'TABLE'):
        n = p.ident()
        t = table_(db, n)
        if p.opt('RENAME', 'TO'):
            m = p.ident()
            if m in db.t:
                raise Bad(f'table {m} exists already')
            db.t[m] = db.t.pop(n)
        elif p.opt('RENAME', 'COLUMN'):
            c = column_(t, p.ident())
            p.need('TO')
            o = c['name']
            c['name'] = p.ident()
            t['rows'][c['name']] = t['rows'].pop(o, None)
        elif p.opt('ADD', 'COLUMN'):
            d = coldef(p)
            if any(c['name'] == d['name'] for c in t['cols']):
                raise Bad(f'column {d["name"]} exists already')
            t['cols'].append(d)
            t['rows'][d['name']] = 'default'
        elif p.opt('DROP', 'COLUMN'):
            c = column_(t, p.ident())
            if db.b != 'pg' and c['fk']:
                raise Bad('SQLite cannot drop a column with a foreign key')
            t['cols'].remove(c)
            t['rows'].pop(c['name'], None)
        elif p.opt('ALTER', 'COLUMN'):
            if db.b != 'pg':
                raise Bad('SQLite has no ALTER COLUMN')
            c = column_(t, p.ident())
            if p.opt('SET', 'DATA', 'TYPE') or p.opt('TYPE'):
                c['type'] = type_(p)
            elif p.opt('SET', 'NOT', 'NULL'):
                c['notnull'] = True
            elif p.opt('DROP', 'NOT', 'NULL'):
                if c['pk']:
                    raise Bad('a primary key cannot be nullable')
                c['notnull'] = False
            elif p.opt('DROP', 'DEFAULT'):
                c['default'] = None
            elif p.opt('SET', 'DEFAULT'):
                c['default'] = literal(p)
            else:
                raise Bad(f'`{show_toks(p.t[p.i:p.i + 4])}`')
        elif p.opt('DROP', 'CONSTRAINT'):
            ife = p.opt('IF', 'EXISTS')
            k = p.ident(free=True)
            for c in t['cols']:
                for a, x in (('pk', f'{n}_pkey'), ('unique', f'{n}_{c["name"]}_key'), ('fk', f'{n}_{c["name"]}_fkey')):
                    if c[a] and x == k:
                        c[a] = None if a == 'fk' else False
                        return
            if not ife:
                raise Bad(f'there is no constraint {k}')
        elif p.opt('ADD', 'PRIMARY', 'KEY'):
            c = paren(p, t)
            if any(x['pk'] for x in t['cols']):
                raise Bad('two primary keys')
            c['pk'] = c['notnull'] = True
        elif p.opt('ADD', 'UNIQUE'):
            paren(p, t)['unique'] = True
        elif p.opt('ADD', 'FOREIGN', 'KEY'):
            if db.b != 'pg':
                raise Bad('SQLite cannot add a constraint')
            c = paren(p, t)
            if c['fk']:
                raise Bad('two foreign keys')
            c['fk'] = refs(p)
        else:
            raise Bad(f'`{show_toks(p.t[p.i:p.i + 4])}`')
    else:
        raise Bad(f'unknown statement `{show_toks(p.t[p.i:p.i + 6])}`')


def names_(p):
    l = [p.ident()]
    while p.opt(','):
        l.append(p.ident())
    return l


def paren(p, t):
    p.need('(')
    c = column_(t, p.ident())
    p.need(')')
    return c


# ------------------------------------------------------------------- expectations

def typename(cx, b, c):
    """Column type the backend should use."""
    t = field(cx, c, 'AColumn', 'sqltype').a[2][0]
    if t.a[1] == 'Name':
        return cval(t.a[2][0])
    n = t.a[2][0].a[1]
    if b == 'pg' and field(cx, c, 'AColumn', 'auto') is TRUE:
        return {'Int': 'SERIAL', 'BigInt': 'BIGSERIAL'}.get(n)
    return TYPES[b].get(n)


def want_col(cx, b, c, table_new=True):
    g = lambda n: field(cx, c, 'AColumn', n)
    r = g('reference')
    ref = None if r is NONE else tuple(cval(x) for x in r.a[2][0].a[2][0].a[2])
    return dict(name=cname_(cx, c), type=typename(cx, b, c), notnull=g('nullable') is FALSE, pk=g('pk') is TRUE, unique=g('unique') is TRUE, fk=ref)


def state(cx, b, schema, fks=True):
    """The database a schema stands for."""
    db = DB(b)
    for n, cs in schema.items():
        cols = [dict(want_col(cx, b, c), default=None, auto=False) for c in cs]
        for c, k in zip(cols, cs):
            d = field(cx, k, 'AColumn', 'default')
            if d is not NONE:
                c['default'] = 'schema'
            if not fks:
                c['fk'] = None
        db.t[n] = {'cols': cols, 'rows': {c['name']: (n, c['name']) for c in cols}}
    return db


def differences(got, want, rows=True):
    """What is wrong with the table, for each aspect."""
    out = []
    gc = {c['name']: c for c in got['cols']}
    wc = {c['name']: c for c in want['cols']}
    if len(gc) != len(got['cols']):
        out.append('columns: two have the same name')
    for n in wc.keys() - gc.keys():
        out.append(f'columns: {n} is missing')
    for n in gc.keys() - wc.keys():
        out.append(f'columns: {n} should not be there')
    for n in sorted(gc.keys() & wc.keys()):
        for a, what in (('type', 'type'), ('notnull', 'NOT NULL'), ('pk', 'primary key'), ('unique', 'UNIQUE'), ('fk', 'foreign key')):
            if gc[n][a] != wc[n][a] and not (a == 'type' and {gc[n][a], wc[n][a]} in ({'SERIAL', 'INTEGER'}, {'BIGSERIAL', 'BIGINT'})):
                out.append(f'{what}: column {n} has {gc[n][a]}, the schema says {wc[n][a]}')
            elif a == 'type' and gc[n][a] != wc[n][a]:
                out.append(f'auto: column {n} has type {gc[n][a]}, the schema says {wc[n][a]}')
    return out


def expected(cx, schema, op, a):
    """Schema after the operation."""
    s = {n: list(cs) for n, cs in schema.items()}
    if op in ('AddTable', 'AddTableIfNotExists'):
        s[cval(field(cx, a[0], 'ATable', 'name'))] = list(field(cx, a[0], 'ATable', 'columns').a[0])
    elif op == 'RemoveTable':
        del s[cval(a[0])]
    elif op == 'AddColumn':
        s[cval(a[0])].append(a[1])
    elif op == 'RemoveColumn':
        s[cval(a[0])] = [c for c in s[cval(a[0])] if cname_(cx, c) != cval(a[1])]
    elif op == 'ChangeColumn':
        s[cval(a[0])] = [a[2] if cname_(cx, c) == cname_(cx, a[1]) else c for c in s[cval(a[0])]]
    return s


def tc(cx, n, t='Int', **kw):
    return col(cx, n, sqltype=known_type(cx, t), **kw)


def replay_case(cx, b, key, old, ops, start=None, aspects=None, rows=True, what=''):
    """Obligation: the SQL of the operations leads from the old to the new schema."""
    f, texts, errs, panics = sql_of(cx, b, old, ops)
    new = dict(old)
    for k, a in ops:
        new = expected(cx, new, k, a)
    for x in errs:
        cx.fail(key, f'{b} {what}: is refused ({show(x, 5)})', f.span)
    for x in panics:
        cx.fail(key, f'{b} {what}: panics', x.loc)
    if not texts:
        return cx.fail(key, f'{b} {what}: no SQL', f.span), None
    res = []
    fkless = {cval(field(cx, a[0], 'ATable', 'name')) for k, a in ops if k in ('AddTable', 'AddTableIfNotExists')} - \
             {cval(field(cx, a[0], 'ATable', 'name')) for k, a in ops if k == 'AddTableConstraints'}
    for w in texts:
        db = start() if start else state(cx, b, old)
        bad = []
        try:
            run(db, w)
            want = state(cx, b, new).t
            if b == 'pg':
                for n in fkless & set(want):
                    for c in want[n]['cols']:
                        c['fk'] = None
            for n in sorted(want.keys() | db.t.keys()):
                if n not in want:
                    bad.append(f'tables: {n} should not be there')
                elif n not in db.t:
                    bad.append(f'tables: {n} is missing')
                else:
                    bad += [f'{d} (table {n})' for d in differences(db.t[n], want[n])]
                    if rows and n in old:
                        lost = [c for c in want[n]['rows'] if c in state(cx, b, old).t[n]['rows'] and db.t[n]['rows'].get(c) != (n, c)]
                        if lost:
                            bad.append(f'rows: the values of {n}.{", ".join(lost)} are lost')
        except Bad as e:
            bad.append(f'statement: {e}')
        if aspects:
            bad = [x for x in bad if x.split(':')[0] in aspects]
        cx.ob(key, not bad, f'{b} {what}: {"; ".join(bad[:3])} in `{word(w)[:300]}`', f.span)
        res.append((db, w))
    return f, res


def check_columns(cx, b):
    """P13: every column definition, in a new table and as added column."""
    i = tc(cx, 'i', 'BigInt', pk=TRUE)
    flags = list(product((FALSE, TRUE), repeat=3))
    for t in TYPES[b]:
        for nullable, pk, unique in flags:
            for ref in (NONE, reference(cx, 'b', 'k')):
                c = tc(cx, 'j', t, nullable=nullable, pk=pk, unique=unique, reference=ref)
                T = table(cx, 'a', [i if pk is FALSE else tc(cx, 'i', 'BigInt'), c])
                key = f'{b}.create.{t}' + ''.join(n for n, x in (('.null', nullable), ('.pk', pk), ('.unique', unique), ('.ref', ref)) if x not in (FALSE, NONE))
                old = {'b': [tc(cx, 'k', pk=TRUE)]}
                ops = [('AddTable', [T])] + ([('AddTableConstraints', [T])] if ref is not NONE else [])
                replay_case(cx, b, key, old, ops, what=f'CREATE TABLE with a {t} column')
                if pk is FALSE and not (b != 'pg' and unique is TRUE):
                    f, res = replay_case(cx, b, key.replace('create', 'add'), dict(old, a=[i]), [('AddColumn', [C('a'), c])],
                                         aspects={'tables', 'columns', 'type', 'NOT NULL', 'primary key', 'UNIQUE', 'statement', 'rows', 'auto'},
                                         what=f'ADD COLUMN of type {t}')
                    for db, w in res or ():
                        fk = [c_['fk'] for c_ in db.t.get('a', {'cols': []})['cols'] if c_['name'] == 'j']
                        want = None if ref is NONE else ('b', 'k')
                        if fk and fk[0] != want:
                            cx.fail(f'{b}.add.fk.' + ('wrong' if fk[0] else 'missing'),
                                    f'{b} ADD COLUMN: the foreign key is {fk[0]}, the schema says {want}: `{word(w)[:200]}`', f.span)
    for t in ('Int', 'BigInt'):
        c = tc(cx, 'j', t, pk=TRUE, auto=TRUE)
        T = table(cx, 'a', [c, tc(cx, 'k')])
        replay_case(cx, b, f'{b}.create.{t}.auto', {}, [('AddTable', [T])], what=f'CREATE TABLE with an auto-incremented {t} key')
    c = col(cx, 'j')
    replay_case(cx, b, f'{b}.create.named', {}, [('AddTable', [table(cx, 'a', [c, tc(cx, 'k')])])], what='CREATE TABLE with a column of a named type')
    # several columns, in order, several references
    cs = [tc(cx, n, reference=reference(cx, 'b', 'k') if n in 'xz' else NONE) for n in 'xyz']
    T = table(cx, 'a', cs)
    old = {'b': [tc(cx, 'k', pk=TRUE)]}
    for op in ('AddTable', 'AddTableIfNotExists'):
        f, res = replay_case(cx, b, f'{b}.create.many.{op}', old, [(op, [T]), ('AddTableConstraints', [T])], what='CREATE TABLE with several columns')
        for db, w in res or ():
            cx.ob(f'{b}.create.many.{op}.order', [c['name'] for c in db.t.get('a', {'cols': []})['cols']] == list('xyz'), f'{b}: columns are created in order', f.span)
            cx.ob(f'{b}.create.many.{op}.exists', getattr(db, 'ine', []) == [op != 'AddTable'],
                  f'{b} {op}: IF NOT EXISTS exactly when asked for (`{word(w)[:80]}`)', f.span)


# ------------------------------------------------------------------- operations

def attr_values(cx, a):
    """Pairs of different values of an attribute."""
    if a == 'sqltype':
        return [(known_type(cx, 'Int'), known_type(cx, 'BigInt')), (known_type(cx, 'Int'), known_type(cx, 'Text'))]
    if a == 'reference':
        r, q, k = reference(cx, 'b', 'k'), reference(cx, 'c', 'k'), reference(cx, 'b', 'l')
        return [(NONE, r), (r, NONE), (r, q), (r, k)]
    if a == 'default':
        return []
    return [(FALSE, TRUE), (TRUE, FALSE)]


def others(cx):
    return {'b': [tc(cx, 'k', pk=TRUE), tc(cx, 'l', unique=TRUE)], 'c': [tc(cx, 'k', pk=TRUE)]}


NOTROWS = {'tables', 'columns', 'type', 'NOT NULL', 'primary key', 'UNIQUE', 'foreign key', 'statement'}


def change_cases(cx, b):
    """(key, old schema, operations, description) of single changes."""
    i, z = tc(cx, 'i', pk=TRUE), tc(cx, 'z', 'Text')
    zr = tc(cx, 'z', reference=reference(cx, 'c', 'k'))
    for a in ATTRS:
        if a == 'auto':
            continue
        for n, (x, y) in enumerate(attr_values(cx, a)):
            for extra in ({}, {'nullable': TRUE}) if a not in ('nullable', 'pk') else ({},):
                o, w = tc(cx, 'j', **dict(extra, **{a: x})) if a != 'sqltype' else col(cx, 'j', sqltype=x, **extra), \
                    tc(cx, 'j', **dict(extra, **{a: y})) if a != 'sqltype' else col(cx, 'j', sqltype=y, **extra)
                # the key moves from one column to the other
                if a == 'pk':
                    i1 = tc(cx, 'i', pk=y)
                    i2 = tc(cx, 'i', pk=x)
                    ch = [('ChangeColumn', [C('a'), o, w]), ('ChangeColumn', [C('a'), i1, i2])]
                    yield f'{a}.{n}', dict(others(cx), a=[i1, o, z]), ch, 'moving the primary key'
                    yield f'{a}.{n}.other', dict(others(cx), a=[i1, o, z]), ch[::-1], 'moving the primary key'
                    continue
                for zn, zz in (('', z), ('.ref', zr)):
                    yield f'{a}.{n}' + ('.null' if extra else '') + zn, dict(others(cx), a=[i, o, zz]), [('ChangeColumn', [C('a'), o, w])], f'changing {a}'
    # everything at once
    o = tc(cx, 'j', reference=reference(cx, 'b', 'k'), unique=TRUE)
    w = tc(cx, 'j', 'BigInt', reference=reference(cx, 'c', 'k'), nullable=TRUE)
    yield 'all', dict(others(cx), a=[i, o, z]), [('ChangeColumn', [C('a'), o, w])], 'changing several attributes'
    for r in (NONE, reference(cx, 'b', 'k')):
        o = tc(cx, 'j', reference=r)
        n = '' if r is NONE else '.ref'
        yield 'remove' + n, dict(others(cx), a=[i, o, z]), [('RemoveColumn', [C('a'), C('j')])], 'removing a column'
        yield 'remove.keep' + n, dict(others(cx), a=[i, o, zr]), [('RemoveColumn', [C('a'), C('j')])], 'removing a column'
        if r is NONE or b == 'pg':
            # SQLite: the foreign key of an added column is a recorded finding of P13
            yield 'add' + n, dict(others(cx), a=[i, z]), [('AddColumn', [C('a'), o])], 'adding a column'
        yield 'addtable' + n, others(cx), [('AddTable', [table(cx, 'a', [i, o])]), ('AddTableConstraints', [table(cx, 'a', [i, o])])], 'adding a table'
        T = table(cx, 'a', [i, o])
        yield 'removetable' + n, dict(others(cx), a=[i, o]), [('RemoveTableConstraints', [T]), ('RemoveTable', [C('a')])], 'removing a table'


def pair_cases(cx, b):
    """Two operations on the same table: the second must see what the first did."""
    i, j, z = tc(cx, 'i', pk=TRUE), tc(cx, 'j', reference=reference(cx, 'b', 'k')), tc(cx, 'z', 'Text')
    z2, j2 = tc(cx, 'z', 'Text', nullable=TRUE), tc(cx, 'j', reference=reference(cx, 'c', 'k'))
    y = tc(cx, 'y')
    x1 = [('cj', ('ChangeColumn', [C('a'), j, j2])), ('cz', ('ChangeColumn', [C('a'), z, z2])), ('rj', ('RemoveColumn', [C('a'), C('j')])),
          ('rz', ('RemoveColumn', [C('a'), C('z')])), ('ay', ('AddColumn', [C('a'), y]))]
    for (n, o), (m, p) in product(x1, x1):
        if n[1] == m[1]:
            continue
        yield f'pair.{n}.{m}', dict(others(cx), a=[i, j, z]), [o, p], f'{o[0]} then {p[0]}'
    T = table(cx, 'd', [i, z])
    for n, p in (('change', ('ChangeColumn', [C('d'), z, z2])), ('remove', ('RemoveColumn', [C('d'), C('z')])), ('drop', ('RemoveTable', [C('d')])),
                 ('add', ('AddColumn', [C('d'), y]))):
        yield f'pair.new.{n}', others(cx), [('AddTable', [T]), p], f'AddTable then {p[0]}'
        yield f'pair.maybe.{n}', others(cx), [('AddTableIfNotExists', [T]), p], f'AddTableIfNotExists then {p[0]}'
    yield 'pair.added', dict(others(cx), a=[i, z]), [('AddColumn', [C('a'), y]), ('ChangeColumn', [C('a'), z, z2])], 'AddColumn then ChangeColumn'
    yield 'pair.tables', dict(others(cx), a=[i, z]), [('RemoveTable', [C('a')]), ('AddTable', [table(cx, 'a', [i, y])])], 'RemoveTable then AddTable'
    yield 'triple', dict(others(cx), a=[i, j, z]), [x1[0][1], x1[1][1], x1[4][1]], 'three operations'
    yield 'none', dict(others(cx), a=[i, j, z]), [], 'no operation'


def check_ops(cx, b, part):
    """P12: the effect of every operation."""
    if part == 'defaults':
        if b == 'pg':
            for n, (x, y) in (('on', (FALSE, TRUE)), ('off', (TRUE, FALSE))):
                o, w = tc(cx, 'j', pk=TRUE, auto=x), tc(cx, 'j', pk=TRUE, auto=y)
                replay_case(cx, b, f'{b}.auto.{n}', {'a': [o]}, [('ChangeColumn', [C('a'), o, w])], aspects=NOTROWS | {'auto'}, what='changing auto')
        return check_defaults(cx, b)
    for key, old, ops, what in (change_cases if part == 'single' else pair_cases)(cx, b):
        f, res = replay_case(cx, b, f'{b}.{key}', old, ops, aspects=NOTROWS, what=what)
        for db, w in res or ():
            if key.startswith('add') and key != 'addtable' and not key.startswith('addtable'):
                for c in db.t['a']['cols'] if 'a' in db.t else ():
                    if c['name'] == 'j':
                        cx.ob(f'{b}.{key}.default', c['default'] is not None and c['default'].upper() != 'NULL', f'{b}: a NOT NULL column is added with a default', f.span)


def check_rows(cx, b, part):
    """P33: rows survive."""
    for key, old, ops, what in (change_cases if part == 'single' else pair_cases)(cx, b):
        if any(k in ('RemoveTable', 'AddTable', 'AddTableIfNotExists') for k, _ in ops):
            continue
        replay_case(cx, b, f'{b}.{key}', old, ops, aspects={'rows', 'statement', 'tables', 'columns'}, what=what)


VARIANTS = {'Bool': 'Bool', 'Int': 'Int', 'BigInt': 'BigInt', 'Real': 'Real', 'Text': 'Text', 'Blob': 'Blob', 'Json': 'Json', 'Date': 'Date',
            'Timestamp': 'Timestamp'}


def literal_ok(b, var, tok, v):
    """Is the token the literal of SqlVal::var(v)?  (v is the name of the payload)"""
    esc = [f'\'{{replace({x},"\'","\'\'")}}\'' for x in (v, f'to_string({v})', f'fmt"{{{v}}}"')]
    if var in ('Bool', 'Int', 'BigInt', 'Real'):
        return tok in (v, '{' + v + '}')
    if var == 'Text':
        return tok in esc[:1]
    if var == 'Json':
        return tok in esc
    if var == 'Blob':
        return tok.lower() in ((f"x'{{encode_upper({v})}}'", f"x'{{encode({v})}}'") if b != 'pg' else (f"'\\x{{encode({v})}}'", f"'\\x{{encode_upper({v})}}'"))
    f = {'Date': ['%Y-%m-%d'], 'Timestamp': ['%Y-%m-%d %H:%M:%S%.f'] + ['%Y-%m-%dT%H:%M:%S%.f'] * (b == 'pg')}[var]
    return tok in [t for x in f for t in (f'{{format({v},"\'{x}\'")}}', f'\'{{format({v},"{x}")}}\'')]


def check_defaults(cx, b):
    SV = sqlval(cx)
    vs = {v[0] for v in cx.F.adts[SV]['variants']}
    for var in VARIANTS:
        if var not in vs:
            continue
        d = some(agg_(SV, var, [mk('p', 9)]))
        i, c = tc(cx, 'i', pk=TRUE), tc(cx, 'j', var, default=d)
        f, texts, errs, panics = sql_of(cx, b, {'a': [i]}, [('AddColumn', [C('a'), c])])
        toks = set()
        for w in texts:
            db = state(cx, b, {'a': [i]})
            try:
                run(db, w)
                toks |= {x['default'] for x in db.t['a']['cols'] if x['name'] == 'j'}
            except Bad as e:
                toks.add(f'<{e}>')
        cx.ob(f'{b}.default.{var}', toks and all(t is not None and literal_ok(b, var, t, 'arg9') for t in toks) and not panics and not errs,
              f'{b} ADD COLUMN with a default of type {var}: the value is written as {sorted(map(str, toks))}', f.span)
        if b == 'pg':
            for n, (x, y) in (('set', (NONE, d)), ('drop', (d, NONE))):
                o, w_ = tc(cx, 'j', var, default=x), tc(cx, 'j', var, default=y)
                f, texts, errs, panics = sql_of(cx, b, {'a': [i, o]}, [('ChangeColumn', [C('a'), o, w_])])
                ok_ = bool(texts) and not errs and not panics
                for w in texts:
                    db = state(cx, b, {'a': [i, o]})
                    try:
                        run(db, w)
                        t = [k['default'] for k in db.t['a']['cols'] if k['name'] == 'j'][0]
                    except (Bad, KeyError, IndexError) as e:
                        t = str(e)
                    ok_ = ok_ and (t is None if n == 'drop' else t is not None and literal_ok(b, var, t, 'arg9'))
                cx.ob(f'{b}.default.{n}.{var}', ok_, f'{b}: changing the default of a {var} column gives {[word(w) for w in texts][:2]}', f.span)
        # without a default: rows get NULL, or a value if the column cannot be NULL
        for nullable in (FALSE, TRUE):
            c = tc(cx, 'j', var, nullable=nullable)
            f, texts, errs, panics = sql_of(cx, b, {'a': [i]}, [('AddColumn', [C('a'), c])])
            ok_ = bool(texts) and not errs and not panics
            for w in texts:
                db = state(cx, b, {'a': [i]})
                try:
                    run(db, w)
                    t = [k['default'] for k in db.t['a']['cols'] if k['name'] == 'j'][0]
                except (Bad, KeyError, IndexError) as e:
                    t = str(e)
                ok_ = ok_ and ((t is None or t.upper() == 'NULL') if nullable is TRUE else zero_ok(b, var, t))
            cx.ob(f'{b}.default.none.{var}' + ('.null' if nullable is TRUE else ''), ok_,
                  f'{b} ADD COLUMN {"NULL" if nullable is TRUE else "NOT NULL"} of type {var} without a default: {[word(w) for w in texts][:2]}', f.span)


def zero_ok(b, var, t):
    if t is None or t.upper() == 'NULL':
        return False
    if var == 'Bool':
        return t.lower().strip('{}') in (('false', 'true') if b == 'pg' else ('false', '0', 'true', '1'))
    if var in ('Int', 'BigInt', 'Real'):
        return bool(re.fullmatch(r'-?\d+(\.\d+)?', t)) or t.startswith('{')
    if var == 'Blob':
        return t.startswith("'\\x" if b == 'pg' else "x'")
    return t.startswith("'") and t.endswith("'") or bool(re.match(r'\{format\(.*\'"\)\}$', t))
