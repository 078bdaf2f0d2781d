"""P28, P37, P10: what the macros generate for the models of the witness program."""
from conv import *
import json, os

W = 'butane_witness'
# what the witness program says: (struct, table, key, {field: attributes}); everything else comes from the types of the fields
SPEC = {'Plain': ('Plain', 'id', {}),
        'Auto': ('Auto', 'id', {}),
        'Named': ('own_table', 'key', {'u': {'unique': True}, 'select': {'default': {'Int': 3}}}),
        'Linked': ('Linked', 'id', {}),
        'OwnLinked': ('links', 'code', {}),
        'OnlyKey': ('OnlyKey', 'id', {}),
        'Spelled': ('Spelled', 'key', {'s1': {'default': {'Text': 'none'}}, 'flag': {'default': {'Bool': True}}, 'o_u': {'unique': True}}),
        'RawKey': ('RawKey', 'type', {}),
        'Derived': ('Derived', 'slug', {})}
OPAQUE = ('from_sql_ref', 'from_sql', 'to_sql_ref', 'to_sql', 'into_sql', 'save', 'ensure_init', 'get', 'len', 'fmt')
PRIMS = {'bool': 'Bool', 'u8': 'Int', 'i8': 'Int', 'u16': 'Int', 'i16': 'Int', 'i32': 'Int', 'u32': 'BigInt', 'i64': 'BigInt', 'f32': 'Real', 'f64': 'Real',
         'String': 'Text', 'Vec<u8>': 'Blob', 'Value': 'Json', 'Uuid': 'Blob', 'NaiveDateTime': 'Timestamp', 'DateTime<Utc>': 'Timestamp', 'NaiveDate': 'Date',
         'Wrapped': 'BigInt', 'WrappedText': 'Text', 'Coin': 'Text', 'Doc': 'Json', 'Shape': 'Json'}


class Model:
    def __init__(self, cx, name, of=None):
        self.cx, self.name = cx, name
        self.table, self.pk, self.attrs = SPEC[of or name]
        r = [k for k, a in cx.F.adts.items() if k.startswith(W) and k.endswith('models::' + name)]
        self.id = one(r, f'witness model {name}')
        a = cx.F.adts[self.id]
        self.fields = [(f[0].replace('r#', ''), simple(ty_of(a, f))) for f in a['variants'][0][2]]
        self.cols = [(f, t) for f, t in self.fields if not t.startswith('Many<')]
        self.many = [(f, t[5:-1]) for f, t in self.fields if t.startswith('Many<')]

    def fn(self, name, selfty=None):
        r = [f for f in self.cx.F.fns.values() if f.crate == W and f.name == name and not f.parent and (f.selfty or '').endswith(f'models::{self.name}')
             and not (f.selfty or '').startswith('&')]
        return one(r, f'{name} of {self.name}')

    def const(self, name):
        f = self.fn(name)
        return list(self.cx.graph(f).finals.values())[0], f

    def sql(self, t):
        """SQL type of a field's type."""
        for w in ('Option<', 'AutoPk<'):
            if t.startswith(w):
                return self.sql(t[len(w):-1])
        if t.startswith('ForeignKey<'):
            m = Model(self.cx, t[11:-1])
            return m.sql(dict(m.fields)[m.pk])
        return PRIMS[t]


def simple(t):
    t = re.sub(r"(?:\b\w+::)+", '', t.replace(' ', ''))
    return t


def ty_of(a, f):
    t = f[1]
    return a['types'][t] if isinstance(t, int) and 'types' in a else str(t)


def cols(v):
    """[(name, type)] of a list of columns"""
    if v.op != 'arr':
        return None
    out = []
    for c in v.a[0]:
        if c.op != 'agg' or not c.a[0].endswith('::Column'):
            return None
        out.append((cval(c.a[2][0]) if is_const(c.a[2][0]) else show(c.a[2][0]), c.a[2][1].a[1] if c.a[2][1].op == 'agg' else show(c.a[2][1])))
    return out


def mpaths(cx, f, args=None, extra=()):
    g = cx.graph(f, args=args, opaque=lambda n, i, d: last(n) in OPAQUE + extra, max_nodes=20000, widen=100)
    return list(paths(g, limit=20000, full=True))


def ename(f):
    return f.replace('r#', '')


def fld(v):
    """Field of self a term stands for."""
    m = re.fullmatch(r'arg0\.(?:r#)?(\w+)', show(v))
    return m.group(1) if m else None


def check_mapping(cx):
    """Columns, rows and values of a model correspond field by field."""
    cx.witness()
    for name in SPEC:
        m = Model(cx, name)
        v, f = m.const('TABLE')
        cx.ob(f'{name}.table', is_const(v) and cval(v) == m.table, f'{name} is stored in {show(v)}, not {m.table}', f.span)
        v, f = m.const('PKCOL')
        cx.ob(f'{name}.pkcol', is_const(v) and cval(v) == m.pk, f'the key column of {name} is {show(v)}, not {m.pk}', f.span)
        v, f = m.const('AUTO_PK')
        auto = dict(m.fields)[m.pk].startswith('AutoPk<')
        cx.ob(f'{name}.autopk', v is (TRUE if auto else FALSE), f'AUTO_PK of {name} is {show(v)}', f.span)
        C_ = columns(cx, m)
        v, f = m.const('NON_AUTO_COLUMNS')
        nac = cols(v)
        types = dict(m.fields)
        cx.ob(f'{name}.nonauto', nac == [c for c in C_ if not types[c[0]].startswith('AutoPk<')],
              f'the columns {name} writes are {nac}, its columns {C_}', f.span)
        for what in ('pk', 'pk_mut'):
            f = m.fn(what)
            got = [v for _, v in mpaths(cx, f)]
            cx.ob(f'{name}.{what}', got and all(v is not None and fld(v) == m.pk for v in got), f'{name}::{what} is {shows(got)}', f.span)
        for what in ('to_sql', 'to_sql_ref', 'as_pk'):
            f = m.fn(what)
            for _, v in mpaths(cx, f):
                x = v
                while x is not None and x.op in ('r', 'agg') and (x.a[1] if x.op == 'r' else x.a[2]):
                    x = (x.a[1] if x.op == 'r' else x.a[2])[0]
                cx.ob(f'{name}.{what}', x is not None and fld(x) == m.pk, f'{name}::{what} is {show(v) if v is not None else "a panic"}, not of its key', f.span)
        # values, in the order of the columns
        f = m.fn('non_auto_values')
        for inc in (TRUE, FALSE):
            want = [c for c, _ in nac or [] if inc is TRUE or c != m.pk]
            for evs, v in mpaths(cx, f, args=[mk('p', 'arg0'), inc]):
                if v is not None and v.op == 'obj':
                    v = mk('arr', tuple(e.a[1] for e in evs if e.k == 'push' and e.a[0] is v))
                got = [fld(x.a[1][0]) if x.op == 'r' and last(str(x.a[0])) == 'to_sql_ref' and len(x.a[1]) == 1 else show(x)[:60] for x in v.a[0]] \
                    if v is not None and v.op == 'arr' else None
                cx.ob(f'{name}.values.{show(inc)}', got == want, f'{name} writes the values {got} to the columns {want}', f.span)
        # many-to-many fields
        for kind in ('sync', 'async'):
            f = m.fn(f'save_many_to_many_{kind}')
            ps = mpaths(cx, f, args=[mk('p', 'arg0'), mk('p', 'conn')])
            oks = 0
            for evs, v in ps:
                good, msg = manys(cx, m, evs, 'arg0.', awaited=kind == 'async', stop=v is not None and is_err(v))
                good &= v is not None
                oks += v is not None and is_ok(v)
                cx.ob(f'{name}.many.{kind}', good, f'{name}::{f.name}: {msg}', f.span)
            cx.ob(f'{name}.many.{kind}.ok', oks >= 1, f'{name}::{f.name} never succeeds', f.span)
        rows(cx, m, C_, m)
    # a result with fewer columns
    p = Model(cx, 'Part', 'Plain')
    rows(cx, p, columns(cx, p), Model(cx, 'Plain'))
    q = p.fn('query')
    for _, v in mpaths(cx, q):
        t = [x for x in subterms(v) if is_const(x)] if v is not None else []
        cx.ob('Part.query', any(cval(x) == 'Plain' for x in t), f'the query of Part is {show(v)[:100] if v is not None else "a panic"}', q.span)


def columns(cx, m):
    v, f = m.const('COLUMNS')
    C_ = cols(v)
    cx.ob(f'{m.name}.columns', C_ is not None and sorted(C_) == sorted((c, m.sql(t)) for c, t in m.cols),
          f'the columns of {m.name} are {C_}, its fields {[(c, t) for c, t in m.cols]}', f.span)
    return C_ or []


def rows(cx, m, C_, owner):
    """from_row takes every field from the position of its column, and fails on any other number of columns."""
    f = m.fn('from_row')
    order = [c for c, _ in C_]
    ps = mpaths(cx, f, args=[mk('p', 'row')])
    oks = [(e, v) for e, v in ps if v is not None and is_ok(v)]
    cx.ob(f'{m.name}.row.ok', len(oks) >= 1, f'{m.name}::from_row never succeeds', f.span)
    for evs, v in ps:
        if v is None:
            cx.ob(f'{m.name}.row.panic', False, f'{m.name}::from_row panics {[str(e)[:80] for e in diverged(evs)][:1]}', f.span)
            continue
        lens = [e for e in evs if e.k == 'assume' and 'len(' in show(e.a[0])]
        bad = [e for e in evs if e.k == 'assume' and str(e.a[1]) == 'Err']
        if is_err(v):
            cx.ob(f'{m.name}.row.err', True)
            continue
        if not is_ok(v):
            cx.fail(f'{m.name}.row.value', f'{m.name}::from_row gives {show(v)[:120]}', f.span)
            continue
        cx.ob(f'{m.name}.row.len', any(str(len(C_)) in show(e.a[0]) for e in lens), f'{m.name}::from_row takes rows of any length', f.span)
        cx.ob(f'{m.name}.row.swallow', not bad, f'{m.name}::from_row ignores a failed conversion', f.span)
        x = v.a[2][0]
        good = x.op == 'agg' and x.a[0] == m.id
        got = {}
        if good:
            for (fn_, t), y in zip(m.fields, x.a[2]):
                if t.startswith('Many<'):
                    continue
                gets = {z for z in subterms(y) if z.op == 'r' and last(str(z.a[0])) == 'get'}
                g = list(gets)[0] if len(gets) == 1 else None
                i = order.index(fn_) if fn_ in order else None
                good &= g is not None and show(g.a[1][0]) == 'row' and is_const(g.a[1][1]) and cval(g.a[1][1]) == i
                good &= g is not None and g.a[1][2].op == 'agg' and i is not None and g.a[1][2].a[1] == C_[i][1]
                conv_ = [z for z in subterms(y) if z.op == 'r' and last(str(z.a[0])) in ('from_sql_ref', 'from_sql')]
                good &= len(conv_) == 1
                got[fn_] = show(g)[:60] if g is not None else show(y)[:60]
        cx.ob(f'{m.name}.row', good, f'{m.name}::from_row reads {got}, the columns are {C_}'[:600], f.span)
        if good and m.many:
            mm, msg = manys(cx, m, evs, None, False, False, built=x)
            cx.ob(f'{m.name}.row.many', mm, f'{m.name}::from_row: {msg}', f.span)


def manys(cx, m, evs, recv, awaited, stop, built=None):
    """Every many-to-many field is bound to its own table and this object's key, and then saved."""
    seen, saved = {}, []
    for i, e in enumerate(evs):
        if e.k != 'call':
            continue
        l = last(e.a[0])
        if l == 'ensure_init':
            seen_f = fld(e.a[1][0]) if recv else len(seen)
            a = e.a[1]
            tn = cval(a[1]) if is_const(a[1]) else show(a[1])
            if recv:
                key = show(a[2]) == f'to_sql(arg0.{m.pk})'
            else:
                i_ = [f for f, _ in m.fields].index(m.pk)
                key = contains(a[2], built.a[2][i_])
            if not key:
                return False, f'the owner of the links is {show(a[2])[:80]}'
            if a[3].op != 'agg' or a[3].a[1] != m.sql(dict(m.fields)[m.pk]):
                return False, f'the type of the owner is {show(a[3])}'
            seen[seen_f] = tn
        elif l == 'save':
            f = fld(e.a[1][0])
            if f not in seen:
                return False, f'{f} is saved before it is bound'
            if show(e.a[1][1]) != 'conn':
                return False, f'{f} is saved with {show(e.a[1][1])}'
            saved.append(f)
            if awaited and not any(x.k == 'await' for x in evs[i:]):
                return False, f'saving {f} is never awaited'
    want = {f: f'{m.table}_{f}_Many' for f, _ in m.many}
    if recv and not stop:
        if seen != want or sorted(saved) != sorted(want):
            return False, f'bound {seen}, saved {saved}, wanted {want}'
    elif recv:
        if any(want.get(f) != t for f, t in seen.items()):
            return False, f'bound {seen}, wanted {want}'
    elif sorted(seen.values()) != sorted(want.values()):
        return False, f'bound {seen}, wanted {want}'
    return True, ''


# ------------------------------------------------------------------ the recorded schema

def recorded(cx):
    d = os.path.join(cx.dir, 'witness_butane/migrations/current')
    if not os.path.isdir(d):
        raise Missing('schema of the witness program')
    out = {}
    for f in os.listdir(d):
        if f.endswith('.table'):
            t = json.load(open(os.path.join(d, f)))
            out[t['name']] = t['columns']
    return out, json.load(open(os.path.join(d, 'types.json')))


def resolve(tabs, types, t, depth=0):
    """(SQL type, (table, column) a key refers to)"""
    ref = None
    while 'Deferred' in t and depth < 9:
        k, depth = t['Deferred'], depth + 1
        if k in types:
            t = types[k]
        elif k.startswith('PK:') and k[3:] in tabs:
            pk = [c for c in tabs[k[3:]] if c['pk']]
            if len(pk) != 1:
                return None, None
            ref = ref or (k[3:], pk[0]['name'])
            t = pk[0]['sqltype']
        else:
            return None, None
    return t.get('KnownId', {}).get('Ty'), ref


def check_recorded(cx):
    """The schema recorded while the program is compiled is the one its types and attributes describe."""
    cx.witness()
    tabs, types = recorded(cx)
    want = {}
    for name in SPEC:
        m = Model(cx, name)
        want[m.table] = (m, [c for c, _ in m.cols])
        for f, t in m.many:
            want[f'{m.table}_{f}_Many'] = (m, ['owner', 'has'])
    cx.ob('tables', sorted(tabs) == sorted(want), f'tables recorded: {sorted(set(tabs) ^ set(want))} differ')
    for t, (m, names) in sorted(want.items()):
        got = tabs.get(t, [])
        cx.ob(f'{t}.names', sorted(c['name'] for c in got) == sorted(names), f'columns recorded for {t}: {[c["name"] for c in got]}')
        for c in got:
            n = c['name']
            if n not in names:
                continue
            ty, ref = resolve(tabs, types, c['sqltype'])
            r = c.get('reference')
            rr = None
            if r and 'Literal' in r:
                rr = (r['Literal']['table_name'], r['Literal']['column_name'])
            elif r:
                rr = resolve(tabs, types, r['Deferred'])[1] or False
            if t != m.table:
                f, target = [x for x in m.many if t == f'{m.table}_{x[0]}_Many'][0]
                o = m if n == 'owner' else Model(cx, target)
                e = dict(ty=o.sql(dict(o.fields)[o.pk]), nullable=False, pk=False, auto=False, unique=False, default=None, ref=(o.table, o.pk))
            else:
                ft = dict(m.fields)[n]
                a = m.attrs.get(n, {})
                inner = ft[7:-1] if ft.startswith('Option<') else ft
                tm = Model(cx, inner[11:-1]) if inner.startswith('ForeignKey<') else None
                e = dict(ty=m.sql(ft), nullable=ft.startswith('Option<'), pk=n == m.pk, auto=ft.startswith('AutoPk<'), unique=a.get('unique', False),
                         default=a.get('default'), ref=(tm.table, tm.pk) if tm else None)
            g = dict(ty=ty, nullable=c['nullable'], pk=c['pk'], auto=c['auto'], unique=c['unique'], default=c['default'], ref=rr)
            for k in e:
                cx.ob(f'{t}.{n}.{k}', g[k] == e[k], f'column {n} of {t} is recorded with {k} = {g[k]}, the model says {e[k]}')


def check_types(cx):
    """The type of a field in Rust, of its values, of its column in the model, in the recorded schema and in the database agree."""
    cx.witness()
    tabs, types = recorded(cx)
    fts = {simple(t): t for t in field_types(cx)}
    for t, s in PRIMS.items():
        if t not in fts:
            cx.fail(f'type.{t}', f'{t} is not a field type')
            continue
        got = sqltype_of(cx, fts[t])
        cx.ob(f'type.{t}', got == s, f'the SQL type of {t} is {got}, not {s}')
    for t in fts:
        if t not in PRIMS and '<' not in t and not t.startswith('['):
            cx.note(f'field type {t} has no column in the witness program')
    for name in SPEC:
        m = Model(cx, name)
        v, f = m.const('COLUMNS')
        C_ = dict(cols(v) or [])
        for c in tabs.get(m.table, []):
            ty, _ = resolve(tabs, types, c['sqltype'])
            cx.ob(f'{name}.{c["name"]}', ty is not None and ty == C_.get(c['name']),
                  f'{name}.{c["name"]} is a column of type {ty} in the schema and {C_.get(c["name"])} in the model', f.span)
    for k, t in types.items():
        if k.startswith('CT:'):
            ft = fts.get(k[3:])
            cx.ob(f'custom.{k}', ft is not None and resolve(tabs, types, t)[0] == sqltype_of(cx, ft), f'{k} is recorded as {t}')


def check_malformed(cx):
    """Reading data that does not fit is an error: the reading side of the conversions, and of the rows of models."""
    for f, args, keep in ((check_fields, ('butane_core',), r'^(?!.*\.(to_sql|to_sql_ref|into_sql)\.)'), (check_fields, (W,), r'^(?!.*\.(to_sql|to_sql_ref|into_sql)\.)'),
                          (check_lite, ('sqlite',), r'\.read\.'), (check_lite, ('turso',), r'\.(read|row)\.'),
                          (check_pg, (), r'^pg\.(read\.|row|column\.\w+\.)'), (check_mapping, (), r'\.row\b')):
        c = cx.fork(cx)
        f(c, *args)
        n = 0
        for o in c.obs:
            if re.search(keep, o[0]):
                cx.ob(*o)
                n += 1
        cx.analysed |= c.analysed
        cx.ob(f'{f.__name__}.{"-".join(args)}.found', n >= 3, f'{n} obligations')
