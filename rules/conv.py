"""P11, P10, P29: values on their way between Rust, SqlVal and the databases."""
from flow import *
import known
import interp as _i
from interp import owner_ty

VARS = ('Bool', 'Int', 'BigInt', 'Real', 'Text', 'Blob', 'Json', 'Date', 'Timestamp')
LOSSLESS = {('f64', 'f32')}            # what a float field of 32 bits asks for
INTS = {'u8': (0, 8), 'i8': (1, 8), 'u16': (0, 16), 'i16': (1, 16), 'u32': (0, 32), 'i32': (1, 32), 'u64': (0, 64), 'i64': (1, 64),
        'usize': (0, 64), 'isize': (1, 64), 'u128': (0, 128), 'i128': (1, 128)}


def widens(a, b):
    """Does every a fit into b?"""
    if a == b or (a, b) in (('f32', 'f64'),):
        return True
    if a == 'bool' and b in INTS:
        return True
    if a in INTS and b in INTS:
        (s, n), (t, m) = INTS[a], INTS[b]
        return (s == t and n <= m) or (not s and t and n < m)
    return (a in INTS and b == 'f64' and INTS[a][1] <= 32)


def adtid(cx, suffix):
    r = [k for k in cx.F.adts if k.endswith(suffix)]
    if len(r) != 1:
        raise Missing(f'type {suffix}')
    return r[0]


def variants(cx, adt):
    return {v[0]: len(v[2]) for v in cx.F.adts[adt]['variants']}


def sv(cx):
    return adtid(cx, 'sqlval::SqlVal')


def svr(cx):
    return adtid(cx, 'sqlval::SqlValRef')


def rename(v, a, b):
    """The same term with aggregate type a called b."""
    if v.op == 'agg' and v.a[0] == a:
        return mk('agg', b, v.a[1], v.a[2])
    return v


TOKEN = lambda s: mk('p', s)
TVAL = 'T'          # value of a type parameter
WRAPPED = 'sql(T)'  # and what it converts to


def hook_for(cx, selfty):
    SV, SVR = sv(cx), svr(cx)

    def hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, s=st, e=evs: it.finish(s, depth, dest, target, val, e, loc, fn)
        a = it.undr(st, av[0]) if av else None
        unresolved = info.get('rk') != 'item'
        # conversions of a type parameter, or of Self in a provided method
        if unresolved and l in ('to_sql', 'to_sql_ref', 'into_sql', 'from_sql', 'from_sql_ref') and 'sqlval::' in info['d']:
            sty = (owner_ty(fn, info) or '')
            if fn.intrait and selfty and sty in ('Self', '') :
                r = [f for f in cx.F.fns.values() if f.name == l and f.selfty == selfty and (f.trait or '').endswith('sqlval::' + ('FromSql' if 'from' in l else 'ToSql'))]
                if len(r) == 1 and it.can_inline(st, r[0].id):
                    return it.enter(st, depth, fn, fr, r[0].id, av, dest, target, evs, None, loc)
            if l in ('to_sql', 'to_sql_ref', 'into_sql'):
                if a.op == 'p' and str(a.a[0]).startswith(TVAL):
                    return fin(mk('agg', SVR if l == 'to_sql_ref' else SV, 'Text', (mk('r', WRAPPED, (a,), ''),)))
                return None
            if a.op == 'agg' and a.a[0] in (SV, SVR):
                x = a.a[2][0] if a.a[2] else None
                if x is not None and x.op == 'r' and x.a[0] == WRAPPED:
                    return fin(_ok(x.a[1][0]))
                return fin(_err(mk('r', 'T::from_sql', (a,), '')))
        if l in ('try_from', 'try_into') and len(av) == 1 and not (fid in cx.F.fns and not fid.startswith('models::')):
            t = target_ty(fn, info, l)
            ty = typeof(a)
            if ty and widens(ty, t):
                return fin(_ok(simp(mk('cast', declared(a) or ty, t, a))))
            s2 = State(st.stack, dict(st.store))
            return fin(_ok(mk('narrow', t, a))) + fin(_err(mk('r', 'out-of-range', (a,), '')), s2, list(evs))
        if l in ('get', 'into_inner', 'get_or_init') and ('OnceLock' in name or 'OnceCell' in name):
            if a.op == 'agg':
                return fin(a if l == 'get_or_init' else some(a))
            if a.op == 'r' and last(str(a.a[0])) == 'new' and l != 'get_or_init':
                return fin(NONE)
        inv = {'and_utc': 'naive_utc', 'from_slice': 'as_bytes', 'from_bytes': 'as_bytes', 'deserialize': 'to_value', 'from_value': 'to_value',
               'from_utc': 'naive_utc', 'from_naive_utc_and_offset': 'naive_utc'}.get(l)
        if inv and len(av) >= 1:
            x = a
            if x.op == 'r' and last(str(x.a[0])) == inv:
                v = x.a[1][0]
                return fin(v if l in ('and_utc', 'from_bytes', 'from_utc', 'from_naive_utc_and_offset') else _ok(v))
        if l == 'to_value' and a is not None:
            x = jsonval(a)
            return fin(_ok(x))
        if l == 'deserialize' and len(av) == 1 and a.op == 'agg' and a.a[1] == 'Object':
            pass
        return known.hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)
    return hook


def target_ty(fn, info, l):
    """The type a fallible conversion goes to."""
    o = owner_ty(fn, info)
    if l == 'try_from' and o:
        return short_ty(o)
    ga = [fn.types[i] for i in info.get('a', [])]
    return short_ty(ga[-1]) if ga else '?'


def plain(v):
    """Lists of pairs with known keys are maps."""
    if not isinstance(v, V):
        return v
    if v.op == 'agg':
        return mk('agg', v.a[0], v.a[1], tuple(plain(x) for x in v.a[2]))
    if v.op == 'arr' and all(x.op == 'tup' and len(x.a[0]) == 2 and is_const(x.a[0][0]) for x in v.a[0]):
        return known.mkmap({cval(x.a[0][0]): x.a[0][1] for x in v.a[0]})
    return v


def jsonval(a):
    """serde_json::to_value of a value"""
    if a.op == 'map':
        return mk('agg', 'serde_json::value::Value', 'Object', (mk('map', tuple((k, jsonval(v)) for k, v in a.a[0])),))
    return mk('r', 'serde_json::to_value', (a,), '')


def typeof(v):
    """Primitive type of a term, if known."""
    if v.op == 'p':
        m = re.match(r'(\w+)!', str(v.a[0]))
        return m.group(1) if m else None
    if v.op == 'cast':
        t = typeof(v.a[2]) or v.a[0]
        return t if widens(t, v.a[1]) else v.a[1]
    if v.op == 'narrow':
        return v.a[0]
    return None


def declared(v):
    return v.a[1] if v.op == 'cast' else typeof(v)


_ok = _i.ok
_err = _i.err


def simp(v):
    """Undo conversions that lose nothing and come back to the same type."""
    if not isinstance(v, V):
        return v
    if v.op == 'cast':
        x = simp(v.a[2])
        src, dst = v.a[0], v.a[1]
        t = typeof(x) or src
        if widens(t, src) and dst == t:
            return x
        if widens(t, dst):
            return x if x.op in ('p',) else mk('cast', src, dst, x)
        if x.op == 'cast' and x.a[0] == dst and widens(x.a[0], x.a[1]):
            return x.a[2]
        return mk('cast', src, dst, x)
    go = lambda y: simp(y) if isinstance(y, V) else tuple(go(z) for z in y) if isinstance(y, tuple) else y
    return mk(v.op, *[go(y) for y in v.a])


def lossy(v):
    """A construct in v that may lose part of the value, if any."""
    for x in subterms(v):
        if x.op == 'cast' and not widens(x.a[0], x.a[1]) and (x.a[0], x.a[1]) not in LOSSLESS:
            return f'a cast from {x.a[0]} to {x.a[1]}'
        if x.op in ('bin', 'un', 'not', 'cmp', 'mut', 'undef'):
            return show(x)[:80]
        if x.op == 'r' and isinstance(x.a[0], str) and last(x.a[0]) not in FAITHFUL and x.a[0] not in FAITHFUL and 'deserialize' not in last(x.a[0]):
            return last(x.a[0])
    return None


FAITHFUL = {'and_utc', 'naive_utc', 'from_slice', 'as_bytes', 'from_bytes', 'into_bytes', 'parse_str', 'to_value', 'from_value', 'deserialize', 'from', 'into', 'to_vec', 'new', 'iter',
            'parse_from_str', 'from_str', 'as_ref', 'get', 'from_naive_utc_and_offset', 'from_utc', 'sql(T)', 'T::from_sql', 'next', 'try_get', 'from_sql', 'into_iter', 'as_str', 'get_ref',
            'as_i64', 'as_f64', 'as_blob', 'as_bytes_or_null', 'as_slice', 'from_utf8'}


def prim(ty):
    s = short_ty(ty or '')
    return s if s in INTS or s in ('bool', 'f32', 'f64') else None


def start(selfty):
    """Symbolic values of the field type, by shape."""
    p = prim(selfty)
    s = short_ty(selfty)
    if p:
        return [mk('p', p + '!x')]
    if s.startswith('Option<'):
        return [NONE, some(TOKEN(TVAL + '1'))]
    if s.startswith(('HashMap<', 'BTreeMap<')):
        return [mk('map', ()), mk('map', (('k', TOKEN('v1')),)), mk('map', (('k', TOKEN('v1')), ('l', TOKEN('v2'))))]
    return [TOKEN('x')]


def field_types(cx, crate=None):
    """Self types of the implementations of FieldType."""
    return sorted({f.selfty for f in cx.F.fns.values() if f.name == 'SQLTYPE' and (f.trait or '').endswith('sqlval::FieldType') and (crate is None or f.crate == crate)})


def method(cx, trait, name, selfty):
    """(function, by default body?)"""
    r = [f for f in cx.F.fns.values() if f.name == name and f.selfty == selfty and (f.trait or '').split('<')[0].endswith('sqlval::' + trait) and not f.parent]
    if len(r) == 1:
        return r[0]
    return cx.provided(trait, name)


def sqltype_of(cx, selfty):
    f = [f for f in cx.F.fns.values() if f.name == 'SQLTYPE' and f.selfty == selfty and (f.trait or '').endswith('sqlval::FieldType')][0]
    g = cx.graph(f)
    v = list(g.finals.values())[0]
    return v.a[1] if v.op == 'agg' else None


def run_conv(cx, f, selfty, arg):
    """[(assumptions, value)] of the returns."""
    g = cx.graph(f, args=[arg], hook=hook_for(cx, selfty), opaque=lambda n, i, d: last(n) in ('fmt',), max_nodes=6000)
    out = []
    for evs, v in paths(g, kinds={'assume', 'panic', 'diverge', 'push', 'unwrap'}, full=True):
        out.append((evs, v))
    return out


def autopk(cx, x):
    k = adtid(cx, 'autopk::AutoPk')
    fs = cx.F.adts[k]['variants'][0]
    return mk('agg', k, fs[0], (some(x),))


def diverged(evs):
    return [e for e in evs if e.k in ('panic', 'diverge', 'unwrap')]


def check_fields(cx, crate):
    """Every field type: what is written is what is read back, as the type of the column says."""
    if crate == 'butane_witness':
        cx.witness()
    SV, SVR = sv(cx), svr(cx)
    n = 0
    for ty in field_types(cx, crate):
        s = short_ty(ty)
        n += 1
        st = sqltype_of(cx, ty)
        if s.startswith('ForeignKey<'):
            foreign(cx, ty)
            continue
        vals = start(ty)
        if s.startswith('AutoPk<'):
            vals = [autopk(cx, TOKEN(TVAL + '1'))]
        if crate == 'butane_witness':
            vals = user_values(cx, ty) or vals
        for i, x in enumerate(vals):
            null = x is NONE
            for w in ('to_sql', 'to_sql_ref', 'into_sql'):
                fw = method(cx, 'ToSql', w, ty)
                res = run_conv(cx, fw, ty, x)
                want = 'Null' if null else st
                outs = {}
                good = bool(res)
                for evs, v in res:
                    if v is None or v.op != 'agg' or v.a[0] not in (SV, SVR):
                        good = False
                        continue
                    outs[v] = 1
                    if want is None:
                        continue
                    good &= v.a[1] == want
                cx.ob(f'{s}.{w}.{i}', good, f'{s}::{w} gives {[show(v)[:80] for _, v in res][:3]}, the column has type {st}', fw.span)
                for v in outs:
                    for r in ('from_sql', 'from_sql_ref'):
                        fr_ = method(cx, 'FromSql', r, ty)
                        back = run_conv(cx, fr_, ty, rename(v, SVR, SV) if r == 'from_sql' else rename(v, SV, SVR))
                        got = [simp(y) if y is not None else None for _, y in back]
                        cx.ob(f'{s}.{w}.{r}.{i}', got and all(y is not None and plain(y) == _ok(x) for y in got),
                              f'{s}: {r} of what {w} wrote gives {[show(y)[:100] if y is not None else "a panic" for y in got][:3]} instead of the value', fr_.span)
        # nothing else is accepted, or only what can be represented
        for r in ('from_sql', 'from_sql_ref'):
            fr_ = method(cx, 'FromSql', r, ty)
            A = SV if r == 'from_sql' else SVR
            for var, k in sorted(variants(cx, A).items()):
                pay = {'Bool': 'bool', 'Int': 'i32', 'BigInt': 'i64', 'Real': 'f64'}.get(var, '')
                arg = mk('agg', A, var, tuple(mk('p', (pay + '!' if pay else '') + 'y') for _ in range(k)))
                back = run_conv(cx, fr_, ty, arg)
                for evs, y in back:
                    if y is None or diverged(evs):
                        cx.ob(f'{s}.{r}.{var}.panic', not diverged(evs), f'{s}::{r} panics on a value of type {var} ({diverged(evs)[:1]})'[:300], fr_.span)
                    elif is_ok(y):
                        p = y.a[2][0]
                        l = lossy(p)
                        if var == 'Null':
                            cx.ob(f'{s}.{r}.null', p is NONE, f'{s}::{r} takes NULL for {show(p)[:80]}', fr_.span)
                        else:
                            uses = contains(p, arg.a[2][0]) or p.op == 'obj' or any(
                                e.k == 'assume' and contains(e.a[0], arg.a[2][0]) and pinned(e) for e in evs)
                            cx.ob(f'{s}.{r}.{var}', l is None and uses,
                                  f'{s}::{r} of {var} gives {show(p)[:100]}: part of the value may be lost ({l})', fr_.span)
                    else:
                        cx.ob(f'{s}.{r}.{var}.err', True)
    cx.ob(f'{crate}.types', n >= {'butane_core': 20, 'butane_witness': 4}[crate], f'{n} field types found')


def pinned(e):
    """Does the assumption fix the value?"""
    t, v = e.a[0], e.a[1]
    if t.op in ('p', 'cast', 'narrow'):
        return not isinstance(v, tuple) and 'other' not in str(v)
    return v in (True, 'True') or v is TRUE


def contains(v, x):
    return any(y is x for y in subterms(v))


def user_values(cx, ty):
    """Values of the field types of the witness program."""
    k = [a for a in cx.F.adts if cx.F.adts[a]['path'] == ty]
    if len(k) != 1:
        return None
    vs = cx.F.adts[k[0]]['variants']
    if all(not v[2] for v in vs):
        return [mk('agg', k[0], v[0], ()) for v in vs]
    if len(vs) == 1 and len(vs[0][2]) == 1 and vs[0][2][0][0] == '0':
        p = prim(cx.F.adts[k[0]]['types'][vs[0][2][0][1]]) if isinstance(vs[0][2][0][1], int) else None
        return [mk('agg', k[0], vs[0][0], (mk('p', (p + '!x') if p else 'x'),))]
    return None


def foreign(cx, ty):
    """A foreign key read from a row refers to, and is written as, the same value."""
    SV, SVR = sv(cx), svr(cx)
    fr_, s = method(cx, 'FromSql', 'from_sql_ref', ty), 'ForeignKey'
    for var, k in sorted(variants(cx, SVR).items()):
        if var in ('Null', 'Custom'):
            continue
        arg = mk('agg', SVR, var, (TOKEN('x'),))
        for evs, y in run_conv(cx, fr_, ty, arg):
            if y is not None and is_err(y) and re.match(r'Err\(from_sql(_ref)?\(', show(y)):
                continue       # the value is no key of the model
            if y is None or not is_ok(y):
                cx.fail(f'{s}.from.{var}', f'a foreign key of type {var} cannot be read: {show(y)[:100] if y is not None else "panic"}', fr_.span)
                continue
            fk = y.a[2][0]
            for w in ('to_sql', 'to_sql_ref', 'into_sql'):
                fw = method(cx, 'ToSql', w, ty)
                got = [rename(z, SVR, SV) if z is not None else None for _, z in run_conv(cx, fw, ty, fk)]
                cx.ob(f'{s}.{w}.{var}', got and all(z == mk('agg', SV, var, (TOKEN('x'),)) for z in got),
                      f'a foreign key read from {var} is written as {[show(z)[:80] if z is not None else "panic" for z in got][:3]}', fw.span)


# ------------------------------------------------------------------ SqlVal, SqlValRef, SqlType

def payload(var, i=''):
    t = {'Bool': 'bool!', 'Int': 'i32!', 'BigInt': 'i64!', 'Real': 'f64!'}.get(var, '')
    return TOKEN(t + 'x' + i)


def inst(cx, adt, var, i=''):
    """A value of the variant."""
    if var == 'Null':
        return mk('agg', adt, var, ())
    if var == 'Custom':
        sub = adtid(cx, 'SqlValRefCustom' if adt == svr(cx) else 'SqlValCustom')
        v = [v for v in cx.F.adts[sub]['variants'] if v[0] in ('Pg', 'PgBytes')][0]
        return mk('agg', adt, var, (mk('agg', sub, v[0], tuple(TOKEN(f[0]) for f in v[2])),))
    return mk('agg', adt, var, (payload(var, i),))


def check_refs(cx):
    """SqlVal and SqlValRef are two views of the same value, of the same type."""
    SV, SVR, ST = sv(cx), svr(cx), adtid(cx, 'butane_core::SqlType')
    run = lambda f, *a: list(paths(cx.graph(f, args=list(a), hook=hook_for(cx, None), opaque=lambda n, i, d: last(n) == 'fmt', max_nodes=3000),
                                   kinds={'assume', 'panic', 'diverge', 'unwrap'}, full=True))
    n = 0
    conv = lambda to, frm: [f for f in cx.F.fns.values() if f.name == 'from' and not f.parent and f.crate == 'butane_core' and (f.trait or '').endswith('convert::From')
                            and nolife(f.selfty).endswith(to) and nolife(f.local_ty(1)).endswith(frm)]
    down, up = conv('sqlval::SqlValRef', 'sqlval::SqlVal'), conv('sqlval::SqlVal', 'sqlval::SqlValRef')
    down, up = one(down, 'From<&SqlVal> for SqlValRef'), one(up, 'From<SqlValRef> for SqlVal')
    asref = cx.inherent('SqlVal$', 'as_ref')
    pl = lambda v: sorted(show(x) for x in subterms(v) if x.op == 'p')
    for var in sorted(variants(cx, SV)):
        x, r = inst(cx, SV, var), inst(cx, SVR, var)
        for f, name in ((down, 'From<&SqlVal>'), (asref, 'as_ref')):
            got = [v for _, v in run(f, x)]
            cx.ob(f'{name}.{var}', len(got) == 1 and got[0] is not None and same(got[0], SVR, var, pl(x)), f'{name} of {show(x)} gives {shows(got)}', f.span)
        got = [v for _, v in run(up, r)]
        cx.ob(f'From<SqlValRef>.{var}', len(got) == 1 and got[0] is not None and same(got[0], SV, var, pl(r)), f'the SqlVal of {show(r)} is {shows(got)}', up.span)
        for A, y in (('SqlVal', x), ('SqlValRef', r)):
            f = cx.inherent('SqlVal$' if A == 'SqlVal' else A, 'sqltype')
            got = [v for _, v in run(f, y)]
            want = NONE if var == 'Null' else None
            good = len(got) == 1 and got[0] is not None and (got[0] is NONE if var == 'Null' else got[0].op == 'agg' and got[0].a[1] == 'Some' and got[0].a[2][0].op == 'agg' and got[0].a[2][0].a[1] == var)
            cx.ob(f'{A}.sqltype.{var}', good, f'{A}::sqltype of {show(y)} is {shows(got)}', f.span)
            n += 1
        f = cx.inherent('SqlVal$', 'is_compatible')
        for t in sorted(variants(cx, ST)):
            if t == 'Custom' and var == 'Custom':
                continue
            ty = mk('agg', ST, t, (TOKEN('c'),) if t == 'Custom' else ())
            for null in (TRUE, FALSE):
                got = [v for _, v in run(f, x, ty, null)]
                want = null if var == 'Null' else TRUE if var == t else FALSE
                cx.ob(f'is_compatible.{var}.{t}.{show(null)}', got and all(v is want for v in got), f'is_compatible({show(x)}, {t}, {show(null)}) is {shows(got)}', f.span)
        for m, accept in (('bool', {'Bool'}), ('integer', {'Int'}), ('bigint', {'BigInt', 'Int'}), ('real', {'Real'}), ('text', {'Text'}), ('owned_text', {'Text'}),
                          ('blob', {'Blob'}), ('owned_blob', {'Blob'})):
            f = cx.inherent('SqlVal$', m)
            got = [simp(v) if v is not None else None for _, v in run(f, x)]
            good = len(got) >= 1 and None not in got
            for v in got:
                if v is None:
                    continue
                if is_ok(v):
                    p = v.a[2][0]
                    good &= x.a[2] != () and lossy(p) is None and contains(p, x.a[2][0]) and [z for z in subterms(p) if z.op == 'p'] != []
                else:
                    good &= var not in accept and is_err(v)
            cx.ob(f'{m}.{var}', good, f'SqlVal::{m} of {show(x)} gives {shows(got)}', f.span)
    cx.ob('variants', n >= 20, f'{n} type queries')


def nolife(t):
    return re.sub(r"<'\w+>|<'_>", '', t or '')


def shows(vs):
    return str([show(v)[:90] if v is not None else 'a panic' for v in vs][:3])


def same(v, adt, var, toks):
    return v.op == 'agg' and v.a[0] == adt and v.a[1] == var and sorted(show(x) for x in subterms(v) if x.op == 'p') == toks and (var == 'Custom' or lossy(v) is None)


def one(l, what):
    if len(l) != 1:
        raise Missing(f'{what}: {len(l)} candidates')
    return l[0]


# ------------------------------------------------------------------ values in the databases

COLS = {'INTEGER': 'Integer', 'REAL': 'Real', 'TEXT': 'Text', 'BLOB': 'Blob'}
SPEC = re.compile(r'%(?:\.?\d?[a-zA-Z]|%)|%[-_0][a-zA-Z]')


def faithful_format(fmt, kind):
    """Can every date (timestamp) be read back from its text in this format?"""
    sp = SPEC.findall(fmt)
    lit = SPEC.split(fmt)
    flat = []
    for s in sp:
        flat += {'%F': ['%Y', '%m', '%d'], '%T': ['%H', '%M', '%S']}.get(s, [s])
    need = {'%Y', '%m', '%d'} | ({'%H', '%M', '%S'} if kind == 'Timestamp' else set())
    frac = {'%.f', '%.9f'}
    if not need <= set(flat) or len(set(flat)) != len(flat) or set(flat) - need - frac or (kind == 'Timestamp') != bool(set(flat) & frac):
        return False
    # numbers must not run into each other
    return all((l and not l[0].isdigit() and not l[-1].isdigit()) or (s in frac and not l) for l, s in zip(lit[1:-1], sp[1:])) and not re.search(r'\d', ''.join(lit))


def storage_hook(cx, kinds):
    base = hook_for(cx, None)

    def hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, s=st, e=evs: it.finish(s, depth, dest, target, val, e, loc, fn)
        a = it.undr(st, av[0]) if av else None
        if l in kinds and a is not None and a.op == 'agg' and a.a[0].split('::')[0] in ('rusqlite', 'turso'):
            good = a.a[1] == kinds[l]
            return fin(_ok(text(a.a[2][0])) if good else _err(mk('r', 'wrong-kind', (a,), '')))
        if a is not None and a.op == 'agg' and a.a[0].split('::')[0] in ('rusqlite', 'turso'):
            if l.endswith('_or_null') and l[:-8] in kinds:
                return fin(_ok(some(text(a.a[2][0]))) if a.a[1] == kinds[l[:-8]] else _ok(NONE) if a.a[1] == 'Null' else _err(mk('r', 'wrong-kind', (a,), '')))
            if l == 'data_type':
                return fin(agg('rusqlite::types::Type', a.a[1]))
            if l == 'is_null':
                return fin(C(a.a[1] == 'Null'))
            if l in ('eq', 'ne') and len(av) == 2 and not a.a[2]:
                b = it.undr(st, av[1])
                if b.op == 'agg' and not b.a[2]:
                    return fin(C((a.a[1] == b.a[1]) == (l == 'eq')))
        if l == 'get_ref' and 'rusqlite' in name:
            return fin(_ok(mk('p', '$stored')))
        if l in ('as_bytes', 'as_bytes_or_null', 'into_bytes') and 'str' in name and a is not None and a.op in ('p', 'r', 'c'):
            return fin(a)
        if l in ('to_string', 'to_vec') and 'serde_json' in name:
            return fin(_ok(mk('r', 'json_text', (a,), '')))
        if l in ('from_str', 'from_slice') and 'serde_json' in name:
            if a.op == 'r' and a.a[0] == 'json_text':
                return fin(_ok(a.a[1][0]))
            s2 = State(st.stack, dict(st.store))
            return fin(_ok(mk('r', 'json_value', (a,), ''))) + fin(_err(mk('r', 'malformed', (a,), '')), s2, list(evs))
        if l == 'format' and 'chrono' in name and len(av) == 2:
            return fin(mk('r', 'date_text', (a, it.undr(st, av[1])), ''))
        if l == 'parse_from_str' and 'chrono' in name and len(av) == 2:
            f = it.undr(st, av[1])
            o = owner_ty(fn, info) or ''
            if a.op == 'r' and a.a[0] == 'date_text':
                kind = 'Timestamp' if 'DateTime' in o else 'Date'
                if a.a[1][1] is f and is_const(f) and faithful_format(cval(f), kind):
                    return fin(_ok(a.a[1][0]))
                return fin(_ok(mk('r', 'another_date', (a, f), '')))
            s2 = State(st.stack, dict(st.store))
            return fin(_ok(mk('r', 'date_value', (a, f), ''))) + fin(_err(mk('r', 'malformed', (a,), '')), s2, list(evs))
        return base(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)
    return hook


LITE_KINDS = {'as_i64': 'Integer', 'as_f64': 'Real', 'as_str': 'Text', 'as_blob': 'Blob', 'as_integer': 'Integer', 'as_real': 'Real', 'as_text': 'Text'}


def text(v):
    while v.op == 'r' and last(str(v.a[0])) in ('as_bytes', 'to_string', 'to_vec'):
        v = v.a[1][0]
    return v


def stored(v):
    """(kind, payload) of what the driver is given."""
    if v is None:
        return None
    while v.op == 'agg' and v.a[1] in ('Owned', 'Borrowed', 'Ok') and len(v.a[2]) == 1:
        v = v.a[2][0]
    if v.op == 'agg' and v.a[1] in ('Integer', 'Real', 'Text', 'Blob', 'Null'):
        return v.a[1], (text(v.a[2][0]) if v.a[2] else None)
    if v.op == 'r' and v.a[0] in ('json_text', 'date_text'):
        return 'Text', v
    return None


def check_lite(cx, b):
    """SQLite family: what is stored has the storage class of the column and reads back as the same value."""
    SV, SVR, ST = sv(cx), svr(cx), adtid(cx, 'butane_core::SqlType')
    from ddl import LITE
    H = storage_hook(cx, LITE_KINDS)
    opq = lambda n, i, d: last(n) == 'fmt'

    def run(f, args):
        return [(e, v) for e, v in paths(cx.graph(f, args=args, hook=H, opaque=opq, max_nodes=4000), kinds={'assume', 'panic', 'diverge', 'unwrap'}, full=True)]
    src = f'/db/{b}.rs'
    mine = [f for f in cx.F.fns.values() if f.crate == 'butane_core' and src in f.span and not f.parent]
    if b == 'sqlite':
        writers = [(f, lambda x, f=f: [x if nolife(f.selfty).endswith('SqlValRef') else inst_of(cx, x)])
                   for f in mine if f.name == 'to_sql' and (f.trait or '').startswith('rusqlite')]
        rd = one([f for f in mine if f.name == 'get' and (f.trait or '').endswith('BackendRow')], 'BackendRow::get for rusqlite::Row')
        VAL = 'rusqlite::types::value_ref::ValueRef'

        def read(val, ty):
            import interp
            h2 = lambda it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs: (
                it.finish(st, depth, dest, target, _ok(val), evs, loc, fn) if last(name) == 'get_ref' and 'rusqlite' in name
                else H(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs))
            g = cx.graph(rd, args=[TOKEN('row'), TOKEN('idx'), ty], hook=h2, opaque=opq, max_nodes=4000, key=show(val) + show(ty) + b)
            return [(e, v) for e, v in paths(g, kinds={'assume', 'panic', 'diverge', 'unwrap'}, full=True)]
        RES = SVR
    else:
        VAL = 'turso::value::Value'
        writers = [(f, lambda x, f=f: [x if 'SqlValRef' in f.local_ty(1) else inst_of(cx, x)]) for f in mine
                   if f.argc == 1 and re.search(r'sqlval::SqlVal(Ref)?\b', f.local_ty(1)) and re.search(r'turso\S*::Value$', f.local_ty(0))]
        rd = [f for f in mine if f.argc == 2 and re.search(r'turso\S*::Value$', f.local_ty(1)) and f.local_ty(2).endswith('SqlType')]
        rd = one(rd, 'turso value with a type to SqlVal')
        read = lambda val, ty: run(rd, [val, ty])
        RES = SV
    cx.ob(f'{b}.writers', len(writers) >= 1, f'{len(writers)} conversions to the driver found')
    for f, args in writers:
        for var in sorted(variants(cx, SVR)):
            if var == 'Custom':
                continue
            x = inst(cx, SVR, var)
            res = [stored(v) for _, v in run(f, args(x))]
            res = [r for r in res] if None not in res or any(r for r in res) else res
            live = [r for (e, v), r in zip(run(f, args(x)), res) if not (v is None and unwraps_ok(e))]
            want = 'Null' if var == 'Null' else COLS[LITE[var]]
            cx.ob(f'{b}.store.{var}', live and all(r and r[0] == want for r in live), f'{b}: {show(x)} is stored as {live[:3]}, the column is {LITE.get(var)}', f.span)
            for r in {r for r in live if r}:
                if r[1] is not None:
                    l = None if x.a[2] and stored_ok(r[1], var) else lossy(r[1])
                    cx.ob(f'{b}.payload.{var}', l is None, f'{b}: {show(x)} is stored as {show(r[1])[:90]}: {l}', f.span)
                val = mk('agg', VAL, r[0], (r[1],) if r[1] is not None else ())
                ty = mk('agg', ST, 'Text' if var == 'Null' else var, ())
                got = [plainbool(simp(v)) if v is not None else None for _, v in read(val, ty)]
                exp = _ok(mk('agg', RES, var, x.a[2]))
                cx.ob(f'{b}.back.{var}', got and all(v is exp for v in got), f'{b}: {show(x)} is stored as {show(val)[:90]} and read back as {shows(got)}', rd.span)
    # reading anything else
    for ty in sorted(variants(cx, ST)):
        t = mk('agg', ST, ty, (TOKEN('c'),) if ty == 'Custom' else ())
        for kind in ('Null', 'Integer', 'Real', 'Text', 'Blob'):
            y = TOKEN({'Integer': 'i64!y', 'Real': 'f64!y'}.get(kind, 'y'))
            val = mk('agg', VAL, kind, () if kind == 'Null' else (y,))
            for e, v in read(val, t):
                key = f'{b}.read.{ty}.{kind}'
                if v is None:
                    cx.ob(key, False, f'{b}: reading {kind} as {ty} panics {[str(d)[:80] for d in diverged(e)][:1]}', rd.span)
                elif is_ok(v):
                    p = v.a[2][0]
                    if kind == 'Null':
                        cx.ob(key, p.op == 'agg' and p.a[1] == 'Null', f'{b}: NULL read as {ty} gives {show(p)[:90]}', rd.span)
                        continue
                    good = p.op == 'agg' and p.a[0] == RES and p.a[1] == ty and contains(p, y)
                    z = plainbool(simp(p))
                    good &= ty == 'Bool' or lossy(z) is None or decoded(z.a[2][0])
                    cx.ob(key, good, f'{b}: {kind} read as {ty} gives {show(p)[:90]}: part of the value may be lost', rd.span)
                else:
                    cx.ob(key, is_err(v), f'{b}: {kind} read as {ty} gives {show(v)[:90]}', rd.span)
    if b == 'turso':
        untyped = [f for f in mine if f.argc == 1 and re.search(r'turso\S*::Value$', f.local_ty(1)) and 'sqlval::SqlVal' in f.local_ty(0)]
        for u in untyped:
            for kind in ('Null', 'Integer', 'Real', 'Text', 'Blob'):
                y = TOKEN({'Integer': 'i64!y', 'Real': 'f64!y'}.get(kind, 'y'))
                val = mk('agg', VAL, kind, () if kind == 'Null' else (y,))
                for e, v in run(u, [val]):
                    good = v is not None and is_ok(v)
                    if good:
                        w = v.a[2][0]
                        for f, args in writers:
                            back = [stored(z) for _, z in run(f, args(rename(w, SV, SVR)))]
                            good &= back == [(kind, y if kind != 'Null' else None)]
                    cx.ob(f'{b}.untyped.{kind}', good, f'{b}: a value of a subquery, {show(val)}, becomes {show(v)[:80] if v is not None else "a panic"}', u.span)
        row = one([f for f in mine if f.name == 'get' and (f.trait or '').endswith('BackendRow')], 'BackendRow::get of turso rows')
        k = adtid(cx, short_ty(row.selfty))
        for var in sorted(variants(cx, SV)):
            for i in (0, 1, 2):
                x = inst(cx, SV, var)
                vals = [inst(cx, SV, 'Bool', '9')] * i + [x] + [inst(cx, SV, 'Bool', '8')]
                fs = [mk('arr', tuple(vals)) if f[0] == 'values' else TOKEN(f[0]) for f in cx.F.adts[k]['variants'][0][2]]
                g = mk('agg', k, cx.F.adts[k]['variants'][0][0], tuple(fs))
                t = mk('agg', ST, 'Int' if var == 'Null' else var, (TOKEN('ty'),) if var == 'Custom' else ())
                got = [v for _, v in run(row, [g, const_int(i), t])]
                if var == 'Custom':
                    continue
                cx.ob(f'{b}.row.{var}.{i}', got == [_ok(mk('agg', SVR, var, x.a[2]))], f'{b}: column {i} of a row holding {show(x)} is {shows(got)}', row.span)


def const_int(i):
    return _i.C(i)


def inst_of(cx, x):
    """SqlVal of the SqlValRef."""
    return rename(x, svr(cx), sv(cx))


def unwraps_ok(evs):
    """A panic that only a failing serializer could cause."""
    return any(e.k == 'unwrap' and e.a[0].op == 'r' and e.a[0].a[0] in ('json_text',) for e in evs)


def stored_ok(p, var):
    return (var == 'Json' and p.op == 'r' and p.a[0] == 'json_text') or (
        var in ('Date', 'Timestamp') and p.op == 'r' and p.a[0] == 'date_text' and is_const(p.a[1][1]) and faithful_format(cval(p.a[1][1]), var))


def decoded(p):
    return p.op == 'r' and p.a[0] in ('json_value', 'date_value')


def plainbool(v):
    """bool as an integer, compared with zero, is the bool."""
    if not isinstance(v, V):
        return v
    go = lambda y: plainbool(y) if isinstance(y, V) else tuple(go(z) for z in y) if isinstance(y, tuple) else y
    w = mk(v.op, *[go(y) for y in v.a])
    s = show(w)
    c = r'(?:cast\(bool, ?\w+, ?)?(bool!\w+)\)?'
    m = re.match(rf'^(?:not\(bin\(Eq, {c}, 0\)\)|bin\(Ne, {c}, 0\)|bin\(Eq, {c}, 1\)|not\(bin\(Ne, {c}, 1\)\)|bin\(Gt, {c}, 0\)|bin\(Lt, 0, {c}\))$', s)
    if m:
        for y in subterms(w):
            if y.op == 'p' and show(y) == next(x for x in m.groups() if x):
                return y
    return w


PGT = {'Bool': ('Bool', {'bool'}), 'Int': ('Int4', {'i32'}), 'BigInt': ('Int8', {'i64'}), 'Real': ('Float8', {'f64'}), 'Text': ('Text', {'str', 'String'}),
       'Blob': ('Bytea', {'[u8]', 'Vec<u8>'}), 'Json': ('Jsonb', {'Value', 'serde_json::Value'}), 'Date': ('Date', {'NaiveDate'}),
       'Timestamp': ('Timestamp', {'NaiveDateTime'})}
PGCOL = {'Bool': 'BOOLEAN', 'Int4': 'INTEGER', 'Int8': 'BIGINT', 'Float8': 'DOUBLE PRECISION', 'Text': 'TEXT', 'Bytea': 'BYTEA', 'Jsonb': 'JSONB', 'Date': 'DATE',
         'Timestamp': 'TIMESTAMP'}


def bare(t):
    t = nolife(t or '').strip()
    t = re.sub(r'^(&(\'\w+ )?(mut )?)+', '', t)
    return t if t.startswith('[') else '<'.join([t.split('<')[0].split('::')[-1]] + t.split('<')[1:])


def check_pg(cx):
    """PostgreSQL: values go out and come in as the type of their column."""
    from ddl import TYPES
    SV, SVR, ST = sv(cx), svr(cx), adtid(cx, 'butane_core::SqlType')
    mine = [f for f in cx.F.fns.values() if f.crate == 'butane_core' and '/db/pg.rs' in f.span and not f.parent]
    INNER, TYPE = adtid(cx, 'postgres_types::type_gen::Inner'), adtid(cx, 'postgres_types::Type')
    pgty = lambda n: mk('agg', TYPE, cx.F.adts[TYPE]['variants'][0][0], (mk('agg', INNER, n, ()),))
    opq = lambda n, i, d: last(n) in ('fmt', 'to_sql_checked')
    H0 = hook_for(cx, None)
    names = {v[0].upper(): v[0] for v in cx.F.adts[INNER]['variants']}

    def known_type(x):
        if x.op == 'kc' and len(x.a) > 1 and '::Type>::' in str(x.a[1]):
            n = names.get(last(str(x.a[1])).replace('_', ''))
            return pgty(n) if n else x
        return x

    def H(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        if last(name) in ('eq', 'ne') and 'PartialEq' in name and len(av) == 2:
            a, b = (known_type(it.undr(st, x)) for x in av)
            if all(x.op == 'agg' and x.a[0] == TYPE and x.a[2] and x.a[2][0].op == 'agg' for x in (a, b)):
                return it.finish(st, depth, dest, target, C((a is b) == (last(name) == 'eq')), evs, loc, fn)
        return H0(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)

    def run(f, args, hook=H, kinds={'assume', 'panic', 'diverge', 'unwrap', 'call'}, key=None):
        return list(paths(cx.graph(f, args=args, hook=hook, opaque=opq, max_nodes=6000, key=key), kinds=kinds, full=True))
    for v, (t, _) in PGT.items():
        cx.ob(f'pg.column.{v}', TYPES['pg'][v] == PGCOL[t], f'columns of {v} have type {TYPES["pg"][v]}')
    # writing
    ws = [f for f in mine if f.name == 'to_sql' and (f.trait or '').endswith('ToSql') and re.search(r'SqlVal(Ref)?$', nolife(f.selfty))]
    cx.ob('pg.writers', len(ws) == 2, f'{len(ws)} implementations of ToSql')
    for f in ws:
        for var in sorted(variants(cx, SVR)):
            if var == 'Custom':
                continue
            x = inst(cx, SVR if 'Ref' in nolife(f.selfty) else SV, var)
            for evs, v in run(f, [x, TOKEN('ty'), TOKEN('out')]):
                calls = [e for e in evs if e.k == 'call' and last(e.a[0]) in ('to_sql_checked', 'to_sql')]
                if var == 'Null':
                    good = v is not None and is_ok(v) and v.a[2][0].op == 'agg' and v.a[2][0].a[1] == 'Yes' and not [e for e in evs if e.k == 'call']
                else:
                    good = v is not None and len(calls) == 1 and v is calls[0].a[2] and list(calls[0].a[1]) == [x.a[2][0], TOKEN('ty'), TOKEN('out')] \
                        and bare(calls[0].a[3]) in PGT[var][1] and last(calls[0].a[0]) == 'to_sql_checked'
                cx.ob(f'pg.write.{short_ty(f.selfty)}.{var}', good, f'{show(x)} is written as {show(v)[:80] if v is not None else "a panic"} by {[short_ty(str(c.a[3])) for c in calls]}', f.span)
    # both views accept every type, and leave the checking to the payload
    for f in mine:
        if f.name == 'accepts' and re.search(r'SqlVal(Ref)?$', nolife(f.selfty)):
            got = [v for _, v in run(f, [TOKEN('ty')])]
            cx.ob(f'pg.accepts.{short_ty(f.selfty)}.{f.span}', got == [TRUE], f'accepts: {shows(got)}', f.span)
    # reading
    rd = one([f for f in mine if f.name == 'from_sql' and (f.trait or '').endswith('FromSql') and nolife(f.selfty).endswith('SqlValRef')], 'FromSql for SqlValRef')
    back = {t: v for v, (t, _) in PGT.items()}
    for n in sorted(v[0] for v in cx.F.adts[INNER]['variants'] if not v[2]):
        res = run(rd, [pgty(n), TOKEN('raw')], key=n)
        for evs, v in res:
            calls = [e for e in evs if e.k == 'call' and last(e.a[0]) == 'from_sql']
            key = f'pg.read.{n}'
            if v is None:
                cx.ob(key, False, f'reading {n} panics', rd.span)
            elif n in back:
                var = back[n]
                good = len(calls) == 1 and bare(calls[0].a[3]) in PGT[var][1] and [show(a) for a in calls[0].a[1]][-1:] == ['raw']
                if is_ok(v):
                    p = v.a[2][0]
                    good &= p.op == 'agg' and p.a[0] == SVR and p.a[1] == var and is_proj_ok(p.a[2][0], calls)
                else:
                    good &= is_err(v)
                cx.ob(key, good, f'a value of type {n} is read as {show(v)[:90]} by {[short_ty(str(c.a[3])) for c in calls]}', rd.span)
            else:
                good = is_ok(v) and v.a[2][0].a[1] == 'Custom' and {show(x) for x in subterms(v) if x.op == 'p'} >= {'raw'} or is_err(v)
                cx.ob(key, good, f'a value of type {n} is read as {show(v)[:90]}', rd.span)
        cx.ob(f'pg.read.{n}.ok', any(v is not None and is_ok(v) for _, v in res), f'a value of type {n} is never read', rd.span)
    nul = one([f for f in mine if f.name == 'from_sql_null' and nolife(f.selfty).endswith('SqlValRef')], 'from_sql_null')
    got = [v for _, v in run(nul, [TOKEN('ty')])]
    cx.ob('pg.null', got == [_ok(mk('agg', SVR, 'Null', ()))], f'NULL is read as {shows(got)}', nul.span)
    # the types parameters are declared with
    tf = one([f for f in mine if f.argc == 1 and re.search(r'&butane_core::sqlval::SqlVal$', f.local_ty(1)) and re.search(r'postgres\w*::types::Type$', f.local_ty(0))], 'type of a value')
    for var in sorted(variants(cx, SV)):
        got = [v for _, v in run(tf, [inst(cx, SV, var)])]
        if var == 'Custom':
            cx.ob('pg.param.Custom', [show(v) for v in got if v is not None] == ['ty'], f'a custom value is declared as {shows(got)}', tf.span)
            continue
        want = 'UNKNOWN' if var == 'Null' else PGT[var][0].upper()
        cx.ob(f'pg.param.{var}', len(got) == 1 and got[0] is not None and last(show(got[0]).rstrip(')')) == want, f'a value {var} is declared as {shows(got)}, wanted {want}', tf.span)
    # rows
    row = one([f for f in mine if f.name == 'get' and (f.trait or '').endswith('BackendRow')], 'BackendRow::get of postgres rows')
    for evs, v in run(row, [TOKEN('row'), TOKEN('idx'), TOKEN('ty')]):
        calls = [e for e in evs if e.k == 'call' and last(e.a[0]) in ('try_get', 'get')]
        good = v is not None and len(calls) == 1 and last(calls[0].a[0]) == 'try_get' and [show(a) for a in calls[0].a[1]] == ['row', 'idx'] and (
            is_err(v) or is_ok(v) and is_proj_ok(v.a[2][0], calls))
        cx.ob('pg.row', good, f'a column of a row is read as {show(v)[:80] if v is not None else "a panic"}', row.span)
    COL = adtid(cx, 'query::Column')
    for f in [f for f in mine if f.argc == 3 and 'postgres::Row' in f.local_ty(1).replace('tokio_', '') and f.local_ty(3).endswith('query::Column') and 'sqlval::SqlVal' in f.local_ty(0)]:
        for var in sorted(variants(cx, SVR)):
            if var == 'Custom':
                continue
            x = inst(cx, SVR, var)
            h2 = lambda it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs: (
                it.finish(st, depth, dest, target, _ok(x), evs, loc, fn) if last(name) == 'try_get' else
                H(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs))
            for t in PGT:
                c = mk('agg', COL, 'Column', tuple(mk('agg', ST, t, ()) if a[0] == 'ty' else TOKEN(a[0]) for a in cx.F.adts[COL]['variants'][0][2]))
                for evs, v in run(f, [TOKEN('row'), TOKEN('idx'), c], hook=h2, key=var + t):
                    good = v is not None and (v is _ok(mk('agg', SV, var, x.a[2])) if var in ('Null', t) else is_err(v))
                    cx.ob(f'pg.column.{var}.{t}', good, f'{show(x)} in a column of type {t} gives {show(v)[:80] if v is not None else "a panic"}', f.span)


def is_proj_ok(v, calls):
    return v.op == 'pr' and v.a[0] is calls[0].a[2] if v.op == 'pr' else show(v) == show(calls[0].a[2]) + '~Ok.0'
