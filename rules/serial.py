"""P27: what is recorded in JSON is read back as it was."""
from flow import *
from schema import NONE
from interp import Ev

SER = ('serialize_struct', 'serialize_struct_variant', 'serialize_tuple_variant', 'serialize_newtype_variant', 'serialize_unit_variant', 'serialize_newtype_struct', 'serialize_unit_struct',
       'serialize_tuple_struct', 'serialize_field', 'serialize_element', 'skip_field', 'end')
good = lambda v: mk('agg', 'std::result::Result', 'Ok', (v,))
bad = lambda v: mk('agg', 'std::result::Result', 'Err', (v,))


def writing(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
    """A serializer that notes what it is given."""
    l = last(name)
    if 'serde' in name and l in SER and ('Serialize' in name):
        vs = [it.undr(st, a) for a in av]
        ev = [] if l == 'end' else [Ev('ser', (l, *vs[1:]), loc, fn.id)]
        return it.finish(st, depth, dest, target, good(mk('ser')), list(evs) + ev, loc, fn)
    return None


class Reading:
    """A deserializer over a document: ('map', [(name, value)]) or ('unit'|'newtype'|'seq'|'map', variant, content)."""
    def __init__(self, cx, kind, variant, content):
        self.cx, self.kind, self.variant, self.content = cx, kind, variant, content

    def within(self, fn, visitor, m):
        """The method m of a visitor, found beside its type."""
        i = visitor.a[0]
        pre, k = i.rsplit('::', 1)
        n = int(k.split('#')[1]) if '#' in k else 0
        fs = sorted((f for f in self.cx.F.fns.values() if f.name == m and f.id.startswith(pre + '::{impl#') and re.fullmatch(re.escape(pre) + r'::\{impl#(\d+)\}::' + m, f.id)),
                    key=lambda f: int(re.search(r'impl#(\d+)\}::\w+$', f.id).group(1)))
        return fs[n if n < len(fs) else 0] if fs else None

    def field(self, ty, fn, name):
        """The key that a name is read as."""
        fs = [f for f in self.cx.F.fns.values() if f.name == 'visit_str' and f.id.startswith(re.split(r'::\{impl#\d+\}::visit_(map|enum|seq)', fn.id)[0] + '::')]
        inner = [f for f in fs if '::visit_enum::' in f.id]
        fs = inner if 'visit_enum' in ty and inner else [f for f in fs if f not in inner]
        for f in fs[:1]:
            for _, v in paths(self.cx.graph(f, args=(mk('p', 0), C(name)), opaque=lambda n, i, d: 'serde' in n, widen=200)):
                if v is not None and not is_err(v) and v.op == 'agg':
                    return v.a[2][0]
        return None

    def __call__(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val: it.finish(st, depth, dest, target, val, evs, loc, fn)
        gs = [fn.ty(x) for x in info.get('a') or ()] if isinstance(info, dict) else []
        if l in ('default', 'new') and not av:
            t = fn.ty(info['self']) if isinstance(info, dict) and 'self' in info else name
            return fin(default(t + ' ' + ' '.join(gs)))
        if not ('serde' in name or 'DeserializeSeed' in name):
            return None
        at = lambda: cval(it.undr(st, it.load(st, cell('i'))))
        def step():
            it.write_addr(st, cell('i').a[0], cell('i').a[1], C(at() + 1), [], loc, fn.id)
        if l in ('deserialize_struct', 'deserialize_enum', 'tuple_variant', 'struct_variant', 'deserialize_tuple_struct'):
            vis = it.undr(st, av[-1])
            m = {'deserialize_struct': 'visit_map', 'struct_variant': 'visit_map', 'deserialize_enum': 'visit_enum'}.get(l, 'visit_seq')
            f = self.within(fn, vis, m) if vis.op == 'agg' else None
            if f is None:
                raise Missing(f'{m} of {show(vis, 2)}')
            return it.enter(st, depth, fn, fr, f.id, [vis, mk('access')], dest, target, evs, None, loc)
        if l == 'variant':
            f = self.field('', fn, self.variant)
            return fin(good(mk('tup', (f, mk('access')))) if f is not None else bad(mk('unknown', self.variant)))
        if l == 'newtype_variant':
            return fin(good(self.content) if self.kind == 'newtype' else bad(mk('kind')))
        if l == 'unit_variant':
            return fin(good(UNIT) if self.kind == 'unit' else bad(mk('kind')))
        if l == 'next_key':
            if self.kind != 'map' or at() >= len(self.content):
                return fin(good(NONE))
            f = self.field(' '.join(gs), fn, self.content[at()][0])
            return fin(good(some(f)) if f is not None else bad(mk('unknown', self.content[at()][0])))
        if l == 'next_value':
            v = self.content[at()][1]
            step()
            return fin(good(v))
        if l == 'next_element':
            if at() >= len(self.content):
                return fin(good(NONE))
            v = self.content[at()]
            step()
            return fin(good(some(v)))
        if l == 'missing_field':
            return fin(good(NONE) if gs and any(re.match(r'(std|core)::option::Option<', g) for g in gs) else bad(mk('missing', it.undr(st, av[0]))))
        if l in ('invalid_length', 'duplicate_field', 'invalid_type', 'unknown_field', 'unknown_variant'):
            return fin(mk('deerr', l))
        return None


def default(t):
    if re.search(r'Option<', t.split(' ')[0]) or 'option::Option' in t.split(' ')[0]:
        return NONE
    if re.match(r'bool\b', t):
        return FALSE
    if re.search(r'Vec|BTree|Hash|String', t):
        return mk('empty')
    return mk('default', t)


def same(want, got, known):
    """got is the value written: the token itself, or what the condition for leaving it out says it is."""
    while got.op == 'f' and got.a[1] in ('value', 0, '0'):
        got = got.a[0]
    if want.op == 'tok':
        k = known.get(want)
        return want in (got, *[x for x in subterms(got) if x.op == 'tok']) or k is not None and (k is got or is_const(k) and is_const(got) and cval(k) == cval(got))
    return want is got


def learnt(evs):
    """What the path says about the values of fields."""
    out = {}
    empties = {}
    for e in evs:
        if e.k == 'call' and last(cname(e)) in ('is_empty', 'is_none', 'is_some') and len(e.a[1]) == 1:
            empties[e.a[2]] = (last(cname(e)), e.a[1][0])
        if e.k != 'assume':
            continue
        x, a = e.a[0], str(e.a[1])
        t = x.a[0] if x.op == 'f' else x
        if x.op == 'tok':
            if a in ('None', 'True', 'False'):
                out[x] = NONE if a == 'None' else C(a == 'True')
        elif x.op in ('r', 'empty') or x in empties:
            n, y = empties.get(x, ('is_empty', x.a[0] if x.a and isinstance(x.a[0], V) else None))
            if y is not None and y.op == 'tok' and a == ('False' if n == 'is_some' else 'True'):
                out[y] = mk('empty') if n == 'is_empty' else NONE
    return out


def types(cx):
    """Types with derived writing and reading, but those that are objects of the application."""
    ser = {f.selfty: f for f in cx.F.fns.values() if f.name == 'serialize' and last((f.trait or '').split('<')[0]) == 'Serialize' and f.crate in ('butane_core', 'butane_cli')
           and re.search(r'::_(#\d+)?::\{impl#0\}::serialize$', f.id)}
    de = {f.selfty: f for f in cx.F.fns.values() if f.name == 'deserialize' and 'Deserialize' in (f.trait or '') and f.crate in ('butane_core', 'butane_cli')
          and re.search(r'::_(#\d+)?::\{impl#0\}::deserialize$', f.id)}
    return [(t, ser.get(t), de.get(t)) for t in sorted(set(ser) | set(de)) if not re.search(r'::Many<', t)]


def check_types(cx):
    """Every type with derived serialization, every variant, every way its fields are written, in both orders."""
    n = 0
    for t, s, d in types(cx):
        short = last(t.split('<')[0])
        if not cx.ob(short + '.both', s and d, f'{t} is {"written" if s else "read"} only', (s or d).span):
            continue
        n += 1
        a = cx.F.adts.get(t.split('<')[0])
        if a is None:
            raise Missing(f'type {t}')
        for var in a['variants']:
            # a value of the variant: a token for every field
            v0 = mk('agg', t.split('<')[0], var[0], tuple(mk('tok', f'{short}.{var[0]}.{y[0]}') for y in var[2]))
            key = f'{short}.{var[0]}'
            w = 0
            for evs, r, _ in paths(cx.graph(s, args=(cell('v'), mk('serializer')), cells={'v': v0}, hook=writing, widen=600), kinds=('ser', 'assume', 'call'), full='cells'):
                if r is None or is_err(r):
                    continue
                w += 1
                doc = document(evs)
                if not cx.ob(key + '.form', doc is not None, f'{t} ({var[0]}): written in an unknown form', s.span):
                    continue
                knows = learnt(evs)
                for turn in (False, True):
                    kind, vn, content = doc
                    if turn:
                        if kind != 'map' or len(content) < 2:
                            continue
                        content = content[::-1]
                    rd = Reading(cx, kind, vn, content)
                    ps = list(paths(cx.graph(d, args=(mk('deserializer'),), cells={'i': C(0)}, hook=rd, widen=1500, exact=60), full='cells'))
                    cx.ob(key + '.read', ps, f'{t} ({var[0]}): never read', d.span)
                    for _, v, _ in ps:
                        x = v.a[2][0] if v is not None and not is_err(v) and v.op == 'agg' else v
                        ok = x is not None and x.op == 'agg' and x.a[:2] == v0.a[:2] and len(x.a[2]) == len(v0.a[2]) and all(same(p, q, knows) for p, q in zip(v0.a[2], x.a[2]))
                        cx.ob(key, ok, f'{t} ({var[0]}): written as {shown(doc)}, read back as {show(x, 4) if x is not None else "a panic"}', s.span)
            cx.ob(key + '.written', w, f'{t} ({var[0]}): cannot be written', s.span)
    cx.ob('types', n > 10, f'{n} types are recorded', None)


def shown(doc):
    k, v, c = doc
    return f'{v or ""} {[x[0] if isinstance(x, tuple) else show(x, 2) for x in c] if isinstance(c, list) else show(c, 2) if c is not None else ""}'


def document(evs):
    es = [e.a for e in evs if e.k == 'ser']
    if not es:
        return None
    h = es[0]
    txt = lambda v: cval(v) if is_const(v) else None
    if h[0] == 'serialize_struct':
        return ('map', None, fields(es[1:]))
    if h[0] == 'serialize_struct_variant':
        return ('map', txt(h[3]), fields(es[1:]))
    if h[0] == 'serialize_tuple_variant':
        return ('seq', txt(h[3]), [e[-1] for e in es[1:]])
    if h[0] == 'serialize_newtype_variant':
        return ('newtype', txt(h[3]), h[4])
    if h[0] == 'serialize_unit_variant':
        return ('unit', txt(h[3]), None)
    return None


def fields(es):
    return [(cval(e[1]), e[2]) for e in es if e[0] == 'serialize_field' and len(e) == 3]


def check_with(cx):
    """Fields that are written by a function of their own are read by its counterpart."""
    n = 0
    for t, s, d in types(cx):
        if not s or not d:
            continue
        calls = lambda pre, m: {c for f in cx.F.fns.values() if f.id.startswith(pre + '::') and f.name == m and re.search(r'__(S|Des)erializeWith', (f.selfty or '').rsplit('::', 1)[-1])
                                for c in called(f, m)}
        a, b = calls(s.id, 'serialize'), calls(d.id, 'deserialize')
        if a or b:
            n += 1
            cx.ob('with.' + last(t), a == b, f'{t}: fields are written by {sorted(a)} and read by {sorted(b)}', s.span)
    cx.ob('with', True, f'{n} types with fields written in a way of their own', None)


def called(f, m):
    for b in f.blocks:
        c = b[1]
        if c and c[0] == 'call' and isinstance(c[1], list) and c[1][0] == 'fn':
            n = c[1][2].get('p') or c[1][2].get('d') or ''
            if last(n) == m and 'serde' not in n:
                yield n.rsplit('::', 1)[0]


PGT = r'postgres(_types|::types)::'


def check_pg(cx):
    """A type of PostgreSQL, of every kind, goes through its recorded form unchanged."""
    import known
    pgs = {f.id for f in cx.F.fns.values() if f.crate == 'butane_core' and f.name == 'from' and last((f.trait or '').split('<')[0]) == 'From'
           and any(re.search(PGT + r'(Type|Field|Kind)$', x) for x in (f.local_ty(1), f.selfty or ''))}

    def parts(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        # each of the conversions is judged by itself; inside another it stands for its argument
        if fid in pgs and len(av) == 1:
            return it.finish(st, depth, dest, target, it.undr(st, av[0]), evs, loc, fn)
        return known.hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)
    conv = lambda src, dst: [f for f in cx.F.fns.values() if f.crate == 'butane_core' and f.name == 'from' and last((f.trait or '').split('<')[0]) == 'From'
                             and re.search(src + '$', f.local_ty(1)) and re.search(dst + '$', f.selfty or '')]
    for what, new, getters in (('Type', 'new', ('name', 'oid', 'kind', 'schema')), ('Field', 'new', ('name', 'type_'))):
        a = [f for f in cx.F.fns.values() if f.crate == 'butane_core' and f.name == 'from' and re.search(PGT + what + '$', f.local_ty(1))]
        if len(a) != 1:
            raise Missing(f'recorded form of a PostgreSQL {what}')
        b = conv(re.escape(a[0].selfty), PGT + what)
        if len(b) != 1:
            raise Missing(f'PostgreSQL {what} from its recorded form')
        for _, v in paths(cx.graph(a[0], hook=parts, widen=200)):
            if not cx.ob(f'pg.{what}', v is not None and v.op == 'agg', f'{what}: recorded as {show(v, 3) if v is not None else "a panic"}', a[0].span):
                continue
            for _, w in paths(cx.graph(b[0], args=(v,), hook=parts, widen=200)):
                c = [x for x in subterms(w) if x.op == 'r' and last(str(x.a[0])) == new] if w is not None else []
                got = [getter(x) for x in c[0].a[1]] if c else None
                cx.ob(f'pg.{what}', got == list(getters), f'{what}: made again from {got}', b[0].span)
    a = [f for f in cx.F.fns.values() if f.crate == 'butane_core' and f.name == 'from' and re.search(PGT + 'Kind$', f.local_ty(1))]
    k = [i for i in cx.F.adts if i.endswith('types::Kind')]
    if len(a) != 1 or len(k) != 1:
        raise Missing('recorded form of a PostgreSQL Kind')
    b = conv(re.escape(a[0].selfty), PGT + 'Kind')
    if len(b) != 1:
        raise Missing('PostgreSQL Kind from its recorded form')
    for var in cx.F.adts[k[0]]['variants']:
        two = mk('arr', (mk('tok', 'one'), mk('tok', 'two')))
        fs = tuple(two if var[0] in ('Enum', 'Composite') else mk('tok', 'x') for _ in var[2])
        v0 = mk('agg', k[0], var[0], fs)
        for _, v in paths(cx.graph(a[0], args=(v0,), hook=parts, widen=300), full=True):
            if not cx.ob(f'pg.Kind.{var[0]}', v is not None, f'a PostgreSQL type of kind {var[0]} cannot be recorded: panics', a[0].span):
                continue
            for evs, w in paths(cx.graph(b[0], args=(v,), hook=parts, widen=300), full=True):
                cx.ob(f'pg.Kind.{var[0]}', w is not None and w.op == 'agg' and w.a[1] == var[0] and [list(toks(x)) for x in w.a[2]] == [list(toks(x)) for x in fs],
                      f'{var[0]}: recorded as {show(v, 3)}, made again as {show(w, 3) if w is not None else "a panic"}', b[0].span)


def toks(v):
    return [x.a[0] for x in v.a[0]] if v.op == 'arr' and all(x.op == 'tok' for x in v.a[0]) else [x.a[0] for x in subterms(v) if x.op == 'tok']


def getter(v):
    r = [x for x in subterms(v) if x.op == 'r']
    return last(str(r[0].a[0])) if r else show(v, 3)
