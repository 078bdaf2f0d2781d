"""P06/P07: the filter expression renderers of every backend, run abstractly on expression trees and read back by a
SQL parser; placeholders, bound values and the tree must agree."""
from lib import *
from sqlforms import *

EX, BE = 'butane_core::query::Expr', 'butane_core::query::BoolExpr'
MODS = {'sqlite': '::sqlite::', 'pg': '::pg::', 'turso': '::turso::'}


def B(v, *a):
    return agg(BE, v, *a)


def E(v, *a):
    return agg(EX, v, *a)


class Bad(Exception):
    pass


# ------------------------------------------------------------------ SQL boolean expression parser (the oracle)
KW = {'and', 'or', 'not', 'in', 'is', 'null', 'select', 'from', 'where', 'inner', 'join', 'on', 'true', 'false', 'like'}


def tokens(w):
    out, i = [], 0
    w = list(w)
    while i < len(w):
        x = w[i]
        if isinstance(x, tuple):
            raise Bad(f'unexpected {x}')
        if len(x) > 1:
            out.append(('sym', x))
            i += 1
        elif x.isspace():
            i += 1
        elif x == '"':
            j = i + 1
            while j < len(w) and w[j] != '"':
                j += 1
            body = ''.join(w[i + 1:j])
            out.append(('sym', body) if body.startswith('{') else ('id', body))
            i = j + 1
        elif x.isalnum() or x == '_':
            j = i
            while j < len(w) and len(w[j]) == 1 and (w[j].isalnum() or w[j] == '_'):
                j += 1
            if j < len(w) and len(w[j]) > 1:
                raise Bad('a word runs into a value: ' + word(w))
            t = ''.join(w[i:j])
            out.append(('kw', t.lower()) if t.lower() in KW else ('num', t) if t.isdigit() else ('id', t))
            i = j
        else:
            if x in '<>!=':
                j = i
                while j < len(w) and w[j] in ('<', '>', '!', '='):
                    j += 1
                out.append(('op', ''.join(w[i:j])))
                i = j
            else:
                out.append(('p', x))
                i += 1
        if i < len(w) and len(w[i - 1]) > 1 and w[i - 1] != '"' and isinstance(w[i], str) and (len(w[i]) > 1 or w[i].isalnum()):
            raise Bad('values run together: ' + word(w))
    return out


CMP = {'=': '=', '==': '=', '<>': '<>', '!=': '<>', '<': '<', '>': '>', '<=': '<=', '>=': '>='}


class Parser:
    """SQL precedence: OR < AND < NOT < comparison.  Placeholders are replaced by the bound values in order."""

    def __init__(self, w, params, empty_in):
        self.t, self.i, self.params, self.n, self.empty_in = tokens(w), 0, list(params), 0, empty_in

    def peek(self, *k):
        return self.i < len(self.t) and self.t[self.i] in k

    def take(self, *k):
        if not self.peek(*k):
            raise Bad(f'expected {k[0][1]} at token {self.i}: {self.t[self.i:self.i + 3]}')
        self.i += 1

    def opt(self, *k):
        if self.peek(*k):
            self.i += 1
            return True

    def whole(self):
        e = self.or_()
        if self.i != len(self.t):
            raise Bad(f'trailing text {self.t[self.i:self.i + 3]}')
        if self.n != len(self.params):
            raise Bad(f'{len(self.params)} values bound for {self.n} placeholders')
        return e

    def or_(self):
        xs = [self.and_()]
        while self.opt(('kw', 'or')):
            xs.append(self.and_())
        return flat('or', xs)

    def and_(self):
        xs = [self.not_()]
        while self.opt(('kw', 'and')):
            xs.append(self.not_())
        return flat('and', xs)

    def not_(self):
        if self.opt(('kw', 'not')):
            return ('not', self.not_())
        return self.cmp()

    def cmp(self):
        if self.opt(('p', '(')):
            e = self.or_()
            self.take(('p', ')'))
            return e
        if self.opt(('kw', 'true')):
            return ('true',)
        if self.opt(('kw', 'false')):
            return ('false',)
        x = self.t[self.i] if self.i < len(self.t) else None
        if x and x[0] == 'sym' and x[1].startswith('{expr '):
            self.i += 1
            self.bound(x[1])
            return ('leaf', x[1])
        a = self.operand()
        if self.opt(('kw', 'is')):
            neg = bool(self.opt(('kw', 'not')))
            self.take(('kw', 'null'))
            return ('notnull' if neg else 'isnull', a)
        neg = bool(self.opt(('kw', 'not')))
        if self.opt(('kw', 'in')):
            self.take(('p', '('))
            if self.opt(('kw', 'select')):
                c2 = self.operand()
                self.take(('kw', 'from'))
                t = self.operand()
                js = []
                while self.peek(('kw', 'inner'), ('kw', 'join')):
                    self.opt(('kw', 'inner'))
                    self.take(('kw', 'join'))
                    jt = self.operand()
                    self.take(('kw', 'on'))
                    l = self.operand()
                    self.take(('op', '='))
                    js.append((jt, frozenset([l, self.operand()])))
                self.take(('kw', 'where'))
                r = ('inselect', a, c2, t, tuple(js), self.or_())
            else:
                xs = []
                if not self.peek(('p', ')')):
                    xs.append(self.operand())
                    while self.opt(('p', ',')):
                        xs.append(self.operand())
                elif not self.empty_in:
                    raise Bad('`IN ()` is not valid SQL here')
                r = ('in', a, tuple(xs)) if xs else ('false',)
            self.take(('p', ')'))
            return ('not', r) if neg else r
        if self.opt(('kw', 'like')):
            return ('like', a, self.operand()) if not neg else ('not', ('like', a, self.operand()))
        x = self.t[self.i] if self.i < len(self.t) else (None, None)
        if x[0] != 'op' or x[1] not in CMP:
            raise Bad(f'expected an operator at token {self.i}: {self.t[self.i:self.i + 3]}')
        self.i += 1
        b = self.operand()
        op = CMP[x[1]]
        if a[0] == 'num' and b[0] == 'num':
            return ('true',) if (a[1] == b[1]) == (op == '=') else ('false',)
        return (op, a, b)

    def bound(self, what):
        if self.n >= len(self.params):
            raise Bad('more placeholders than bound values')
        v = self.params[self.n]
        self.n += 1
        if what is not None and v != what:
            raise Bad(f'values are bound out of order: {v} where {what} is written')
        if what is None and v.startswith('{expr'):
            raise Bad(f'the values of {v} are bound in place of a placeholder')
        return v

    def operand(self):
        x = self.t[self.i] if self.i < len(self.t) else (None, '')
        self.i += 1
        if x == ('p', '?'):
            return ('val', self.bound(None)[1:-1])
        if x[0] == 'sym' and x[1] == '{ph}':
            return ('val', self.bound(None)[1:-1])
        if x[0] == 'sym':
            n = re.sub(r'^\{(?:q )?(.*)\}$', r'\1', x[1])
            if n.startswith('V'):
                return ('val', n)
            if QUOTED.on and not x[1].startswith('{q '):
                raise Bad(f'the name {x[1]} is not quoted')
            if self.opt(('p', '.')):
                y = self.t[self.i]
                self.i += 1
                if QUOTED.on and not y[1].startswith('{q '):
                    raise Bad(f'the name {y[1]} is not quoted')
                return ('qcol', n, re.sub(r'^\{(?:q )?(.*)\}$', r'\1', y[1]))
            return ('col', n)
        if x[0] == 'num':
            return ('num', x[1])
        raise Bad(f'expected a value or column, found `{x[1]}`')


def flat(k, xs):
    out = []
    for x in xs:
        out += x[1] if x[0] == k else [x]
    return out[0] if len(out) == 1 else (k, out)


# ------------------------------------------------------------------ expression trees with their meaning
SIMPLE = {'Eq': '=', 'Ne': '<>', 'Lt': '<', 'Gt': '>', 'Le': '<=', 'Ge': '>=', 'Like': 'like'}


class Gen:
    """Builds expression terms; names of the symbolic leaves are unique."""

    def __init__(self, F):
        self.F, self.k, self.names = F, 100, {}

    def sym(self, n):
        self.k += 1
        self.names[self.k] = f'{n}{self.k}'
        return mk('p', self.k), f'{n}{self.k}'

    def leaf(self):
        t, n = self.sym('L')
        return t, ('leaf', '{expr Condition(' + n + ')}')

    def val(self, variant='Text'):
        """A SqlVal with an unknown payload and its name."""
        if variant == 'Null':
            return agg('butane_core::sqlval::SqlVal', 'Null'), 'Null'
        t, n = self.sym('V')
        return agg('butane_core::sqlval::SqlVal', variant, t), (n if variant in ('Int', 'BigInt') else f'{variant}({n})')

    def col(self):
        return self.sym('c')

    def qcolumn(self, table=True):
        from stmts import struct
        ct, cn = self.sym('c')
        if not table:
            return struct(self.F, 'butane_core::query::Column', table=NONE, name=ct), ('col', cn)
        tt, tn = self.sym('t')
        return struct(self.F, 'butane_core::query::Column', table=some(tt), name=ct), ('qcol', tn, cn)

    def atom(self, variant, vk='Text'):
        c, cn = self.col()
        if variant == 'True':
            return B('True'), ('true',)
        if variant in SIMPLE:
            if vk == 'Column':
                d, dn = self.col()
                return B(variant, c, E('Column', d)), (SIMPLE[variant], ('col', cn), ('col', dn))
            v, vn = self.val(vk)
            if vk == 'Null' and variant in ('Eq', 'Ne'):
                return B(variant, c, E('Val', v)), ('isnull' if variant == 'Eq' else 'notnull', ('col', cn))
            return B(variant, c, E('Val', v)), (SIMPLE[variant], ('col', cn), ('val', vn))
        if variant.startswith('In'):
            n = int(variant[2:])
            vs = [self.val(vk) for _ in range(n)]
            sem = ('in', ('col', cn), tuple(('val', x) for _, x in vs)) if n else ('false',)
            return B('In', c, mk('arr', tuple(x for x, _ in vs))), sem
        raise AssertionError(variant)

    def comp(self, kind, *kids):
        """Compound expression over (term, meaning) children."""
        ts, ms = [k[0] for k in kids], [k[1] for k in kids]
        if kind == 'And' or kind == 'Or':
            return B(kind, *ts), flat(kind.lower(), ms)
        if kind == 'Not':
            return B('Not', *ts), ('not', ms[0])
        if kind == 'AllOf':
            return B('AllOf', mk('arr', tuple(ts))), (flat('and', ms) if ms else ('true',))
        c, cn = self.col()
        if kind == 'Subquery':
            t, tn = self.sym('t')
            d, dn = self.col()
            return self.variant('Subquery', col=c, tbl2=t, tbl2_col=d, expr=ts[0]), \
                ('inselect', ('col', cn), ('col', dn), ('col', tn), (), ms[0])
        if kind.startswith('SubqueryJoin'):
            t, tn = self.sym('t')
            q = kind.endswith('u')
            k2, m2 = self.qcolumn(not q)
            js, jm = [], []
            for _ in range(int(kind[12])):
                jt, jn = self.sym('t')
                a, am = self.qcolumn()
                b, bm = self.qcolumn()
                js.append(self.variant('Inner', enum='butane_core::query::Join', join_table=jt, col1=a, col2=b))
                jm.append((('col', jn), frozenset([am, bm])))
            return self.variant('SubqueryJoin', col=c, tbl2=t, col2=k2, joins=mk('arr', tuple(js)), expr=ts[0]), \
                ('inselect', ('col', cn), m2, ('col', tn), tuple(jm), ms[0])
        raise AssertionError(kind)

    def variant(self, name, enum=BE, **fields):
        a = self.F.adt_by_path.get(enum)
        if not a:
            raise Missing(f'type {enum}')
        for v in a['variants']:
            if v[0] == name:
                fs = [f[0] for f in v[2]]
                if set(fs) != set(fields):
                    raise Missing(f'fields of {enum}::{name}')
                return agg(a['id'], name, *[fields[f] for f in fs])
        raise Missing(f'{enum}::{name}')


def norm(m):
    """Meaning with nested and/or flattened."""
    if m[0] in ('and', 'or'):
        return flat2(m[0], [norm(x) for x in m[1]])
    if m[0] == 'not':
        return ('not', norm(m[1]))
    if m[0] == 'inselect':
        return m[:5] + (norm(m[5]),)
    return m


def flat2(k, xs):
    out = []
    for x in xs:
        out += list(x[1]) if x[0] == k else [x]
    return out[0] if len(out) == 1 else (k, tuple(out))


def describe(m):
    if m[0] in ('and', 'or'):
        return '(' + f' {m[0]} '.join(describe(x) for x in m[1]) + ')'
    if m[0] == 'not':
        return f'not {describe(m[1])}'
    if m[0] == 'inselect':
        return f'{m[1][1]} in (select {m[2][-1]} from {m[3][1]}{" joined" * len(m[4])} where {describe(m[5])})'
    if m[0] == 'leaf':
        return re.sub(r'.*\((\w+)\).*', r'\1', m[1])
    return ' '.join([m[0]] + [str(x[-1]) for x in m[1:]])


def exprarg(F, fid, av):
    f = F.fns[fid]
    return av[[f.local_ty(i + 1) for i in range(f.argc)].index(EX)]


def recursive(F):
    """Interpreter options: follow the renderers (and expression transformations) into concrete expressions, keep
    symbolic ones as opaque calls."""
    def conc(v):
        return v.op == 'agg' and not (v.a[1] == 'Condition' and v.a[2][0].op != 'agg')

    def hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        if (is_expr_renderer(F, fid) and not conc(it.undr(st, exprarg(F, fid, av)))) or \
                (is_subquery_transform(F, fid) and it.undr(st, av[1]).op != 'agg'):
            return it.opaque_call(st, depth, fn, fr, name, info, av, dest, target, loc, evs)

    def rec_ok(it, st, fid, av):
        while fid in F.fns:
            f = F.fns[fid]
            if any('query::BoolExpr' in f.local_ty(i + 1) or f.local_ty(i + 1) == EX for i in range(f.argc)):
                return True
            fid = F.fns[fid].parent
        return False
    return dict(hook=hook, rec_ok=rec_ok, max_depth=60, exact=64, widen=40)


class Renderer:
    def __init__(self, cx, backend):
        self.cx, self.F, self.backend = cx, cx.F, backend
        rs = [f for f in cx.F.fns.values() if is_expr_renderer(cx.F, f.id)]
        own = [f for f in rs if MODS[backend] in f.id]
        # the renderer the backend's queries call
        q = Forms(cx, backend, 'query', [mk('p', 0), mk('p', 1), mk('p', 2), some(mk('p', 3)), NONE, NONE, NONE])
        called = {e.a[4] for s, i, e, d in q.g.events() if is_rendering(cx.F, e)}
        if len(called) != 1:
            raise Missing(f'expression renderer of {backend}: {called}')
        self.fn = cx.F.fns[called.pop()]
        tys = [self.fn.local_ty(i + 1) for i in range(self.fn.argc)]
        self.ei = tys.index(EX)
        self.vi = [i for i, t in enumerate(tys) if 'SqlVal' in t][0]
        self.wi = self.fn.argc - 1

    def args(self, expr):
        a = [mk('p', i) for i in range(self.fn.argc)]
        a[self.ei] = expr
        for i in range(self.fn.argc):
            if self.fn.local_ty(i + 1) == 'F':
                raise Missing(f'{self.backend}: renderer takes a function')
        return tuple(a)

    def run(self, expr, names):
        F = self.F

        def op(name, info, fid):
            return is_placeholder(name) or is_quoter(F, fid)

        g = self.cx.graph(self.fn, args=self.args(expr), opaque=op, **recursive(F))

        def callsym(t, e, o, pt):
            if is_rendering(F, e):
                return '{expr ' + t.name(exprarg(F, e.a[4], e.a[1]), pt) + '}'
            if is_placeholder(cname(e)):
                return None
            return ('call', str(e.a[0]))

        def holef(t, v, pt):
            if v.op == 'r' and isinstance(v.a[0], str):
                if is_placeholder(v.a[0]):
                    return '{ph}'
                if v.a[0].endswith('::quote_reserved_word'):
                    return '{q ' + t.name(v.a[1][0], pt) + '}'
        T_ = Text(g, names, holef=holef, callsym=callsym)
        rets = [(s, i, e) for s, i, e, d in g.events() if e.k == 'ret' and d in g.finals]
        res = []
        for r in rets:
            t = T_.history(mk('p', self.wi), r).det()
            v = T_.history(mk('p', self.vi), r, lambda x, pt: '[' + T_.name(x, pt) + ']').det()
            tw, vw = list(t.words(4, 4000)), list(v.words(4, 4000))
            res.append((tw, vw))
        return g, res


def trees(F, deep):
    """The expression trees the renderers are run on: every variant, every kind of value, every nesting of two
    (compound in compound in compound with leaves standing for any expression)."""
    atoms = ['True'] + list(SIMPLE) + ['In0', 'In1', 'In2', 'In3']
    ctx = {'And.l': ('And', 2, 0), 'And.r': ('And', 2, 1), 'Or.l': ('Or', 2, 0), 'Or.r': ('Or', 2, 1), 'Not': ('Not', 1, 0),
           'AllOf1': ('AllOf', 1, 0), 'AllOf2.0': ('AllOf', 2, 0), 'AllOf2.1': ('AllOf', 2, 1), 'AllOf3.1': ('AllOf', 3, 1),
           'Subquery': ('Subquery', 1, 0), 'SubqueryJoin1': ('SubqueryJoin1', 1, 0)}
    tops = ['And', 'Or', 'Not', 'AllOf0', 'AllOf1', 'AllOf2', 'AllOf3', 'AllOf5', 'AllOf8', 'Subquery', 'SubqueryJoin0', 'SubqueryJoin1',
            'SubqueryJoin1u', 'SubqueryJoin2', 'SubqueryJoin3']

    def top(g, k):
        n = 2 if k in ('And', 'Or') else int(k[5:]) if k.startswith('AllOf') else 1
        return g.comp('AllOf' if k.startswith('AllOf') else k, *[g.leaf() for _ in range(n)])

    def put(g, c, kid):
        kind, n, at = ctx[c]
        return g.comp(kind, *[kid if i == at else g.leaf() for i in range(n)])
    kinds = [v[0] for v in F.adt_by_path['butane_core::sqlval::SqlVal']['variants']]
    for a in atoms:
        vks = ['Text'] if a == 'True' or a == 'In0' else kinds + (['Column'] if a in SIMPLE else [])
        for vk in vks:
            if a in ('In1', 'In3') and vk not in ('Text', 'Int'):
                continue
            g = Gen(F)
            yield f'{a} {vk}', g, g.atom(a, vk)
    for k in tops:
        g = Gen(F)
        yield k, g, top(g, k)
    for c in ctx:
        for a in atoms:
            g = Gen(F)
            yield f'{a} in {c}', g, put(g, c, g.atom(a))
        for k in tops:
            g = Gen(F)
            yield f'{k} in {c}', g, put(g, c, top(g, k))
    if deep:
        for c1 in ctx:
            for c2 in ctx:
                for k in ('And', 'Or', 'Not', 'AllOf0', 'AllOf1', 'AllOf2', 'Subquery'):
                    g = Gen(F)
                    yield f'{k} in {c2} in {c1}', g, put(g, c1, put(g, c2, top(g, k)))
    # compounds on both sides, fully concrete: values bound in reading order
    for k in ('And', 'Or', 'AllOf'):
        g = Gen(F)
        yield f'{k} of comparisons', g, g.comp(k, g.atom('Eq'), g.atom('In2'))
        g = Gen(F)
        yield f'{k} of compounds', g, g.comp(k, g.comp('Or', g.atom('Lt'), g.atom('Eq', 'Null')), g.comp('And', g.atom('In3'), g.atom('Like')))
    g = Gen(F)
    yield 'subquery among comparisons', g, g.comp('And', g.atom('Eq'), g.comp('AllOf', g.comp('Subquery', g.atom('Gt')), g.atom('Ne')))


def check_render(cx, backend):
    """P07."""
    r = Renderer(cx, backend)
    n = 0
    from sqlforms import is_subquery_transform
    for tag, g, (term, want) in trees(cx.F, cx.tier == 'thorough'):
        n += 1
        key = f'{backend}.{tag}'
        gr, res = r.run(E('Condition', term), dict(g.names))
        want = norm(want)
        if not res:
            cx.fail(key, f'{backend}: rendering of {describe(want)} never returns', r.fn.span)
            continue
        for tw, vw in res:
            if len(tw) != 1 or len(vw) != 1:
                cx.fail(key, f'{backend}: {describe(want)}: text not unique: {[word(x) for x in tw[:3]]} {[word(x) for x in vw[:3]]}', r.fn.span)
                break
            try:
                got = norm(Parser(tw[0], vw[0], backend == 'sqlite').whole())
            except Bad as ex:
                cx.fail(key, f'{backend}: {describe(want)} is rendered as `{word(tw[0])}`: {ex}', r.fn.span)
                break
            if got != want:
                cx.fail(key, f'{backend}: {describe(want)} is rendered as `{word(tw[0])}` with {word(vw[0])}, which means {describe(got)}', r.fn.span)
                break
        else:
            cx.ob(key, True, describe(want))
    cx.note(f'{backend}: {n} expression trees')


def placeholders(w):
    """Placeholders of a text, in order; numbered ones by number."""
    out, i = [], 0
    while i < len(w):
        if w[i] in ('?', '$'):
            j = i + 1
            while j < len(w) and isinstance(w[j], str) and w[j].isdigit():
                j += 1
            out.append(''.join(w[i:j]))
            i = j - 1
        elif w[i] == '{ph}':
            out.append('{ph}')
        i += 1
    return out


def check_params(cx, backend):
    """P06: the placeholders of whole statements, their numbering, and the values bound to them."""
    from stmts import struct, colpath
    F = cx.F
    P = lambda i: mk('p', i)

    def op(name, info, fid):
        return is_quoter(F, fid) or is_value_conv(F, fid)

    def mkcol(i):
        return struct(F, colpath(F), name=C(f'c{i}'), ty=mk('p', 60 + i))

    def one(tag, method, args, names, want):
        key = f'{backend}.{method}[{tag}]'
        f = Forms(cx, backend, method, names=names, graph=lambda fn: cx.graph(fn, args=tuple(args), opaque=op, **recursive(F)))
        readback = lambda k, ph: k[0] in ('query', 'prepare', 'run') and method.startswith('insert') and backend != 'pg' and not ph
        n = 0
        exps = [[f'${j + 1}' for j in range(len(want))]]
        if backend != 'pg':
            exps = [['?'] * len(want), [f'?{j + 1}' for j in range(len(want))]]
        for x in f.sinks:
            k, s, i, e = x
            if k[1] is not None:
                ws = list(f.sql(*x).words(3, 4000))
                if not ws and not f.T.name(e.a[1][k[1]], (s, i, e)).startswith('prepare'):
                    return cx.fail(key, f'{backend} {method}: text not derived', e.loc or f.fn.span)
                for w in ws:
                    if any(isinstance(y, str) and y.startswith('{prepare') for y in w):
                        continue
                    ph = placeholders(w)
                    if readback(k, ph):
                        continue
                    n += 1
                    if ph not in exps:
                        return cx.fail(key, f'{backend} {method}: `{word(w)}` has placeholders {ph} for values {want}', e.loc or f.fn.span)
            if k[2] is not None:
                ps = list(f.params(e.a[1][k[2]], (s, i, e)).det().words(3, 4000))
                if not ps:
                    return cx.fail(key, f'{backend} {method}: values not derived', e.loc or f.fn.span)
                for p in ps:
                    if readback(k, p):
                        continue
                    if [y[1:-1] if isinstance(y, str) else str(y) for y in p] != want:
                        return cx.fail(key, f'{backend} {method}: values {word(p)} are bound for {want}', e.loc or f.fn.span)
        cx.ob(key, n > 0, f'{backend} {method} {tag}: {len(want)} placeholders, values {want}', f.fn.span)

    for tag, build, in filters():
        g = Gen(F)
        term, vals = build(g)
        one(tag, 'query', [P(0), P(1), P(2), some(term), NONE, NONE, NONE], g.names, vals)
        one(tag, 'delete_where', [P(0), P(1), term], g.names, vals)
    for n in (1, 2, 3, 5, 8):
        cols = mk('arr', tuple(mkcol(i) for i in range(n)))
        g = Gen(F)
        vs = [g.sym('v') for _ in range(n)]
        vals = mk('arr', tuple(v for v, _ in vs))
        vn = [x for _, x in vs]
        pk, pkn = g.sym('pk')
        one(f'{n} columns', 'insert_only', [P(0), P(1), cols, vals], g.names, vn)
        one(f'{n} columns', 'insert_returning_pk', [P(0), P(1), cols, P(3), vals], g.names, vn)
        one(f'{n} columns', 'insert_or_replace', [P(0), P(1), cols, mkcol(0), vals], g.names, vn)
        one(f'{n} columns', 'update', [P(0), P(1), P(2), pk, cols, vals], g.names, vn + [pkn])


def filters():
    def eq(g):
        t, m = g.atom('Eq', 'Text')
        return t, [m[2][1]]

    def ints(g):
        t, m = g.comp('And', g.atom('Eq', 'Int'), g.atom('Lt', 'BigInt'))
        return t, []

    def mixed(g):
        a, b, c, d = g.atom('Eq', 'Text'), g.atom('In3', 'Text'), g.atom('Ge', 'Int'), g.atom('Like', 'Text')
        t, _ = g.comp('And', g.comp('Or', a, b), g.comp('AllOf', c, d))
        return t, [a[1][2][1]] + [x[1] for x in b[1][2]] + [d[1][2][1]]

    def nots(g):
        a, b = g.atom('Ne', 'Blob'), g.atom('Eq', 'Null')
        t, _ = g.comp('Not', g.comp('Or', a, b))
        return t, [a[1][2][1]]

    def many(g):
        a, b = g.atom('In8', 'Text'), g.atom('In5', 'Text')
        t, _ = g.comp('And', a, b)
        return t, [x[1] for y in (a, b) for x in y[1][2]]
    return [('no values', lambda g: (g.atom('True')[0], [])), ('one value', eq), ('integers', ints), ('nested', mixed), ('negated', nots),
            ('thirteen values', many)]


def check_counter(cx):
    """Numbered placeholders: the counter can count to PostgreSQL's limit."""
    F = cx.F
    n = 0
    for f in F.fns.values():
        if f.trait and f.trait.rsplit('::', 1)[-1] == 'PlaceholderSource' and f.name == 'next_placeholder':
            n += 1
            a = F.adt_by_path.get(f.selfty)
            if not a:
                continue
            bad = [fl[0] for v in a['variants'] for fl in v[2] if a['types'][fl[1]] in ('i8', 'u8', 'i16', 'u16')]
            cx.ob(f'counter.{f.selfty.rsplit("::", 1)[-1]}', not bad,
                  f'{f.selfty}: the placeholder counter {bad} cannot count to 65535 parameters', f.span)
    if n < 3:
        raise Missing('implementations of the placeholder source')


if __name__ == '__main__':
    import build, time
    cx = Ctx(build.ensure_facts()[0], 'P00', 'thorough' if '-t' in sys.argv else 'quick')
    t = time.time()
    if '-p' in sys.argv:
        check_counter(cx)
    for b in BACKENDS:
        (check_params if '-p' in sys.argv else check_render)(cx, b)
    bad = [o for o in cx.obs if not o[1]]
    print(len(cx.obs), 'obligations', len(bad), 'failed', round(time.time() - t, 1), 's', cx.notes)
    for o in bad:
        print(o)
