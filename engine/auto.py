"""Finite automata over event symbols: projection of event graphs, regular specifications, inclusion
with shortest counterexamples, and the language of the text built in a string."""
import heapq
from collections import deque
from interp import V, mk, C, show, contains_op, subterms, is_const, cval


class NFA:
    def __init__(self):
        self.t = []          # state -> [(sym|None, dst, origin)]
        self.start = self.new()
        self.acc = set()

    def new(self):
        self.t.append([])
        return len(self.t) - 1

    def add(self, s, sym, d, org=None):
        self.t[s].append((sym, d, org))

    def embed(self, other, s, d, org=None):
        """Insert automaton `other` between states s and d."""
        off = len(self.t)
        for es in other.t:
            self.t.append([(x, y + off, o or org) for x, y, o in es])
        self.add(s, None, other.start + off)
        for a in other.acc:
            self.add(a + off, None, d)

    def alphabet(self):
        return {x for es in self.t for x, _, _ in es if x is not None}

    def trim(self):
        fw, todo = {self.start}, [self.start]
        while todo:
            for _, d, _ in self.t[todo.pop()]:
                if d not in fw:
                    fw.add(d)
                    todo.append(d)
        pred = {}
        for s, es in enumerate(self.t):
            for _, d, _ in es:
                pred.setdefault(d, []).append(s)
        bw, todo = set(self.acc), list(self.acc)
        while todo:
            for s in pred.get(todo.pop(), []):
                if s not in bw:
                    bw.add(s)
                    todo.append(s)
        keep = fw & bw
        keep.add(self.start)
        for s in range(len(self.t)):
            self.t[s] = [e for e in self.t[s] if e[1] in keep] if s in keep else []
        self.acc &= keep
        return self

    def closure(self, ss):
        ss, todo = set(ss), list(ss)
        while todo:
            for x, d, _ in self.t[todo.pop()]:
                if x is None and d not in ss:
                    ss.add(d)
                    todo.append(d)
        return frozenset(ss)

    def det(self, limit=60000):
        d = DFA()
        s0 = self.closure([self.start])
        ids = {s0: 0}
        d.t.append({})
        d.org.append({})
        todo = [s0]
        while todo:
            S = todo.pop()
            i = ids[S]
            if S & self.acc:
                d.acc.add(i)
            by = {}
            for s in S:
                for x, y, o in self.t[s]:
                    if x is not None:
                        by.setdefault(x, set()).add(y)
                        if o and x not in d.org[i]:
                            d.org[i][x] = o
            for x, ys in by.items():
                T = self.closure(ys)
                if T not in ids:
                    ids[T] = len(d.t)
                    d.t.append({})
                    d.org.append({})
                    todo.append(T)
                    if len(ids) > limit:
                        raise OverflowError('automaton too large')
                d.t[i][x] = ids[T]
        return d


class DFA:
    def __init__(self):
        self.t, self.acc, self.org, self.start = [], set(), [], 0

    def alphabet(self):
        return {x for e in self.t for x in e}

    def witness_not_in(self, spec):
        """Shortest word accepted by self and not by spec -> (word, origins) or None."""
        seen = {(0, 0): None}
        q = deque([(0, 0)])
        while q:
            k = q.popleft()
            a, b = k
            if a in self.acc and (b is None or b not in spec.acc):
                return self.trail(seen, k)
            for x, y in self.t[a].items():
                nb = spec.t[b].get(x) if b is not None else None
                n = (y, nb)
                if n not in seen:
                    seen[n] = (k, x, self.org[a].get(x))
                    q.append(n)
        return None

    def witness_prefix_not_in(self, spec):
        """As above, but any viable prefix of self must be a viable prefix of spec."""
        return self.witness_not_in(spec)

    def trail(self, seen, k):
        w, o = [], []
        while seen[k]:
            k, x, org = seen[k]
            w.append(x)
            o.append(org)
        return w[::-1], o[::-1]

    def words(self, n=20, maxlen=400):
        """The n shortest words."""
        pred, dist = {}, {s: 0 for s in self.acc}
        for s, e in enumerate(self.t):
            for d in e.values():
                pred.setdefault(d, []).append(s)
        todo = deque(sorted(self.acc))
        while todo:
            x = todo.popleft()
            for s in pred.get(x, ()):
                if s not in dist:
                    dist[s] = dist[x] + 1
                    todo.append(s)
        out, k = [], 0
        q = [(dist[0], 0, 0, ())] if 0 in dist else []
        while q and len(out) < n:
            d, _, s, w = heapq.heappop(q)
            if s == -1:
                out.append(w)
                continue
            if s in self.acc:
                k += 1
                heapq.heappush(q, (len(w), k, -1, w))
            if len(w) < maxlen:
                for x, t in sorted(self.t[s].items(), key=lambda e: str(e[0])):
                    if t in dist:
                        k += 1
                        heapq.heappush(q, (len(w) + 1 + dist[t], k, t, w + (x,)))
        return out

    def empty(self):
        return not self.acc

    def mini(self):
        """Minimised, canonically numbered copy (dead states removed)."""
        n = len(self.t)
        pred = {}
        for s, e in enumerate(self.t):
            for x, d in e.items():
                pred.setdefault(d, set()).add(s)
        live, todo = set(self.acc), list(self.acc)
        while todo:
            for s in pred.get(todo.pop(), ()):
                if s not in live:
                    live.add(s)
                    todo.append(s)
        cls = {s: (1 if s in self.acc else 0) for s in live}
        k = 0
        while True:
            sig = {}
            new = {}
            for s in live:
                key = (cls[s], frozenset((x, cls[d]) for x, d in self.t[s].items() if d in live))
                new[s] = sig.setdefault(key, len(sig))
            if len(sig) == k:
                break
            k, cls = len(sig), new
        out = DFA()
        if 0 not in live:
            out.t, out.org = [{}], [{}]
            return out
        ids = {cls[0]: 0}
        rep = {}
        for s in live:
            rep.setdefault(cls[s], s)
        order = [cls[0]]
        i = 0
        while i < len(order):
            s = rep[order[i]]
            e, o = {}, {}
            for x in sorted(self.t[s], key=str):
                d = self.t[s][x]
                if d in live:
                    c = cls[d]
                    if c not in ids:
                        ids[c] = len(order)
                        order.append(c)
                    e[x] = ids[c]
                    if x in self.org[s]:
                        o[x] = self.org[s][x]
            out.t.append(e)
            out.org.append(o)
            if s in self.acc:
                out.acc.add(i)
            i += 1
        return out

    def canon(self):
        m = self.mini()
        return [[sorted((str(x), d) for x, d in e.items()), i in m.acc] for i, e in enumerate(m.t)]


# ------------------------------------------------------------------ regular expressions
def T(s):
    """Literal text: one symbol per character."""
    return ('seq', [('sym', c) for c in s])


def Y(x):
    return ('sym', x)


def lit(x):
    return T(x) if isinstance(x, str) else x


def Q(*xs):
    return ('seq', [lit(x) for x in xs])


def A(*xs):
    return ('alt', [lit(x) for x in xs])


def STAR(*x):
    return ('star', Q(*x))


def OPTIONAL(*x):
    return ('alt', [Q(*x), ('seq', [])])


def PLUS(*x):
    return ('seq', [Q(*x), ('star', Q(*x))])


def SEP(x, sep):
    """x (sep x)*"""
    return Q(x, STAR(sep, x))


EPS = ('seq', [])


def regex(r):
    n = NFA()
    e = n.new()
    n.acc = {e}

    def go(r, s, d):
        k = r[0]
        if k == 'sym':
            n.add(s, r[1], d)
        elif k == 'seq':
            cur = s
            for x in r[1]:
                nx = n.new()
                go(x, cur, nx)
                cur = nx
            n.add(cur, None, d)
        elif k == 'alt':
            for x in r[1]:
                go(x, s, d)
        elif k == 'star':
            m = n.new()
            n.add(s, None, m)
            go(r[1], m, m)
            n.add(m, None, d)
        elif k == 'nfa':
            n.embed(r[1], s, d)
    go(r, n.start, e)
    return n


def symseq(*xs):
    return ('seq', [x if isinstance(x, tuple) and x and x[0] in ('seq', 'alt', 'star', 'sym', 'nfa') else ('sym', x) for x in xs])


# ------------------------------------------------------------------ projection of graphs
def project(g, symf, start=None, accept=None, inter=None):
    """NFA over the symbols symf(event) (None / symbol / list of symbols).
    start: predicate on events (begin after a matching event); accept: predicate on events (accept when it
    occurs; its own symbols included) or None for normal returns."""
    n = NFA()
    base = [n.new() for _ in g.info]
    if start is None:
        n.add(n.start, None, base[g.start])
    for s, es in g.succ.items():
        for evs, d in es:
            cur = base[s]
            for e in evs:
                if accept and accept(e):
                    a = n.new()
                    x = symf(e)
                    c2 = cur
                    for y in ([] if x is None else x if isinstance(x, list) else [x]):
                        m = n.new()
                        n.add(c2, y, m, e.loc)
                        c2 = m
                    n.add(c2, None, a)
                    n.acc.add(a)
                x = symf(e)
                for y in ([] if x is None else x if isinstance(x, list) else [x]):
                    m = n.new()
                    if isinstance(y, NFA):
                        n.embed(y, cur, m, e.loc)
                    else:
                        n.add(cur, y, m, e.loc)
                    cur = m
                if start and start(e):
                    n.add(n.start, None, cur)
            n.add(cur, None, base[d])
    if accept is None:
        for k in g.finals:
            n.acc.add(base[k])
    return n.trim()


# ------------------------------------------------------------------ text built by string operations
def canon(v, names=None, d=12):
    """Stable, implementation-independent name of a term."""
    names = names or {}
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return '(' + ','.join(canon(x, names, d) for x in v) + ')'
        return str(v)
    if v in names:
        return names[v]
    if d == 0:
        return '…'
    o, a = v.op, v.a
    k = lambda x: canon(x, names, d - 1)
    if o == 'c':
        return repr(a[1])
    if o == 'p':
        return names.get(a[0], f'arg{a[0]}')
    if o == 'f':
        return f'{k(a[0])}.{a[1]}'
    if o == 'v':
        if a[1] in ('Some', 'Ok'):
            return k(a[0])
        return f'{k(a[0])}~{a[1]}.{a[2]}'
    if o == 'elem':
        return f'{k(a[0])}[]'
    if o == 'agg':
        fs = ','.join(k(x) for x in a[2])
        return f'{a[1]}({fs})' if fs else str(a[1])
    if o == 'tup':
        return '(' + ','.join(k(x) for x in a[0]) + ')'
    if o == 'arr':
        return '[' + ','.join(k(x) for x in a[0]) + ']'
    if o == 'r':
        f = a[0].rsplit('::', 1)[-1] if isinstance(a[0], str) else k(a[0])
        return f'{f}({",".join(k(x) for x in a[1])})'
    if o == 'clo':
        return f'closure({",".join(k(x) for x in a[1])})'
    if o == 'obj':
        return f'new-{a[1]}'
    if o == 'fmt':
        return 'fmt"' + ''.join(x.a[1] if x.op == 'c' else '{' + canon(x.a[1], names, d - 1) + '}' for x in a[0]) + '"'
    if o == 'join':
        return f'join({k(a[0])},{k(a[1])})'
    if o == 'fnd':
        return 'fn ' + a[0].rsplit('::', 1)[-1]
    if o == 'cast':
        return f'({k(a[2])} as {a[1]})'
    if o == 'kc':
        return f'const {a[1]}' if a[0] == '?' else str(a[0]).rsplit('::', 1)[-1]
    return f'{o}({",".join(k(x) for x in a)})'


def subst(v, f):
    """Rewrite subterms bottom-up: f(term) -> term or None."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            na = tuple(go(y) if isinstance(y, V) else tuple(go(z) if isinstance(z, V) else z for z in y)
                       if isinstance(y, tuple) else y for y in x.a)
            y = x if na == x.a else mk(x.op, *na)
            r = memo[x] = f(y) or y
        return r
    return go(v)


class Text:
    """Languages of strings and collections in an event graph.

    name: term -> str.  Iterations that append to the object show up as markers <X> ... </X>."""

    def __init__(self, g, names=None, holef=None, callsym=None, markers=True):
        self.g = g
        self.names = dict(names or {})
        self.holef, self.callsym, self.markers = holef, callsym, markers
        self.busy = set()
        self._rel = {}
        self._views = {}
        self._preds = None

    def name(self, v, point=None):
        return canon(self.resolve(v, point), self.names)

    def resolve(self, v, point):
        """Elements of locally built collections are replaced by what was put into them."""
        if point is None or not contains_op(v, ('obj',)):
            return v

        def f(x):
            if x.op == 'elem' and x.a[0].op == 'obj':
                w = self.view(x.a[0], point)
                if w:
                    return w[1]
            if x.op in ('len', 'empty') and x.a[0].op == 'obj':
                w = self.view(x.a[0], point)
                if w and w[2]:
                    return mk(x.op, w[0])
            return None
        return subst(v, f)

    def view(self, o, point):
        """(source, pushed term, exactly-one-per-element) of a collection filled in one loop."""
        if o in self._views:
            return self._views[o]
        self._views[o] = None
        ps = {}
        for s, i, e, d in self.g.events():
            if e.k in ('push', 'cmut') and e.a[0] is o:
                if e.k == 'cmut':
                    return None
                ps.setdefault(e.a[1], (s, i, e))
        src = self.relevant(o)
        if len(ps) == 1 and len(src) == 1:
            t, pt = next(iter(ps.items()))
            x = next(iter(src))
            if self.busy_view(o):
                return None
            h = self.history(o, point, lambda v, p: ('push',))
            if h is not None:
                it = self.iname(x, point)
                spec = regex(Q(STAR(Y(('it', it)), Y(('push',))), Y(('end', it)))).det()
                d = h.det()
                exact = d.witness_not_in(spec) is None
                self._views[o] = (x, self.resolve(t, pt), exact)
        return self._views[o]

    def busy_view(self, o):
        return False

    def iname(self, x, point):
        # going through the indices of a list goes through the list
        if x.op == 'agg' and x.a[0].rsplit('::', 1)[-1] == 'Range' and len(x.a[2]) == 2 and is_const(x.a[2][0]) and cval(x.a[2][0]) == 0 and x.a[2][1].op == 'len':
            return self.iname(x.a[2][1].a[0], point)
        if x.op == 'obj':
            w = self.view(x, point)
            if w:
                n = self.iname(w[0], point)
                return n if w[2] else f'sub({n})'
        return self.name(x, point)

    def relevant(self, o):
        """Sources of the loops that append to o."""
        if o in self._rel:
            return self._rel[o]
        g = self.g
        touch, its = [], {}
        for s, i, e, d in g.events():
            if (e.k in ('emit', 'push', 'cmut') and e.a[0] is o) or (e.k == 'call' and any(e.a[1][j] is o for j in e.a[7])):
                touch.append((s, i, e))
            elif e.k == 'iter':
                its.setdefault(e.a[0], []).append((s, i, e, d))
        res = set()
        tn = {}
        for s, i, e in touch:
            tn.setdefault(s, []).append(e)
        if touch:
            for x, where in its.items():
                if x is o:
                    continue
                todo, seen = [], set()
                hit = False
                for s, i, e0, d in where:
                    for evs, d2 in g.succ[s]:
                        if e0 in evs:
                            j = evs.index(e0) + 1
                            r = self.scan(evs[j:], o, x)
                            if r == 'hit':
                                hit = True
                            elif r is None:
                                todo.append(d2)
                while todo and not hit:
                    n = todo.pop()
                    if n in seen:
                        continue
                    seen.add(n)
                    for evs, d2 in g.succ.get(n, []):
                        r = self.scan(evs, o, x)
                        if r == 'hit':
                            hit = True
                            break
                        if r is None:
                            todo.append(d2)
                if hit:
                    res.add(x)
        self._rel[o] = res
        return res

    def scan(self, evs, o, x):
        for e in evs:
            if e.k in ('iter', 'iterend') and e.a[0] is x:
                return 'stop'
            if e.k == 'alloc' and e.a[0] is o:
                return 'stop'
            if e.k in ('emit', 'push', 'cmut') and e.a[0] is o:
                return 'hit'
            if e.k == 'call' and any(e.a[1][j] is o for j in e.a[7]):
                return 'hit'
        return None

    def of(self, v, point=None, org=None):
        """NFA of the text of value v as seen at `point` = (node, index of event, event)."""
        n = NFA()
        e = n.new()
        n.acc = {e}
        self.emit(n, n.start, e, v, point, org)
        return n

    def sym(self, v, point, tr='display', spec=()):
        nm = self.name(v, point)
        s = nm if tr == 'display' else f'{tr}:{nm}'
        if spec:
            s += f':{spec}'
        return '{' + s + '}'

    def emit(self, n, s, d, v, point, org, tr='display', spec=()):
        while v.op == 'agg' and v.a[1] in ('Borrowed', 'Owned') and len(v.a[2]) == 1 and 'Cow' in str(v.a[0]):
            v = v.a[2][0]
        if v.op == 'hole':
            return self.emit(n, s, d, v.a[1], point, org, v.a[0], v.a[2])
        if tr == 'display' and not spec:
            if v.op == 'c' and isinstance(v.a[1], (str, int)) and v.a[0] in ('str', 'char', 'int'):
                cur = s
                for c in str(v.a[1]):
                    m = n.new()
                    n.add(cur, c, m, org)
                    cur = m
                n.add(cur, None, d)
                return
            if v.op == 'fmt':
                cur = s
                for p in v.a[0]:
                    m = n.new()
                    self.emit(n, cur, m, p, point, org)
                    cur = m
                n.add(cur, None, d)
                return
            if self.holef:
                r = self.holef(self, v, point)
                if isinstance(r, V) and r is not v:
                    return self.emit(n, s, d, r, point, org)
                if isinstance(r, NFA):
                    n.embed(r, s, d, org)
                    return
                if isinstance(r, str):
                    n.add(s, r, d, org)
                    return
            if v.op == 'obj' and point is not None and v not in self.busy:
                self.busy.add(v)
                try:
                    x = self.history(v, point)
                finally:
                    self.busy.discard(v)
                if x is not None:
                    n.embed(x, s, d, org)
                    return
            if v.op == 'join' and point is not None:
                x = self.joined(v, point)
                if x is not None:
                    n.embed(x, s, d, org)
                    return
        n.add(s, self.sym(v, point, tr, spec), d, org)

    def reach_back(self, point):
        if self._preds is None:
            self._preds = self.g.preds()
        p = self._preds
        seen, todo = {point[0]}, [point[0]]
        while todo:
            for _, s in p.get(todo.pop(), []):
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        return seen

    def history(self, o, point, item=None, init=None):
        """Language of what was appended to object o between its allocation and point."""
        g = self.g
        rel = self.relevant(o) if self.markers else set()
        back = self.reach_back(point)
        n = NFA()
        base = {}

        def st(x):
            if x not in base:
                base[x] = n.new()
            return base[x]
        fin = n.new()
        n.acc = {fin}
        found = o.op == 'p'      # a parameter exists from the start
        if found:
            n.add(n.start, None, st(g.start))
        for s in back:
            for evs, d in g.succ.get(s, []):
                cur = st(s)

                def put(x, loc):
                    nonlocal cur
                    m = n.new()
                    if isinstance(x, NFA):
                        n.embed(x, cur, m, loc)
                    else:
                        n.add(cur, x, m, loc)
                    cur = m
                for i, e in enumerate(evs):
                    pt = (s, i, e)
                    if e is point[2] and s == point[0]:
                        n.add(cur, None, fin)
                    if e.k == 'alloc' and e.a[0] is o:
                        found = True
                        cur = n.new()
                        n.add(n.start, None, cur)
                        if e.a[1] is not None and e.a[1].op != 'undef':
                            m = n.new()
                            if init is not None:
                                init(n, cur, m, e.a[1], pt)
                            else:
                                self.emit(n, cur, m, e.a[1], pt, e.loc)
                            cur = m
                    elif init is not None and e.k == 'cmut' and e.a[0] is o and e.a[1] in ('append', 'extend_from_slice') and e.a[2]:
                        m = n.new()
                        init(n, cur, m, e.a[2][0], pt)
                        cur = m
                    elif e.k == 'emit' and e.a[0] is o:
                        for p in e.a[1]:
                            m = n.new()
                            self.emit(n, cur, m, p, pt, e.loc)
                            cur = m
                    elif e.k == 'push' and e.a[0] is o:
                        put(item(e.a[1], pt) if item else ('push', self.name(e.a[1], pt)), e.loc)
                    elif e.k == 'call' and (any(e.a[1][j] is o for j in e.a[7]) or (found and o.op == 'p' and o in e.a[1])):
                        x = self.callsym(self, e, o, pt) if self.callsym else None
                        put(x if x is not None else ('call', str(e.a[0])), e.loc)
                    elif e.k == 'cmut' and e.a[0] is o:
                        put(('cmut', e.a[1], tuple(self.name(x, pt) for x in e.a[2])), e.loc)
                    elif e.k == 'iter' and e.a[0] in rel:
                        put(('it', self.iname(e.a[0], pt)), e.loc)
                    elif e.k == 'iterend' and e.a[0] in rel:
                        put(('end', self.iname(e.a[0], pt)), e.loc)
                if d in back:
                    n.add(cur, None, st(d))
        if not found:
            return None
        return n.trim()

    def joined(self, v, point):
        o, sep = v.a
        if o.op == 'arr':
            n = NFA()
            cur = n.start
            for i, x in enumerate(o.a[0]):
                if i:
                    m = n.new()
                    self.emit(n, cur, m, sep, point, None)
                    cur = m
                m = n.new()
                self.emit(n, cur, m, x, point, None)
                cur = m
            n.acc = {cur}
            return n
        if o.op != 'obj':
            return None

        def item(x, pt):
            k = NFA()
            a, b = k.new(), k.new()
            k.add(k.start, ('sep',), a)
            self.emit(k, a, b, x, pt, None)
            k.acc = {b}
            return k
        h = self.history(o, point, item)
        if h is None:
            return None
        # the first ('sep',) becomes empty, later ones the separator
        n = NFA()
        ids = {}
        todo = []

        def st(s, f):
            if (s, f) not in ids:
                ids[(s, f)] = n.new()
                todo.append((s, f))
            return ids[(s, f)]
        n.add(n.start, None, st(h.start, 0))
        while todo:
            s, f = todo.pop()
            if s in h.acc:
                n.acc.add(ids[(s, f)])
            for x, d, org in h.t[s]:
                if x == ('sep',):
                    t = st(d, 1)
                    if f:
                        self.emit(n, ids[(s, f)], t, sep, point, org)
                    else:
                        n.add(ids[(s, f)], None, t)
                else:
                    n.add(ids[(s, f)], x, st(d, f), org)
        return n


def EACH(x, item, sep=''):
    """Every element of x in order, separated by sep; nothing for an empty x."""
    it, end = Y(('it', x)), Y(('end', x))
    item, sep = lit(item), lit(sep)
    return Q(OPTIONAL(it, item, STAR(A(Q(sep, it), Q(it, sep)), item)), end)


def SOME(x, item, sep=''):
    """As EACH, but not for an empty x (whose text is left open by the property)."""
    return EACH(x, item, sep)


PUNCT = set('(),;=<>')


def squeeze(n):
    """Insignificant SQL white space removed (outside quotes): runs become one blank, none next to punctuation."""
    out = NFA()
    ids, todo = {}, []

    def st(k):
        if k not in ids:
            ids[k] = out.new()
            todo.append(k)
        return ids[k]
    out.add(out.start, None, st((n.start, 'p', False, None)))
    while todo:
        k = todo.pop()
        s, m, pend, q = k
        if s in n.acc:
            out.acc.add(ids[k])
        for x, d, org in n.t[s]:
            if x is None:
                out.add(ids[k], None, st((d, m, pend, q)))
                continue
            ch = isinstance(x, str) and len(x) == 1
            if isinstance(x, tuple) and x[0] in ('it', 'end'):
                out.add(ids[k], x, st((d, m, pend, q)), org)
                continue
            if q:
                out.add(ids[k], x, st((d, 'w', False, None if ch and x == q else q)), org)
                continue
            if ch and x in ' \t\n\r':
                out.add(ids[k], None, st((d, m, True, q)))
                continue
            p = ch and x in PUNCT
            nq = x if ch and x in '\'"' else None
            nxt = st((d, 'p' if p else 'w', False, nq))
            if pend and not p and m != 'p':
                mid = out.new()
                out.add(ids[k], ' ', mid, org)
                out.add(mid, x, nxt, org)
            else:
                out.add(ids[k], x, nxt, org)
    return out.trim()


def word(w):
    return ''.join(x if isinstance(x, str) else '<' + ' '.join(map(str, x)) + '>' for x in w)
