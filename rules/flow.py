"""Control-flow helpers over event graphs, and the hand-over of work through channels."""
from lib import *
from interp import UNIT, Ev, POLL, State, Frame, RES
import interp as _i


def contents(v, cont, memo=None):
    """v with the local lists in it replaced by what they hold."""
    memo = {} if memo is None else memo
    r = memo.get(v)
    if r is None:
        if v.op == 'obj' and v in cont:
            r = mk('arr', tuple(contents(x, cont, memo) for x in cont[v]))
        else:
            go = lambda y: contents(y, cont, memo) if isinstance(y, V) else tuple(go(z) for z in y) if isinstance(y, tuple) else y
            r = mk(v.op, *[go(y) for y in v.a])
        memo[v] = r
    return r


def paths(g, limit=4000, kinds=None, full=False):
    """Every path from entry to a return (final value) or dead end (None); loop edges are taken at most once."""
    out = []
    stack = [(g.start, (), frozenset())]
    while stack:
        s, evs, used = stack.pop()
        if s in g.finals:
            v = contents(g.finals[s], g.conts[s]) if full else g.finals[s]
            out.append((evs, v, {k: contents(c, g.conts[s]) for k, c in g.cells[s].items()}) if full == 'cells' else (evs, v))
            if len(out) > limit:
                raise Limit('too many paths')
            continue
        nx = g.succ.get(s, [])
        if not nx:
            out.append((evs, None, {}) if full == 'cells' else (evs, None))
        for i, (e, d) in enumerate(nx):
            if (s, i) in used:
                continue
            e2 = tuple(x for x in e if kinds is None or x.k in kinds)
            stack.append((d, evs + e2, used | {(s, i)}))
    return out


def is_err(v):
    return v is not None and v.op == 'agg' and v.a[0] == RES and v.a[1] == 'Err'


def is_ok(v):
    return v is not None and v.op == 'agg' and v.a[0] == RES and v.a[1] == 'Ok'


def cell(name):
    """A pointer to an object that exists before the call (see `cells` of Interp)."""
    return mk('ptr', ('chan', 'cell:' + name), ())


def strip(v):
    """Root of a projection chain."""
    while v.op in ('f', 'fld', 'vf', 'as', 'proj', 'deref') and isinstance(v.a[0], V):
        v = v.a[0]
    return v


def find_clo(v):
    for x in subterms(v):
        if x.op == 'clo':
            return x
    return None


def channel_hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
    """Channels between a caller and its worker: a job sent is run once, and its answer is what the receiver gets
    (that the worker does this is an obligation of its own)."""
    l = last(name)
    fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
    if l in ('channel', 'unbounded', 'bounded') and ('oneshot' in name or 'crossbeam' in name or 'mpsc' in name):
        c = mk('chan', it.site(st, fr))
        return fin(mk('tup', (mk('chantx', c), mk('chanrx', c))))
    if name == 'std::intrinsics::transmute' or name == 'std::mem::transmute':
        return fin(av[0])
    if l in ('as_ref', 'as_mut') and ('const_ptr' in name or 'mut_ptr' in name):
        return fin(some(av[0]))
    if l == 'send' and len(av) == 2:
        tx = it.undr(st, av[0])
        if tx.op == 'chantx':
            st.store[('chan', tx.a[0])] = it.undr(st, av[1])
            return fin(_i.ok(UNIT), evs + [Ev('answer', (tx.a[0], it.undr(st, av[1])), loc, fn.id)])
        job = find_clo(av[1]) or find_clo(it.undr(st, av[1]))
        if job is not None and it.can_inline(st, job.a[0]):
            s2 = State(st.stack, dict(st.store))
            out = fin(_i.err(mk('r', name, (tx,), it.site(st, fr))), evs + [Ev('sendfail', (tx,), loc, fn.id)], s2)
            s3 = State(st.stack, dict(st.store))
            e2 = evs + [Ev('job', (tx, job), loc, fn.id)]
            it.put(s3, depth, dest, _i.ok(UNIT), e2, loc, fn.id)
            return out + it.enter(s3, depth, fn, fr, job.a[0], [job], None, target, e2, 'unit', loc)
    rx = None
    if l == 'recv' or l == 'blocking_recv':
        rx = it.undr(st, av[0])
        wrap = lambda v: v
    elif name.endswith('Future::poll'):
        rx = it.undr(st, av[0])
        wrap = lambda v: agg(POLL, 'Ready', v)
    if rx is not None and rx.op == 'chanrx':
        v = st.store.get(('chan', rx.a[0]))
        if v is None:
            return fin(wrap(_i.err(mk('r', 'nothing-sent', (rx,), ''))), evs + [Ev('lost', (rx,), loc, fn.id)])
        s2 = State(st.stack, dict(st.store))
        return fin(wrap(_i.ok(v)), evs + [Ev('recv', (rx, v), loc, fn.id)]) + \
            fin(wrap(_i.err(mk('r', 'worker-gone', (rx,), ''))), evs + [Ev('recvfail', (rx,), loc, fn.id)], s2)
    return None


class Results:
    """A query that gives n rows; the query, every step through its rows and every conversion of a row can fail."""

    def __init__(self, n, inner):
        self.n, self.inner = n, inner

    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, e, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)

        def fallible(val, what):
            s2 = State(st.stack, dict(st.store))
            return fin(_i.ok(val), evs) + fin(_i.err(mk('r', what + '-error', (), '')), evs + [Ev('rowfail', (what,), loc, fn.id)], s2)
        if not av:
            return self.inner(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)
        a = it.undr(st, av[0])
        if l == 'query' and 'ConnectionMethods' in name:
            st.store[('chan', mk('rowidx'))] = C(0)
            return fallible(mk('rows'), 'query')
        if l == 'next' and a.op == 'rows':
            k = ('chan', mk('rowidx'))
            i = cval(st.store[k])
            if i >= self.n:
                return fallible(NONE, 'row')
            s2 = State(st.stack, dict(st.store))
            st.store[k] = C(i + 1)
            return fin(_i.ok(some(mk('row', i))), evs) + fin(_i.err(mk('r', 'row-error', (), '')), evs + [Ev('rowfail', ('row',), loc, fn.id)], s2)
        if l in ('next', 'fnext') and a.op == 'agg' and last(a.a[0].split('<')[0]) == 'MapDeref' and av[0].op == 'ptr':
            for f in it.F.fns.values():
                if f.name == 'next' and f.trait and 'FallibleIterator' in f.trait and 'MapDeref' in (f.selfty or '') and f.id != fn.id:
                    return it.enter(st, depth, fn, fr, f.id, [av[0]], dest, target, evs, None, loc)
        if l == 'from_row' and a.op == 'row':
            return fallible(mk('made', a.a[0]), 'made')
        return self.inner(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)
