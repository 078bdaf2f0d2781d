"""P25: work given to the thread behind the async adapter; P24: connections lent to synchronous code."""
from schema import *
from flow import *
from conv import contains
import flow, known, interp
normc = interp.normc

ME = mk('p', 'me')
OPTRAITS = ('ConnectionMethods', 'BackendConnection', 'BackendTransaction', 'Backend')
OK = lambda v: agg(RES, 'Ok', v)
ERR = lambda v: agg(RES, 'Err', v)


def trait_of(n):
    return last(re.sub(r'<.*', '', n.rsplit('::', 1)[0]))


def is_op(n):
    t = trait_of(n)
    return t in OPTRAITS or t.endswith('Async') and t[:-5] in OPTRAITS


def opaque(n, i, d):
    return is_op(n) or last(n) == 'vec_from_backend_rows'


def adapter_fns(cx):
    """Methods of the async adapter (trait methods and inherent ones other code of the crate can call)."""
    for f in sorted(cx.F.fns.values(), key=lambda f: f.id):
        if f.crate == CORE and not f.parent and re.search(r'::AsyncAdapter<', f.selfty or '') and f.trait and not f.derived:
            yield f


def spans(evs):
    """For each event, whether it happens within a job that was sent."""
    out, depth, want = [], 0, False
    for e in evs:
        if e.k == 'job':
            want = True
            out.append(depth > 0)
            continue
        if e.k == 'enter' and (depth or want):
            depth += 1
            want = False
        out.append(depth > 0)
        if e.k == 'leave' and depth:
            depth -= 1
    return out


def owned(v):
    return any(x.op == 'rawown' for x in subterms(v))


def rawing(inner):
    """A box given up as a bare pointer is marked."""
    def hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        if last(name) in ('into_raw', 'leak', 'into_non_null') and av and 'Box' in name:
            return it.finish(st, depth, dest, target, mk('rawown', it.undr(st, av[0])), evs, loc, fn)
        return inner(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)
    return hook


def check_calls(cx):
    """Everything an async adapter does with what it wraps is one job of its thread, answered once and waited for."""
    n = 0
    for f in adapter_fns(cx):
        t = trait_of(f.trait + '::x')
        if t in ('Debug', 'Drop'):
            continue
        key = f'{t}.{f.name}'
        args = [ME] + [mk('p', f'a{i}') for i in range(1, f.argc)]
        worked = False
        for evs, v in paths(cx.graph(f, args=args, hook=rawing(channel_hook), opaque=opaque), full=True):
            inside = spans(evs)
            jobs = [e for e in evs if e.k == 'job']
            sent = jobs + [e for e in evs if e.k == 'sendfail']
            ops = [(e, w) for e, w in zip(evs, inside) if e.k == 'call' and is_op(str(e.a[0])) and any(isinstance(x, V) and contains(x, ME) for x in e.a[1][:1])]
            worked |= bool(jobs)
            cx.ob(f'{key}.there', all(w for _, w in ops), f'{f.name} of the async adapter uses what it wraps outside the thread of the adapter: {[last(str(e.a[0])) for e, w in ops if not w]}', f.span)
            cx.ob(f'{key}.once', len(sent) <= 1, f'{f.name} of the async adapter sends {len(sent)} jobs', f.span)
            for e in sent:
                cx.ob(f'{key}.own', contains(e.a[0], ME), f'{f.name} of the async adapter sends its job to {show(e.a[0], 5)}', f.span)
            ans = [e for e, w in zip(evs, inside) if e.k == 'answer' and w]
            if jobs:
                cx.ob(f'{key}.answered', len(ans) == 1, f'a job of {f.name} gives {len(ans)} answers', f.span)
                got = [e for e in evs[evs.index(jobs[0]):] if e.k in ('recv', 'recvfail') and ans and contains(e.a[0], ans[0].a[0])]
                cx.ob(f'{key}.waited', bool(got), f'{f.name} of the async adapter does not wait for its job', f.span)
                dead = any(e.k == 'recvfail' for e in got)
                cx.ob(f'{key}.gone', not dead or v is None or is_err(v), f'{f.name} of the async adapter gives {show(v, 4)[:80] if v else v} although its job never answered', f.span)
                if ans and any(e.k == 'enter' and cx.F.fns[e.a[0]].coroutine for e in evs):
                    cx.ob(f'{key}.leak', not owned(ans[0].a[1]), f'a job of {f.name} answers with a bare pointer that nothing frees when the caller is gone: {show(ans[0].a[1], 5)[:100]}', f.span)
            for x in adapters(v) if v is not None else ():
                env = [y for y in x.a[2] if not any(z.op == 'rawown' for z in subterms(y))]
                cx.ob(f'{key}.same', len(env) == 1 and not env[0].op == 'agg' and contains(env[0], ME), f'{f.name} gives an adapter with a thread of its own for what belongs to that of the adapter: {show(x, 5)[:120]}', f.span)
            if sent and not jobs:
                cx.ob(f'{key}.unsent', v is None or is_err(v), f'{f.name} of the async adapter gives {show(v, 4)[:80] if v else v} although its job could not be sent', f.span)
        n += 1
        cx.ob(f'{key}.works', worked or not any(is_op(str(e.a[0])) for evs, _ in paths(cx.graph(f, args=args, hook=channel_hook, opaque=opaque)) for e in evs if e.k == 'call'), f'{f.name} of the async adapter never sends a job', f.span)
    cx.ob('methods', n >= 12, f'{n} methods of the async adapter')


# ---- the thread -----------------------------------------------------------------------------------
class Worker:
    """The commands received: a word over f (a function to run), s (shut down), e (the channel is closed)."""

    def __init__(self, word, func, stop):
        self.word, self.func, self.stop = word, func, stop

    def hook(self, it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        k = ('chan', mk('w'))
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
        a = it.undr(st, av[0]) if av else None
        rx = a is not None and any(x.op == 'up' for x in subterms(a))
        if rx and l in ('recv', 'next') or l == 'next' and a is not None and a.op == 'recviter':
            i = cval(st.store.get(k, C(0)))
            c = self.word[i] if i < len(self.word) else 'e'
            st.store[k] = C(i + 1)
            val = self.func(i) if c == 'f' else self.stop if c == 's' else None
            ev = [Ev('cmd', (c, i), loc, fn.id)]
            if l == 'next':
                return fin(some(val) if val is not None else NONE, evs + ev)
            return fin(OK(val) if val is not None else ERR(mk('p', 'closed')), evs + ev)
        if rx and l in ('iter', 'into_iter'):
            return fin(mk('recviter'))
        if l in ('call_once', 'call_mut', 'call') and a is not None and a.op == 'fnjob':
            return fin(UNIT, evs + [Ev('ran', (a.a[0],), loc, fn.id)])
        if l == 'catch_unwind':
            return None
        return None


def command(cx):
    """The command type of the worker: (constructor of a job, of the end)."""
    for path, d in cx.F.adts.items():
        vs = d['variants']
        if path.startswith('butane_core::db::') and len(vs) == 2:
            jobs = [w for w in vs if len(w[2]) == 1]
            ends = [w for w in vs if not w[2]]
            if len(jobs) == 1 and len(ends) == 1 and 'adapter' in path:
                return lambda i: mk('agg', path, jobs[0][0], (mk('fnjob', i),)), mk('agg', path, ends[0][0], ())
    raise Missing('the command type of the adapter')


def spawned(cx):
    """Closures that become the thread of the adapter."""
    out = []
    for f in cx.F.fns.values():
        if f.crate == CORE and 'adapter' in f.id:
            for b in f.blocks:
                t = b[1]
                if t[0] == 'call' and isinstance(t[1], list) and t[1][0] == 'fn' and last(normc(t[1][2]['p'])) == 'spawn':
                    for s in (s for bb in f.blocks for s in bb[0]):
                        if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure' and s[2][1][1] in cx.F.fns:
                            out.append(cx.F.fns[s[2][1][1]])
    return out


def check_worker(cx):
    """The thread runs every function sent to it, once and in order, until it is told to end."""
    func, stop = command(cx)
    ws = [w for w in spawned(cx) if w.upvars is not None]
    cx.ob('thread', len(ws) >= 1, 'the async adapter starts no thread')
    for w in ws:
        for word in ('e', 's', 'fe', 'fs', 'ffs', 'fffe', 'fsf'):
            ups = tuple(mk('p', 'rx') for _ in w.upvars)
            for evs, v in paths(cx.graph(w, args=[mk('clo', w.id, ups)], hook=Worker(word, func, stop).hook), full=True):
                got = [e.a[1] for e in evs if e.k == 'cmd' and e.a[0] == 'f']
                seen = ''.join(e.a[0] for e in evs if e.k == 'cmd')
                ran = [e.a[0] for e in evs if e.k == 'ran']
                end = word.find('s') if 's' in word else word.find('e')
                cx.ob('ran', ran == got, f'the thread of the adapter receives functions {got} and runs {ran}', w.span)
                cx.ob('until', seen == word[:end + 1], f'the thread of the adapter, sent {word}, takes {seen}', w.span)
                order = [(e.k, e.a[1] if e.k == 'cmd' else e.a[0]) for e in evs if e.k == 'ran' or e.k == 'cmd' and e.a[0] == 'f']
                cx.ob('in.turn', order == [x for i in got for x in (('cmd', i), ('ran', i))], f'the thread of the adapter runs functions late: {order}', w.span)


def check_end(cx):
    """The thread is told to end, and waited for, when the last adapter is gone."""
    fs = [f for f in cx.F.fns.values() if f.name == 'drop' and f.trait and last(f.trait) == 'Drop' and f.crate == CORE and 'AsyncAdapterEnv' in (f.selfty or '')]
    if not fs:
        # by type: the owner of the thread
        fs = [f for f in cx.F.fns.values() if f.name == 'drop' and f.trait and last(f.trait) == 'Drop' and 'db::adapter' in f.id and 'AsyncAdapter<' not in (f.selfty or '')]
    ends = False
    _, stop = command(cx)
    for f in fs:
        def hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
            l = last(name)
            fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
            a = it.undr(st, av[0]) if av else None
            if l in ('send', 'try_send') and len(av) == 2 and contains(a, ME):
                s2 = State(st.stack, dict(st.store))
                ev = [Ev('told', (it.undr(st, av[1]),), loc, fn.id)]
                return fin(OK(UNIT), evs + ev) + fin(ERR(mk('p', 'e')), evs + ev, s2)
            if l == 'take' and 'Option' in name and contains(a, ME):
                return fin(some(mk('handle')))
            if l == 'join' and a is not None and a.op == 'handle':
                return fin(OK(UNIT), evs + [Ev('joined', (), loc, fn.id)])
            return None
        me = cells = None
        for evs, v in paths(cx.graph(f, args=[ME], hook=hook), full=True):
            ks = [(e.k, show(e.a[0]) if e.a else '') for e in evs if e.k in ('told', 'joined')]
            if not ks:
                continue
            ends = True
            cx.ob('end', [k for k, _ in ks] == ['told', 'joined'] and ks[0][1] == show(stop), f'the adapter ends its thread by {ks}', f.span)
    cx.ob('ends', ends, 'the thread of the adapter is never told to end')


# ---- making and ending an adapter -----------------------------------------------------------------
def frees(cx):
    """Where in the adapter a bare pointer becomes owned again."""
    out = []
    for f in cx.F.fns.values():
        if f.crate == CORE and 'db::adapter' in f.id:
            for b in f.blocks:
                t = b[1]
                if t[0] == 'call' and isinstance(t[1], list) and t[1][0] == 'fn' and last(normc(t[1][2]['p'])) in ('from_raw', 'drop_in_place', 'read'):
                    out.append(f.id)
    return out


def freeing(inner):
    def hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        if l in ('from_raw', 'drop_in_place') and av:
            e = Ev('freed', (it.undr(st, av[0]),), loc, fn.id)
            return it.finish(st, depth, dest, target, UNIT if l == 'drop_in_place' else it.undr(st, av[0]), evs + [e], loc, fn)
        return inner(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)
    return hook


def started(inner):
    """A thread that is started; what its creator sends it before anyone else has the sender is a job as well."""
    def hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
        if l == 'spawn' and 'thread' in name and av:
            return fin(mk('handle', it.undr(st, av[0])), evs + [Ev('thread', (it.undr(st, av[0]),), loc, fn.id)])
        if l == 'send' and len(av) == 2:
            tx, m = it.undr(st, av[0]), it.undr(st, av[1])
            job = find_clo(m)
            if tx.op == 'chantx' and m.op == 'agg' and 'adapter' in str(m.a[0]) and job is not None and it.can_inline(st, job.a[0]):
                raw = find_clo(av[1]) or job
                s2, s3 = State(st.stack, dict(st.store)), State(st.stack, dict(st.store))
                e2 = evs + [Ev('job', (tx, job), loc, fn.id)]
                it.put(s3, depth, dest, OK(UNIT), e2, loc, fn.id)
                return fin(ERR(mk('r', name, (tx,), it.site(st, fr))), evs + [Ev('sendfail', (tx,), loc, fn.id)], s2) + \
                    it.enter(s3, depth, fn, fr, job.a[0], [raw], None, target, e2, 'unit', loc)
        return inner(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)
    return hook


def check_drop(cx):
    """What is wrapped is dropped once, by its own thread."""
    fs = [f for f in adapter_fns(cx) if f.name == 'drop' and last(f.trait) == 'Drop']
    cx.ob('drop', len(fs) == 1, f'{len(fs)} ways to drop an async adapter')
    for f in fs:
        freed = 0
        for evs, v in paths(cx.graph(f, args=[ME], hook=freeing(channel_hook), opaque=opaque), full=True):
            inside = spans(evs)
            fr = [(e, w) for e, w in zip(evs, inside) if e.k == 'freed']
            if any(e.k == 'job' for e in evs):
                freed += 1
                cx.ob('freed.once', len(fr) == 1, f'dropping an async adapter frees what it wraps {len(fr)} times', f.span)
            cx.ob('freed.there', all(w for _, w in fr), 'what an async adapter wraps is dropped outside its thread', f.span)
            cx.ob('freed.own', all(contains(e.a[0], ME) for e, _ in fr), f'dropping an async adapter frees {[show(e.a[0], 4) for e, _ in fr]}', f.span)
            kept = [last(str(e.a[0])) for e in evs if e.k == 'call' and last(str(e.a[0])) in ('forget', 'leak', 'into_raw')]
            kept += ['ManuallyDrop'] if any(e.k == 'call' and 'ManuallyDrop' in str(e.a[0]) for e in evs) else []
            cx.ob('freed.really', not kept, f'dropping an async adapter uses {kept}', f.span)
        cx.ob('freed', freed >= 1, 'dropping an async adapter never frees what it wraps', f.span)
    own = [f.id for f in fs]
    for i in frees(cx):
        cx.ob('freed.only', any(i.startswith(o) for o in own), f'{i} frees what an adapter may still use', cx.F.fns[i].span)


def pooled(inner):
    """tokio's spawn_blocking runs the function given; its handle gives what that gives, or an error."""
    def hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
        l = last(name)
        fin = lambda val, e=evs, s=st: it.finish(s, depth, dest, target, val, e, loc, fn)
        if l == 'spawn_blocking' and av:
            job = find_clo(it.undr(st, av[0]))
            raw = av[0] if av[0].op == 'clo' else job
            if job is not None and it.can_inline(st, job.a[0]):
                s3 = State(st.stack, dict(st.store))
                e2 = evs + [Ev('lent', (job,), loc, fn.id)]
                return it.enter(s3, depth, fn, fr, job.a[0], [raw], dest, target, e2, 'op:joinhandle', loc)
        if name.endswith('Future::poll'):
            h = it.undr(st, av[0])
            if h.op == 'joinhandle':
                s2 = State(st.stack, dict(st.store))
                return fin(agg(POLL, 'Ready', OK(h.a[0])), evs + [Ev('joined', (), loc, fn.id)]) + \
                    fin(agg(POLL, 'Ready', ERR(mk('p', 'joinerror'))), evs + [Ev('joinfail', (), loc, fn.id)], s2)
        return inner(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs) if inner else None
    return hook


def adapters(v):
    return [x for x in subterms(v) if x.op == 'agg' and str(x.a[0]).endswith('::AsyncAdapter')]


def check_made(cx):
    """What an async adapter wraps is made (or moved to) and kept by a thread started for it."""
    S = mk('p', 'conn_str')
    todo = [(cx.impl('Backend', 'connect_async', 'SQLiteBackend'), [ME, S], 'connect'), (cx.inherent(r'db::Connection$', 'into_async', crate=CORE), [ME], None)]
    workers = {w.id for w in spawned(cx)}
    for f, args, via in todo:
        oks = 0
        for evs, v in paths(cx.graph(f, args=args, hook=pooled(started(rawing(channel_hook))), opaque=opaque), full=True):
            inside = spans(evs)
            if v is None:
                cx.fail(f'{f.name}.panic', f'{f.name} can panic', f.span)
                continue
            th = [e for e in evs if e.k == 'thread']
            cx.ob(f'{f.name}.thread', len(th) <= 1 and all(find_clo(e.a[0]) and find_clo(e.a[0]).a[0] in workers for e in th), f'{f.name} starts {[show(e.a[0], 3)[:60] for e in th]}', f.span)
            made = [(e, w) for e, w in zip(evs, inside) if e.k == 'call' and is_op(str(e.a[0])) and last(str(e.a[0])) == via]
            if via:
                cx.ob(f'{f.name}.there', all(w for _, w in made) and len(made) <= 1, f'{f.name} connects outside the thread that will use the connection, or {len(made)} times', f.span)
                cx.ob(f'{f.name}.what', all(e.a[1][0] is ME and e.a[1][1] is S for e, _ in made), f'{f.name} connects {[[show(x) for x in e.a[1]] for e, _ in made]}', f.span)
            bad = any(e.k in ('recvfail', 'sendfail', 'joinfail', 'lost') or e.k == 'assume' and str(e.a[1]) == 'Err' for e in evs)
            if bad:
                cx.ob(f'{f.name}.err', is_err(v), f'{f.name} gives {show(v, 4)[:80]} although a step failed', f.span)
                continue
            if is_err(v):
                continue
            oks += 1
            a = adapters(v)
            jobs = [e for e in evs if e.k == 'job']
            val = made[0][0].a[2] if via and made else ME
            fine = len(a) == 1 and len(jobs) == 1 and contains(a[0], jobs[0].a[0]) and th and contains(a[0], th[0].a[0]) and \
                any(x.op == 'rawown' and contains(x, val) for x in subterms(a[0]))
            cx.ob(f'{f.name}.kept', bool(fine), f'{f.name} gives {show(v, 7)[:160]}', f.span)
        cx.ob(f'{f.name}.ok', oks >= 1, f'{f.name} never succeeds', f.span)


# ---- callers that go away -------------------------------------------------------------------------
def guards(cx):
    """Types whose drop waits on a channel."""
    out = []
    for f in cx.F.fns.values():
        if f.name == 'drop' and f.trait and last(f.trait) == 'Drop' and f.crate == CORE and 'db::' in f.id and not f.parent:
            ps = list(paths(cx.graph(f, args=[ME]), full=True))
            if ps and all(any(e.k == 'call' and last(str(e.a[0])) == 'recv' and 'Receiver' in str(e.a[0]) and contains(e.a[1][0], ME) for e in evs) for evs, v in ps):
                out.append(last(re.sub(r'<.*', '', f.selfty)))
    return out


def places(o, kind):
    """Locals moved (kind 'mv') anywhere in a piece of MIR."""
    if isinstance(o, list):
        if len(o) == 2 and o[0] == kind and isinstance(o[1], list) and len(o[1]) == 1:
            yield o[1][0]
        for x in o:
            yield from places(x, kind)


def succs(t):
    k = t[0]
    if k == 'switch':
        return [b for _, b in t[3]] + [t[4]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[3]]
    if k in ('yield', 'drop'):
        return [t[2]]
    if k in ('goto', 'falseedge', 'falseunwind'):
        return [t[1]]
    return [x for x in t[1:] if isinstance(x, int)]


def holding(f, mine):
    """Which of the locals `mine` surely hold a value at the end of each block's statements."""
    n = len(f.blocks)
    inn = [None] * n
    inn[0] = frozenset()
    todo, at = [0], {}
    while todo:
        i = todo.pop()
        cur = set(inn[i])
        for s in f.blocks[i][0]:
            if s[0] == '=':
                cur -= set(places(s[2], 'mv'))
                if len(s[1]) == 1 and s[1][0] in mine:
                    cur.add(s[1][0])
            elif s[0] == 'dead':
                cur.discard(s[1])
        t = f.blocks[i][1]
        at[i] = frozenset(cur)
        if t[0] == 'call':
            cur -= set(places(t[2], 'mv'))
            if len(t[3]) == 1 and t[3][0] in mine:
                cur.add(t[3][0])
        elif t[0] == 'drop' and len(t[1]) == 1:
            cur.discard(t[1][0])
        for d in succs(t):
            new = frozenset(cur) if inn[d] is None else inn[d] & cur
            if new != inn[d]:
                inn[d] = new
                todo.append(d)
    return at


def guarded(cx, f, gs, seen=()):
    """Every time the coroutine waits it owns a value that is dropped with it, and whose drop waits; or whoever waits for it does."""
    mine = {i for i in range(len(f.locals)) if last(re.sub(r'<.*', '', f.local_ty(i))) in gs}
    at = holding(f, mine)
    fine = bool(mine)
    for i, b in enumerate(f.blocks):
        t = b[1]
        if t[0] != 'yield' or i not in at:
            continue
        todo, done, dropped = [t[4]] if t[4] is not None else [], set(), set()
        while todo:
            j = todo.pop()
            if j in done:
                continue
            done.add(j)
            u = f.blocks[j][1]
            if u[0] == 'drop' and len(u[1]) == 1:
                dropped.add(u[1][0])
            todo += succs(u)
        fine = fine and bool(at[i] & dropped)
    if fine or f.id in seen:
        return fine
    up = [g for g in conn_callers(cx, f) if g.coroutine]
    return bool(up) and all(guarded(cx, g, gs, seen + (f.id,)) for g in up)


def conn_callers(cx, f):
    """Bodies that make the future whose body is f."""
    import conn
    p = cx.F.fns.get(f.parent)
    return conn.callers(cx, p) if p is not None else []


def check_cancel(cx):
    """When a caller goes away while its job is waiting or running, what the job borrows stays until the job is done."""
    import conn
    gs = guards(cx)
    waits = {}
    for f in adapter_fns(cx):
        if last(f.trait) in ('Debug', 'Drop'):
            continue
        args = [ME] + [mk('p', f'a{i}') for i in range(1, f.argc)]
        for evs, v in paths(cx.graph(f, args=args, hook=channel_hook, opaque=opaque), full=True):
            jobs = [k for k, e in enumerate(evs) if e.k == 'job']
            for e in evs[jobs[0]:] if jobs else ():
                if e.k in ('recv', 'recvfail') and cx.F.fns[e.fn].coroutine:
                    waits[e.fn] = f
    cx.ob('waits', bool(waits), 'no method of the async adapter waits for its job')
    for w, f in sorted(waits.items()):
        g = cx.F.fns[w]
        cx.ob('cancel', guarded(cx, g, set(gs)), f'when a caller is dropped while it waits here, its job goes on with what it borrowed from the caller', g.span)
    # what such a value waits for is the end of the job
    for gname in gs:
        for b in conn.builders(cx, gname):
            r = conn.root(cx, b)
            n = 0
            for evs, v in paths(cx.graph(r, args=[mk('p', f'a{i}') for i in range(r.argc)], hook=channel_hook, opaque=opaque), full=True):
                if v is None or is_err(v):
                    continue
                held = [x for x in subterms(v) if x.op == 'agg' and last(str(x.a[0])) == gname]
                jobs = [e for e in evs if e.k == 'job']
                if not cx.ob('guard', len(held) == 1 and len(jobs) == 1, f'{r.id} sends {len(jobs)} jobs and gives {show(v, 4)[:80]}', r.span):
                    continue
                n += 1
                rx = [x.a[0] for x in subterms(held[0]) if x.op == 'chanrx']
                tx = [x for x in subterms(jobs[0].a[1]) if x.op == 'chantx' and x.a[0] in rx]
                cx.ob('guard.end', len(rx) == 1 and bool(tx), f'dropping what {r.id} gives waits for something else than its job', r.span)
                late(cx, cx.F.fns[find_clo(jobs[0].a[1]).a[0]])
            cx.ob('guard.made', n >= 1, f'{r.id} never gives a {gname}', r.span)
    for f in cx.F.fns.values():
        if f.crate == CORE and 'db::adapter' in f.id:
            for b in f.blocks:
                t = b[1]
                if t[0] == 'call' and isinstance(t[1], list) and t[1][0] == 'fn' and last(normc(t[1][2]['p'])) in ('forget', 'leak') :
                    cx.fail('forget', f'{f.id} keeps something from being dropped', f.span)


def late(cx, f):
    """The job gives up its end of the channel only after the function it runs has finished."""
    snd = {i for i in range(len(f.locals)) if 'Sender<' in f.local_ty(i)}
    run = [i for i, b in enumerate(f.blocks) if b[1][0] == 'call' and isinstance(b[1][1], list) and b[1][1][0] == 'fn' and last(normc(b[1][1][2]['p'])) in ('call_once', 'call', 'call_mut')]
    cx.ob('job.runs', bool(run), f'{f.id} does not run the function of the job', f.span)
    todo, done = [0], set()
    while todo:
        i = todo.pop()
        if i in done or i in run:
            continue
        done.add(i)
        t = f.blocks[i][1]
        gone = t[0] == 'drop' and t[1][0] in snd and len(t[1]) == 1 and not f.blocks[i][2] and i in before(f, run) and not any(
            x in places(s, 'mv') for x in (t[1][0],) for b in done for ss in f.blocks[b][0] for s in [ss]) or \
            t[0] == 'call' and any(x in snd for x in places(t[2], 'mv'))
        cx.ob('job.late', not gone, f'{f.id} lets go of its channel before its function has finished', f.span)
        todo += succs(t)


def before(f, goals):
    """Blocks from which one of the goals can still be reached."""
    pred = {}
    for i, b in enumerate(f.blocks):
        for d in succs(b[1]):
            pred.setdefault(d, []).append(i)
    out, todo = set(), list(goals)
    while todo:
        i = todo.pop()
        for p in pred.get(i, ()):
            if p not in out:
                out.add(p)
                todo.append(p)
    return out


# ---- touching what is wrapped ---------------------------------------------------------------------
def pointers(cx):
    """Types of the adapter that hold a bare pointer."""
    here = {p: [d['types'][fl[1]] for w in d['variants'] for fl in w[2]] for p, d in cx.F.adts.items() if 'db::adapter' in p}
    out = {last(p) for p, ts in here.items() if any(t.startswith('*') for t in ts)}
    return out | {last(p) for p, ts in here.items() if any(re.search(r'\b' + h + r'\b', t) for t in ts for h in out)}


def derefs(cx, f, held):
    """Places where a function follows a bare pointer."""
    def bare(pl):
        ty = f.local_ty(pl[0])
        raw = ty.startswith('*')
        box = any(re.search(r'\b' + h + r'\b', ty) for h in held)
        fld = False
        for x in pl[1:]:
            if x == '*' and (raw or fld and box):
                return True
            if isinstance(x, list) and x[0] == 'f':
                fld, raw = True, False
            elif x == '*':
                pass
        return False

    def go(o):
        if isinstance(o, list):
            if o and isinstance(o[0], int) and len(o) > 1 and all(x == '*' or isinstance(x, list) for x in o[1:]) and o[0] < len(f.locals):
                if bare(o):
                    yield o
            for x in o:
                yield from go(x)
    n = len(list(go([[b[0], b[1]] for b in f.blocks])))
    for b in f.blocks:
        t = b[1]
        if t[0] == 'call' and isinstance(t[1], list) and t[1][0] == 'fn':
            p = normc(t[1][2]['p'])
            if last(p) in ('as_ref', 'as_mut', 'read', 'write', 'from_raw', 'drop_in_place', 'as_uninit_ref') and ('ptr' in p or last(p) == 'from_raw'):
                n += 1
    return n


def check_touch(cx):
    """Only functions that run on the thread of the adapter follow the pointer to what it wraps."""
    held = pointers(cx)
    cx.ob('held', bool(held), 'the async adapter holds what it wraps in an unexpected way')
    D = {f.id: f for f in cx.F.fns.values() if f.crate == CORE and 'db::adapter' in f.id and derefs(cx, f, held)}
    ins, outs = set(), {}
    for f in adapter_fns(cx):
        args = [ME] + [mk('p', f'a{i}') for i in range(1, f.argc)]
        for evs, v in paths(cx.graph(f, args=args, hook=started(channel_hook), opaque=opaque), full=True):
            for e, w in zip(evs, spans(evs)):
                if e.k == 'enter' and e.a[0] in D:
                    (ins.add(e.a[0]) if w else outs.setdefault(e.a[0], f.name))
            if f.id in D:
                outs.setdefault(f.id, f.name)
    cx.ob('touched', bool(ins), 'no job of the async adapter uses what it wraps')
    for i, f in sorted(D.items()):
        cx.ob('touch', i in ins and i not in outs, f'{i} follows the pointer to what the async adapter wraps and is not (only) run by its thread', f.span)


# ---- P24: connections lent to synchronous code ----------------------------------------------------
def field(cx, v, name):
    d = cx.F.adts.get(v.a[0])
    names = [f[0] for f in d['variants'][0][2]] if d else []
    return v.a[2][names.index(name)] if name in names else None


def check_lent(cx):
    """A connection lent to a synchronous function is back afterwards, or is unusable and the caller is told."""
    f = cx.inherent('ConnectionAsync', 'with_sync', crate=CORE)
    ty = [k for k in cx.F.adts if k.endswith('db::ConnectionAsync')]
    if len(ty) != 1:
        raise Missing('type ConnectionAsync')
    INNER, FN = mk('p', 'inner'), mk('p', 'function')
    g = cx.graph(f, args=[flow.cell('conn'), FN], hook=pooled(None), opaque=opaque, cells={'conn': mk('agg', ty[0], 'ConnectionAsync', (INNER,))})
    back = 0
    for evs, v, cells in paths(g, full='cells'):
        end = cells.get('conn')
        ran = [e for e in evs if e.k == 'call' and contains(mk('x', *[x for x in (e.a[2],) if isinstance(x, V)]), FN) and isinstance(e.a[0], V)]
        ran = [e for e in evs if e.k == 'call' and isinstance(e.a[2], V) and e.a[2].op == 'r' and 'dyn' in show(e.a[2])[:4]] or ran
        failed = any(e.k == 'joinfail' for e in evs)
        if v is None:
            cx.fail('lent.panic', 'lending a connection can panic', f.span)
            continue
        dummy = end is not None and any(x.op == 'agg' and str(x.a[0]).endswith('DummyConnection') for x in subterms(end))
        cx.ob('lent.once', len(ran) <= 1, f'the function a connection is lent to runs {len(ran)} times', f.span)
        for e in ran:
            a = [x for y in e.a[1] if isinstance(y, V) for x in subterms(y) if x.op == 'agg' and str(x.a[0]).endswith('::SyncAdapter')]
            cx.ob('lent.what', len(a) == 1 and contains(a[0], INNER), f'the function is lent {[show(x, 4) for x in e.a[1]]}', f.span)
        if dummy:
            cx.ob('lent.told', is_err(v), f'a connection is lost and the caller is given {show(v, 3)[:80]}', f.span)
            cx.ob('lent.kept', failed or not ran, 'a connection is lost although the function it was lent to returned', f.span)
        else:
            back += bool(ran)
            cx.ob('lent.back', end is not None and contains(end, INNER) and not contains_agg(end, 'SyncAdapter', INNER), f'after being lent, a connection is {show(end, 4)[:100] if end is not None else None}', f.span)
            if ran:
                cx.ob('lent.result', v is ran[0].a[2], f'lending a connection gives {show(v, 3)[:80]}, not what the function gave', f.span)
    cx.ob('lent', back >= 1, 'a connection that is lent never comes back', f.span)


def contains_agg(v, ty, inner):
    """The connection is still wrapped: the outermost thing is an adapter."""
    while v.op == 'agg' and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v.op == 'agg' and str(v.a[0]).endswith('::' + ty)


def check_dummy(cx):
    """What stands in for a lost connection does nothing but fail."""
    n = 0
    for f in sorted(cx.F.fns.values(), key=lambda f: f.id):
        if f.crate != CORE or not f.trait or f.parent or not re.search(r'::Dummy(Connection|Backend)$', f.selfty or '') or f.derived or last(f.trait) not in \
                ('ConnectionMethods', 'ConnectionMethodsAsync', 'BackendConnection', 'BackendConnectionAsync', 'Backend'):
            continue
        n += 1
        args = [ME] + [mk('p', f'a{i}') for i in range(1, f.argc)]
        for evs, v in paths(cx.graph(f, args=args), full=True):
            if v is not None and v.op == 'agg' and v.a[0] == RES:
                cx.ob(f'dummy.{f.name}', is_err(v) and any(x.op == 'agg' and x.a[1] == 'PoisonedConnection' for x in subterms(v)), f'{f.name} of a lost connection gives {show(v, 3)[:80]}', f.span)
            elif f.name == 'is_closed':
                cx.ob('dummy.is_closed', v is TRUE, f'a lost connection says {show(v)[:60]} when asked if it is closed', f.span)
            elif f.name in ('backend', 'connection_methods'):
                cx.ob(f'dummy.{f.name}', v is not None and any(x.op == 'agg' and 'Dummy' in str(x.a[0]) for x in subterms(v)), f'{f.name} of a lost connection gives {show(v, 3)[:80] if v is not None else v}', f.span)
            else:
                cx.ob(f'dummy.{f.name}', v is not None and f.name in ('name', 'backend_name', 'row_id_column'), f'{f.name} of a lost connection gives {show(v, 3)[:80] if v is not None else "a panic"}', f.span)
    cx.ob('dummies', n >= 15, f'{n} methods of the stand-in for a lost connection')


def check_runtime(cx):
    """Whatever uses a runtime that an adapter made keeps it."""
    f = cx.inherent(r'::SyncAdapter<', 'new', crate=CORE)
    kinds = set()
    for evs, v in paths(cx.graph(f, args=[ME]), full=True):
        if v is None:
            cx.fail('runtime.panic', 'making an adapter can panic', f.span)
            continue
        if is_err(v):
            continue
        a = [x for x in subterms(v) if x.op == 'agg' and str(x.a[0]).endswith('::SyncAdapter')]
        if not cx.ob('runtime.new', is_ok(v) and len(a) == 1 and contains(a[0], ME), f'making an adapter gives {show(v, 4)[:100]}', f.span):
            continue
        hs = [x for x in subterms(a[0]) if x.op == 'r' and last(str(x.a[0])) in ('handle', 'try_current', 'current')]
        made = [x for h in hs if last(str(h.a[0])) == 'handle' for y in h.a[1] for x in [y]] if hs else []
        if made:
            kinds.add('own')
            rest = [x for x in a[0].a[2] if not any(z in hs for z in subterms(x))]
            cx.ob('runtime.kept', any(contains(x, made[0]) for x in rest), f'an adapter does not keep the runtime it made: {show(a[0], 5)[:120]}', f.span)
        elif hs:
            kinds.add('given')
        else:
            cx.fail('runtime.none', f'an adapter has no runtime: {show(a[0], 5)[:100]}', f.span)
    cx.ob('runtime.kinds', kinds == {'own', 'given'}, f'an adapter is made with {sorted(kinds)} runtimes', f.span)
    n = 0
    for f in sorted(cx.F.fns.values(), key=lambda f: f.id):
        if f.crate != CORE or not f.trait or f.parent or '::SyncAdapter<' not in (f.selfty or '') or last(f.trait) in ('Debug', 'Drop'):
            continue
        args = [ME] + [mk('p', f'a{i}') for i in range(1, f.argc)]
        for evs, v in paths(cx.graph(f, args=args, opaque=opaque), full=True):
            for x in subterms(v) if v is not None else ():
                if x.op == 'agg' and str(x.a[0]).endswith('::SyncAdapter') and x is not ME:
                    n += 1
                    names = [q[0] for q in cx.F.adts[x.a[0]]['variants'][0][2]]
                    same = [show(y) == f'me.{q}' for q, y in zip(names, x.a[2]) if 'inner' != q]
                    cx.ob(f'runtime.{f.name}', all(same), f'{f.name} gives an adapter with {[show(y, 3) for y in x.a[2]]}, which does not keep the runtime it uses', f.span)
    cx.ob('runtime.more', n >= 2, f'{n} adapters made from another')
