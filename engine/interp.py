"""Abstract interpreter over the dumped MIR.

Computes, for one entry function, a finite graph whose nodes are abstract states
(call stack, program point, abstract store) and whose edges carry *events* (opaque calls,
string/collection appends, branch assumptions, writes to unknown memory, ...).
Local functions and closures are inlined, iterator/Option/Result combinators are interpreted
through /verif/models, unknown calls are opaque terms.  Abstract values are symbolic terms over the
entry's parameters; nothing is executed and no path condition is ever handed to a solver.
"""
import sys
from facts import strip_generics
sys.setrecursionlimit(20000)

_tab = {}


FNCALLS = ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call', 'std::ops::AsyncFnOnce::async_call_once',
           'std::ops::AsyncFnMut::async_call_mut', 'std::ops::AsyncFn::async_call')


class V:
    __slots__ = ('op', 'a', 'h', 'depth')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    v = _tab.get(k)
    if v is None:
        v = V()
        v.op, v.a = op, a
        d = 0
        for x in a:
            if isinstance(x, V):
                d = max(d, x.depth)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, V):
                        d = max(d, y.depth)
        v.depth = d + 1
        _tab[k] = v
    return v


def C(x):
    # booleans and ints hash alike in Python: tag them
    return mk('c', type(x).__name__, x)


UNIT = C(None)
CONT = 8   # contents of a local Vec are tracked exactly up to this many elements
GE = 3     # integer counters are exact up to GE, `>= GE` beyond
TRUE, FALSE = C(True), C(False)
OPT, RES = 'core::option::Option', 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
POLL = 'core::task::poll::Poll'


def agg(adt, var, *fs):
    return mk('agg', adt, var, tuple(fs))


NONE = agg(OPT, 'None')


def some(x):
    return agg(OPT, 'Some', x)


def ok(x):
    return agg(RES, 'Ok', x)


def err(x):
    return agg(RES, 'Err', x)


def is_const(v, x=None):
    return v.op == 'c' and (x is None or v.a[1] == x and type(v.a[1]) is type(x))


def cval(v):
    return v.a[1] if v.op == 'c' else None


def short(adt):
    return adt.rsplit('::', 1)[-1]


def show(v, d=6):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return '(' + ', '.join(show(x, d) for x in v) + ')'
        return str(v)
    if d == 0:
        return '…'
    o, a = v.op, v.a
    if o == 'c':
        return repr(a[1])
    if o == 'p':
        return f'arg{a[0]}' if isinstance(a[0], int) else str(a[0])
    if o == 'agg':
        fs = ', '.join(show(x, d - 1) for x in a[2])
        return f'{a[1]}({fs})' if fs else str(a[1])
    if o == 'tup' or o == 'arr':
        return ('[' if o == 'arr' else '(') + ', '.join(show(x, d - 1) for x in a[0]) + (']' if o == 'arr' else ')')
    if o == 'f':
        return f'{show(a[0], d-1)}.{a[1]}'
    if o == 'v':
        return f'{show(a[0], d-1)}~{a[1]}.{a[2]}'
    if o == 'r':
        return f'{short(a[0]) if isinstance(a[0], str) else show(a[0],d-1)}({", ".join(show(x, d-1) for x in a[1])})'
    if o == 'clo':
        return f'closure[{a[0].split("::",1)[-1]}]({", ".join(show(x, d-1) for x in a[1])})'
    if o == 'obj':
        return f'obj@{a[0]}'
    if o == 'elem':
        return f'elem({show(a[0], d-1)})'
    return f'{o}({", ".join(show(x, d-1) for x in a)})'


class Ev:
    """One event. kind + payload; `loc` is file:line for reports only."""
    __slots__ = ('k', 'a', 'loc', 'fn')

    def __init__(self, k, a, loc='', fn=''):
        self.k, self.a, self.loc, self.fn = k, a, loc, fn

    def key(self):
        return (self.k, self.a)

    def __repr__(self):
        return f'{self.k}{show(self.a)}'


class Graph:
    def __init__(self):
        self.succ = {}   # node -> list[(tuple[Ev], node)]
        self.info = []
        self.finals = {}  # node -> return value
        self.cells = {}   # node -> objects given to the call, at the return
        self.conts = {}   # node -> known contents of local lists at the return
        self.start = 0
        self.truncated = []
        self.inlined = set()

    def preds(self):
        p = {}
        for s, es in self.succ.items():
            for ev, d in es:
                p.setdefault(d, []).append((ev, s))
        return p

    def events(self):
        for s, es in self.succ.items():
            for evs, d in es:
                for i, e in enumerate(evs):
                    yield s, i, e, d


class Limit(Exception):
    pass


# calls whose result denotes the same data as their first argument
TRANSPARENT = {
    'std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::string::ToString::to_string',
    'std::convert::Into::into', 'std::convert::From::from', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow',
    'std::borrow::BorrowMut::borrow_mut', 'std::convert::AsMut::as_mut',
    'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::boxed::Box::new', 'std::boxed::Box::pin',
    'std::pin::Pin::new_unchecked', 'std::pin::Pin::new', 'std::future::IntoFuture::into_future', 'std::hint::must_use',
    'std::string::String::as_str', 'std::string::String::as_bytes', 'std::vec::Vec::as_slice', 'core::slice::to_vec', 'std::slice::to_vec',
    'std::option::Option::as_ref', 'std::option::Option::as_deref', 'std::option::Option::cloned', 'std::option::Option::copied',
    'std::option::Option::as_deref_mut', 'std::result::Result::as_deref',
    'std::result::Result::as_ref', 'std::sync::Arc::new', 'std::rc::Rc::new', 'std::borrow::Cow::into_owned', 'std::borrow::Cow::to_mut',
    'std::iter::IntoIterator::into_iter', 'core::slice::iter', 'core::slice::iter_mut', 'std::iter::Iterator::cloned',
    'std::iter::Iterator::copied', 'std::iter::Iterator::by_ref', 'std::iter::Iterator::fuse', 'std::vec::Vec::into_iter',
    'core::str::as_bytes', 'core::str::as_str', 'std::boxed::Box::into_raw', 'std::boxed::Box::from_raw',
    'std::pin::Pin::get_ref', 'std::pin::Pin::as_ref', 'std::pin::Pin::as_mut', 'std::pin::Pin::get_mut', 'std::pin::Pin::get_unchecked_mut',
    'std::pin::Pin::into_inner', 'std::string::String::into_boxed_str', 'std::path::Path::to_path_buf', 'std::path::Path::new',
    'std::string::String::as_mut_str', 'std::vec::Vec::as_mut_slice', 'std::vec::Vec::into_boxed_slice',
    'std::boxed::box_assume_init_into_vec_unsafe', 'std::slice::into_vec', 'core::slice::into_vec', 'std::string::String::from_utf8_lossy',
    'std::convert::TryInto::try_into_infallible', 'std::path::Path::as_os_str', 'std::path::PathBuf::as_path',
    'std::option::Option::iter', 'std::boxed::Box::as_ref', 'std::boxed::Box::as_mut', 'std::ptr::mut_ptr::as_ref', 'std::ptr::NonNull::as_ref',
    'std::string::String::into_bytes', 'std::iter::Iterator::into_iter', 'std::boxed::Box::leak', 'std::convert::identity',
    'anyhow::__private::must_use', 'std::borrow::Cow::as_ref', 'std::borrow::Cow::deref', 'std::ops::FromResidual::x',
    'futures_util::FutureExt::boxed', 'std::fmt::Arguments::as_str', 'std::slice::as_ref', 'std::boxed::Box::into_pin',
}
NEWSTR = {'std::string::String::new', 'std::string::String::with_capacity'}
NEWVEC = {'std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::collections::BTreeMap::new', 'std::collections::HashMap::new',
          'std::collections::BTreeSet::new', 'std::collections::HashSet::new', 'std::collections::HashMap::with_capacity'}
M = {}
for pre, mod, names in (
    ('std::option::Option::', 'option_', 'map map_or map_or_else and_then or_else or and ok_or ok_or_else unwrap_or unwrap_or_else unwrap_or_default filter is_some is_none is_some_and is_none_or flatten transpose zip inspect'),
    ('std::result::Result::', 'result_', 'map map_err map_or map_or_else and_then or_else and or ok err unwrap_or unwrap_or_else unwrap_or_default is_ok is_err is_ok_and is_err_and transpose flatten inspect_err inspect'),
    ('core::bool::', 'bool_', 'then then_some'),
    ('std::iter::Iterator::', 'mk_', 'map filter filter_map chain zip enumerate peekable flat_map flatten take_while inspect'),
    ('std::iter::Iterator::', 'iter_', 'for_each try_for_each fold try_fold reduce any all find find_map position last unzip partition'),
    ('std::iter::', 'mk_', 'once from_fn successors repeat repeat_n'),
    ('std::vec::', 'vec_', 'from_elem'),
    ('std::iter::Peekable::', '', 'peek'),
    ('fallible_iterator::FallibleIterator::', 'fiter_', 'for_each nth last fold'),
):
    for n in names.split():
        M[pre + n] = 'models::' + mod + n
M['std::iter::Peekable::peek'] = 'models::peek_peekable'
M['fallible_iterator::FallibleIterator::map'] = 'models::mk_fmap'
M['fallible_iterator::FallibleIterator::filter'] = 'models::mk_ffilter'
M['std::iter::Extend::extend'] = 'models::vec_extend'
NEXT = {'MapM': 'next_map', 'FilterM': 'next_filter', 'FilterMapM': 'next_filter_map', 'ChainM': 'next_chain', 'ZipM': 'next_zip',
        'EnumerateM': 'next_enumerate', 'PeekM': 'next_peekable', 'OnceM': 'next_once', 'FlatMapM': 'next_flat_map',
        'FlattenM': 'next_flatten', 'TakeWhileM': 'next_take_while', 'InspectM': 'next_inspect', 'FromFnM': 'next_from_fn',
        'SuccM': 'next_successors', 'SkipM': 'next_skip', 'TakeM': 'next_take', 'RepeatM': 'next_repeat', 'RepeatNM': 'next_repeat_n'}
ORDER_TAGS = {'std::iter::Iterator::rev': 'rev', 'std::iter::Iterator::skip': 'skip', 'std::iter::Iterator::take': 'take',
              'std::iter::Iterator::step_by': 'step_by', 'std::iter::Iterator::skip_while': 'skip_while', 'std::iter::Iterator::cycle': 'cycle',
              'std::iter::DoubleEndedIterator::rev': 'rev', 'core::str::split': 'split', 'core::str::chars': 'chars', 'core::str::lines': 'lines'}
RUNCLO = {'tokio::task::spawn_blocking', 'tokio::task::block_in_place', 'std::panic::catch_unwind', 'std::panic::AssertUnwindSafe'}
SILENT_CRATES = ('log::', 'core::panicking', 'std::rt::')


def norm(p):
    s = strip_generics(p)
    for a, b in (('alloc::', 'std::'),):
        if s.startswith(a):
            s = b + s[len(a):]
    return s


_normc = {}


def normc(p):
    r = _normc.get(p)
    if r is None:
        r = _normc[p] = norm(p)
    return r


class Frame:
    __slots__ = ('fn', 'bb', 'dest', 'ret', 'wrap', 'chain', 'k')

    def __init__(self, fn, bb, dest, ret, wrap, chain):
        self.fn, self.bb, self.dest, self.ret, self.wrap, self.chain = fn, bb, dest, ret, wrap, chain
        self.k = (fn, bb, dest, ret, wrap, chain)


class State:
    __slots__ = ('stack', 'store')

    def __init__(self, stack, store):
        self.stack, self.store = stack, store


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, list) else x


class Interp:
    def __init__(self, facts, opaque=None, max_nodes=20000, max_depth=16, drop_interest=None, facts_on=True,
                 widen=12, silent_log=True, hook=None, track_drop=None, rec_ok=None, exact=GE, cells=None):
        self.exact = exact
        self.cells = cells or {}      # objects that exist before the call, and can be changed by it
        self.rec_ok = rec_ok
        self.F, self.opaque = facts, opaque or (lambda name, info, fid: False)
        self.max_nodes, self.max_depth, self.widen = max_nodes, max_depth, widen
        self.hook = hook
        self.track_drop = track_drop
        self.retest = set()
        self.lenof = set()
        self.track = set()
        self.itered = set()
        self.facts_on = facts_on

    # ---------------------------------------------------------------- liveness
    def live(self, fn):
        if fn._live is not None:
            return fn._live
        n = len(fn.blocks)
        use, deff, succ = [set() for _ in range(n)], [set() for _ in range(n)], [[] for _ in range(n)]

        def uplace(p, u):
            u.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i':
                    u.add(e[1])

        def uop(o, u):
            if o[0] in ('cp', 'mv'):
                uplace(o[1], u)

        for i, (st, t, _c) in enumerate(fn.blocks):
            seq = []
            for s in st:
                if s[0] == '=':
                    u = set()
                    r = s[2]
                    if r[0] == 'use' or r[0] == 'repeat':
                        uop(r[1], u)
                    elif r[0] == 'ref':
                        if not r[3]:
                            uplace(r[1], u)
                    elif r[0] == 'cast':
                        uop(r[2], u)
                    elif r[0] == 'bin':
                        uop(r[2], u), uop(r[3], u)
                    elif r[0] == 'un':
                        uop(r[2], u)
                    elif r[0] == 'disc':
                        uplace(r[1], u)
                    elif r[0] == 'agg':
                        for o in r[2]:
                            uop(o, u)
                    d = None
                    if len(s[1]) == 1:
                        d = s[1][0]
                    else:
                        uplace(s[1], u)
                    seq.append((u, d))
            u, d = set(), None
            k = t[0]
            if k == 'switch':
                uop(t[1], u)
                succ[i] = [b for _, b in t[3]] + [t[4]]
            elif k == 'call':
                uop(t[1], u)
                for o in t[2]:
                    uop(o, u)
                if len(t[3]) == 1:
                    d = t[3][0]
                else:
                    uplace(t[3], u)
                if t[4] is not None:
                    succ[i] = [t[4]]
            elif k == 'assert':
                uop(t[1], u)
                succ[i] = [t[3]]
            elif k == 'yield':
                succ[i] = [t[2]]
            elif k == 'drop':
                succ[i] = [t[2]]
                if self.track_drop and self.track_drop(fn.ty(t[3])):
                    uplace(t[1], u)
            elif k == 'goto':
                succ[i] = [t[1]]
            elif k == 'return':
                u.add(0)
            seq.append((u, d))
            for u, d in seq:
                use[i] |= (u - deff[i])
                if d is not None:
                    deff[i].add(d)
        lin = [set(x) for x in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= lin[s]
                x = use[i] | (o - deff[i])
                if x != lin[i]:
                    lin[i] = x
                    ch = True
        fn._live = lin
        return lin

    # ---------------------------------------------------------------- memory
    def field(self, st, v, name, idx):
        if v.op == 'agg':
            fs = v.a[2]
            return fs[idx] if idx < len(fs) else mk('f', v, name)
        if v.op == 'tup':
            return v.a[0][idx] if idx < len(v.a[0]) else mk('f', v, name)
        if v.op == 'clo':
            return v.a[1][idx] if idx < len(v.a[1]) else mk('f', v, name)
        if v.op == 'as':
            b, var = v.a
            if b.op == 'agg':
                fs = b.a[2]
                return fs[idx] if b.a[1] == var and idx < len(fs) else mk('f', b, name)
            t = mk('v', b, var, name)
        else:
            t = mk('f', v, name)
        o = st.store.get(('ov', t))
        return t if o is None else o

    def step(self, st, v, e, depth):
        if e == '*':
            return self.deref(st, v)
        if e == '?':
            return mk('f', v, '?')
        k = e[0]
        if v.op == 'ptr' and k != 'x':
            v = self.deref(st, v)
        if k == 'f':
            return self.field(st, v, e[2], e[1])
        if k == 'v':
            return mk('as', v, e[2])
        if k == 'i':
            i = st.store.get((depth, e[1]))
            if v.op == 'arr' and i is not None and i.op == 'c' and isinstance(i.a[1], int) and 0 <= i.a[1] < len(v.a[0]):
                return v.a[0][i.a[1]]
            if i is not None and i.op == 'cons' and i.a[1] == -1 and i.a[0] is v:
                return mk('elem', v)
            return mk('idx', v, i if i is not None else UNIT)
        if k == 'ci':
            if v.op == 'arr':
                n = len(v.a[0])
                j = n - e[1] if e[2] else e[1]
                if 0 <= j < n:
                    return v.a[0][j]
            return mk('idx', v, C((-1 if e[2] else 1) * e[1] if e[2] else e[1]))
        if k == 'ss':
            return mk('sub', v, e[1], e[2], e[3])
        if k == 'mk' and v.op == 'map':
            return dict(v.a[0]).get(e[1], mk('undef'))
        return mk('f', v, str(e))

    def deref(self, st, v):
        if v.op == 'ptr':
            return self.load(st, v)
        if v.op == 'as':
            return self.deref(st, v.a[0])
        return v

    def load(self, st, p):
        (d, l), proj = p.a[0], p.a[1]
        v = st.store.get((d, l))
        if v is None:
            return mk('undef')
        for e in proj:
            v = self.step(st, v, e, d)
        return v

    def get(self, st, depth, place):
        v = st.store.get((depth, place[0]))
        if v is None:
            v = mk('undef')
        for e in place[1:]:
            v = self.step(st, v, e, depth)
        if v.op == 'as':
            v = v.a[0]
        return v

    def addr(self, st, depth, place):
        """(root key, projections) after following known pointers, or ('term', t) for unknown memory."""
        root, proj = (depth, place[0]), []
        for e in place[1:]:
            if e == '*':
                v = st.store.get(root)
                if v is None:
                    v = mk('undef')
                for x in proj:
                    v = self.step(st, v, x, root[0])
                if v.op == 'ptr':
                    root, proj = v.a[0], list(v.a[1])
                # else: transparent deref of owned/unknown value: stays the same place
            else:
                if isinstance(e, (list, tuple)) and e[0] == 'i':
                    iv = st.store.get((depth, e[1]))
                    if iv is not None and iv.op == 'c' and isinstance(iv.a[1], int):
                        e = ('ci', iv.a[1], False)
                    else:
                        e = ('x', e[1])
                proj.append(tuple(e) if isinstance(e, list) else e)
        return root, tuple(proj)

    def update(self, st, v, proj, val, evs, loc, fn):
        """Value v with the sub-place proj replaced by val (functional update)."""
        if not proj:
            return val
        e = proj[0]
        if e[0] == 'v':
            return self.update_variant(st, v, e[2], proj[1:], val, evs, loc, fn)
        if e[0] == 'f':
            i = e[1]
            if v.op in ('agg', 'tup', 'clo'):
                fs = list(v.a[2] if v.op == 'agg' else v.a[0] if v.op == 'tup' else v.a[1])
                while len(fs) <= i:
                    fs.append(mk('undef'))
                fs[i] = self.update(st, fs[i], proj[1:], val, evs, loc, fn)
                if v.op == 'agg':
                    return mk('agg', v.a[0], v.a[1], tuple(fs))
                if v.op == 'tup':
                    return mk('tup', tuple(fs))
                return mk('clo', v.a[0], tuple(fs))
            if v.op == 'undef':
                fs = [mk('undef')] * (i + 1)
                fs[i] = self.update(st, mk('undef'), proj[1:], val, evs, loc, fn)
                return mk('tup', tuple(fs))
            t = mk('f', v, e[2])
            cur = st.store.get(('ov', t), t)
            nv = self.update(st, cur, proj[1:], val, evs, loc, fn)
            if len(proj) == 1:
                evs.append(Ev('set', (t, val), loc, fn))
            if nv is not cur:
                st.store[('ov', t)] = nv
            return v
        if e[0] == 'mk' and v.op == 'map':
            m = dict(v.a[0])
            m[e[1]] = self.update(st, m.get(e[1], mk('undef')), proj[1:], val, evs, loc, fn)
            return mk('map', tuple(sorted(m.items())))
        if e[0] == 'ci' and v.op == 'arr' and e[1] < len(v.a[0]):
            fs = list(v.a[0])
            fs[e[1]] = self.update(st, fs[e[1]], proj[1:], val, evs, loc, fn)
            return mk('arr', tuple(fs))
        t = mk('idx', v, UNIT)
        evs.append(Ev('set', (t, val), loc, fn))
        return v

    def update_variant(self, st, v, var, proj, val, evs, loc, fn):
        if v.op == 'agg':
            return self.update(st, v, proj, val, evs, loc, fn) if proj else val
        if proj and proj[0][0] == 'f':
            t = mk('v', v, var, proj[0][2])
            cur = st.store.get(('ov', t), t)
            nv = self.update(st, cur, proj[1:], val, evs, loc, fn)
            if len(proj) == 1:
                evs.append(Ev('set', (t, val), loc, fn))
            if nv is not cur:
                st.store[('ov', t)] = nv
        return v

    def write_addr(self, st, root, proj, val, evs, loc, fn):
        cur = st.store.get(root)
        if cur is None:
            cur = mk('undef')
        if not proj:
            if cur.op not in ('undef',) and root[0] == 'm':
                pass
            st.store[root] = val
            return
        nv = self.update(st, cur, proj, val, evs, loc, fn)
        st.store[root] = nv

    def put(self, st, depth, place, val, evs, loc, fn):
        if len(place) == 1:
            st.store[(depth, place[0])] = val
            return
        root, proj = self.addr(st, depth, place)
        # `*x = v` with x unknown memory
        if not proj and place[-1] == '*' and root == (depth, place[0]) and len(place) == 2:
            cur = st.store.get(root, mk('undef'))
            if cur.op not in ('undef',):
                evs.append(Ev('set', (cur, val), loc, fn))
                st.store[('ov*', cur)] = val
                st.store[root] = val
                return
        self.write_addr(st, root, proj, val, evs, loc, fn)

    # ---------------------------------------------------------------- operands
    def const(self, fn, o):
        if o[0] == 'fn':
            return mk('fnd', o[2]['p'], id(o[2]))
        _, ty, val, df = o
        if val is None:
            if df:
                return mk('kc', df[0], df[1], *([tuple(fn.ty(t) for t in df[2])] if len(df) > 2 and df[2] else []))
            return mk('kc', '?', fn.ty(ty))
        if val is True or val is False:
            return C(val)
        k = val[0]
        if k == 'zst':
            ti = fn.tinfo[ty]
            if ti.get('k') == 'tuple':
                return UNIT
            if ti.get('k') == 'adt':
                return agg(ti['d'], short(ti['d']))
            return UNIT
        if k == 'int':
            return C(int(val[1]))
        if k == 'str':
            return C(val[1])
        if k == 'bytes':
            return mk('c', 'bytes', val[1])
        if k == 'char':
            return mk('c', 'char', val[1])
        if k == 'float':
            return mk('c', 'float', val[1])
        if k == 'variant':
            ti = fn.tinfo[ty]
            while ti.get('k') == 'ref':
                ti = fn.tinfo[ti['t']]
            return agg(ti.get('d', '?'), val[1])
        return mk('kc', '?', fn.ty(ty))

    FND = {}

    def operand(self, st, depth, fn, o):
        if o[0] in ('cp', 'mv'):
            return self.get(st, depth, o[1])
        if o[0] == 'fn':
            v = self.const(fn, o)
            self.FND[v.a[1]] = (o[2], fn)
            return v
        v = self.const(fn, o)
        if v.op == 'kc' and v.a[0] in self.F.fns and self.inline_const(v.a[0]):
            r = self.const_body(v.a[0])
            if r is not None:
                return r
        return v

    def inline_const(self, fid):
        return True

    _cb = {}

    def const_body(self, fid):
        """Value of a non-generic const item whose body is straight-line."""
        if fid in self._cb:
            return self._cb[fid]
        self._cb[fid] = None
        fn = self.F.fns[fid]
        if fn.kind.startswith(('Const', 'AssocConst', 'Static')):
            try:
                it = Interp(self.F, self.opaque, max_nodes=400)
                g = it.run(fid)
                vals = set(g.finals.values())
                if len(vals) == 1 and not g.truncated:
                    v = vals.pop()
                    if not contains_op(v, ('ptr', 'obj')):
                        self._cb[fid] = v
            except Limit:
                pass
        return self._cb[fid]

    # ---------------------------------------------------------------- run
    def run(self, fid, args=None, auto_poll=True):
        for attempt in range(4):
            n0 = len(self.lenof & self.itered)
            g = self._run(fid, args, auto_poll)
            rt = self.find_retests(g) if self.facts_on else set()
            if rt <= self.retest and len(self.lenof & self.itered) == n0:
                break
            self.retest |= rt
            self.track = set(self.lenof & self.itered)
        return g

    def find_retests(self, g):
        seen = {}
        for s, es in g.succ.items():
            for evs, d in es:
                for e in evs:
                    if e.k == 'assume':
                        seen.setdefault(e.a[0], set()).add((g.info[s][0], g.info[s][1], g.info[s][2], e.loc))
        return {t for t, x in seen.items() if len(x) > 1}

    def _run(self, fid, args, auto_poll):
        F = self.F
        fn = F.fns[fid]
        g = Graph()
        self.g = g
        self.memo = {}
        self.work = []
        self.seenvals = {}
        store = {}
        n = fn.argc
        if args is None:
            args = [mk('p', i) for i in range(n)]
        self.entry_coroutine = False
        if fn.coroutine:
            ups = tuple(mk('p', i) for i in range(len(fn.upvars or [])))
            args = [mk('clo', fid, ups), UNIT]
        elif fn.kind == 'Closure':
            ups = tuple(mk('up', i) for i in range(len(fn.upvars or [])))
            args = [mk('clo', fid, ups)] + [mk('p', i) for i in range(1, n)]
        for i, a in enumerate(args):
            store[(0, i + 1)] = a
        for k, v in self.cells.items():
            store[('chan', 'cell:' + k)] = v
        st = State((Frame(fid, 0, None, None, None, ''),), store)
        g.inlined.add(fid)
        self.auto_poll = auto_poll
        self.node(st)
        while self.work:
            nid, st = self.work.pop()
            outs = self.exec_block(st)
            es = []
            for evs, nx in outs:
                if isinstance(nx, tuple) and nx[0] == 'final':
                    k = len(g.info)
                    g.info.append((fid, -1, 0))
                    g.finals[k] = nx[1]
                    g.conts[k] = nx[2]
                    g.cells[k] = nx[3]
                    g.succ[k] = []
                    es.append((tuple(evs), k))
                elif nx is not None:
                    es.append((tuple(evs), self.node(nx)))
                else:
                    # diverges (panic / unreachable)
                    k = len(g.info)
                    g.info.append((fid, -2, 0))
                    g.succ[k] = []
                    es.append((tuple(evs), k))
            g.succ[nid] = es
        return g

    def node(self, st):
        st = self.normalize(st)
        key = (tuple(f.k for f in st.stack), frozenset(st.store.items()))
        n = self.memo.get(key)
        if n is None:
            n = len(self.g.info)
            if n > self.max_nodes:
                raise Limit(f'{n} states in {self.g.info[0][0]}')
            top = st.stack[-1]
            self.memo[key] = n
            self.g.info.append((top.fn, top.bb, len(st.stack)))
            self.work.append((n, st))
        return n

    def normalize(self, st):
        """Drop dead locals, widen values that keep changing."""
        roots, keep = [], {}
        store = st.store
        n = len(st.stack)
        for d, fr in enumerate(st.stack):
            fn = self.F.fns[fr.fn]
            lv = self.live(fn)[fr.bb]
            for l in lv:
                if (d, l) in store:
                    roots.append((d, l))
            if d + 1 < n:
                pass
        # destination places of pending calls
        for d in range(1, n):
            dest = st.stack[d].dest
            if dest is not None and len(dest) > 1 and (d - 1, dest[0]) in store:
                roots.append((d - 1, dest[0]))
        seen = set(roots)
        i = 0
        while i < len(roots):
            for p in ptrs(store[roots[i]]):
                if p not in seen and p in store:
                    seen.add(p)
                    roots.append(p)
            i += 1
        for k in store:
            if k[0] == 'ov':
                keep[k] = store[k]
                for p in ptrs(store[k]):
                    if p not in seen and p in store:
                        seen.add(p)
                        keep[p] = store[p]
            elif k[0] in ('fact', 'cnt', 'more', 'chan'):
                keep[k] = store[k]
        for k in roots:
            keep[k] = store[k]
        cont = [k for k in store if k[0] in ('cont', 'ne')]
        if cont:
            todo = list(keep.values())
            live = set()
            while todo:
                for x in objset(todo.pop()):
                    if x not in live:
                        live.add(x)
                        if ('cont', x) in store:
                            todo.append(store[('cont', x)])
            for k in cont:
                if k[1] in live:
                    keep[k] = store[k]
        # widening
        top = st.stack[-1]
        pp = tuple((f.fn, f.bb) for f in st.stack)
        for k, v in list(keep.items()):
            if v.op == 'wid':
                continue
            sv = self.seenvals.setdefault((pp, k), set())
            if v not in sv:
                if len(sv) >= self.widen or v.depth > 40:
                    w = self.widened(v, top.fn, str(k))
                    if w is v:
                        sv.add(v)
                        continue
                    keep[k] = w
                    self.g.truncated.append((top.fn, top.bb, k, show(v, 3)))
                else:
                    sv.add(v)
        return State(st.stack, keep)

    def widened(self, v, fn, name):
        """An unknown value in place of v; which variant of a result it is stays known."""
        if v.op == 'agg' and v.a[1] in ('Ok', 'Err', 'Some', 'None', 'Break', 'Continue', 'Ready'):
            l = tuple(x if x.op == 'wid' else self.widened(x, fn, f'{name}~{v.a[1]}.{i}') for i, x in enumerate(v.a[2]))
            return v if l == v.a[2] else mk('agg', v.a[0], v.a[1], l, *v.a[3:])
        return mk('wid', fn, name)

    # ---------------------------------------------------------------- block execution
    def exec_block(self, st):
        fr = st.stack[-1]
        depth = len(st.stack) - 1
        fn = self.F.fns[fr.fn]
        st = State(st.stack, dict(st.store))
        evs = []
        stmts, t, _ = fn.blocks[fr.bb]
        for s in stmts:
            if s[0] == '=':
                loc = s[3]
                v = self.rvalue(st, depth, fn, s[2], evs, loc)
                if v is not None:
                    self.put(st, depth, s[1], v, evs, loc, fr.fn)
        return self.term(st, depth, fn, fr, t, evs)

    def goto(self, st, bb):
        fr = st.stack[-1]
        return State(st.stack[:-1] + (Frame(fr.fn, bb, fr.dest, fr.ret, fr.wrap, fr.chain),), st.store)

    def rvalue(self, st, depth, fn, r, evs, loc):
        k = r[0]
        if k == 'use':
            return self.operand(st, depth, fn, r[1])
        if k == 'ref':
            if r[3]:
                return None
            place, mut = r[1], r[2]
            if not mut:
                v = self.get(st, depth, place)
                if v.op == 'ptr' or not contains_op(v, ('lock',)):
                    return v
                # interior mutability: what is behind the reference can change
                return mk('ptr', *self.addr(st, depth, place))
            root, proj = self.addr(st, depth, place)
            v = st.store.get(root)
            if v is None:
                v = mk('undef')
            # unknown memory: the term itself denotes the place
            w = v
            for e in proj:
                w = self.step(st, w, e, root[0])
            if w.op == 'as':
                w = w.a[0]
            if root == (depth, place[0]) and len(place) > 1 and place[1] == '*' and v.op not in ('agg', 'tup', 'arr', 'clo', 'undef', 'c'):
                # reborrow through an unknown reference held in a local
                if w.op in ('p', 'f', 'v', 'r', 'obj', 'elem', 'idx', 'up', 'kc'):
                    return w
            if w.op == 'obj':
                return mk('ptr', root, proj)
            return mk('ptr', root, proj)
        if k == 'cast':
            v = self.operand(st, depth, fn, r[2])
            kind = r[1]
            if kind.startswith(('PointerCoercion', 'PtrToPtr', 'Transmute', 'FnPtr', 'Subtype')):
                return v
            if v.op == 'c' and isinstance(v.a[1], int) and not isinstance(v.a[1], bool):
                return v
            return mk('cast', fn.ty(r[4]), fn.ty(r[3]), v)
        if k == 'bin':
            a, b = self.operand(st, depth, fn, r[2]), self.operand(st, depth, fn, r[3])
            if self.track:
                x = self.lin(st, r[1], a, b)
                if x is not None:
                    return x
            return self.binop(r[1], a, b)
        if k == 'un':
            a = self.operand(st, depth, fn, r[2])
            if r[1] == 'Not':
                if a.op == 'c' and isinstance(a.a[1], bool):
                    return C(not a.a[1])
                if a.op == 'not':
                    return a.a[0]
                return mk('not', a)
            return mk('un', r[1], a)
        if k == 'disc':
            v = self.get(st, depth, r[1])
            if v.op == 'ptr':
                v = self.deref(st, v)
            return mk('disc', v, self.adt_of(fn, r[2]))
        if k == 'agg':
            vs = tuple(self.operand(st, depth, fn, o) for o in r[2])
            kk = r[1]
            if kk[0] == 'adt':
                return mk('agg', kk[1], kk[2], vs)
            if kk[0] == 'tuple':
                return mk('tup', vs) if vs else UNIT
            if kk[0] == 'array':
                return mk('arr', vs)
            if kk[0] == 'closure':
                return mk('clo', kk[1], vs)
            return mk('tup', vs)
        if k == 'repeat':
            return mk('repeat', self.operand(st, depth, fn, r[1]))
        return mk('unk', fn.id, loc)

    def adt_of(self, fn, ty):
        ti = fn.tinfo[ty]
        while ti.get('k') in ('ref', 'ptr'):
            ti = fn.tinfo[ti['t']]
        return ti.get('d')

    def binop(self, op, a, b):
        ca, cb = a.op == 'c', b.op == 'c'
        if ca and cb and isinstance(a.a[1], (int, str)) and type(a.a[1]) is type(b.a[1]):
            x, y = a.a[1], b.a[1]
            try:
                if op == 'Eq':
                    return C(x == y)
                if op == 'Ne':
                    return C(x != y)
                if op == 'Lt':
                    return C(x < y)
                if op == 'Le':
                    return C(x <= y)
                if op == 'Gt':
                    return C(x > y)
                if op == 'Ge':
                    return C(x >= y)
                if isinstance(x, bool):
                    if op == 'BitAnd':
                        return C(x and y)
                    if op == 'BitOr':
                        return C(x or y)
                elif isinstance(x, int):
                    if y == 1 and x >= self.exact and op in ('Add', 'AddUnchecked', 'AddWithOverflow'):
                        return mk('ge', GE) if op != 'AddWithOverflow' else mk('tup', (mk('ge', GE), FALSE))
                    if op in ('Add', 'AddUnchecked'):
                        return C(x + y)
                    if op == 'Sub':
                        return C(x - y)
                    if op == 'AddWithOverflow':
                        return mk('tup', (C(x + y), FALSE))
                    if op == 'SubWithOverflow':
                        return mk('tup', (C(x - y), FALSE))
            except TypeError:
                pass
        if a.op == 'ge' or b.op == 'ge':
            r = self.gebin(op, a, b)
            if r is not None:
                return r
        if op.endswith('WithOverflow'):
            return mk('tup', (mk('bin', op[:-12], a, b), mk('ovf', op[:-12], a, b)))
        if op == 'Ne':
            return mk('not', mk('bin', 'Eq', a, b))
        return mk('bin', op, a, b)

    # ---- counters related to an iteration: with `cnt` elements of v drawn and `rem` left,
    #      lenoff(v,d) = len(v)+d, off(v,d) = rem+d, cons(v,d) = cnt+d
    def lin(self, st, op, a, b):
        def form(x):
            if x.op == 'len' and x.a[0] in self.track:
                return 'lenoff', x.a[0], 0
            if x.op in ('lenoff', 'off', 'cons'):
                return x.op, x.a[0], x.a[1]
            if x.op == 'c' and x.a[0] == 'int':
                return 'c', None, x.a[1]
            return None
        fa, fb = form(a), form(b)
        if not fa or not fb or (fa[0] == 'c' and fb[0] == 'c'):
            return None
        wo = op.endswith('WithOverflow')
        o = op[:-12] if wo else op
        if o in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked'):
            if fb[0] != 'c':
                return None
            d = fb[2] if o.startswith('Add') else -fb[2]
            kind, v, e = fa
            if kind == 'lenoff' and e == 0 and d < 0 and st.store.get(('cnt', v)) is C(1):
                kind, e = 'off', 1
            r = mk(kind, v, e + d)
            if kind == 'lenoff' and e + d == 0:
                r = mk('len', v)
            return mk('tup', (r, FALSE)) if wo else r
        if o not in ('Gt', 'Ge', 'Lt', 'Le', 'Eq', 'Ne'):
            return None
        if fa[0] == 'c' or (fb[0] != 'c' and fa[0] == 'cons'):
            fl = {'Gt': 'Lt', 'Lt': 'Gt', 'Ge': 'Le', 'Le': 'Ge', 'Eq': 'Eq', 'Ne': 'Ne'}
            o, fa, fb = fl[o], fb, fa
        v = fa[1]
        if fb[1] not in (None, v):
            return None
        cnt = st.store.get(('cnt', v), C(0))
        k = cnt.a[1] if cnt.op == 'c' else None
        if fa[0] == 'cons':
            if fb[0] != 'c':
                return None
            x = C(k + fa[2]) if k is not None else mk('ge', cnt.a[0] + fa[2])
            return self.binop(o, x, C(fb[2]))
        # bring both to  rem  o  j
        if fa[0] == 'lenoff':
            if fb[0] == 'cons':
                j = fb[2] - fa[2]
            elif fb[0] == 'c' and k is not None:
                j = fb[2] - fa[2] - k
            else:
                return None
        else:
            if fb[0] == 'c':
                j = fb[2] - fa[2]
            elif fb[0] == 'cons' and k is not None:
                j = fb[2] + k - fa[2]
            else:
                return None
        more = st.store.get(('more', v))
        more = mk('more', v) if more is None else more
        t = {('Gt', 0): more, ('Ge', 1): more, ('Ne', 0): more, ('Le', 0): self.neg(more), ('Lt', 1): self.neg(more),
             ('Eq', 0): self.neg(more)}.get((o, j))
        if t is not None:
            return t
        if j < 0:
            return C(o in ('Gt', 'Ge', 'Ne'))
        if j == 0 and o in ('Ge', 'Lt'):
            return C(o == 'Ge')
        return None

    def neg(self, t):
        return C(not t.a[1]) if t.op == 'c' else t.a[0] if t.op == 'not' else mk('not', t)

    def advance(self, st, v):
        """One more element of v drawn."""
        cnt = st.store.get(('cnt', v), C(0))
        st.store[('cnt', v)] = cnt if cnt.op == 'ge' else C(cnt.a[1] + 1) if cnt.a[1] < GE else mk('ge', GE)
        st.store.pop(('more', v), None)
        memo = {}

        def sh(x):
            r = memo.get(x)
            if r is None:
                if x.op == 'off' and x.a[0] is v:
                    r = mk('off', v, x.a[1] + 1)
                elif x.op == 'cons' and x.a[0] is v:
                    r = mk('cons', v, x.a[1] - 1)
                elif contains_op(x, ('off', 'cons')):
                    r = mk(x.op, *[sh(y) if isinstance(y, V) else tuple(sh(z) if isinstance(z, V) else z for z in y)
                                   if isinstance(y, tuple) else y for y in x.a])
                else:
                    r = x
                memo[x] = r
            return r
        for k in list(st.store):
            x = st.store[k]
            y = sh(x)
            if y is not x:
                st.store[k] = y

    def freeze(self, st):
        """Inside a loop over an unknown sequence, known contents are no longer extended."""
        for k, v in list(st.store.items()):
            if k[0] == 'cont' and not v.a[1]:
                if v.a[0]:
                    st.store[k] = mk('cont', v.a[0], True)
                else:
                    del st.store[k]

    def gebin(self, op, a, b):
        """Arithmetic and comparison on the abstract integer `ge k` (some value >= k)."""
        if a.op == 'ge' and is_const(b) and isinstance(b.a[1], int):
            k, c = a.a[0], b.a[1]
            if op in ('Add', 'AddUnchecked') and c >= 0:
                return a
            if op == 'AddWithOverflow' and c >= 0:
                return mk('tup', (a, mk('ovf', 'Add', a, b)))
            if c < k:
                if op in ('Gt', 'Ge', 'Ne'):
                    return TRUE
                if op in ('Lt', 'Le', 'Eq'):
                    return FALSE
            elif c == k and op == 'Ge':
                return TRUE
            elif c == k and op == 'Lt':
                return FALSE
        elif b.op == 'ge' and is_const(a):
            fl = {'Gt': 'Lt', 'Lt': 'Gt', 'Ge': 'Le', 'Le': 'Ge', 'Eq': 'Eq', 'Ne': 'Ne'}
            if op in fl:
                return self.gebin(fl[op], b, a)
        return None

    # ---------------------------------------------------------------- terminators
    def term(self, st, depth, fn, fr, t, evs):
        k = t[0]
        if k == 'goto':
            return [(evs, self.goto(st, t[1]))]
        if k == 'drop':
            if self.track_drop and self.track_drop(fn.ty(t[3])):
                v = self.get(st, depth, t[1])
                evs.append(Ev('drop', (v, fn.ty(t[3])), '', fn.id))
            return [(evs, self.goto(st, t[2]))]
        if k == 'return':
            return self.ret(st, depth, fn, fr, evs, st.store.get((depth, 0), UNIT))
        if k == 'switch':
            return self.switch(st, depth, fn, t, evs)
        if k == 'call':
            return self.call(st, depth, fn, fr, t, evs)
        if k == 'assert':
            v = self.operand(st, depth, fn, t[1])
            evs.append(Ev('assert', (t[4], v), t[5], fn.id))
            return [(evs, self.goto(st, t[3]))]
        if k == 'yield':
            return []
        if k in ('unreachable',):
            return []
        return [(evs, None)]

    def ret(self, st, depth, fn, fr, evs, val):
        if val.op == 'ptr' and val.a[0][0] == depth:
            val = self.deref(st, val)
        if depth == 0:
            if self.auto_poll and val.op == 'clo' and val.a[0] in self.F.fns and self.F.fns[val.a[0]].coroutine \
                    and fr.wrap != 'polled':
                f2 = self.F.fns[val.a[0]]
                self.g.inlined.add(f2.id)
                nst = State((Frame(f2.id, 0, None, None, 'polled', fr.chain),), {k: v for k, v in st.store.items() if k[0] in ('ov', 'fact', 'chan', 'ne', 'cont')})
                nst.store[(0, 1)] = val
                nst.store[(0, 2)] = UNIT
                return [(evs, nst)]
            evs.append(Ev('ret', (val,), fn.span, fn.id))
            return [(evs, ('final', val, {k[1]: v.a[0] for k, v in st.store.items() if k[0] == 'cont' and not v.a[1]},
                           {k[1][5:]: v for k, v in st.store.items() if k[0] == 'chan' and isinstance(k[1], str)}))]
        # values captured by reference into a popped frame are resolved now
        val = self.unptr(st, val, depth)
        store = {k: v for k, v in st.store.items() if k[0] != depth}
        if fr.wrap == 'poll':
            val = agg(POLL, 'Ready', val)
        elif fr.wrap == 'try':
            val = ok(val)
        elif fr.wrap == 'unit':
            val = UNIT
        elif fr.wrap == 'not':
            val = self.neg(val)
        elif fr.wrap and fr.wrap.startswith('op:'):
            val = mk(fr.wrap[3:], val)
        st2 = State(st.stack[:-1], store)
        caller = st2.stack[-1]
        evs.append(Ev('leave', (fn.id,), '', fn.id))
        cfn = self.F.fns[caller.fn]
        if fr.dest is not None:
            self.put(st2, depth - 1, fr.dest, val, evs, '', caller.fn)
        return [(evs, st2)]

    def unptr(self, st, v, depth):
        if not ptrs(v):
            return v
        if v.op == 'ptr':
            if v.a[0][0] == depth:
                return self.unptr(st, self.deref(st, v), depth)
            return v
        na = tuple(self.unptr(st, x, depth) if isinstance(x, V) else
                   tuple(self.unptr(st, y, depth) if isinstance(y, V) else y for y in x) if isinstance(x, tuple) else x
                   for x in v.a)
        return mk(v.op, *na)

    def assume(self, st, term, val, evs, loc, fn):
        """Record a branch decision; None if it contradicts an earlier one on this path."""
        while term.op == 'not' and isinstance(val, bool):
            term, val = term.a[0], not val
        k = ('fact', term)
        if k in st.store:
            if st.store[k].a[1] != val:
                old = st.store[k].a[1]
                if isinstance(old, tuple) and isinstance(val, tuple):
                    x = tuple(y for y in old if y in val)
                    if not x:
                        return None
                    val = x
                elif isinstance(old, tuple):
                    if val not in old:
                        return None
                elif isinstance(val, tuple):
                    if old not in val:
                        return None
                    val = old
                else:
                    return None
        st2 = State(st.stack, dict(st.store))
        if term.op == 'more':
            st2.store[('more', term.a[0])] = C(val)
        if term in self.retest and self.facts_on:
            st2.store[k] = mk('c', 'fact', val)
        return st2, evs + [Ev('assume', (term, val), loc, fn)]

    def known(self, st, term):
        neg = False
        while term.op == 'not':
            term, neg = term.a[0], not neg
        f = st.store.get(('fact', term))
        if f is None:
            return None
        v = f.a[1]
        return (not v) if neg and isinstance(v, bool) else v

    def switch(self, st, depth, fn, t, evs):
        v = self.operand(st, depth, fn, t[1])
        targets, other, loc = t[3], t[4], t[5]
        out = []
        if v.op == 'disc':
            x, adt = v.a
            if x.op == 'agg':
                var = x.a[1]
                for val, bb in targets:
                    if self.F.variant_by_discr(adt or x.a[0], val) == var:
                        return [(evs, self.goto(st, bb))]
                return [(evs, self.goto(st, other))]
            a = self.F.adts.get(adt)
            names = [q[0] for q in a['variants']] if a else None
            taken = []
            for val, bb in targets:
                nm = self.F.variant_by_discr(adt, val) or val
                taken.append(nm)
                r = self.assume(st, x, nm, evs, loc, fn.id)
                if r:
                    out.append((r[1], self.goto(r[0], bb)))
            rest = tuple(q for q in (names or []) if q not in taken)
            if names is None or rest:
                if not self.is_unreachable(fn, other):
                    r = self.assume(st, x, rest[0] if len(rest) == 1 else rest, evs, loc, fn.id)
                    if r:
                        out.append((r[1], self.goto(r[0], other)))
            return out
        if v.op == 'c':
            x = v.a[1]
            if isinstance(x, str) and v.a[0] == 'char':
                x = ord(x)
            for val, bb in targets:
                if isinstance(x, int) and int(val) == int(x):
                    return [(evs, self.goto(st, bb))]
            return [(evs, self.goto(st, other))]
        isbool = fn.tinfo[t[2]].get('k') == 'bool'
        if isbool and len(targets) == 1 and targets[0][0] == '0':
            for val, bb in ((False, targets[0][1]), (True, other)):
                r = self.assume(st, v, val, evs, loc, fn.id)
                if r:
                    out.append((r[1], self.goto(r[0], bb)))
            return out
        vals = []
        for val, bb in targets:
            vals.append(val)
            r = self.assume(st, v, val, evs, loc, fn.id)
            if r:
                out.append((r[1], self.goto(r[0], bb)))
        if not self.is_unreachable(fn, other):
            r = self.assume(st, v, ('other',) + tuple(vals), evs, loc, fn.id)
            if r:
                out.append((r[1], self.goto(r[0], other)))
        return out

    def is_unreachable(self, fn, bb):
        return fn.blocks[bb][1][0] == 'unreachable' and not fn.blocks[bb][0]

    # ---------------------------------------------------------------- calls
    def site(self, st, fr):
        return f'{fr.chain}/{short(fr.fn)}:{fr.bb}'

    def call(self, st, depth, fn, fr, t, evs):
        f, args, dest, target, loc = t[1], t[2], t[3], t[4], t[5]
        if f[0] == 'fn':
            info = f[2]
            owner = fn
        else:
            fv = self.operand(st, depth, fn, f)
            av = [self.operand(st, depth, fn, a) for a in args]
            if fv.op == 'fnd':
                info, owner = self.FND[fv.a[1]]
                return self.dispatch(st, depth, fn, fr, info, owner, av, dest, target, loc, evs)
            return self.opaque_call(st, depth, fn, fr, mk('dyn', fv), None, av, dest, target, loc, evs)
        av = [self.operand(st, depth, fn, a) for a in args]
        return self.dispatch(st, depth, fn, fr, info, owner, av, dest, target, loc, evs)

    def finish(self, st, depth, dest, target, val, evs, loc, fn):
        if target is None:
            return [(evs, None)]
        self.put(st, depth, dest, val, evs, loc, fn.id)
        return [(evs, self.goto(st, target))]

    def enter(self, st, depth, fn, fr, callee, av, dest, target, evs, wrap=None, loc=''):
        """Inline `callee` (a body id) with argument values av."""
        if target is None:
            target_bb = None
        cf = self.F.fns[callee]
        self.g.inlined.add(callee)
        st2 = State(st.stack, dict(st.store))
        base = st2.stack[:-1] + (Frame(fr.fn, target if target is not None else fr.bb, fr.dest, fr.ret, fr.wrap, fr.chain),)
        nf = Frame(callee, 0, tuplify(dest), None, wrap, self.site(st, fr))
        st2.stack = base + (nf,)
        for i, a in enumerate(av):
            st2.store[(depth + 1, i + 1)] = a
        evs = evs + [Ev('enter', (callee, tuple(self.undr(st, a) for a in av)), loc, fn.id)]
        return [(evs, st2)]

    def undr(self, st, v):
        """Pointer-free rendition of a value for events."""
        if v.op == 'ptr':
            return self.undr(st, self.deref(st, v))
        if ptrs(v):
            na = tuple(self.undr(st, x) if isinstance(x, V) else
                       tuple(self.undr(st, y) if isinstance(y, V) else y for y in x) if isinstance(x, tuple) else x
                       for x in v.a)
            return mk(v.op, *na)
        return v

    def can_inline(self, st, fid, av=None):
        if len(st.stack) >= self.max_depth:
            return False
        if self.rec_ok and self.rec_ok(self, st, fid, av):
            return True
        return all(f.fn != fid for f in st.stack)

    def dispatch(self, st, depth, fn, fr, info, owner, av, dest, target, loc, evs):
        name = normc(info['p'])
        rid = info.get('r') if info.get('rk') == 'item' else None
        fid = rid or info['d']
        fin = lambda val, e=evs: self.finish(st, depth, dest, target, val, e, loc, fn)
        if target is None:
            evs.append(Ev('diverge', (name, tuple(self.undr(st, a) for a in av)), loc, fn.id))
            return [(evs, None)]
        if 'ctor' in info:
            adt, var = info['ctor']
            return fin(mk('agg', adt, var, tuple(av)))
        if self.hook:
            r = self.hook(self, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs)
            if r is not None:
                return r
        if av and (info.get('rk') != 'item'):
            # method of a type parameter, called on a value whose type is known
            v = self.undr(st, av[0])
            if v.op == 'agg' and isinstance(v.a[0], str):
                t = self.devirtualize(info['d'], v.a[0])
                if t:
                    fid = t
        local = fid in self.F.fns and not fid.startswith('models::')
        if local and '{closure' in fid and name in FNCALLS and len(av) == 2:
            t = self.undr(st, av[1]) if av[1].op == 'ptr' else av[1]
            av = [av[0]] + (list(t.a[0]) if t.op == 'tup' else [] if t is UNIT else [t])
        if local and not self.opaque(name, info, fid) and self.can_inline(st, fid, av):
            return self.enter(st, depth, fn, fr, fid, av, dest, target, evs, None, loc)
        if local:
            return self.opaque_call(st, depth, fn, fr, name, info, av, dest, target, loc, evs, rec=not self.opaque(name, info, fid))
        # ---------------- library semantics
        if self.opaque(name, info, fid):
            return self.opaque_call(st, depth, fn, fr, name, info, av, dest, target, loc, evs)
        r = self.builtin(st, depth, fn, fr, info, owner, name, av, dest, target, loc, evs)
        if r is not None:
            return r
        m = M.get(name)
        if m and m in self.F.fns and len(st.stack) < self.max_depth + 6:
            return self.enter(st, depth, fn, fr, m, av, dest, target, evs, None, loc)
        return self.opaque_call(st, depth, fn, fr, name, info, av, dest, target, loc, evs)

    def devirtualize(self, decl, adt):
        """Local implementation of trait method `decl` for local type `adt`."""
        tab = getattr(self.F, 'vtab', None)
        if tab is None:
            tab = self.F.vtab = {}
            for f in self.F.fns.values():
                if f.trait and f.selfty and not f.parent:
                    tab.setdefault((f.trait.split('<')[0].rsplit('::', 1)[-1], f.name, f.selfty), []).append(f.id)
        a = self.F.adts.get(adt)
        if not a or '::' not in decl:
            return None
        tr, m = decl.rsplit('::', 2)[-2:]
        r = tab.get((tr, m, a['path']))
        return r[0] if r and len(r) == 1 else None

    def opaque_call(self, st, depth, fn, fr, name, info, av, dest, target, loc, evs, rec=False):
        # text the callee may write to gets an identity, so that the call is part of its history
        callee = self.F.fns.get(info.get('r') or info['d']) if info else None
        for i, a in enumerate(av):
            if a.op == 'ptr' and callee and i < callee.argc and callee.local_ty(i + 1).startswith('&mut') and self.deref(st, a).op in ('fmt', 'join'):
                self.as_obj(st, a, evs, fr, loc, fn, 'str')
        dav = tuple(self.undr(st, a) for a in av)
        clos = [(i, a) for i, a in enumerate(dav) if a.op == 'clo' and a.a[0] in self.F.fns]
        effect = any(a.op == 'ptr' for a in av)
        ret = self.ret_ty(info)
        site = ''
        if effect or 'Result<' in ret or 'Future' in ret or isinstance(name, V):
            site = self.site(st, fr)
        res = mk('r', name, dav, site)
        selfty = owner_ty(fn, info)
        ga = tuple(fn.types[i] for i in info['a']) if info and 'a' in info and self.info_owner(fn, info) else ()
        rid = info.get('r') or info['d'] if info else None
        muts = tuple(i for i, a in enumerate(av) if a.op == 'ptr')
        ev = Ev('call', (name, dav, res, selfty, rid, rec, ga, muts), loc, fn.id)
        # havoc simple data behind &mut arguments
        for i, a in enumerate(av):
            if a.op == 'ptr':
                v = self.deref(st, a)
                if v.op == 'obj':
                    st.store.pop(('cont', v), None)
                if v.op in ('agg', 'tup', 'arr') or (v.op == 'c' and v is not UNIT):
                    self.write_addr(st, a.a[0], a.a[1], mk('mut', res, i), evs, loc, fn.id)
        out = []
        if clos and not isinstance(name, V):
            # the callee may run the closure: explore its body once as a possible detour
            for i, c in clos:
                cf = self.F.fns[c.a[0]]
                if cf.coroutine or not self.can_inline(st, c.a[0]):
                    continue
                s2 = State(st.stack, dict(st.store))
                args = [c] + [mk('cbarg', res, j) for j in range(1, cf.argc)]
                e2 = evs + [ev, Ev('mayrun', (name, c), loc, fn.id)]
                self.put(s2, depth, dest, res, e2, loc, fn.id)
                out += self.enter(s2, depth, fn, fr, c.a[0], args, None, target, e2, 'unit', loc)
        evs = evs + [ev]
        s3 = State(st.stack, dict(st.store))
        out += self.finish(s3, depth, dest, target, res, evs, loc, fn)
        return out

    def info_owner(self, fn, info):
        return True

    def ret_ty(self, info):
        return info.get('ret', 'Result<') if info else 'Result<'

    # ---------------------------------------------------------------- builtins
    def retire(self, st, o):
        """A list made again at the same place: the earlier one, where other lists hold it, is from now on what it contains."""
        c = st.store.get(('cont', o))
        if c is None or c.a[1]:
            return
        frozen = mk('arr', c.a[0])
        for k, v in list(st.store.items()):
            if k[0] == 'cont' and k[1] is not o and o in objset(v):
                st.store[k] = replace(v, o, frozen)

    def newstr(self, st, fr):
        """A string made at this place; a different one from those made here before that a list holds."""
        site = self.site(st, fr)
        held = set()
        for k, v in st.store.items():
            if k[0] == 'cont':
                held.update(objset(v))
        for i in range(16):
            o = mk('obj', site + (f'#{i}' if i else ''), 'str')
            if o not in held:
                break
        return o

    def owned_vec(self, st, p):
        """Is this the place of a local variable of type Vec (an own copy of what a parameter lends)?"""
        root, proj = p.a[0], p.a[1]
        if proj or not isinstance(root[0], int) or not root[0] < len(st.stack) or not isinstance(root[1], int):
            return False
        f = self.F.fns[st.stack[root[0]].fn]
        return root[1] > f.argc and f.local_ty(root[1]).startswith('std::vec::Vec<')

    def as_obj(self, st, p, evs, fr, loc, fn, kind):
        """Object behind a pointer, creating one if the cell holds a plain value."""
        v = self.deref(st, p) if p.op == 'ptr' else p
        if p.op == 'ptr' and (v.op in ('c', 'fmt', 'arr', 'join', 'undef') or kind == 'vec' and v.op == 'p' and self.owned_vec(st, p)):
            o = mk('obj', self.site(st, fr), kind) if kind != 'str' else self.newstr(st, fr)
            st.store.pop(('ne', o), None)
            if kind == 'str' and nonempty(v):
                st.store[('ne', o)] = TRUE
            evs.append(Ev('alloc', (o, v), loc, fn.id))
            if kind == 'vec':
                st.store.pop(('cont', o), None)
                if v.op == 'arr' and len(v.a[0]) <= CONT:
                    st.store[('cont', o)] = mk('cont', v.a[0], False)
            self.write_addr(st, p.a[0], p.a[1], o, evs, loc, fn.id)
            return o
        return v

    def fmtpieces(self, tmpl, args):
        b = bytes.fromhex(tmpl)
        i, pieces, nxt = 0, [], 0
        while i < len(b):
            x = b[i]
            if x == 0:
                break
            if x < 0x80:
                pieces.append(C(b[i + 1:i + 1 + x].decode('utf-8', 'replace')))
                i += 1 + x
            elif x == 0x80:
                n = b[i + 1] | b[i + 2] << 8
                pieces.append(C(b[i + 3:i + 3 + n].decode('utf-8', 'replace')))
                i += 3 + n
            else:
                i += 1
                spec = []
                for bit, n in ((1, 4), (2, 2), (4, 2)):
                    if x & bit:
                        spec.append((bit, b[i:i + n].hex()))
                        i += n
                if x & 8:
                    nxt = b[i] | b[i + 1] << 8
                    i += 2
                a = args[nxt] if nxt < len(args) else mk('undef')
                nxt += 1
                if a.op == 'fmtarg':
                    pieces += self.hole(a.a[0], a.a[1], tuple(spec))
                else:
                    pieces.append(mk('hole', 'display', a, tuple(spec)))
        return tuple(pieces)

    def hole(self, tr, v, spec=()):
        if tr == 'display' and not spec:
            if v.op == 'c' and isinstance(v.a[1], str) and v.a[0] in ('str', 'char'):
                return [C(v.a[1])]
            if v.op == 'fmt':
                return list(v.a[0])
        return [mk('hole', tr, v, spec)]

    def pieces(self, v):
        if v.op == 'fmt':
            return v.a[0]
        return tuple(self.hole('display', v))

    def builtin(self, st, depth, fn, fr, info, owner, name, av, dest, target, loc, evs):
        fin = lambda val: self.finish(st, depth, dest, target, val, evs, loc, fn)
        D = lambda v: self.deref(st, v)
        if name in TRANSPARENT:
            v = av[0] if av else UNIT
            if name.endswith('box_assume_init_into_vec_unsafe') or name.endswith('::into_vec'):
                x = D(v) if v.op == 'ptr' else v
                while x.op == 'tup' and x.a[0] and (len(x.a[0]) == 1 or x.a[0][0].op == 'undef'):
                    x = x.a[0][-1]
                if x.op == 'arr':
                    return fin(x)
            if self.track and name in ('std::iter::IntoIterator::into_iter', 'core::slice::iter', 'std::vec::Vec::into_iter'):
                st.store.pop(('cnt', v), None)
                st.store.pop(('more', v), None)
            if name in ('std::ops::Deref::deref', 'std::clone::Clone::clone', 'std::string::ToString::to_string',
                        'std::borrow::ToOwned::to_owned', 'std::option::Option::cloned', 'std::option::Option::as_ref',
                        'std::option::Option::as_deref', 'std::convert::AsRef::as_ref', 'core::slice::iter') and v.op == 'ptr':
                v = D(v)
            if v.op == 'arr' and name in ('std::iter::IntoIterator::into_iter', 'core::slice::iter', 'std::vec::Vec::into_iter'):
                return fin(mk('it', v, 0))
            if v.op == 'ptr' and name in ('std::iter::IntoIterator::into_iter',):
                x = D(v)
                if x.op == 'arr':
                    return fin(mk('it', x, 0))
                if x.op in ('obj',):
                    return fin(x)
            return fin(v)
        if name in ('std::string::String::from',):
            return fin(av[0])
        if name in NEWSTR or name in NEWVEC:
            o = self.newstr(st, fr) if name in NEWSTR else mk('obj', self.site(st, fr), 'vec')
            self.retire(st, o)
            if name in NEWSTR:
                st.store[('ne', o)] = FALSE
            evs.append(Ev('alloc', (o, None), loc, fn.id))
            if name.startswith('std::vec::'):
                st.store[('cont', o)] = mk('cont', (), False)
            return fin(o)
        if name == 'std::default::Default::default':
            sty = info.get('self')
            s = fn.types[sty] if sty is not None and owner is fn else ''
            if s.startswith('std::string::String'):
                o = self.newstr(st, fr)
                evs.append(Ev('alloc', (o, None), loc, fn.id))
                return fin(o)
            if s.startswith(('std::vec::Vec', 'std::collections::')):
                o = mk('obj', self.site(st, fr), 'vec')
                evs.append(Ev('alloc', (o, None), loc, fn.id))
                if s.startswith('std::vec::Vec'):
                    st.store[('cont', o)] = mk('cont', (), False)
                return fin(o)
            if s.startswith('std::option::Option'):
                return fin(NONE)
            if s == 'bool':
                return fin(FALSE)
            return fin(mk('r', name, (), s))
        # ---- formatting
        if name.startswith('core::fmt::rt::Argument::new_'):
            return fin(mk('fmtarg', name.rsplit('new_', 1)[1], self.undr(st, av[0])))
        if name == 'std::fmt::Arguments::new':
            tm, ar = av[0], D(av[1])
            if tm.op == 'c' and ar.op == 'arr':
                return fin(mk('fmt', self.fmtpieces(tm.a[1], ar.a[0])))
            return fin(mk('fmt', (mk('hole', 'unknown', tm, ()),)))
        if name.startswith('std::fmt::Arguments::from_str'):
            return fin(mk('fmt', self.pieces(av[0])))
        if name in ('std::fmt::format',):
            v = av[0]
            return fin(v)
        if name in ('std::fmt::Write::write_fmt', 'std::fmt::Write::write_str', 'std::string::String::push_str',
                    'std::string::String::push', 'std::fmt::Write::write_char', 'std::fmt::Formatter::write_str', 'std::fmt::Formatter::write_fmt',
                    'std::ops::AddAssign::add_assign'):
            o = self.as_obj(st, av[0], evs, fr, loc, fn, 'str')
            ps = self.pieces(self.undr(st, av[1]))
            evs.append(Ev('emit', (o, ps), loc, fn.id))
            if o.op == 'obj':
                if any(nonempty(p) for p in ps):
                    st.store[('ne', o)] = TRUE
                elif st.store.get(('ne', o)) is FALSE and ps:
                    st.store.pop(('ne', o))
            return fin(UNIT if name.startswith(('std::string', 'std::ops')) else ok(UNIT))
        if name == 'std::ops::Add::add':
            a, b = self.undr(st, av[0]), self.undr(st, av[1])
            if a.op in ('obj', 'join') or b.op == 'join' or (b.op in ('c', 'fmt') and isinstance(cval(b) if b.op == 'c' else '', str)) or a.op == 'fmt':
                return fin(mk('fmt', tuple(self.pieces(a)) + tuple(self.pieces(b))))
            return None
        if name in ('std::slice::join', 'core::slice::join', 'std::slice::Join::join'):
            x = self.undr(st, av[0])
            if x.op == 'obj' and ('cont', x) in st.store:
                x = mk('arr', st.store[('cont', x)].a[0])
            return fin(mk('join', x, self.undr(st, av[1])))
        if name in ('std::slice::concat',):
            return fin(mk('join', self.undr(st, av[0]), C('')))
        # ---- collections
        if name in ('std::vec::Vec::push', 'std::collections::BTreeMap::insert', 'std::collections::HashMap::insert',
                    'std::collections::BTreeSet::insert', 'std::collections::HashSet::insert', 'std::collections::VecDeque::push_back'):
            o = self.as_obj(st, av[0], evs, fr, loc, fn, 'vec')
            vals = tuple(self.undr(st, a) for a in av[1:])
            evs.append(Ev('push', (o, vals[0] if len(vals) == 1 else mk('tup', vals)), loc, fn.id))
            c = st.store.pop(('cont', o), None)
            if c is not None and not c.a[1] and len(c.a[0]) < CONT and name == 'std::vec::Vec::push':
                st.store[('cont', o)] = mk('cont', c.a[0] + vals, False)
            return fin(UNIT if name.endswith(('push', 'push_back')) else mk('r', name, (o,) + vals, ''))
        if name in ('std::vec::Vec::extend_from_slice', 'std::vec::Vec::append', 'std::vec::Vec::insert', 'std::vec::Vec::clear', 'std::vec::Vec::truncate',
                    'std::vec::Vec::retain', 'std::vec::Vec::remove', 'std::vec::Vec::pop', 'std::vec::Vec::swap', 'core::slice::reverse', 'core::slice::sort',
                    'std::string::String::clear', 'std::string::String::truncate', 'std::string::String::insert_str', 'std::string::String::pop',
                    'std::vec::Vec::drain', 'std::collections::BTreeMap::remove', 'std::collections::BTreeMap::clear', 'core::slice::swap',
                    'std::vec::Vec::dedup', 'core::slice::sort_by', 'std::vec::Vec::swap_remove', 'core::slice::sort_by_key', 'std::vec::Vec::split_off'):
            o = self.as_obj(st, av[0], evs, fr, loc, fn, 'vec')
            vals = tuple(self.undr(st, a) for a in av[1:])
            op = name.rsplit('::', 1)[1]
            evs.append(Ev('cmut', (o, op, vals), loc, fn.id))
            c = st.store.pop(('cont', o), None)
            if op == 'clear' and name.startswith('std::vec'):
                st.store[('cont', o)] = mk('cont', (), False)
            elif c is not None and not c.a[1]:
                l = c.a[0]
                if op in ('append', 'extend_from_slice'):
                    y = vals[0]
                    z = st.store.get(('cont', y)) if y.op == 'obj' else None
                    more = z.a[0] if z is not None and not z.a[1] else y.a[0] if y.op == 'arr' else None
                    l = l + more if more is not None and len(l) + len(more) <= 2 * CONT else None
                    if op == 'append' and z is not None:
                        st.store[('cont', y)] = mk('cont', (), False)
                elif op == 'reverse':
                    l = tuple(reversed(l))
                elif op == 'insert' and is_const(vals[0]) and isinstance(cval(vals[0]), int) and 0 <= cval(vals[0]) <= len(l):
                    l = l[:cval(vals[0])] + (vals[1],) + l[cval(vals[0]):]
                elif op == 'truncate' and is_const(vals[0]) and isinstance(cval(vals[0]), int):
                    l = l[:cval(vals[0])]
                elif op == 'pop':
                    st.store[('cont', o)] = mk('cont', l[:-1], False)
                    return fin(some(l[-1]) if l else NONE)
                else:
                    l = None
                if l is not None:
                    st.store[('cont', o)] = mk('cont', l, False)
            return fin(UNIT if op in ('extend_from_slice', 'append', 'insert', 'clear', 'truncate', 'retain', 'swap', 'reverse', 'sort', 'insert_str')
                       else mk('r', name, (o,) + vals, self.site(st, fr)))
        if name == 'std::iter::Extend::extend':
            o = self.as_obj(st, av[0], evs, fr, loc, fn, 'vec')
            src = self.undr(st, av[1])
            if src.op == 'arr':
                src = mk('it', src, 0)
            sty = info.get('self')
            m = 'models::string_extend' if owner is fn and sty is not None and fn.types[sty].startswith('std::string') else 'models::vec_extend'
            return self.enter(st, depth, fn, fr, m, [o, src], dest, target, evs, None, loc)
        # ---- iteration
        if name in ('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back'):
            back = name.endswith('back')
            p = av[0]
            v = D(p) if p.op == 'ptr' else p
            while v.op == 'ptr':
                p, v = v, D(v)
            if v.op == 'arr':
                v = mk('it', v, 0)
            if v.op == 'agg' and v.a[0].rsplit('::', 1)[-1] == 'Range' and len(v.a[2]) == 2 and all(is_const(x) and type(cval(x)) is int for x in v.a[2]) \
                    and cval(v.a[2][1]) - cval(v.a[2][0]) <= 16:
                v = mk('it', mk('arr', tuple(C(i) for i in range(cval(v.a[2][0]), cval(v.a[2][1])))), 0)
            if v.op == 'obj' and ('cont', v) in st.store:
                v = mk('it', mk('arr', st.store[('cont', v)].a[0]), 0)
            if v.op == 'it':
                items = v.a[0].a[0]
                i = v.a[1]
                if back:
                    if i < len(items):
                        if p.op == 'ptr':
                            self.write_addr(st, p.a[0], p.a[1], mk('it', mk('arr', items[i:-1]), 0), evs, loc, fn.id)
                        return fin(some(items[-1]))
                    return fin(NONE)
                if not back:
                    if i < len(items):
                        if p.op == 'ptr':
                            self.write_addr(st, p.a[0], p.a[1], mk('it', v.a[0], i + 1), evs, loc, fn.id)
                        return fin(some(items[i]))
                    return fin(NONE)
            through = None
            if v.op == 'agg' and v.a[0].rsplit('::', 1)[-1] == 'Range' and len(v.a[2]) == 2 and v.a[2][0] == C(0) and not back and not v.a[0].startswith('models::'):
                n = v.a[2][1]
                through = n.a[0] if n.op == 'len' or n.op == 'lenoff' and n.a[1] == 0 else None
                if through is not None:
                    # the indices of a list
                    self.itered.add(through)
            if through is not None and through in self.track or v.op == 'agg' and v.a[0] == 'models::EnumerateM' and v.a[2][0] in self.track and not back:
                src = through if through is not None else v.a[2][0]
                more = st.store.get(('more', src))
                out = []
                if more is not TRUE:
                    s2 = State(st.stack, dict(st.store))
                    s2.store.pop(('cnt', src), None)
                    s2.store.pop(('more', src), None)
                    self.freeze(s2)
                    out += self.finish(s2, depth, dest, target, NONE, evs + [Ev('iterend', (src,), loc, fn.id)], loc, fn)
                if more is not FALSE:
                    s3 = State(st.stack, dict(st.store))
                    self.advance(s3, src)
                    self.freeze(s3)
                    out += self.finish(s3, depth, dest, target, some(mk('cons', src, -1) if through is not None else mk('tup', (mk('cons', src, -1), mk('elem', src)))),
                                       evs + [Ev('iter', (src,), loc, fn.id)], loc, fn)
                return out
            if v.op == 'agg' and short(v.a[0]) in NEXT and not back and v.a[0].startswith('models::'):
                return self.enter(st, depth, fn, fr, 'models::' + NEXT[short(v.a[0])], [p], dest, target, evs, None, loc)
            if v.op == 'agg' and v.a[0].startswith(OPT):
                if v.a[1] == 'None':
                    return fin(NONE)
                if p.op == 'ptr':
                    self.write_addr(st, p.a[0], p.a[1], NONE, evs, loc, fn.id)
                return fin(v)
            if v.op == 'clo':
                return None
            out = []
            src = mk('rev', v) if back else v
            self.itered.add(v)
            more = st.store.get(('more', v)) if v in self.track else None
            if more is not TRUE:
                s2 = State(st.stack, dict(st.store))
                s2.store.pop(('cnt', v), None)
                s2.store.pop(('more', v), None)
                self.freeze(s2)
                e2 = evs + [Ev('iterend', (src,), loc, fn.id)]
                out += self.finish(s2, depth, dest, target, NONE, e2, loc, fn)
            if more is not FALSE:
                s3 = State(st.stack, dict(st.store))
                if v in self.track:
                    self.advance(s3, v)
                self.freeze(s3)
                e3 = evs + [Ev('iter', (src,), loc, fn.id)]
                out += self.finish(s3, depth, dest, target, some(mk('elem', src)), e3, loc, fn)
            return out
        if name in ('fallible_iterator::FallibleIterator::next', 'models::FIter::fnext'):
            p = av[0]
            v = D(p) if p.op == 'ptr' else p
            if v.op == 'agg' and short(v.a[0]) == 'FMapM':
                return self.enter(st, depth, fn, fr, 'models::fnext_fmap', [p], dest, target, evs, None, loc)
            if v.op == 'agg' and short(v.a[0]) == 'FFilterM':
                return self.enter(st, depth, fn, fr, 'models::fnext_ffilter', [p], dest, target, evs, None, loc)
            out = []
            for kind, val in (('iterend', ok(NONE)), ('iter', ok(some(mk('elem', v)))), ('itererr', err(mk('v', mk('r', 'fnext', (v,), ''), 'Err', '0')))):
                s2 = State(st.stack, dict(st.store))
                self.freeze(s2)
                out += self.finish(s2, depth, dest, target, val, evs + [Ev(kind, (v,), loc, fn.id)], loc, fn)
            return out
        if name == 'fallible_iterator::FallibleIterator::collect':
            return self.enter(st, depth, fn, fr, 'models::fiter_collect', av, dest, target, evs, None, loc)
        if name in ORDER_TAGS:
            v = self.undr(st, av[0])
            if v.op == 'obj' and ('cont', v) in st.store:
                v = mk('it', mk('arr', st.store[('cont', v)].a[0]), 0)
            elif v.op == 'arr':
                v = mk('it', v, 0)
            if v.op == 'it' and ORDER_TAGS[name] == 'rev':
                return fin(mk('it', mk('arr', tuple(reversed(v.a[0].a[0][v.a[1]:]))), 0))
            if v.op == 'it' and ORDER_TAGS[name] in ('take', 'skip') and len(av) == 2:
                n = self.undr(st, av[1])
                if n.op == 'c' and isinstance(n.a[1], int):
                    l = v.a[0].a[0][v.a[1]:]
                    return fin(mk('it', mk('arr', l[:n.a[1]] if ORDER_TAGS[name] == 'take' else l[n.a[1]:]), 0))
            if v.op == 'agg' and v.a[0].startswith('models::') and ORDER_TAGS[name] in ('take', 'skip') and len(av) == 2:
                n = self.undr(st, av[1])
                if v.a[0] == 'models::RepeatM' and ORDER_TAGS[name] == 'take':
                    return self.enter(st, depth, fn, fr, 'models::mk_repeat_n', [v.a[2][0], n], dest, target, evs, None, loc)
                if is_const(n) and type(cval(n)) is int:
                    return fin(agg('models::TakeM' if ORDER_TAGS[name] == 'take' else 'models::SkipM', None, v, n))
            if v.op == 'agg' and v.a[0] in ('models::MapM', 'models::FilterM', 'models::FilterMapM') and ORDER_TAGS[name] == 'rev':
                x = v.a[2][0]
                if x.op == 'arr' or x.op == 'it':
                    x = mk('it', mk('arr', tuple(reversed(x.a[0] if x.op == 'arr' else x.a[0].a[0][x.a[1]:]))), 0)
                    return fin(agg(v.a[0], None, x, *v.a[2][1:]))
            if v.op == 'rev' and ORDER_TAGS[name] == 'rev':
                return fin(v.a[0])
            return fin(mk(ORDER_TAGS[name], v, *[self.undr(st, a) for a in av[1:]]))
        if name in ('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter', 'std::iter::Iterator::sum'):
            if name.endswith('sum'):
                return None
            dt = ''
            if info['a']:
                dt = owner.types[info['a'][-1]] if owner is not None else ''
                if name.endswith('from_iter'):
                    dt = owner.types[info['a'][0]]
            m = 'iter_collect_vec'
            if dt.startswith('std::result::Result'):
                m = 'iter_collect_result'
            elif dt.startswith('std::option::Option'):
                m = 'iter_collect_option'
            elif dt.startswith('std::string::String') or dt.startswith('std::borrow::Cow<\'_, str'):
                m = 'iter_collect_string'
            v = self.undr(st, av[0]) if not has_loc_ptr(av[0]) else av[0]
            return self.enter(st, depth, fn, fr, 'models::' + m, [v], dest, target, evs, None, loc)
        # ---- Option / Result / mem
        if name == 'std::option::Option::take' or name == 'std::mem::take':
            v = D(av[0])
            if av[0].op == 'ptr':
                nv = NONE if name.startswith('std::option') else mk('r', 'std::default::Default::default', (), '')
                if name == 'std::mem::take' and v.op == 'obj':
                    nv = mk('obj', self.site(st, fr), v.a[1])
                    evs.append(Ev('alloc', (nv, None), loc, fn.id))
                self.set_ptr(st, av[0], nv, evs, loc, fn)
            else:
                evs.append(Ev('set', (v, NONE if name.startswith('std::option') else mk('default')), loc, fn.id))
            return fin(v)
        if name in ('std::mem::replace', 'std::option::Option::replace', 'std::option::Option::insert'):
            v = D(av[0])
            nv = av[1] if name.startswith('std::mem') else some(av[1])
            self.set_ptr(st, av[0], nv, evs, loc, fn)
            return fin(v)
        if name == 'std::mem::swap':
            a, b = D(av[0]), D(av[1])
            self.set_ptr(st, av[0], b, evs, loc, fn)
            self.set_ptr(st, av[1], a, evs, loc, fn)
            return fin(UNIT)
        if name in ('std::mem::drop',):
            evs.append(Ev('drop', (self.undr(st, av[0]), ''), loc, fn.id))
            return fin(UNIT)
        if name in ('std::option::Option::as_mut', 'std::option::Option::as_deref_mut', 'std::result::Result::as_mut'):
            v = D(av[0])
            if v.op == 'agg':
                if v.a[1] in ('Some', 'Ok') and av[0].op == 'ptr':
                    pv = mk('ptr', av[0].a[0], av[0].a[1] + (('v', 1, v.a[1]), ('f', 0, '0')))
                    return fin(mk('agg', v.a[0], v.a[1], (pv,)))
                return fin(v)
            return fin(v)
        if name in ('std::option::Option::unwrap', 'std::option::Option::expect', 'std::result::Result::unwrap', 'std::result::Result::expect',
                    'std::option::Option::unwrap_unchecked', 'std::result::Result::unwrap_err', 'std::result::Result::expect_err'):
            v = D(av[0])
            var = 'Some' if 'option' in name else ('Err' if name.endswith('_err') else 'Ok')
            if v.op == 'agg':
                if v.a[1] == var:
                    return fin(v.a[2][0] if v.a[2] else UNIT)
                evs.append(Ev('panic', (name, v), loc, fn.id))
                return [(evs, None)]
            kn = self.known(st, v)
            if kn is None:
                evs.append(Ev('unwrap', (v, var), loc, fn.id))
            return fin(self.field(st, mk('as', v, var), '0', 0))
        if name == 'std::ops::Try::branch':
            v = D(av[0])
            sty = info.get('self')
            s = owner.types[sty] if sty is not None else ''
            isopt = s.startswith('std::option::Option')
            good, bad = ('Some', 'None') if isopt else ('Ok', 'Err')
            if v.op == 'agg' and v.a[1] in (good, bad):
                if v.a[1] == good:
                    return fin(agg(CF, 'Continue', *v.a[2]))
                return fin(agg(CF, 'Break', v))
            out = []
            for var in (good, bad):
                r = self.assume(st, v, var, list(evs), loc, fn.id)
                if not r:
                    continue
                s2, e2 = r
                if var == good:
                    val = agg(CF, 'Continue', self.field(s2, mk('as', v, good), '0', 0))
                else:
                    val = agg(CF, 'Break', NONE if isopt else err(self.field(s2, mk('as', v, 'Err'), '0', 0)))
                out += self.finish(s2, depth, dest, target, val, e2, loc, fn)
            return out
        if name == 'std::ops::FromResidual::from_residual':
            return fin(av[0])
        if name == 'std::ops::Try::from_output':
            return fin(ok(av[0]))
        if name in ('std::future::get_context',):
            return fin(UNIT)
        if name in ('std::future::Future::poll', 'futures_util::Future::poll', 'futures_core::Future::poll') or name.endswith('::Future::poll'):
            v = D(av[0])
            while v.op == 'ptr':
                v = D(v)
            if v.op == 'clo' and v.a[0] in self.F.fns and self.can_inline(st, v.a[0]):
                return self.enter(st, depth, fn, fr, v.a[0], [v, UNIT], dest, target, evs, 'poll', loc)
            if v.op == 'clo':
                evs.append(Ev('call', ('rec-await', (v,), v, None, v.a[0], True, (), ()), loc, fn.id))
            evs.append(Ev('await', (v,), loc, fn.id))
            return fin(agg(POLL, 'Ready', v))
        if name in ('tokio::runtime::Handle::block_on', 'tokio::runtime::Runtime::block_on', 'tokio::runtime::runtime::Runtime::block_on'):
            v = self.undr(st, av[1])
            evs.append(Ev('call', (name, tuple(self.undr(st, a) for a in av), mk('r', name, (), ''), None, None, False, (), ()), loc, fn.id))
            if v.op == 'clo' and v.a[0] in self.F.fns and self.can_inline(st, v.a[0]):
                return self.enter(st, depth, fn, fr, v.a[0], [av[1] if has_loc_ptr(av[1]) else v, UNIT], dest, target, evs, None, loc)
            evs.append(Ev('await', (v,), loc, fn.id))
            return fin(v)
        if name in RUNCLO:
            v = self.undr(st, av[0])
            evs.append(Ev('call', (name, (v,), mk('r', name, (), ''), None, None, False, (), ()), loc, fn.id))
            if v.op == 'clo' and v.a[0] in self.F.fns and self.can_inline(st, v.a[0]):
                wrap = None if name.endswith('in_place') else 'try'
                return self.enter(st, depth, fn, fr, v.a[0], [av[0]], dest, target, evs, wrap, loc)
            return None
        # ---- closures and function values
        if name in FNCALLS:
            f = av[0]
            fv = D(f) if f.op == 'ptr' else f
            args = list(av[1].a[0]) if av[1].op == 'tup' else ([] if av[1] is UNIT else [av[1]])
            if fv.op == 'clo' and fv.a[0] in self.F.fns and self.can_inline(st, fv.a[0]):
                return self.enter(st, depth, fn, fr, fv.a[0], [f] + args, dest, target, evs, None, loc)
            if fv.op == 'fnd':
                i2, ow = self.FND[fv.a[1]]
                return self.dispatch(st, depth, ow if False else fn, fr, i2, ow, args, dest, target, loc, evs) if ow is fn else \
                    self.dispatch_foreign(st, depth, fn, fr, i2, ow, args, dest, target, loc, evs)
            return self.opaque_call(st, depth, fn, fr, mk('dyn', fv), None, args, dest, target, loc, evs)
        # ---- comparisons
        if name in ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne'):
            a, b = self.undr(st, av[0]), self.undr(st, av[1])
            neg = name.endswith('ne')
            if a.op == 'c' and b.op == 'c' and a.a[0] == b.a[0]:
                return fin(C((a.a[1] == b.a[1]) != neg))
            if a is b and not contains_op(a, ('wid', 'ge', 'undef')):
                return fin(C(not neg))
            if a.op == 'agg' and b.op == 'agg' and a.a[1] != b.a[1] and a.a[0] == b.a[0]:
                return fin(C(neg))
            if b.op == 'c' and a.op != 'c':
                pass
            elif a.op == 'c':
                a, b = b, a
            r = mk('bin', 'Eq', a, b)
            return fin(mk('not', r) if neg else r)
        if name in ('std::ops::Not::not',):
            a = self.undr(st, av[0])
            return fin(mk('not', a))
        if name.startswith('log::') or name.startswith('tracing::'):
            if name == 'log::max_level':
                return fin(mk('loglevel'))
            return fin(UNIT)
        if name in ('std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::ge', 'std::cmp::PartialOrd::gt'):
            a, b = self.undr(st, av[0]), self.undr(st, av[1])
            if contains_op(a, ('loglevel',)) or contains_op(b, ('loglevel',)) or (a.op == 'agg' and 'log::Level' in a.a[0]):
                return fin(FALSE)     # logging itself is out of scope
            return fin(mk('bin', name[-2:].capitalize(), a, b))
        if name in ('std::io::_print', 'std::io::_eprint'):
            evs.append(Ev('print', (name.rsplit('_', 1)[1], self.pieces(av[0])), loc, fn.id))
            return fin(UNIT)
        if name in ('core::slice::is_empty', 'std::vec::Vec::is_empty', 'core::slice::len', 'std::vec::Vec::len') and av:
            v = self.undr(st, av[0])
            if v.op == 'obj' and ('cont', v) in st.store:
                v = mk('arr', st.store[('cont', v)].a[0])
            if v.op == 'arr':
                return fin(C(len(v.a[0]) == 0) if name.endswith('empty') else C(len(v.a[0])))
            self.lenof.add(v)
            return fin(mk('len', v) if name.endswith('len') else mk('empty', v))
        if name.endswith('intrinsics::discriminant_value') or name == 'std::mem::discriminant':
            v = self.undr(st, av[0])
            if v.op == 'agg' and isinstance(v.a[1], str):
                return fin(C('#' + v.a[1]))
        if name in ('std::boxed::Box::new_uninit',):
            return fin(mk('undef'))
        return None

    def dispatch_foreign(self, st, depth, fn, fr, info, ow, args, dest, target, loc, evs):
        # function value named in another body: its type indices belong to that body
        return self.dispatch(st, depth, fn, fr, dict(info, **{'a': []}) if ow.types is not fn.types else info, ow, args, dest, target, loc, evs)

    def set_ptr(self, st, p, nv, evs, loc, fn):
        if p.op == 'ptr':
            root, proj = p.a
            cur = st.store.get(root)
            # report writes that land in unknown memory
            self.write_addr(st, root, proj, nv, evs, loc, fn.id)
        else:
            evs.append(Ev('set', (p, nv), loc, fn.id))
            st.store[('ov', p)] = nv


def owner_ty(fn, info):
    if info and 'self' in info:
        try:
            return fn.types[info['self']]
        except IndexError:
            return None
    return None


_pc = {}


def ptrs(v):
    r = _pc.get(v)
    if r is None:
        s = set()
        if v.op == 'ptr':
            s.add(v.a[0])
        for x in v.a:
            if isinstance(x, V):
                s |= ptrs(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, V):
                        s |= ptrs(y)
        r = _pc[v] = frozenset(s)
    return r


def has_loc_ptr(v):
    return bool(ptrs(v))


_oc, _objc = {}, {}


def opset(v):
    r = _oc.get(v)
    if r is None:
        s = {v.op}
        for x in v.a:
            if isinstance(x, V):
                s |= opset(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, V):
                        s |= opset(y)
        r = _oc[v] = frozenset(s)
    return r


def replace(v, x, y):
    """v with y for x."""
    if v is x:
        return y
    if x not in objset(v):
        return v
    go = lambda z: replace(z, x, y) if isinstance(z, V) else tuple(go(w) for w in z) if isinstance(z, tuple) else z
    return mk(v.op, *[go(z) for z in v.a])


def nonempty(v):
    if isinstance(v, str):
        return v != ''
    if v.op == 'fmt':
        return any(nonempty(p) for p in v.a[0])
    return v.op == 'c' and v.a[1] not in ('', None)


def objset(v):
    """Objects mentioned in v."""
    if 'obj' not in opset(v):
        return ()
    r = _objc.get(v)
    if r is None:
        s = {v} if v.op == 'obj' else set()
        for x in v.a:
            if isinstance(x, V):
                s.update(objset(x))
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, V):
                        s.update(objset(y))
        r = _objc[v] = frozenset(s)
    return r


def contains_op(v, ops):
    o = opset(v)
    return any(x in o for x in ops)


def subterms(v):
    yield v
    for x in v.a:
        if isinstance(x, V):
            yield from subterms(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, V):
                    yield from subterms(y)
