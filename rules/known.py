"""Maps and sets whose keys are known: semantics of the standard collections on them."""
from flow import *
from interp import Ev

SETS = ('difference', 'intersection', 'union', 'symmetric_difference')
MAPTY = re.compile(r'(BTreeMap|HashMap|IndexMap|BTreeSet|HashSet|btree::map|btree::set|hash_map|hash_set|hash::map|hash::set)')


KEYS = {}


def items(it, st, v):
    """Known elements of a list or set value."""
    v = it.undr(st, v)
    if v.op == 'obj' and ('cont', v) in st.store:
        return list(st.store[('cont', v)].a[0])
    if v.op == 'arr':
        return list(v.a[0])
    if v.op == 'it' and v.a[0].op == 'arr':
        return list(v.a[0].a[0][v.a[1]:])
    if v.op == 'map':
        return [mk('tup', (K(k), x)) for k, x in v.a[0]]
    return None


def key(it, st, v):
    v = it.undr(st, v)
    while v.op == 'agg' and v.a[1] in ('Borrowed', 'Owned') and v.a[2]:
        v = v.a[2][0]
    if is_const(v):
        return cval(v)
    if v.op == 'agg' and v.a[1] not in ('Some', 'None') and v.a[2] and all(is_const(it.undr(st, x)) for x in v.a[2]):
        k = '\0'.join([v.a[1]] + [str(cval(it.undr(st, x))) for x in v.a[2]])
        KEYS[k] = mk('agg', v.a[0], v.a[1], tuple(it.undr(st, x) for x in v.a[2]), *v.a[3:])
        return k
    return None


def K(k):
    """The key itself, for the text that stands for it in a map."""
    return KEYS.get(k) or C(k)


def target_of(it, st, p):
    """The place a chain of pointers ends at."""
    while True:
        v = it.load(st, p)
        if v.op != 'ptr':
            return p
        p = v


def textlen(v):
    """Lower bound of the length of a text: 0 only if it is empty, None if unknown."""
    if is_const(v) and isinstance(cval(v), str):
        return len(cval(v))
    if v.op == 'agg' and v.a[1] in ('Borrowed', 'Owned') and v.a[2]:
        return textlen(v.a[2][0])
    if v.op == 'fmt':
        ns = [len(x) if isinstance(x, str) else textlen(x) for x in v.a[0]]
        return sum(n or 0 for n in ns) or (None if None in ns else 0)
    if v.op == 'hole':
        return textlen(v.a[1]) if not v.a[2] else None
    if v.op == 'join' and v.a[0].op == 'arr':
        ns = [textlen(x) for x in v.a[0].a[0]]
        sep = textlen(v.a[1]) or 0
        return sum(n or 0 for n in ns) + sep * max(0, len(ns) - 1) or (None if None in ns else 0)
    if v.op == 'r' and isinstance(v.a[0], str) and v.a[0].endswith('::quote_reserved_word'):
        return textlen(v.a[1][0])
    return None


def closed(v):
    """A value built of known parts and opaque tokens only (cloning it gives an equal value)."""
    return not contains_op(v, ('obj', 'it', 'clo', 'ptr', 'undef'))


def mkmap(d):
    return mk('map', tuple(sorted(d.items())))


def hook(it, st, depth, fn, fr, info, name, fid, av, dest, target, loc, evs):
    if not av:
        return None
    l = last(name)
    fin = lambda val: it.finish(st, depth, dest, target, val, evs, loc, fn)
    seq = lambda l: mk('it', mk('arr', tuple(l)), 0)
    a = it.undr(st, av[0])
    fr_ = av[0] if av[0].op == 'ptr' else None
    if l == 'into_iter' and fr_ and isinstance(info, dict) and fn.ty(info.get('self', -1)).startswith('&mut ') and (a.op == 'map' or a.op in ('arr', 'obj') and items(it, st, av[0]) is not None):
        l = 'iter_mut'
    if name == 'models::list_freeze':
        x = items(it, st, av[0])
        return fin(mk('arr', tuple(x)) if x is not None else a)
    if l == 'retain' and len(av) == 2 and fr_ and a.op in ('arr', 'obj') and items(it, st, av[0]) is not None:
        return it.enter(st, depth, fn, fr, 'models::vec_retain', [av[0], seq(items(it, st, av[0])), av[1]], dest, target, evs, None, loc)
    if fr_ and a.op == 'arr':
        x = list(a.a[0])
        base = target_of(it, st, fr_)
        put = lambda v: it.write_addr(st, base.a[0], base.a[1], mk('arr', tuple(v)), evs, loc, fn.id)
        if l == 'push' and len(av) == 2:
            put(x + [it.undr(st, av[1])])
            return fin(mk('tup', ()))
        if l == 'pop' and len(av) == 1:
            put(x[:-1])
            return fin(some(x[-1]) if x else NONE)
        if l == 'clear' and len(av) == 1:
            put([])
            return fin(mk('tup', ()))
        if l == 'drain' and len(av) == 2 and 'RangeFull' in show(it.undr(st, av[1])) + str(av[1].a):
            put([])
            return fin(seq(x))
        if name in ('std::mem::take', 'core::mem::take'):
            put([])
            return fin(a)
        if l == 'iter_mut':
            return fin(seq(mk('ptr', base.a[0], base.a[1] + (('ci', i, False),)) for i in range(len(x))))
        if l in ('index_mut', 'get_mut', 'remove', 'swap_remove') and len(av) == 2 and is_const(av[1]) and isinstance(cval(av[1]), int) and cval(av[1]) < len(x):
            i = cval(av[1])
            if l in ('remove', 'swap_remove'):
                put(x[:i] + x[i + 1:])
                return fin(x[i])
            p = mk('ptr', base.a[0], base.a[1] + (('ci', i, False),))
            return fin(p if l == 'index_mut' else some(p))
    if a.op == 'arr' and l == 'get' and len(av) == 2 and is_const(av[1]) and type(cval(av[1])) is int:
        i = cval(av[1])
        return fin(some(a.a[0][i]) if 0 <= i < len(a.a[0]) else NONE)
    if l in ('index', 'get') and len(av) == 2 and '::ops::' in name + str(info) or l == 'get' and a.op == 'arr' and len(av) == 2:
        b = it.undr(st, av[1])
        wrap = some if l == 'get' else lambda v: v
        if b.op in ('agg', 'const', 'unit') and 'RangeFull' in show(b) + str(b.a[0] if b.a else ''):
            return fin(wrap(av[0] if l == 'index' else a))
        if a.op == 'arr' and b.op == 'agg' and 'ops::' in b.a[0] and 'Range' in b.a[0] and all(is_const(x) and type(cval(x)) is int for x in b.a[2]):
            n, k, xs = len(a.a[0]), b.a[0].split('::')[-1].split('<')[0], [cval(x) for x in b.a[2]]
            lo, hi = {'Range': lambda: (xs[0], xs[1]), 'RangeFrom': lambda: (xs[0], n), 'RangeTo': lambda: (0, xs[0]),
                      'RangeToInclusive': lambda: (0, xs[0] + 1)}.get(k, lambda: (None, None))()
            if lo is not None and 0 <= lo <= hi <= n:
                return fin(wrap(mk('arr', a.a[0][lo:hi])))
            if lo is not None and l == 'get':
                return fin(NONE)
        if a.op == 'arr' and l == 'index' and is_const(b) and type(cval(b)) is int and 0 <= cval(b) < len(a.a[0]):
            return fin(a.a[0][cval(b)])
    if l in ('split_at', 'split_off', 'truncate') and len(av) == 2 and is_const(it.undr(st, av[1])) and type(cval(it.undr(st, av[1]))) is int:
        x, i = items(it, st, av[0]), cval(it.undr(st, av[1]))
        if x is not None and l == 'split_at' and i <= len(x):
            return fin(mk('tup', (mk('arr', tuple(x[:i])), mk('arr', tuple(x[i:])))))
        if x is not None and l != 'split_at' and av[0].op == 'ptr' and (i <= len(x) or l == 'truncate'):
            base = target_of(it, st, av[0])
            it.write_addr(st, base.a[0], base.a[1], mk('arr', tuple(x[:i])), evs, loc, fn.id)
            return fin(mk('arr', tuple(x[i:])) if l == 'split_off' else mk('unit'))
    if l == 'count' and len(av) == 1 and a.op == 'it' and a.a[0].op == 'arr':
        return fin(C(len(a.a[0].a[0]) - a.a[1]))
    if l in ('first', 'last') and len(av) == 1 and a.op in ('arr', 'obj') and ('slice' in name or 'Vec' in name):
        x = items(it, st, av[0])
        if x is not None:
            return fin(some(x[0 if l == 'first' else -1]) if x else NONE)
    if l in ('checked_sub', 'checked_add', 'saturating_sub', 'saturating_add', 'wrapping_sub', 'wrapping_add') and len(av) == 2:
        b = it.undr(st, av[1])
        if is_const(a) and is_const(b) and type(cval(a)) is int and type(cval(b)) is int and '::num::' in name:
            n = cval(a) + (cval(b) if l.endswith('add') else -cval(b))
            if l.startswith('checked'):
                return fin(NONE if n < 0 and 'usize' in str(info) + name else some(C(n)))
            if n >= 0:
                return fin(C(n))
            if l.startswith('sat'):
                return fin(C(0))
    if l in ('is_empty', 'len') and len(av) == 1:
        n = textlen(a)
        if a.op == 'obj' and ('ne', a) in st.store:
            n = 1 if cval(st.store[('ne', a)]) else 0
        if n is not None and l == 'is_empty':
            return fin(C(n == 0))
    if a.op == 'map':
        d = dict(a.a[0])
        if l in ('keys', 'into_keys'):
            return fin(seq(K(k) for k in sorted(d)))
        if l in ('values', 'into_values'):
            return fin(seq(d[k] for k in sorted(d)))
        if l in ('iter', 'into_iter'):
            return fin(seq(mk('tup', (K(k), d[k])) for k in sorted(d)))
        if l in ('values_mut', 'iter_mut') and fr_:
            base = target_of(it, st, fr_)
            at = lambda k: mk('ptr', base.a[0], base.a[1] + (('mk', k),))
            return fin(seq(at(k) if l == 'values_mut' else mk('tup', (K(k), at(k))) for k in sorted(d)))
        if l in ('len',):
            return fin(C(len(d)))
        if l == 'is_empty':
            return fin(C(not d))
        if l in ('get', 'contains_key', 'index', 'remove') and len(av) == 2:
            k = key(it, st, av[1])
            if k is not None:
                r = d.get(k)
                if l == 'contains_key':
                    return fin(C(r is not None))
                if l == 'index':
                    return fin(r) if r is not None else None
                if l == 'remove' and av[0].op == 'ptr':
                    d.pop(k, None)
                    it.write_addr(st, av[0].a[0], av[0].a[1], mkmap(d), evs, loc, fn.id)
                return fin(NONE if r is None else some(r))
        if l == 'clear' and len(av) == 1 and fr_:
            base = target_of(it, st, fr_)
            it.write_addr(st, base.a[0], base.a[1], mkmap({}), evs, loc, fn.id)
            return fin(mk('unit'))
        if l == 'get_mut' and len(av) == 2 and fr_:
            k = key(it, st, av[1])
            if k is not None:
                base = target_of(it, st, fr_)
                return fin(some(mk('ptr', base.a[0], base.a[1] + (('mk', k),))) if k in d else NONE)
        if l == 'insert' and len(av) == 3 and av[0].op == 'ptr':
            k = key(it, st, av[1])
            if k is not None:
                r = d.get(k)
                d[k] = it.undr(st, av[2])
                base = target_of(it, st, av[0])
                it.write_addr(st, base.a[0], base.a[1], mkmap(d), evs, loc, fn.id)
                return fin(NONE if r is None else some(r))
    if l in SETS and len(av) == 2 and MAPTY.search(name):
        x, y = items(it, st, av[0]), items(it, st, av[1])
        if x is not None and y is not None:
            kx = {key(it, st, e): e for e in x}
            ky = {key(it, st, e): e for e in y}
            if None not in kx and None not in ky:
                r = {'difference': kx.keys() - ky.keys(), 'intersection': kx.keys() & ky.keys(), 'union': kx.keys() | ky.keys(),
                     'symmetric_difference': kx.keys() ^ ky.keys()}[l]
                return fin(seq(kx.get(k, ky.get(k)) for k in sorted(r)))
    if name == 'std::clone::Clone::clone' and a.op in ('agg', 'map', 'arr') and closed(a):
        return fin(a)
    if l in ('eq', 'ne') and len(av) == 2 and a.op == 'agg':
        b = it.undr(st, av[1])
        while b.op == 'agg' and b.a[0] == a.a[0] and a.a[1] == b.a[1] == 'Some' and len(a.a[2]) == 1:
            a, b = a.a[2][0], b.a[2][0]
        if a is b and closed(a):
            return fin(C(l == 'eq'))
        if a.op == b.op == 'agg' and 'option::Option' in a.a[0] and a.a[1] != b.a[1]:
            return fin(C(l == 'ne'))
        if is_const(a) and is_const(b):
            return fin(C((cval(a) == cval(b)) == (l == 'eq')))
        if a.op != 'agg':
            return None
        if b.op == 'agg' and b.a[0] == a.a[0]:
            f = eq_impl(it, a.a[0])
            if f and f.id != fn.id:
                return it.enter(st, depth, fn, fr, f.id, [a, b], dest, target, evs, 'not' if l == 'ne' else None, loc)
    if l == 'contains' and len(av) == 2:
        x, k = items(it, st, av[0]), key(it, st, av[1])
        if x is not None and k is not None and a.op != 'map':
            ks = [key(it, st, e) for e in x]
            if None not in ks:
                return fin(C(k in ks))
    return None


_eq = {}


def eq_impl(it, ty):
    k = (id(it.F), ty)
    if k not in _eq:
        base = re.sub(r'<.*', '', ty)
        r = [f for f in it.F.fns.values() if f.name == 'eq' and f.trait and re.search(r'cmp::PartialEq(<|$)', f.trait)
             and re.sub(r'<.*', '', f.selfty or '') == base and not f.parent]
        _eq[k] = r[0] if len(r) == 1 else None
    return _eq[k]
