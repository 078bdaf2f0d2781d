"""P23: the migration that is being recorded on disk is read and written one process at a time."""
from lib import *
from adapt import holding, places, succs
from flow import paths, is_err, strip
import re

GUARD = 'MigrationLock'
STRONG = {'lock_exclusive', 'lock'}
WEAK = {'lock_shared'}
ROOTS = {'add_type': 'exclusive', 'add_modified_table': 'exclusive', 'db': 'shared'}
READS, WRITES = {'read', 'list_dir', 'open', 'read_dir', 'read_to_string'}, {'write', 'delete', 'create', 'rename', 'remove_file', 'copy'}


def need(ok, what):
    if not ok:
        raise Missing(what)


def contains(v, x):
    return any(y is x for y in subterms(v))


def roots(cx):
    out = {}
    for f in cx.F.fns.values():
        if f.name in ROOTS and f.trait and last(f.trait.split('<')[0]) in ('Migration', 'MigrationMut') and last((f.selfty or '').split('<')[0]) == 'FsMigration':
            out[f.name] = f
    for n in ROOTS:
        need(n in out, f'FsMigration::{n}')
    return out


def calls(f):
    for i, b in enumerate(f.blocks):
        t = b[1]
        if t[0] == 'call' and t[1][0] == 'fn' and len(t[1]) > 2:
            yield i, t, t[1][2]


def target(F, i):
    return F.fns.get(i.get('r') or i['d']) or F.fns.get(i['d'])


def lockers(F):
    """How each function that locks does it: by the calls to the operating system's locks it makes, directly or through others."""
    direct = {}
    for f in F.fns.values():
        s = set()
        for _, t, i in calls(f):
            n = last(i['d'])
            if ('fs2' in i['d'] or i['d'].startswith('std::fs')) and n in STRONG | WEAK | {'try_lock_exclusive', 'try_lock_shared', 'try_lock'}:
                s.add(n)
        if s:
            direct[f.id] = s
    changed = True
    while changed:
        changed = False
        for f in F.fns.values():
            for _, t, i in calls(f):
                g = target(F, i)
                if g and g.id in direct and GUARD in f.local_ty(0) and not direct[g.id] <= direct.get(f.id, set()):
                    direct.setdefault(f.id, set()).update(direct[g.id])
                    changed = True
    return direct


def mode(F, locks, f):
    """The weakest way in which f itself takes the lock."""
    how = set()
    for _, t, i in calls(f):
        g = target(F, i)
        if g and g.id in locks and GUARD in f.local_ty(t[3][0]):
            how |= locks[g.id]
    return 'exclusive' if how and how <= STRONG else 'shared' if how and how <= STRONG | WEAK else None


def access(i):
    n = last(i['d'])
    owner = i['d'].rsplit('::', 1)[0]
    if (i.get('tr') or owner).endswith('Filesystem') or owner.startswith('std::fs'):
        return 'write' if n in WRITES else 'read' if n in READS else None


def unlocked(F, locks, f, guards, memo):
    """The accesses of f, and of what it calls, and the strength of the lock that is held there: {(kind, where, held)}."""
    if f.id in memo:
        return memo[f.id]
    memo[f.id] = set()
    mine = [l for l in range(1, len(f.locals)) if guards(f.local_ty(l))]
    at = holding(f, mine) if mine else [frozenset()] * len(f.blocks)
    m = mode(F, locks, f)
    closures = {}
    for b in f.blocks:
        for s in b[0]:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure' and len(s[1]) == 1:
                closures[s[1][0]] = F.fns.get(s[2][1][1])
    out = set()

    def inside(found, held):
        for k, w, h in found:
            out.add((k, w, h or held))
    used = set()
    for i, t, info in calls(f):
        held = m if at[i] else None
        k = access(info)
        if k:
            out.add((k, f'{f.id}: {last(info["d"])} ({t[5]})', held))
            continue
        g = target(F, info)
        if g and g.id in locks and GUARD in f.local_ty(t[3][0]):
            out.add(('lock', f'{f.id}: {last(info["d"])} ({t[5]})', held))
            continue
        if g and g.crate == 'butane_core' and 'migrations' in g.id and g is not f:
            inside(unlocked(F, locks, g, guards, memo), held)
        for l in list(places(t[2], 'mv')) + list(places(t[2], 'cp')):
            c = closures.get(l)
            if c:
                used.add(l)
                there = held
                if g and g.crate == 'butane_core':
                    there = held or within(F, locks, g, guards)
                inside(unlocked(F, locks, c, guards, memo), there)
    for l, c in closures.items():
        if c and l not in used:
            inside(unlocked(F, locks, c, guards, memo), None)
    memo[f.id] = out
    return out


def within(F, locks, g, guards):
    """The lock that g holds whenever it calls the function it was given."""
    mine = [l for l in range(1, len(g.locals)) if guards(g.local_ty(l))]
    at = holding(g, mine) if mine else [frozenset()] * len(g.blocks)
    ok = [bool(at[i]) for i, t, info in calls(g) if last(info['d']) in ('call', 'call_mut', 'call_once')]
    return mode(F, locks, g) if ok and all(ok) else None


def check_held(cx):
    F = cx.F
    locks = lockers(F)
    need(locks, 'the functions that lock a migration')
    guards = lambda ty: re.fullmatch(r'(std::boxed::Box<)?[\w:]*' + GUARD + r'>?', ty) is not None
    n = 0
    for name, f in roots(cx).items():
        memo = {}
        for k, w, held in sorted(unlocked(F, locks, f, guards, memo), key=str):
            n += 1
            if k == 'lock':
                cx.ob(f'{name}.nested', held is None, f'FsMigration::{name} takes the lock of a migration while it holds it: {w}', f.span)
                continue
            ok = held == 'exclusive' or k == 'read' and held == 'shared'
            cx.ob(f'{name}.{k}', ok, f'FsMigration::{name} {k}s ' + (f'with only a {held} lock' if held else 'without the lock') + f': {w}', f.span)
        kinds = {k for k, _, _ in unlocked(F, locks, f, guards, memo)}
        cx.ob(f'{name}.seen', 'lock' in kinds and ('write' if ROOTS[name] == 'exclusive' else 'read') in kinds, f'FsMigration::{name} does {sorted(kinds)}', f.span)
    cx.note(f'{n} accesses')


def check_lock(cx):
    """All lock the same file of the migration, which stays open as long as the guard."""
    F = cx.F
    files = {}
    for name, f in roots(cx).items():
        g = cx.graph(f, args=[mk('p', 'me')] + [mk('p', f'a{i}') for i in range(1, f.argc)], opaque=lambda n, i, d: d in F.fns and last(n) in ('ensure_dir', 'write_contents', 'info', 'replace_table', 'resolve_types', 'new') and
                     GUARD not in F.fns[d].local_ty(0), key=('locks',), widen=60)
        opened, locked = {}, set()
        for s, i, e, d in g.events():
            if e.k != 'call' or not isinstance(e.a[0], str):
                continue
            l = last(e.a[0])
            if l == 'open' and len(e.a[1]) == 2:
                opened[e.a[2]] = show(e.a[1][1], 8)
            if l in STRONG | WEAK and ('fs2' in e.a[0] or 'fs::File' in e.a[0]):
                locked.add(e.a[1][0])
        cx.ob(f'{name}.locks', locked, f'FsMigration::{name} locks nothing', f.span)
        for x in locked:
            p = [v for o, v in opened.items() if any(y is o for y in subterms(x))]
            cx.ob(f'{name}.opened', p, f'FsMigration::{name} locks {show(x, 5)}', f.span)
            for q in p:
                files[q] = name
    cx.ob('file', len(files) == 1, f'different files are locked: {files}')
    for f in F.fns.values():
        for i, t, info in calls(f):
            if last(info['d']) == 'unlock' and 'fs2' in info['d']:
                cx.ob('unlock', f.trait and last(f.trait) == 'Drop' and GUARD in (f.selfty or ''), f'{f.id} unlocks', t[5])
    for f in F.fns.values():
        if f.crate == 'butane_core' and f.kind in ('Fn', 'AssocFn', 'Method') and GUARD in f.local_ty(0) and any(last(i['d']) in STRONG | WEAK for _, _, i in calls(f)):
            for evs, v in paths(cx.graph(f), full=True):
                if is_err(v):
                    continue
                lk = [e.a[1][0] for e in evs if e.k == 'call' and isinstance(e.a[0], str) and last(e.a[0]) in STRONG | WEAK]
                cx.ob('kept', all(contains(v, strip(x)) for x in lk) and lk, f'{f.id} gives {show(v, 5)} and locks {[show(x, 5) for x in lk]}', f.span)
