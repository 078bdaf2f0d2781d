"""Loading of the compiler facts written by /verif/driver."""
import json, os, re


def strip_generics(p):
    """`std::option::Option::<T>::take` -> `std::option::Option::take` (leading `<X as Y>` kept)."""
    out, i, n = [], 0, len(p)
    while i < n:
        if p.startswith('::<', i):
            depth, j = 0, i + 2
            while j < n:
                if p[j] == '<':
                    depth += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


class Fn:
    __slots__ = ('id', 'path', 'kind', 'argc', 'span', 'parent', 'upvars', 'coroutine', 'is_async', 'pub', 'reach',
                 'name', 'intrait', 'selfty', 'trait', 'derived', 'locals', 'blocks', 'crate', 'types', 'tinfo',
                 'generics', '_live', '_addr')

    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else '?'

    def local_ty(self, l):
        return self.types[self.locals[l][0]]

    def local_name(self, l):
        x = self.locals[l]
        return x[1] if len(x) > 1 else None

    def file(self):
        return self.span.rsplit(':', 1)[0]

    def __repr__(self):
        return f'<{self.path}>'


class Facts:
    def __init__(self):
        self.fns, self.adts, self.impls, self.traits = {}, {}, [], {}
        self.crates = []
        self.by_path = {}
        self.adt_by_path = {}

    def load(self, path):
        d = json.load(open(path))
        c = d['crate']
        self.crates.append(c)
        T, TI = d['types'], d['tinfo']
        for a in d['adts']:
            a['types'] = T
            old = self.adts.get(a['id'])
            if old is None or a['id'].startswith(c + '::'):
                self.adts[a['id']] = a
                self.adt_by_path[a['path']] = a
        for im in d['impls']:
            im['selfty'] = T[im['self']]
            im['crate'] = c
            self.impls.append(im)
        for t in d['traits']:
            self.traits[t['id']] = t
        for f in d['fns']:
            x = Fn()
            x.id, x.path, x.kind, x.argc, x.span = f['id'], f['path'], f['kind'], f['argc'], f['span']
            x.parent, x.upvars = f.get('parent'), f.get('upvars')
            x.coroutine, x.is_async = f.get('coroutine', False), f.get('async', False)
            x.pub, x.reach, x.name = f.get('pub', False), f.get('reach', False), f.get('name')
            x.intrait, x.trait, x.derived = f.get('intrait'), f.get('trait'), f.get('derived', False)
            x.generics = f.get('generics', [])
            x.selfty = T[f['self']] if 'self' in f else None
            x.locals, x.blocks, x.crate, x.types, x.tinfo = f['locals'], f['blocks'], c, T, TI
            x._live = x._addr = None
            self.fns[x.id] = x
            self.by_path.setdefault(x.path, x)
        return self

    def variant_by_discr(self, adtid, val):
        a = self.adts.get(adtid)
        if not a:
            return None
        for v in a['variants']:
            if v[1] == val:
                return v[0]
        return None

    def find(self, path):
        """Body by display path (generics ignored)."""
        f = self.by_path.get(path)
        if f:
            return f
        s = strip_generics(path)
        for p, f in self.by_path.items():
            if strip_generics(p) == s:
                return f
        return None

    def children(self, fid):
        return [f for f in self.fns.values() if f.parent == fid]

    def family(self, fid):
        """A body and every closure/async block nested in it."""
        out, todo = [], [fid]
        while todo:
            x = todo.pop()
            if x in self.fns:
                out.append(self.fns[x])
            todo += [f.id for f in self.children(x)]
        return out
