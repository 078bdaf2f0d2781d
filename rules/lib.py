"""Shared context of the rules: facts, entry points, cached graphs, findings and obligations."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from facts import Facts
import interp
from interp import Interp, Limit, V, mk, C, agg, show, contains_op, subterms, is_const, cval, some, NONE, TRUE, FALSE
from auto import (NFA, DFA, T, Y, Q, A, STAR, OPTIONAL, PLUS, SEP, EPS, regex, symseq, EACH, project, canon, Text, squeeze,
                  word, lit)

CORE = 'butane_core'


class Missing(Exception):
    pass


class Ctx:
    def __init__(self, outdir, pid, tier='quick'):
        self.pid, self.tier, self.dir = pid, tier, outdir
        self.F = Facts()
        for c in ('models', 'butane_core', 'butane', 'butane_cli', 'butane_bin', 'butane_codegen', 'butane_witness'):
            p = os.path.join(outdir, c + '.json')
            if os.path.exists(p):
                self.F.load(p)
        self.graphs = {}
        self.obs = []          # (key, ok, message, loc)
        self.notes = []
        self.analysed = set()

    @classmethod
    def fork(cls, cx):
        """Context sharing the facts, with its own obligations."""
        c = cls.__new__(cls)
        c.pid, c.tier, c.F, c.dir = cx.pid, cx.tier, cx.F, cx.dir
        c.graphs, c.obs, c.notes, c.analysed = {}, [], [], set()
        return c

    # ------------------------------------------------------------ verdicts
    def ob(self, key, okay, msg='', loc=''):
        """One proof obligation; key is stable across runs (used by known findings)."""
        self.obs.append((key, bool(okay), msg, loc))
        return bool(okay)

    def fail(self, key, msg, loc=''):
        return self.ob(key, False, msg, loc)

    def note(self, s):
        self.notes.append(s)

    # ------------------------------------------------------------ lookup
    def impls(self, trait, method, selfty=None, crate=None):
        """Methods of impls of the trait (last path segment), filtered by self type (regex)."""
        out = []
        for f in self.F.fns.values():
            if f.name != method or not f.trait or f.kind not in ('Fn', 'AssocFn', 'Method'):
                if f.name != method or not f.trait:
                    continue
            if f.trait.split('<')[0].rsplit('::', 1)[-1] != trait:
                continue
            if crate and f.crate != crate:
                continue
            if selfty and not re.search(selfty, f.selfty or ''):
                continue
            out.append(f)
        return out

    def impl(self, trait, method, selfty):
        r = self.impls(trait, method, selfty)
        if len(r) != 1:
            raise Missing(f'{len(r)} implementations of {trait}::{method} for /{selfty}/')
        return r[0]

    def inherent(self, selfty, method, crate=None):
        r = [f for f in self.F.fns.values() if f.name == method and not f.trait and f.selfty and re.search(selfty, f.selfty)
             and (crate is None or f.crate == crate) and not f.parent]
        if len(r) != 1:
            raise Missing(f'{len(r)} methods {method} of /{selfty}/')
        return r[0]

    def fn(self, path):
        f = self.F.find(path)
        if not f:
            raise Missing(f'function {path}')
        return f

    def witness(self):
        """The facts must contain the witness program."""
        if 'butane_witness' not in self.F.crates:
            raise Missing('the program in /verif/witness that uses the macros does not compile any more')

    def provided(self, trait, method, crate=CORE):
        """Default method body of a trait."""
        r = [f for f in self.F.fns.values() if f.name == method and f.intrait and f.intrait.rsplit('::', 1)[-1].split('<')[0] == trait
             and f.crate == crate]
        if len(r) != 1:
            raise Missing(f'{len(r)} default methods {trait}::{method}')
        return r[0]

    # ------------------------------------------------------------ graphs
    def graph(self, fn, args=None, opaque=None, key=None, max_nodes=20000, hook=None, **kw):
        k = (fn.id, tuple(args) if args is not None else None, key)
        if key is not None or (opaque is None and hook is None):
            if k in self.graphs:
                return self.graphs[k]
        it = Interp(self.F, opaque=opaque, max_nodes=max_nodes, hook=hook, **kw)
        g = it.run(fn.id, list(args) if args is not None else None)
        g.fn = fn
        g.interp = it
        self.analysed |= g.inlined
        if key is not None or (opaque is None and hook is None):
            self.graphs[k] = g
        return g

    def calls(self, g, pred):
        for s, i, e, d in g.events():
            if e.k in ('call', 'diverge') and pred(e):
                yield s, i, e


def cname(e):
    """Name of the called function of a call event ('dyn' for calls through values)."""
    n = e.a[0]
    return n if isinstance(n, str) else 'dyn'


def last(n):
    return n.rsplit('::', 1)[-1]


def short_ty(t):
    return re.sub(r'\b(?:\w+::)+', '', t or '')


def fnlabel(f):
    """Human readable, stable name of a function for keys."""
    p = f.path
    return re.sub(r'\b(?:[a-z_0-9]+::)+(?=[A-Z(<])', '', p).replace('butane_core::', '')


def where(fn, org):
    return org or fn.span


def origin(w, o):
    for x in reversed(o or []):
        if x:
            return x
    return ''
