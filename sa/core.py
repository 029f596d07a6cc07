"""Rule context: path access with memo, obligations, findings."""
import os
from .model import Program, AnalysisBroken, Func, Class
from .interp import Interp, TooManyPaths
from .types import Types
from .terms import *

HERE = os.path.dirname(os.path.abspath(__file__))


def known_functions():
    p = os.path.join(HERE, 'known_functions.txt')
    with open(p) as f:
        return set(l.strip() for l in f if l.strip())


def KEEP_ALL(e):
    return True


class Finding(object):
    def __init__(self, rule, construct, where, msg, path=None):
        self.rule, self.construct, self.where, self.msg, self.path = rule, construct, where, msg, path

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)


class Ctx(object):
    def __init__(self, prog=None, tier='quick', known=None):
        self.prog = prog or Program()
        self.types = Types(self.prog)
        self.tier = tier
        self.known = known_functions() if known is None else known
        self.findings = []
        self.done = []          # (rule, construct)
        self.undecided = []     # (rule, construct, reason)
        self.memo = {}
        self.npaths = 0
        self.funcs = set()
        self.callsites = 0

    # -- results -------------------------------------------------------------
    def ok(self, rule, construct):
        self.done.append((rule, construct))

    def bad(self, rule, construct, where, msg, path=None):
        for f in self.findings:
            if f.rule == rule and f.construct == construct:
                return
        self.findings.append(Finding(rule, construct, where, msg, path))

    def unk(self, rule, construct, reason):
        if (rule, construct, reason) not in self.undecided:
            self.undecided.append((rule, construct, reason))

    def check(self, cond, rule, construct, where, msg, path=None):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, where, msg, path)
        return cond

    def need(self, what, n, minimum):
        """An instance count below what was confirmed by hand means the analysis lost its
        subject; a vacuous pass is not a pass."""
        if n < minimum:
            raise AnalysisBroken('%s: %d instances found, expected at least %d' % (what, n, minimum))

    # -- paths ----------------------------------------------------------------
    def policy(self, inline):
        names = set(inline)
        known = self.known
        star = '*' in names

        def f(func, depth):
            if depth > 9:
                return False
            if func.qual not in known:
                return True          # a helper this analysis has never seen is looked into
            if star and ('-' + func.name) not in names and ('-' + func.qual) not in names:
                return True
            return func.name in names or func.qual in names
        return f

    def paths(self, q, inline=(), unroll=1, args=None, keep=None, facts=None, heap=None, selfcls=None,
              calls_raise=False, raises=True, max_states=6000, keep_key=None, getitem=False, assume=False, kind=None):
        if assume and keep is None:
            keep, keep_key = KEEP_ALL, 'all'
        f = self.prog.func(q) if isinstance(q, str) else q
        key = (f.qual, selfcls.name if selfcls else None, tuple(sorted(inline)), unroll,
               repr(args), keep_key or id(keep) if keep else None, repr(facts), repr(heap), calls_raise, raises, getitem, kind.name if kind else None)
        if key in self.memo:
            return self.memo[key]
        tries = [tuple(inline)]
        if inline:
            tries.append(())
        last = None
        for inl in tries:
            it = Interp(self.prog, self.types, inline=self.policy(inl), unroll=unroll, keep=keep,
                        calls_raise=calls_raise, raises=raises, max_states=max_states)
            it.keep_getitem = getitem
            it.kind = kind
            try:
                res = it.run(f, args=args, selfcls=selfcls, heap=heap, facts=facts)
                break
            except TooManyPaths as e:
                last = e
        else:
            if unroll > 1:
                res = self.paths(f, (), 1, args, keep, facts, heap, selfcls, calls_raise, raises, max_states, keep_key, getitem, False, kind)
            else:
                raise AnalysisBroken('too many paths: %s' % last)
        self.memo[key] = res
        self.npaths += len(res)
        self.funcs |= it.visited_funcs
        return res

    def sources_walk(self):
        """every function of the package"""
        return self.prog.funcs

    # -- unfolding utility functions in a term -----------------------------------
    def unfold(self, t, modules=('utils',)):
        """Replace calls of one-path pure functions of `modules` in a term by their result."""
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
            if isinstance(t, tuple):
                return tuple(self.unfold(x, modules) if isinstance(x, tuple) else x for x in t)
            return t
        if t[0] in ('c', 'p'):
            return t
        t = tuple(self.unfold(x, modules) if isinstance(x, tuple) else x for x in t)
        if t[0] == 'call' and t[1][0] == 'g':
            r = self.types.global_obj(t[1][1], self.prog)
            if isinstance(r, Func) and r.module.name in modules and r.cls is None:
                try:
                    ps = self.paths(r, args=dict(zip(r.params, t[2])))
                except AnalysisBroken:
                    return t
                ps = [p for p in ps if not p.raised]
                if len(ps) == 1:
                    return ps[0].ret
        return t


def self_of(f):
    return ('p', f.params[0]) if f.params else None
