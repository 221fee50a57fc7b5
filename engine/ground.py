"""Refutation by finite instantiation (a sound proof method: it only weakens the hypotheses).

Hypotheses and the negated goal are brought to negation normal form; existentials
are skolemised, universals replaced by the instances at the ground terms that occur
as arguments of the same arrays; the quantifier-free rest goes to the solver.
"""
import itertools
import z3
from sym import *
import sym

LIMIT = 6000


def head(t):
    """(name, number of indices) of a select chain, or of an uninterpreted function application."""
    d = 0
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT:
        d += t.num_args() - 1
        t = t.arg(0)
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return (t.decl().name(), d)
    return None


class Ground:
    def __init__(self, seeds=(), depth=2):
        self.depth = depth
        self.seedids = {s.get_id() for s in seeds}
        self.out = []
        self.univ = []                   # (formula, {instances done})
        self.terms = {}                  # (head, position) -> {id: term}
        self.bysort = {}
        self.seeds = list(seeds)
        self.ab = {}
        self.qmemo = {}
        self.keep = []
        self.seen = set()
        self.n = 0
        for s in seeds:
            self.bysort.setdefault(s.sort().name(), {})[s.get_id()] = s
            self.note(s)

    # -- ground terms
    def note(self, t):
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in self.seen:
                continue
            self.seen.add(x.get_id())
            self.keep.append(x)
            if z3.is_quantifier(x):
                continue
            if not z3.is_app(x):
                continue
            if x.decl().kind() == z3.Z3_OP_SELECT and not sym_var(x):
                h = head(x)
                if h:
                    self.term(h, x.arg(1))
            elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and not sym_var(x):
                for i in range(x.num_args()):
                    self.term((x.decl().name(), 'f', i), x.arg(i))
            stack += x.children()

    def term(self, h, t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            self.term(h, t.arg(1))
            self.term(h, t.arg(2))
        else:
            self.terms.setdefault(h, {})[t.get_id()] = t

    def add(self, f):
        f = self.nnf(f, True)
        if z3.is_true(f):
            return
        self.out.append(f)
        self.note(f)

    def atom(self, t):
        """quantifiers inside terms are named by Boolean constants."""
        if not has_q(t):
            return t
        m = {}

        def go(x):
            if x.get_id() in m:
                return m[x.get_id()][1]
            if z3.is_quantifier(x):
                if x.is_lambda():
                    r = z3.Const(fresh_name('lam'), x.sort())
                else:
                    r = self.name(x)
            elif has_q(x) and x.num_args():
                r = x.decl()(*[go(c) for c in x.children()])
            else:
                r = x
            m[x.get_id()] = (x, r)
            return r
        return go(t)

    def name(self, q):
        if q.get_id() not in self.ab:
            b = z3.Const(fresh_name('qb'), BoolS)
            self.ab[q.get_id()] = (q, b)
            self.pending = getattr(self, 'pending', [])
            self.pending.append((q, b))
        return self.ab[q.get_id()][1]

    def nnf(self, t, pos):
        if not has_q(t):
            return t if pos else z3.Not(t)
        if z3.is_quantifier(t) and not t.is_lambda():
            if (t.get_id(), pos) in self.qmemo:
                return self.qmemo[t.get_id(), pos]
            self.keep.append(t)
            self.qmemo[t.get_id(), pos] = r = self.quant(t, pos)
            return r
        if z3.is_not(t):
            return self.nnf(t.arg(0), not pos)
        return self.nnf2(t, pos)

    def quant(self, t, pos):
            if t.is_forall() == pos:
                u = z3.Const(fresh_name('qf'), BoolS)      # stands for the universal: implies each instance
                self.univ.append((t, pos, u, set()))
                return u
            cs = [fresh('sk', t.var_sort(i)) for i in range(t.num_vars())]
            for c in cs:
                self.bysort.setdefault(c.sort().name(), {})[c.get_id()] = c
            b = norm(z3.substitute_vars(t.body(), *reversed(cs)))
            f = self.nnf(b, pos)
            e = z3.Const(fresh_name('qe'), BoolS)
            self.out.append(z3.Or(z3.Not(e), f))
            self.note(f)
            return e

    def nnf2(self, t, pos):
        if z3.is_and(t) or z3.is_or(t):
            cs = [self.nnf(c, pos) for c in t.children()]
            return z3.And(*cs) if z3.is_and(t) == pos else z3.Or(*cs)
        if z3.is_implies(t):
            a, b = self.nnf(t.arg(0), not pos), self.nnf(t.arg(1), pos)
            return z3.Or(a, b) if pos else z3.And(a, b)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.sort() == BoolS:
            c, a, b = t.children()
            return z3.And(z3.Or(self.nnf(c, False), self.nnf(a, pos)), z3.Or(self.nnf(c, True), self.nnf(b, pos)))
        if z3.is_eq(t) and t.arg(0).sort() == BoolS:
            a, b = t.arg(0), t.arg(1)
            if pos:
                return z3.And(z3.Or(self.nnf(a, False), self.nnf(b, True)), z3.Or(self.nnf(a, True), self.nnf(b, False)))
            return z3.And(z3.Or(self.nnf(a, True), self.nnf(b, True)), z3.Or(self.nnf(a, False), self.nnf(b, False)))
        r = self.atom(t)
        return r if pos else z3.Not(r)

    def flush(self):
        while getattr(self, 'pending', []):
            q, b = self.pending.pop()
            self.out.append(z3.Or(z3.Not(b), self.nnf(q, True)))
            self.out.append(z3.Or(b, self.nnf(q, False)))
            for f in self.out[-2:]:
                self.note(f)

    # -- instances
    def cands(self, t):
        """candidate terms for each bound variable, from the positions it occurs at."""
        n = t.num_vars()
        occ = [set() for _ in range(n)]

        def go(x, d):
            if z3.is_quantifier(x):
                go(x.body(), d + x.num_vars())
                return
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_SELECT:
                    v = x.arg(1)
                    if z3.is_var(v):
                        i = z3.get_var_index(v) - d
                        if 0 <= i < n:
                            h = head(x)
                            if h:
                                occ[n - 1 - i].add(h)
                elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    for p, v in enumerate(x.children()):
                        if z3.is_var(v):
                            i = z3.get_var_index(v) - d
                            if 0 <= i < n:
                                occ[n - 1 - i].add((x.decl().name(), 'f', p))
                for c in x.children():
                    go(c, d)
        go(t.body(), 0)
        r = []
        for i in range(n):
            so = t.var_sort(i)
            c = {}
            for h in occ[i]:
                c.update({k: x for k, x in self.terms.get(h, {}).items() if x.sort() == so})
            c.update(self.bysort.get(so.name(), {}))
            r.append([x for x in c.values() if x.get_id() in self.seedids or nest(x) < self.depth])
        return r

    def round(self):
        grew = False
        snap = [(t, pos, u, done, self.cands(t)) for t, pos, u, done in self.univ]
        for t, pos, u, done, cs in snap:
            tot = 1
            for c in cs:
                tot *= max(len(c), 1)
            if tot > 400:
                cs = [c[:max(2, int(400 ** (1 / len(cs))))] for c in cs]
            for c in itertools.product(*cs):
                key = tuple(x.get_id() for x in c)
                if key in done:
                    continue
                done.add(key)
                self.keep += c
                self.n += 1
                if self.n > LIMIT:
                    return False
                b = norm(z3.substitute_vars(t.body(), *reversed(c)))
                f = z3.Or(z3.Not(u), self.nnf(b, pos))
                self.out.append(f)
                self.note(f)
                grew = True
            self.flush()
        return grew


def has_q(t, memo={}):
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    r = z3.is_quantifier(t) or (z3.is_app(t) and any(has_q(c) for c in t.children()))
    memo[k] = (t, r)
    return r


def nest(t):
    """depth of array reads in an index term."""
    if not z3.is_app(t) or not t.num_args():
        return 0
    return max(nest(c) for c in t.children()) + (1 if t.decl().kind() == z3.Z3_OP_SELECT and z3.is_const(t.arg(0)) else 0)


def sym_var(t, memo={}):
    """does t contain a bound variable (out of scope)?"""
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_var(t):
        r = True
    elif z3.is_quantifier(t):
        r = False
    else:
        r = any(sym_var(c) for c in t.children())
    memo[k] = (t, r)
    return r


def refute(hyps, goal, seeds=(), rounds=3, timeout=10000, lemmas=(), depth=2):
    """True when hyps and not goal are contradictory by finite instantiation."""
    g = Ground(seeds, depth)
    g.add(z3.Not(goal))
    g.flush()
    for h in list(hyps) + list(lemmas):
        g.add(h)
        g.flush()
    for r in range(rounds):
        so = z3.Solver()
        so.set('timeout', timeout)
        so.add(*g.out)
        k = so.check()
        if k == z3.unsat:
            return True
        if not g.round():
            break
    so = z3.Solver()
    so.set('timeout', timeout)
    so.add(*g.out)
    return so.check() == z3.unsat
