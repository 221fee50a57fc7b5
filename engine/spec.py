"""Specification sessions: run real functions symbolically, state obligations."""
import re
import time
import traceback
import z3
from sym import *
import sym
import exec as X
from exec import Exec, State, Loc, Val, PtrTo
import discharge as D
import ground as GR

NS = 'printemps::'
ID = '<int, double>'


class Missing(Exception):
    """a function or field the specification talks about is not there (rename etc.)."""


class Contract:
    """base class for contracts used at call sites instead of the body."""
    name = ''
    assumed = None          # reason when the contract is not itself discharged here

    def matches(self, fn, ex):
        return True


class Ind:
    """a fact proved by induction: .all (quantified) or .at(term) (one instance)."""

    def __init__(self, ok, f):
        q = fresh('q', IntS)
        self.all = Forall(q, f(q)) if ok else T
        self.at = f if ok else (lambda q: T)


class Session:
    def __init__(self, ir, unit):
        self.ir = ir
        self.unit = unit
        self.ex = Exec(ir)
        self.results = []        # dicts
        self.assumptions = []    # unchecked assumptions used
        self.fns = set()
        self.hyp = []
        self.default_timeout = 20000
        self._st0 = State()

    # -- lookup -------------------------------------------------------------
    def cls(self, n):
        """type id of a class by unqualified-ish name (template <int,double>)."""
        full = n if n.startswith(NS) else NS + n
        for t, o in self.ir.types.items():
            if o['k'] == 'rec' and self.ir.short(o) == full and 'f' in o:
                return t
        raise Missing('class ' + n)

    def fn(self, name, npar=None, pred=None, params=None):
        full = name if name.startswith(NS) else NS + name
        c = self.ir.find(full, npar, pred)
        if params is not None:
            c = [f for f in c if len(f['ps']) == len(params) and all(p in self.ir.types[x['t']]['s'] for p, x in zip(params, f['ps']))]
        if not c:
            raise Missing('function ' + name)
        if len(c) > 1:
            raise Missing('function %s is ambiguous (%d)' % (name, len(c)))
        return c[0]

    def use(self, name, contract):
        full = name if name.startswith(NS) else NS + name
        self.ex.contracts.setdefault(full, []).append(contract)
        if contract.assumed:
            self.assumptions.append('contract of %s assumed: %s' % (name, contract.assumed))
        if contract.name == '':
            contract.name = name

    # -- objects ------------------------------------------------------------
    def ref(self, n):
        return z3.Const(n, Ref)

    def ent(self, cls, ref):
        return Loc(self.cls(cls), 'H:' + cls.split('::')[-1], '', [ref])

    def obj(self, cls, root):
        return Loc(self.cls(cls), root, '', [])

    def leaf(self, t, path):
        for p, ks, s in self.ex.leaves(t):
            if p == path:
                return ks, s
        raise Missing('field %s of %s' % (path, self.ir.types[t]['n']))

    def get(self, st, loc, path):
        ks, s = self.leaf(loc.t, path)
        return self.ex.rd(st, loc.root, loc.path + path, loc.idx, ks, s)

    def put(self, st, loc, path, v):
        ks, s = self.leaf(loc.t, path)
        self.ex.wr(st, loc.root, loc.path + path, loc.idx, v, ks, s)

    def symval(self, st, t, root):
        return self.ex.load(st, Loc(t, root, '', []))

    def state(self):
        return State()

    def enum(self, name, c):
        """value of an enumerator."""
        for o in self.ir.types.values():
            if o['k'] == 'enum' and o.get('n') == NS + name:
                if c in o.get('en', {}):
                    return o['en'][c]
        raise Missing('enumerator %s::%s' % (name, c))

    # -- execution -----------------------------------------------------------
    def call(self, st, fn, this=None, args=(), top=True):
        """run fn on st (mutated); returns value; records throws."""
        self.fns.add(fn['key'])
        e = self.ex
        e.assume = self.hyp
        n = len(e.throws)
        v = e.call_body(st, fn, this, list(args), ctor=this if fn.get('ctor') else None)
        self.last_throws = e.throws[n:]
        if isinstance(v, Loc) and self.ir.types[fn['rt']]['k'] != 'ref':
            v = e.load(st, v)
        return v

    def getter(self, st, name, this, npar=0):
        """value of a const accessor in state st (st unchanged)."""
        s2 = st.copy()
        f = self.fn(name, npar, pred=None) if len(self.ir.find(NS + name, npar)) == 1 else \
            [x for x in self.ir.find(NS + name, npar)][0]
        v = self.ex.call_body(s2, f, this, [])
        return self.ex.load(s2, v)

    # -- obligations -----------------------------------------------------------
    def assume(self, *fs):
        self.hyp += [f for f in fs]

    def ob(self, name, goal, st=None, lemmas=(), extra=(), timeout=None, auto=True, ground=None, rounds=3, depth=2):
        hy = list(self.hyp) + list(self.ex.facts) + list(self.ex.facts_global) + list(extra)
        if st is not None:
            hy += st.pc
        t0 = time.time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        goals = list(goal.children()) if z3.is_and(goal) else [goal]
        worst, info = 'proved', ''
        order = {'proved': 0, 'timeout': 1, 'unknown': 2, 'refuted': 3}
        for g in goals:
            if ground is not None and (D.solve(hy, g, lemmas, 2000, False)[0] == 'proved' or GR.refute(hy, g, ground, rounds, lemmas=lemmas, depth=depth)):
                continue
            r, i = D.solve(hy, g, lemmas, timeout or self.default_timeout, auto)
            if order[r] > order[worst]:
                worst, info = r, '%s: %s' % (str(i)[:300], str(g)[:1500])
        self.results.append({'name': self.unit + '/' + name, 'result': worst, 'info': info, 's': round(time.time() - t0, 2),
                             'lossy': len(self.ex.lossy)})
        return worst == 'proved'

    def resolve(self, t, st=None):
        """t with the conditions decided by the (quantifier-free) hypotheses replaced: an equal term under them."""
        so = z3.Solver()
        so.set('timeout', 500)
        so.add(*[h for h in list(self.hyp) + (st.pc if st is not None else []) if not GR.has_q(h)])
        memo, dec = {}, {}

        def cond(c):
            k = c.get_id()
            if k not in dec:
                r = None
                if not GR.has_q(c):
                    for v in (True, False):
                        so.push()
                        so.add(z3.Not(c) if v else c)
                        if so.check() == z3.unsat:
                            r = v
                        so.pop()
                        if r is not None:
                            break
                dec[k] = (r, c)
            return dec[k][0]

        def go(x):
            k = x.get_id()
            if k not in memo:
                if z3.is_quantifier(x) or x.num_args() == 0:
                    r = x
                elif is_ite(x) and cond(x.arg(0)) is not None:
                    r = go(x.arg(1) if cond(x.arg(0)) else x.arg(2))
                else:
                    ch = [go(c) for c in x.children()]
                    r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else rebuild(x, ch)
                memo[k] = (r, x)
            return memo[k][0]
        return go(t)

    def lemma(self, name, lem, st=None, extra=(), timeout=None):
        """proves the antecedent of a sum lemma as an obligation of its own; returns its conclusion."""
        if lem is None:
            return T
        if lem.get_id() not in D.LEM:
            return lem
        _, ante, concl = D.LEM[lem.get_id()]
        return concl if self.ob(name, ante, st, extra=extra, timeout=timeout, auto=False) else T

    def pure(self, name, hyps, goal, timeout=None):
        """a lemma over the given hypotheses only (no hypotheses of the session)."""
        t0 = time.time()
        goals = list(goal.children()) if z3.is_and(goal) else [goal]
        worst, info = 'proved', ''
        order = {'proved': 0, 'timeout': 1, 'unknown': 2, 'refuted': 3}
        for g in goals:
            r, i = D.solve(list(hyps), g, (), timeout or self.default_timeout, False)
            if order[r] > order[worst]:
                worst, info = r, '%s: %s' % (str(i)[:300], str(g)[:1500])
        self.results.append({'name': self.unit + '/' + name, 'result': worst, 'info': info, 's': round(time.time() - t0, 2), 'lossy': len(self.ex.lossy)})
        return worst == 'proved'

    def induct(self, name, P, hi, st=None, lemmas=(), extra=(), timeout=None, lo=None, upto=True):
        """proves P(lo) and lo <= q < hi, P(q) => P(q+1); returns: P(q) for lo <= q <= hi."""
        lo = z3.IntVal(0) if lo is None else lo
        q = fresh('q', IntS)
        a = self.ob(name + ' (at the start)', P(lo), st, lemmas=lemmas, extra=extra, timeout=timeout, auto=False)
        b = self.ob(name + ' (kept by an iteration)', Implies(And(Not(q < lo), q < hi, P(q)), P(Add(q, z3.IntVal(1)))), st, lemmas=lemmas, extra=extra, timeout=timeout, auto=False)
        return Ind(a and b, lambda q: Implies(And(Not(q < lo), Not(hi < q)), P(q)))

    def strong(self, name, P, hi, st=None, lemmas=(), extra=(), timeout=None):
        """complete induction: (P(r) for 0 <= r < q) => P(q), for 0 <= q < hi."""
        q, r = fresh('q', IntS), fresh('q', IntS)
        ih = Forall(r, Implies(And(Not(r < 0), r < q), P(r)))
        if not self.ob(name + ' (complete induction)', Implies(And(Not(q < 0), q < hi, ih), P(q)), st, lemmas=lemmas, extra=extra, timeout=timeout, auto=False):
            return Ind(False, None)
        return Ind(True, lambda q: Implies(And(Not(q < 0), q < hi), P(q)))

    def reach(self, st=None, extra=()):
        """vacuity guard: the hypotheses must not be contradictory."""
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*self.hyp)
        s.add(*self.ex.facts)
        s.add(*self.ex.facts_global)
        s.add(*extra)
        if st is not None:
            s.add(*st.pc)
        r = s.check()
        self.results.append({'name': self.unit + '/reachable', 'result': 'refuted' if r == z3.unsat else 'proved',
                             'info': 'contradictory hypotheses' if r == z3.unsat else str(r), 's': 0, 'vacuity': True, 'lossy': 0})


def run_unit(ir, prop, name, func):
    s = Session(ir, name)
    t0 = time.time()
    status, info = 'done', ''
    try:
        func(s)
    except Missing as e:
        status, info = 'missing', str(e)
    except Unsupported as e:
        status, info = 'unsupported', str(e)[:400]
    except X.Thrown:
        status, info = 'unsupported', 'every path throws'
    except RecursionError:
        status, info = 'unsupported', 'recursion'
    except z3.Z3Exception as e:
        status, info = 'unsupported', 'z3: ' + str(e)[:200]
    except Exception as e:
        status, info = 'error', traceback.format_exc()[-1500:]
    return {'unit': name, 'status': status, 'info': info, 'results': s.results, 'assumptions': sorted(set(s.assumptions)),
            'fns': sorted(s.fns | {ir.fn(i)['key'] for i in s.ex.inlined if ir.fn(i) and not ir.fn(i).get('lambda')}),
            'top': sorted(s.fns),
            'lossy': [str(x)[:200] for x in s.ex.lossy], 'wall': round(time.time() - t0, 2), 'contracts': sorted(s.ex.used_contracts)}
