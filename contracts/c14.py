"""C14: dual bounds are valid."""
from common import *
from c02 import vals, sub, E, V, C, M
from c05 import heap

R0, R1 = z3.RealVal(0), z3.RealVal(1)


def naive(s):
    f = s.fn(M + '::compute_naive_dual_bound', 0)
    st = State()
    m = s.obj('model::Model', 'model')
    g = lambda p: heap(s, st, 'Variable', p, [], BoolS if 'fixed' in p else IntS)
    lb, ub, va, fx = g('.m_lower_bound'), g('.m_upper_bound'), g('.m_value'), g('.m_is_fixed')
    e = sub(s, sub(s, m, 'm_objective'), 'm_expression')
    sm, con = meaning_parts(s, st, e)
    k = fresh('k', Ref)
    a = sel(ASG, k)
    # an arbitrary assignment within the bounds, fixed variables at their fixed value
    s.assume(Forall(k, If(sel(fx, k), Eq(a, toreal(sel(va, k))), And(Not(a < toreal(sel(lb, k))), Not(toreal(sel(ub, k)) < a)))))
    s.reach()
    got = s.call(st, f, m)
    mn = s.get(st, m, '.m_is_minimization')
    lem = []
    for n in D.top_sums(got):
        y = SUMS[n][5]
        if is_sum(sm):
            lem += [s.lemma('terms of the bound, minimisation', D.mono_lemma(y, sm), st, extra=[mn])] if True else []
    up = [s.lemma('terms of the bound, maximisation', D.mono_lemma(sm, SUMS[n][5]), st, extra=[Not(mn)]) for n in D.top_sums(got) if is_sum(sm)]
    s.ob('never exceeds an attainable objective (minimisation)', Implies(mn, Not(Add(sm, con) < got)), st, lemmas=lem, auto=False)
    s.ob('never falls below an attainable objective (maximisation)', Implies(Not(mn), Not(got < Add(sm, con))), st, lemmas=up, auto=False)
    no_throw(s)


def lagrangian(s):
    f = s.fn(M + '::compute_lagrangian', 1)
    st = State()
    m = s.obj('model::Model', 'model')
    P = '.m_constraint_reference.constraint_ptrs'
    n, a = s.get(st, m, P + '#'), s.get(st, m, P + '@')
    s.assume(Not(n < 0))
    t = s.ir.deref(f['ps'][0]['t'])
    mu = Loc(t, 'mu', '', [])
    c = lambda i: s.ent(MC + 'Constraint', sel(a, i))
    mul = lambda i: s.ex.rd(st, 'mu', '@.m_values@', [s.get(st, c(i), '^0.m_extension*.proxy_index'), s.get(st, c(i), '^0.m_extension*.flat_index')], [], RealS)
    s.leaf_of = None
    cv = lambda i: s.get(st, c(i), '.m_constraint_value')
    se = lambda i: s.get(st, c(i), '.m_sense')
    ov = s.get(st, m, '.m_objective.m_value')
    mn = s.get(st, m, '.m_is_minimization')
    sg = If(mn, R1, z3.RealVal(-1))
    want = isum(z3.IntVal(0), n, lambda i: Mul(mul(i), cv(i)))
    s.reach()
    got = s.call(st, f, m, [mu])
    lem = [D.lin_lemma([(R1, SUMS[q][5]), (-sg, want)]) for q in D.top_sums(got) if not SUMS[q][5].eq(want)]
    s.ob('objective plus (maximisation: minus) the weighted constraint values', Eq(got, Add(ov, Mul(sg, want))), st, lemmas=[l for l in lem if l is not None], auto=False)
    # weak duality at a feasible assignment with multipliers of the right sign
    i = fresh('i', IntS)
    ok = And(Not(se(i) < 0), se(i) < 3, Implies(Eq(se(i), z3.IntVal(0)), And(Not(mul(i) < R0), Not(R0 < cv(i)))), Implies(Eq(se(i), z3.IntVal(1)), Eq(cv(i), R0)),
             Implies(Eq(se(i), z3.IntVal(2)), And(Not(R0 < mul(i)), Not(cv(i) < R0))))
    s.assume(Forall(i, Implies(And(Not(i < 0), i < n), ok)))
    # sum of nonpositive terms: minus the sum is a sum of nonnegative terms
    neg = isum(z3.IntVal(0), n, lambda i: -Mul(mul(i), cv(i)))
    w = s.lemma('each weighted constraint value is nonpositive', D.nonneg_lemma(neg), st)
    lem2 = [D.lin_lemma([(R1, neg), (R1, want)]), w] + [l for l in lem if l is not None]
    s.ob('bounds the objective of a feasible assignment (minimisation)', Implies(mn, Not(ov < got)), st, lemmas=lem2, auto=False)
    s.ob('bounds the objective of a feasible assignment (maximisation)', Implies(Not(mn), Not(got < ov)), st, lemmas=lem2, auto=False)


class Position(Contract):
    """proxy_index() / flat_index() of the element at position (p, i) of the model's arrays."""
    assumed = 'the element at position i of proxy p reports proxy_index p and flat_index i (set at creation; run natively)'

    def __init__(self, which):
        self.w = which

    def apply(self, ex, st, fn, this, args):
        t = this.idx[0]
        ks = []
        while z3.is_select(t):
            ks.insert(0, t.arg(1))
            t = t.arg(0)
        if len(ks) != 2:
            raise Unsupported('position of an element outside the arrays')
        return ks[self.w]


def bound_dual(s):
    K = 'solver::lagrange_dual::core::LagrangeDualCoreStateManager'
    f = s.fn(K + ID + '::bound_dual', 0)
    st = State()
    o = s.obj(K, 'mgr')
    fs = [g for g in s.ir._fn.values() if g['n'].endswith(('::proxy_index', '::flat_index'))]
    for n in sorted({g['n'] for g in fs}):
        s.use(n, Position(0 if n.endswith('proxy_index') else 1))
    m = Loc(s.cls('model::Model'), 'MODEL', '', [])
    P = '.m_constraint_proxies'
    np = s.get(st, m, P + '#')
    p, i = fresh('p', IntS), fresh('i', IntS)
    nc = lambda p: s.ex.rd(st, 'MODEL', P + '@.m_constraints#', [p], [], IntS)
    ca = lambda p, i: s.ex.rd(st, 'MODEL', P + '@.m_constraints@', [p, i], [], Ref)
    se = lambda p, i: s.get(st, s.ent(MC + 'Constraint', ca(p, i)), '.m_sense')
    mu = lambda st, p, i: s.ex.rd(st, 'mgr', '.m_state.dual@.m_values@', [p, i], [], RealS)
    st0 = st.copy()
    s.reach()
    s.call(st, f, o)
    ok = And(Not(p < 0), p < np, Not(i < 0), i < nc(p))
    v, w = mu(st, p, i), mu(st0, p, i)
    L, E_, G = (s.enum(MC + 'ConstraintSense', k) for k in ('Less', 'Equal', 'Greater'))
    s.ob('multipliers of <= constraints are nonnegative', Implies(And(ok, Eq(se(p, i), z3.IntVal(L))), Not(v < R0)), st, auto=False)
    s.ob('multipliers of >= constraints are nonpositive', Implies(And(ok, Eq(se(p, i), z3.IntVal(G))), Not(R0 < v)), st, auto=False)
    s.ob('multipliers of the right sign are kept', Implies(And(ok, Or(Eq(se(p, i), z3.IntVal(E_)), And(Eq(se(p, i), z3.IntVal(L)), Not(w < R0)), And(Eq(se(p, i), z3.IntVal(G)), Not(R0 < w)))), Eq(v, w)), st, auto=False)
    no_throw(s)


UNITS = [('Model::compute_naive_dual_bound', naive), ('Model::compute_lagrangian', lagrangian), ('LagrangeDualCoreStateManager::bound_dual', bound_dual)]
