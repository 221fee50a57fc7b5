"""C04: fast move scoring agrees with the full evaluation."""
from common import *
from c02 import vals, true_value, sub, E, V, C, M
from c03 import Mv, EvalMove, distinct, distinct2, table_inv, MV

SS = 'solution::SolutionScore'
R0, R1 = z3.RealVal(0), z3.RealVal(1)
EPS, EPS10 = z3.RealVal('1e-5'), z3.RealVal('1e-10')
ASSUMPTIONS = ['C04: a move changes a constraint value by zero or by at least 1e-10 (the routines skip smaller changes)',
               'C04: the margin flag of a constraint means that its margin covers the change made by a single-variable move (set by Constraint::update, decided by the unit has_margin)']


class Setup:
    """an arbitrary model in a consistent state, a legal move and a correct current score."""

    def __init__(self, s, moves=None):
        tables(s)
        self.s = s
        st = self.st = State()
        m = self.m = s.obj('model::Model', 'model')
        mv = self.mv = Mv(s, st)
        em = self.em = EvalMove(s, mv)
        s.use(E + '::evaluate', em)
        self.np, self.nc, self.ca = [s.get(st, m, '.m_constraint_proxies' + p) for p in ('#', '@.m_constraints#', '@.m_constraints@')]
        self.pp, self.pi = distinct2(s, self.np, self.nc, self.ca, 'constraints')
        c0 = s.ent(MC + 'Constraint', s.ref('c0'))
        H = lambda p, so: (s.get(st, c0, p), s.ex.base(st, 'H:Constraint', p, [Ref], so))[1]
        self.enabled, self.sense = H('.m_is_enabled', BoolS), H('.m_sense', IntS)
        self.cv, self.ev = H('.m_constraint_value', RealS), H('.m_expression.m_value', RealS)
        self.pos, self.neg = H('.m_positive_part', RealS), H('.m_negative_part', RealS)
        self.le, self.ge = H('.m_is_less_or_equal', BoolS), H('.m_is_greater_or_equal', BoolS)
        self.hm = H('.m_has_margin', BoolS)
        self.pl, self.pg = H('.m_local_penalty_coefficient_less', RealS), H('.m_local_penalty_coefficient_greater', RealS)
        em.arr(sub(s, c0, 'm_expression'))
        self.delta = em.delta['H:Constraint.m_expression']
        k = fresh('k', Ref)
        s.assume(Forall(k, And(Not(sel(self.sense, k) < 0), sel(self.sense, k) < 3)))
        s.assume(Forall(k, Eq(sel(self.le, k), sel(self.sense, k) < 2)), Forall(k, Eq(sel(self.ge, k), z3.IntVal(0) < sel(self.sense, k))))
        # every enabled constraint is up to date (C02/C03)
        v = sel(self.cv, k)
        s.assume(Forall(k, Implies(sel(self.enabled, k), And(Eq(sel(self.ev, k), v), Eq(sel(self.pos, k), If(R0 < v, v, R0)), Eq(sel(self.neg, k), If(v < R0, -v, R0))))))
        self.members = z3.Lambda([k], self.member(k))
        cur = self.cur = s.obj(SS, 'current')
        self.tv0, self.lp0 = self.total(self.cvv, self.viol_at), self.total(self.cvv, self.pen_at)
        self.tv1, self.lp1 = self.total(self.new, self.viol_at), self.total(self.new, self.pen_at)
        s.assume(Eq(s.get(st, cur, '.total_violation'), self.tv0), Eq(s.get(st, cur, '.local_penalty'), self.lp0))
        self.out = s.obj(SS, 'score')

    def member(self, k):
        p, i = sel(self.pp, k), sel(self.pi, k)
        return And(Not(p < 0), p < self.np, Not(i < 0), i < sel(self.nc, p), Eq(sel(sel(self.ca, p), i), k))

    def cvv(self, k):
        return sel(self.cv, k)

    def new(self, k):
        return Add(sel(self.cv, k), sel(self.delta, k))

    def viol_at(self, k, v):
        return viol(sel(self.sense, k), v)

    def pen_at(self, k, v):
        se = sel(self.sense, k)
        return Add(Mul(If(And(se < 2, R0 < v), v, R0), sel(self.pl, k)), Mul(If(And(z3.IntVal(0) < se, v < R0), -v, R0), sel(self.pg, k)))

    def total(self, val, what):
        return ssum(self.members, lambda k: If(sel(self.enabled, k), what(k, val(k)), R0))

    def related(self):
        """the move lists, once each, the constraints whose value it changes, all of them of the model."""
        s, st, mv = self.s, self.st, self.mv
        n, a = s.get(st, mv.loc, '.related_constraint_ptrs#'), s.get(st, mv.loc, '.related_constraint_ptrs@')
        rp = distinct(s, n, a, 'related')
        k, i = fresh('k', Ref), fresh('i', IntS)
        inr = lambda k: And(Not(sel(rp, k) < 0), sel(rp, k) < n, Eq(sel(a, sel(rp, k)), k))
        s.assume(Forall(i, Implies(And(Not(i < 0), i < n), self.member(sel(a, i)))))
        s.assume(Forall(k, Implies(And(sel(self.enabled, k), Not(inr(k))), Eq(sel(self.delta, k), R0))))
        q = fresh('k', Ref)
        return z3.Lambda([q], inr(q)), (lambda i: sel(a, i)), (lambda k: sel(rp, k))

    def no_tiny(self):
        k = fresh('k', Ref)
        d = sel(self.delta, k)
        self.s.assume(Forall(k, Or(Eq(d, R0), Not(If(d < R0, -d, d) < EPS10))))

    def objective(self):
        """(meaning facts, objective after the move, objective now), in the internal direction."""
        s, st, m, mv, em = self.s, self.st, self.m, self.mv, self.em
        o = sub(s, sub(s, m, 'm_objective'), 'm_expression')
        d = em.arr(o)
        val = s.get(st, o, '.m_value')
        ov = s.get(st, sub(s, m, 'm_objective'), '.m_value')
        s.assume(Eq(ov, val))
        defd = s.get(st, m, '.m_is_defined_objective')
        sg = If(s.get(st, m, '.m_is_minimization'), R1, z3.RealVal(-1))
        return If(defd, Mul(sg, Add(val, d)), R0), If(defd, Mul(sg, val), R0)

    def check(self, tvl, lpl, flags=True, hint=None):
        s, st = self.s, self.st
        o1, o0 = self.o1, self.o0
        g = s.get(st, self.m, '.m_global_penalty_coefficient')
        get = lambda p: s.get(st, self.out, p)
        kw = dict(auto=False)
        s.ob('total violation', Eq(get('.total_violation'), self.tv1), st, lemmas=tvl, **kw)
        s.ob('local penalty', Eq(get('.local_penalty'), self.lp1), st, lemmas=lpl, **kw)
        tv, lp = get('.total_violation'), get('.local_penalty')
        s.ob('objective', Eq(get('.objective'), o1), st, **kw)
        s.ob('objective improvement', Eq(get('.objective_improvement'), Sub(o0, o1)), st, **kw)
        s.ob('global penalty', Eq(get('.global_penalty'), Mul(tv, g)), st, **kw)
        s.ob('local augmented objective', Eq(get('.local_augmented_objective'), Add(o1, lp)), st, **kw)
        s.ob('global augmented objective', Eq(get('.global_augmented_objective'), Add(o1, Mul(tv, g))), st, **kw)
        s.ob('feasible exactly when the total violation is within tolerance', Eq(get('.is_feasible'), Not(EPS < tv)), st, **kw)
        s.ob('objective-improvable flag', Eq(get('.is_objective_improvable'), EPS < Sub(o0, o1)), st, **kw)
        if flags:
            k = z3.Const('kk', Ref)
            hyp = And(self.member(k), sel(self.enabled, k), Not(Sub(self.viol_at(k, self.cvv(k)), self.viol_at(k, self.new(k))) < Mul(z3.RealVal(2), EPS)))
            s.ob('feasibility-improvable flag is not false when a violation is reduced', Implies(hyp, get('.is_feasibility_improvable')), st,
                 lemmas=D.witnesses(get('.is_feasibility_improvable'), hint(k)) if hint else [], **kw)
        no_throw(s)

    def reindex(self, got, ss, en, pos):
        out = []
        for n in D.top_sums(got):
            l = D.reindex_lemma(SUMS[n][5], ss, en, pos)
            if l is not None:
                out.append(l)
        return out


def full(s):
    u = Setup(s)
    f = s.fn(M + '::evaluate', 2, pred=lambda f: s.ir.types[f['rt']]['k'] == 'void')
    u.o1, u.o0 = u.objective()
    s.reach()
    s.call(u.st, f, u.m, [PtrTo(u.out), u.mv.loc])
    get = lambda p: s.get(u.st, u.out, p)
    en = lambda p, i: sel(sel(u.ca, p), i)
    lem = lambda got, ss: [l for n in D.top_sums(got) for l in [D.reindex2_lemma(SUMS[n][5], ss, en, lambda k: sel(u.pp, k), lambda k: sel(u.pi, k))] if l is not None]
    u.check(lem(get('.total_violation'), u.tv1), lem(get('.local_penalty'), u.lp1))


def multi(s):
    u = Setup(s)
    f = s.fn(M + '::evaluate_multi', 3)
    R, en, pos = u.related()
    u.no_tiny()
    u.o1, u.o0 = u.objective()
    s.reach()
    s.call(u.st, f, u.m, [PtrTo(u.out), u.mv.loc, u.cur])
    get = lambda p: s.get(u.st, u.out, p)

    def lem(got, s0, s1, what):
        ds = ssum(R, lambda k: If(sel(u.enabled, k), Sub(what(k, u.new(k)), what(k, u.cvv(k))), R0))
        return [D.lin_lemma([(R1, s1), (z3.RealVal(-1), s0), (z3.RealVal(-1), ds)])] + u.reindex(got, ds, en, pos)
    u.check(lem(get('.total_violation'), u.tv0, u.tv1, u.viol_at), lem(get('.local_penalty'), u.lp0, u.lp1, u.pen_at))


def sens_arrays(u):
    s, st = u.s, u.st
    c0 = s.ent(MC + 'Constraint', s.ref('c0'))
    for p in ('.m_expression.m_sensitivities?', '.m_expression.m_sensitivities$'):
        s.get(st, c0, p)
    return (s.ex.base(st, 'H:Constraint', '.m_expression.m_sensitivities?', [Ref, Ref], BoolS),
            s.ex.base(st, 'H:Constraint', '.m_expression.m_sensitivities$', [Ref, Ref], RealS))


def cs_inv(u, x, name):
    """constraint_sensitivities of the variable x: every constraint of the model containing x, once,
    with its coefficient.  Returns (count, constraints, coefficients, position)."""
    s, st = u.s, u.st
    dom, sens = sens_arrays(u)
    xl = s.ent(MC + 'Variable', x)
    n, a, b = [s.get(st, xl, '.m_extension*.constraint_sensitivities' + p) for p in ('#', '@.first', '@.second')]
    pos = distinct(s, n, a, name)
    i, k = fresh('i', IntS), fresh('k', Ref)
    c = sel(a, i)
    s.assume(Forall(i, Implies(And(Not(i < 0), i < n), And(u.member(c), sel(sel(dom, c), x), Eq(sel(b, i), sel(sel(sens, c), x))))))
    listed = lambda k: And(Not(sel(pos, k) < 0), sel(pos, k) < n, Eq(sel(a, sel(pos, k)), k))
    s.assume(Forall(k, Implies(And(sel(u.enabled, k), sel(sel(dom, k), x)), listed(k))))
    q = fresh('k', Ref)
    return n, a, b, pos, z3.Lambda([q], listed(q))


def single(s):
    u = Setup(s)
    st, mv = u.st, u.mv
    f = s.fn(M + '::evaluate_single', 3)
    s.assume(Eq(mv.n, z3.IntVal(1)))
    x = sel(mv.first, z3.IntVal(0))
    diff = toreal(Sub(sel(mv.second, z3.IntVal(0)), sel(mv.val, x)))
    dom, sens = sens_arrays(u)
    coef = lambda k: If(sel(sel(dom, k), x), sel(sel(sens, k), x), R0)
    # the change of the value of an arbitrary constraint
    c = s.ent(MC + 'Constraint', s.ref('c'))
    e = sub(s, c, 'm_expression')
    sm0, _ = true_value(s, st, e, mv.val)
    smn, _ = mv.new_value(s, st, e)
    s.ob('change of a constraint value by a single-variable move', Eq(Sub(smn, sm0), Mul(coef(s.ref('c')), diff)),
         lemmas=[D.lin_lemma([(R1, smn), (z3.RealVal(-1), sm0)], [x])], auto=False)
    k = fresh('k', Ref)
    s.assume(Forall(k, Eq(sel(u.delta, k), Mul(coef(k), diff))))
    n, a, b, pos, L = cs_inv(u, x, 'cs')
    d, v, se = sel(u.delta, k), sel(u.cv, k), sel(u.sense, k)
    s.assume(Forall(k, Implies(And(sel(u.enabled, k), sel(u.hm, k)), Not(margin(se, v) < If(d < R0, -d, d)))))
    s.assume(Forall(k, Implies(And(sel(u.enabled, k), sel(u.hm, k), Eq(se, z3.IntVal(1))), Eq(d, R0))))
    u.o1, u.o0 = u.objective()
    s.reach()
    s.call(st, f, u.m, [PtrTo(u.out), mv.loc, u.cur])
    get = lambda p: s.get(st, u.out, p)

    def lem(got, s0, s1, what):
        ds = ssum(L, lambda k: If(sel(u.enabled, k), Sub(what(k, u.new(k)), what(k, u.cvv(k))), R0))
        return [D.lin_lemma([(R1, s1), (z3.RealVal(-1), s0), (z3.RealVal(-1), ds)])] + u.reindex(got, ds, lambda i: sel(a, i), lambda k: sel(pos, k))
    u.check(lem(get('.total_violation'), u.tv0, u.tv1, u.viol_at), lem(get('.local_penalty'), u.lp0, u.lp1, u.pen_at))


def selection(case):
    return lambda s: selection_(s, case)


def selection_(s, case):
    u = Setup(s)
    st, mv = u.st, u.mv
    f = s.fn(M + '::evaluate_selection', 3)
    s.put(st, mv.loc, '.alterations#', z3.IntVal(2))
    s.assume(Eq(mv.n, z3.IntVal(2)))
    x = [sel(mv.first, z3.IntVal(i)) for i in (0, 1)]
    df = [toreal(Sub(sel(mv.second, z3.IntVal(i)), sel(mv.val, x[i]))) for i in (0, 1)]
    dom, sens = sens_arrays(u)
    coef = lambda k, i: If(sel(sel(dom, k), x[i]), sel(sel(sens, k), x[i]), R0)
    c = s.ent(MC + 'Constraint', s.ref('c'))
    e = sub(s, c, 'm_expression')
    sm0, _ = true_value(s, st, e, mv.val)
    smn, _ = mv.new_value(s, st, e)
    both = lambda k: Add(Mul(coef(k, 0), df[0]), Mul(coef(k, 1), df[1]))
    s.ob('change of a constraint value by a selection move', Eq(Sub(smn, sm0), both(s.ref('c'))),
         lemmas=[D.lin_lemma([(R1, smn), (z3.RealVal(-1), sm0)], x)], auto=False)
    k, i = fresh('k', Ref), fresh('i', IntS)
    df_all = Forall(k, Eq(sel(u.delta, k), both(k)))
    if case != 'overlapping':
        s.assume(df_all)
    u.no_tiny()
    cs = [(None,) * 5] * 2 if case == 'overlapping' else [cs_inv(u, x[t], 'cs%d' % t) for t in (0, 1)]
    xl = [s.ent(MC + 'Variable', x[t]) for t in (0, 1)]
    sp = s.get(st, xl[0], '.m_extension*.selection_ptr')
    s.assume(Eq(sp, s.get(st, xl[1], '.m_extension*.selection_ptr')))
    S = s.ent(MC + 'Selection', sp)
    n, a = s.get(st, S, '.related_constraint_ptrs#'), s.get(st, S, '.related_constraint_ptrs@')
    rp = distinct(s, n, a, 'related')
    s.assume(Forall(i, Implies(And(Not(i < 0), i < n), u.member(sel(a, i)))))
    # the chosen variable goes from one to zero, another one from zero to one
    s.assume(*[Eq(sel(mv.second, z3.IntVal(t)), z3.IntVal(t)) for t in (0, 1)], *[Eq(sel(mv.val, x[t]), z3.IntVal(1 - t)) for t in (0, 1)])
    bounds, hyps = [], []
    for t in (0, 1):
        lo, hi = [s.get(st, xl[t], '.m_extension*.related_selection_constraint_ptr_index_' + q) for q in ('min', 'max')]
        q = sel(rp, k)
        bounds.append((lo, hi))
        s.assume(Not(lo < -1), Not(hi < lo), hi < n, Implies(lo < 0, hi < 0))
        hyps.append(Forall(k, Implies(And(sel(u.enabled, k), sel(sel(dom, k), x[t])), And(Not(lo < 0), Not(q < lo), Not(hi < q), Eq(sel(a, q), k)))))
    if case == 'overlapping':
        # outside the two index ranges nothing changes
        q = sel(rp, k)
        inside = And(Eq(sel(a, q), k), Or(*[And(Not(lo < 0), Not(q < lo), Not(hi < q)) for lo, hi in bounds]))
        out = Forall(k, Or(Not(sel(u.enabled, k)), inside, Eq(sel(u.delta, k), R0)))
        s.ob('constraints outside the index ranges do not change', out, extra=hyps + [df_all], auto=False)
        s.assume(out)
    else:
        s.assume(*hyps)
    none = And(bounds[0][0] < 0, bounds[1][0] < 0)
    apart = Or(bounds[0][1] < bounds[1][0], bounds[1][1] < bounds[0][0])
    s.assume({'none': none, 'apart': And(Not(none), apart), 'overlapping': And(Not(none), Not(apart))}[case])
    u.o1, u.o0 = u.objective()
    s.reach()
    s.call(st, f, u.m, [PtrTo(u.out), mv.loc, u.cur])
    get = lambda p: s.get(st, u.out, p)

    def lem(got, s0, s1, what):
        out = []
        part = None if case == 'overlapping' else [ssum(cs[t][4], lambda k: If(sel(u.enabled, k), Sub(what(k, Add(u.cvv(k), Mul(coef(k, t), df[t]))), what(k, u.cvv(k))), R0)) for t in (0, 1)]
        m1 = z3.RealVal(-1)
        if case == 'apart':
            out.append(D.lin_lemma([(R1, s1), (m1, s0), (m1, part[0]), (m1, part[1])]))
        if case == 'none':
            out.append(D.lin_lemma([(R1, s1), (m1, s0)]))
        for nm in D.top_sums(got):
            r = SUMS[nm]
            t = [t for t in (0, 1) if r[0] == 'I' and cs[t][0] is not None and r[2].eq(cs[t][0])]
            if t and case == 'apart':
                t = t[0]
                out.append(D.reindex_lemma(r[5], part[t], lambda i: sel(cs[t][1], i), lambda k: sel(cs[t][3], k)))
            elif r[0] == 'I' and z3.is_app_of(r[2], z3.Z3_OP_ITE) and case == 'overlapping':
                q = fresh('k', Ref)
                lo = If(bounds[0][0] < bounds[1][0], bounds[0][0], bounds[1][0])        # the loop counts from the smaller first index
                R = z3.Lambda([q], And(D.range_in(r, Sub(sel(rp, q), lo)), Eq(sel(a, sel(rp, q)), q)))
                ds = ssum(R, lambda k: If(sel(u.enabled, k), Sub(what(k, u.new(k)), what(k, u.cvv(k))), R0))
                out.append(s.lemma('sum over the index range (1)', D.lin_lemma([(R1, s1), (m1, s0), (m1, ds)])))
                out.append(s.lemma('sum over the index range (2)', D.reindex_lemma(r[5], ds, lambda i: sel(a, Add(i, lo)), lambda k: Sub(sel(rp, k), lo))))
        return [l for l in out if l is not None]
    u.check(lem(get('.total_violation'), u.tv0, u.tv1, u.viol_at), lem(get('.local_penalty'), u.lp0, u.lp1, u.pen_at),
            hint=(lambda k: Sub(sel(rp, k), If(bounds[0][0] < bounds[1][0], bounds[0][0], bounds[1][0]))) if case == 'overlapping' else None)


def has_margin(npar):
    """the margin flag is raised only for constraints over binary variables whose margin covers the largest coefficient."""
    def unit(s):
        tables(s)
        f = s.fn(C + '::update', npar)
        st = State()
        c = s.ent(MC + 'Constraint', s.ref('c'))
        args = [Mv(s, st).loc] if npar else []
        s.reach()
        s.call(st, f, c, args)
        hm = s.getter(st, C + '::has_margin', c)
        ma = s.getter(st, C + '::margin_value', c)
        s.ob('margin covers the largest coefficient', Implies(hm, Not(ma < Sub(s.get(st, c, '.m_max_abs_coefficient'), EPS10))), st, auto=False)
        s.ob('only over binary variables', Implies(hm, s.get(st, c, '.m_has_only_binary_variable')), st, auto=False)
    return unit


class Scored(Contract):
    """the fast routines write the score of the full evaluation (discharged by their units)."""

    def __init__(self, s, name, ghost, one):
        self.s, self.name, self.ghost, self.one = s, name, ghost, one

    def apply(self, ex, st, fn, this, args):
        s = self.s
        if self.one:
            s.ob('precondition of ' + self.name, Eq(s.get(st, args[1], '.alterations#'), z3.IntVal(1)), st, auto=False)
        out = args[0].loc
        for p, ks, so in ex.leaves(out.t):
            s.put(st, out, p, s.get(st, self.ghost, p))
        return None


def dispatch(s):
    u = State()
    m, mv = s.obj('model::Model', 'model'), s.obj(MV, 'move')
    cur, ghost = s.obj(SS, 'current'), s.obj(SS, 'truth')
    s.use(M + '::evaluate_single', Scored(s, 'Model::evaluate_single', ghost, True))
    s.use(M + '::evaluate_multi', Scored(s, 'Model::evaluate_multi', ghost, False))
    f = s.fn(M + '::evaluate', 2, pred=lambda f: s.ir.types[f['rt']]['k'] != 'void')
    r = s.call(u, f, m, [mv, cur])
    for p in ('.objective', '.total_violation', '.local_penalty', '.global_penalty', '.local_augmented_objective', '.global_augmented_objective', '.is_feasible'):
        s.ob('dispatched ' + p[1:], Eq(r.d[p], s.get(u, ghost, p)), u, auto=False)


UNITS = [('Model::evaluate(move, score)', dispatch), ('Constraint::update() has_margin', has_margin(0)), ('Constraint::update(move) has_margin', has_margin(1)), ('Model::evaluate(move)', full), ('Model::evaluate_multi', multi), ('Model::evaluate_single', single),
         ] + [('Model::evaluate_selection, index ranges ' + c, selection(c)) for c in ('none', 'apart', 'overlapping')]
