"""C03: incremental updates never drift from full evaluation."""
from common import *
from c02 import vals, true_value, sub, sums_eq, E, V, C, M, FeasContract

MV = 'neighborhood::Move'


class Mv:
    """an arbitrary legal move: distinct variables (ghost inverse pos)."""

    def __init__(self, s, st, name='move', mutable=True):
        self.loc = s.obj(MV, name)
        self.n = s.get(st, self.loc, '.alterations#')
        self.first = s.get(st, self.loc, '.alterations@.first')
        self.second = s.get(st, self.loc, '.alterations@.second')
        self.pos = z3.Const('pos:' + name, z3.ArraySort(Ref, IntS))
        i = fresh('i', IntS)
        self.val = vals(s, st)
        s.assume(Not(self.n < 0))
        s.assume(Forall(i, Implies(self.inr(i), Eq(sel(self.pos, sel(self.first, i)), i))))       # distinct variables
        if mutable:
            s.get(st, s.ent(MC + 'Variable', s.ref('x0')), '.m_is_fixed')
            self.fx = s.ex.base(st, 'H:Variable', '.m_is_fixed', [Ref], BoolS)
            s.assume(Forall(i, Implies(self.inr(i), Not(sel(self.fx, sel(self.first, i))))))       # none of them fixed
        k = fresh('k', Ref)
        self.alt = z3.Lambda([k], self.altered(k))

    def inr(self, i):
        return And(Not(i < 0), i < self.n)

    def altered(self, k):
        return And(self.inr(sel(self.pos, k)), Eq(sel(self.first, sel(self.pos, k)), k))

    def new(self, k):
        return If(self.altered(k), sel(self.second, sel(self.pos, k)), sel(self.val, k))

    def new_value(self, s, st, e):
        """(sum, constant, lemma builder) of the expression at e for the values after the move."""
        dom, sens, con = [s.get(st, e, p) for p in ('.m_sensitivities?', '.m_sensitivities$', '.m_constant_value')]
        return ssum(dom, lambda k: Mul(sel(sens, k), toreal(self.new(k)))), con

    def lemmas(self, s, st0, e, got, sm0, smn, points=()):
        """sum over the alterations = new value - old value; points: candidate
        indices of sums that have a single non-zero term."""
        dom, sens = [s.get(st0, e, p) for p in ('.m_sensitivities?', '.m_sensitivities$')]
        ds = ssum(self.alt, lambda k: Mul(If(sel(dom, k), sel(sens, k), z3.RealVal(0)), Sub(toreal(self.new(k)), toreal(sel(self.val, k)))))
        lem = [D.lin_lemma([(z3.RealVal(1), smn), (z3.RealVal(-1), sm0), (z3.RealVal(-1), ds)])]
        todo, seen = [got], set()
        for depth in range(4):
            nxt = []
            for n in D.top_sums(*todo):
                y = SUMS[n][5]
                if n in seen or SUMS[n][0] != 'I':
                    continue
                seen.add(n)
                lem.append(D.reindex_lemma(y, ds, lambda i: sel(self.first, i), lambda k: sel(self.pos, k)))
                for p in points:
                    l = D.lin_lemma([(z3.RealVal(1), y)], [p])
                    if l is not None:
                        lem.append(l)
                        nxt.append(l)
            todo = nxt
            if not todo:
                break
        return [l for l in lem if l is not None]


    def points(self, got, points):
        """sums with a single non-zero term, at one of the given indices."""
        lem, todo, seen = [], [got], set()
        for depth in range(4):
            nxt = []
            for n in D.top_sums(*todo):
                y = SUMS[n][5]
                if n in seen or SUMS[n][0] != 'I':
                    continue
                seen.add(n)
                for p in points:
                    l = D.lin_lemma([(z3.RealVal(1), y)], [p])
                    if l is not None:
                        lem.append(l)
                        nxt.append(l)
            todo = nxt
        return lem


def table_inv(s, st, e):
    dom, sens, tbl = [s.get(st, e, p) for p in ('.m_sensitivities?', '.m_sensitivities$', '.m_fixed_sensitivities!tbl')]
    k = fresh('k', Ref)
    return Forall(k, Eq(sel(tbl, k), If(sel(dom, k), sel(sens, k), z3.RealVal(0))))


def expression(which):
    def unit(s):
        tables(s)
        f = s.fn(E + '::' + which, 1, params=['Move'])
        st = State()
        e = s.ent(MC + 'Expression', s.ref('e'))
        mv = Mv(s, st)
        sm0, con = true_value(s, st, e, mv.val)
        smn, _ = mv.new_value(s, st, e)
        s.assume(table_inv(s, st, e))
        if which != 'evaluate':
            s.assume(Eq(s.get(st, e, '.m_value'), Add(sm0, con)))
        s.reach()
        st0 = st.copy()
        r = s.call(st, f, e, [mv.loc])
        got = r if which == 'evaluate' else s.getter(st, E + '::value', e)
        if which == 'evaluate':
            s.ob('change by the move', Eq(got, Add(s.get(st0, e, '.m_value'), Sub(smn, sm0))), st, lemmas=mv.lemmas(s, st0, e, got, sm0, smn), auto=False)
            s.assume(Eq(s.get(st0, e, '.m_value'), Add(sm0, con)))
        s.ob('value after the move', Eq(got, Add(smn, con)), st, lemmas=mv.lemmas(s, st0, e, got, sm0, smn), auto=False)
        no_throw(s)
    return unit


def constraint_update(s):
    tables(s)
    f = s.fn(C + '::update', 1)
    st = State()
    c = s.ent(MC + 'Constraint', s.ref('c'))
    e = sub(s, c, 'm_expression')
    mv = Mv(s, st)
    sense = s.get(st, c, '.m_sense')
    sm0, con = true_value(s, st, e, mv.val)
    smn, _ = mv.new_value(s, st, e)
    s.assume(Not(sense < 0), sense < 3)
    s.assume(table_inv(s, st, e), Eq(s.get(st, e, '.m_value'), Add(sm0, con)))
    s.reach()
    st0 = st.copy()
    s.call(st, f, c, [mv.loc])
    v = Add(smn, con)
    z = z3.RealVal(0)

    def chk(name, got, want):
        s.ob(name, Eq(got, want), st, lemmas=mv.lemmas(s, st0, e, got, sm0, smn), auto=False)
    chk('constraint value after the move', s.getter(st, C + '::constraint_value', c), v)
    chk('expression value after the move', s.get(st, e, '.m_value'), v)
    chk('violation after the move', s.getter(st, C + '::violation_value', c), viol(sense, v))
    chk('margin after the move', s.getter(st, C + '::margin_value', c), margin(sense, v))
    chk('positive part after the move', s.getter(st, C + '::positive_part', c), If(z < v, v, z))
    chk('negative part after the move', s.getter(st, C + '::negative_part', c), If(v < z, -v, z))
    no_throw(s)


def objective_update(s):
    tables(s)
    O = MC + 'Objective'
    f = s.fn(O + ID + '::update', 1)
    st = State()
    o = s.obj(O, 'obj')
    e = sub(s, o, 'm_expression')
    mv = Mv(s, st)
    sm0, con = true_value(s, st, e, mv.val)
    smn, _ = mv.new_value(s, st, e)
    s.assume(table_inv(s, st, e), Eq(s.get(st, e, '.m_value'), Add(sm0, con)))
    s.reach()
    st0 = st.copy()
    s.call(st, f, o, [mv.loc])
    got = s.getter(st, O + ID + '::value', o)
    s.ob('objective value after the move', Eq(got, Add(smn, con)), st, lemmas=mv.lemmas(s, st0, e, got, sm0, smn), auto=False)
    got = s.get(st, e, '.m_value')
    s.ob('expression value of the objective after the move', Eq(got, Add(smn, con)), st, lemmas=mv.lemmas(s, st0, e, got, sm0, smn), auto=False)


class EvalMove(Contract):
    """Expression::evaluate(move) = value() + delta, delta being the change of the
    mathematical value (discharged by the unit Expression::evaluate(move))."""
    name = 'Expression::evaluate(move)'

    def __init__(self, s, mv):
        self.s, self.mv, self.delta = s, mv, {}

    def matches(self, fn, ex):
        return len(fn['ps']) == 1 and 'Move' in ex.ir.types[fn['ps'][0]['t']]['s']

    def arr(self, loc):
        key = loc.root + loc.path
        if key not in self.delta:
            so = RealS
            for i in reversed(loc.idx):
                so = z3.ArraySort(i.sort(), so)
            self.delta[key] = z3.Const('delta:' + key, so)
        a = self.delta[key]
        for i in loc.idx:
            a = sel(a, i)
        return a

    def apply(self, ex, st, fn, this, args):
        if not isinstance(args[0], Loc) or args[0].root != self.mv.loc.root or not vals(self.s, st).eq(self.mv.val):
            raise Unsupported('evaluate(move) after the variables have changed')
        return Add(ex.rd(st, this.root, this.path + '.m_value', this.idx, [], RealS), self.arr(this))

    def meaning(self, e, sm0, smn):
        """what the callee guarantees for the expression at e (table in step with the map)."""
        return Eq(self.arr(e), Sub(smn, sm0))


def distinct(s, n, arr, name):
    pos = z3.Const('pos:' + name, z3.ArraySort(Ref, IntS))
    i = fresh('i', IntS)
    s.assume(Not(n < 0), Forall(i, Implies(And(Not(i < 0), i < n), Eq(sel(pos, sel(arr, i)), i))))
    return pos


def distinct2(s, n, cnt, arr, name):
    """elements of an array of arrays are pairwise distinct."""
    pp, pi = z3.Const('pp:' + name, z3.ArraySort(Ref, IntS)), z3.Const('pi:' + name, z3.ArraySort(Ref, IntS))
    p, i = fresh('p', IntS), fresh('i', IntS)
    el = sel(sel(arr, p), i)
    s.assume(Not(n < 0), Forall(p, Forall(i, Implies(And(Not(p < 0), p < n, Not(i < 0), i < sel(cnt, p)), And(Eq(sel(pp, el), p), Eq(sel(pi, el), i))))))
    return pp, pi


def model_setup(s, user):
    tables(s)
    s.use(M + '::update_violative_constraint_ptrs_and_feasibility', FeasContract(s))
    f = s.fn(M + '::update', 1)
    st = State()
    m = s.obj('model::Model', 'model')
    mv = Mv(s, st)
    em = EvalMove(s, mv)
    s.use(E + '::evaluate', em)
    nr, ra = s.get(st, mv.loc, '.related_constraint_ptrs#'), s.get(st, mv.loc, '.related_constraint_ptrs@')
    rpos = distinct(s, nr, ra, 'related')
    np_, nc, ca = [s.get(st, m, '.m_constraint_proxies' + p) for p in ('#', '@.m_constraints#', '@.m_constraints@')]
    cpp, cpi = distinct2(s, np_, nc, ca, 'constraints')
    ne, nec, ea = [s.get(st, m, '.m_expression_proxies' + p) for p in ('#', '@.m_expressions#', '@.m_expressions@')]
    epp, epi = distinct2(s, ne, nec, ea, 'expressions')
    return f, st, m, (mv, em), (nr, ra, rpos), (np_, nc, ca, cpp, cpi), (ne, nec, ea, epp, epi)


def model_update(user):
    def unit(s):
        f, st, m, (mv, em), (nr, ra, rpos), (np_, nc, ca, cpp, cpi), _ = model_setup(s, user)
        c = s.ent(MC + 'Constraint', s.ref('c'))
        cr = c.idx[0]
        e = sub(s, c, 'm_expression')
        sense = s.get(st, c, '.m_sense')
        sm0, con = true_value(s, st, e, mv.val)
        smn, _ = mv.new_value(s, st, e)
        dom = s.get(st, e, '.m_sensitivities?')
        v0 = Add(sm0, con)
        rq = fresh('r', Ref)
        senses = s.ex.base(st, 'H:Constraint', '.m_sense', [Ref], IntS)
        s.assume(Forall(rq, And(Not(sel(senses, rq) < 0), sel(senses, rq) < 3)))
        s.assume(s.get(st, c, '.m_is_enabled'))
        s.assume(table_inv(s, st, e), Eq(s.get(st, e, '.m_value'), v0))
        s.assume(Eq(s.get(st, c, '.m_constraint_value'), v0), Eq(s.get(st, c, '.m_violation_value'), viol(sense, v0)), Eq(s.get(st, c, '.m_margin_value'), margin(sense, v0)))
        # c is a constraint of the model
        s.assume(Not(sel(cpp, cr) < 0), sel(cpp, cr) < np_, Not(sel(cpi, cr) < 0), sel(cpi, cr) < sel(nc, sel(cpp, cr)), Eq(sel(sel(ca, sel(cpp, cr)), sel(cpi, cr)), cr))
        flag = [p for p, ks, so in s.ex.leaves(m.t) if p.startswith('.m_neighborhood') and 'user_defined' in p and p.endswith('m_is_enabled')]
        if len(flag) != 1:
            raise Missing('user-defined neighborhood flag')
        i = fresh('i', IntS)
        s.put(st, m, flag[0], z3.BoolVal(user))
        if not user:
            # the related constraints are those which contain an altered variable
            rin = And(Not(sel(rpos, cr) < 0), sel(rpos, cr) < nr, Eq(sel(ra, sel(rpos, cr)), cr))
            rel = Forall(i, Implies(And(mv.inr(i), sel(dom, sel(mv.first, i))), rin))
            same = Implies(Not(rin), Eq(smn, sm0))
            s.ob('a constraint without altered variables keeps its value', same, extra=[rel],
                 lemmas=[D.lin_lemma([(z3.RealVal(1), smn), (z3.RealVal(-1), sm0)])], auto=False)
            s.assume(same)
        s.reach()
        st0 = st.copy()
        s.call(st, f, m, [mv.loc])
        v = Add(smn, con)

        def chk(name, got, want):
            s.ob(name, Eq(got, want), st, lemmas=mv.points(got, [sel(cpp, cr), sel(cpi, cr)] if user else [sel(rpos, cr)]), extra=[em.meaning(e, sm0, smn)], auto=False)
        chk('value of every enabled constraint after the move', s.getter(st, C + '::constraint_value', c), v)
        chk('expression value of every enabled constraint after the move', s.get(st, e, '.m_value'), v)
        chk('violation of every enabled constraint after the move', s.getter(st, C + '::violation_value', c), viol(sense, v))
        chk('margin of every enabled constraint after the move', s.getter(st, C + '::margin_value', c), margin(sense, v))
        s.get(st, c, '.m_violation_value')
        vv = s.ex.base(st, 'H:Constraint', '.m_violation_value', [Ref], RealS)
        P = '.m_constraint_reference.enabled_constraint_ptrs'
        n, arr = s.get(st, m, P + '#'), s.get(st, m, P + '@')
        j = fresh('j', IntS)
        tol = z3.RealVal('1e-5')
        fe = s.getter(st, M + '::is_feasible', m)
        s.ob('feasible exactly when every enabled constraint is satisfied', Eq(fe, Forall(j, Implies(And(Not(j < 0), j < n), sel(vv, sel(arr, j)) < tol))), st, auto=False)
        no_throw(s)
    return unit


def model_rest(s):
    """variables, objective, selection, expressions after Model::update(move)."""
    f, st, m, (mv, em), _, _, (ne, nec, ea, epp, epi) = model_setup(s, False)
    e = s.ent(MC + 'Expression', s.ref('e'))
    er = e.idx[0]
    s.assume(Not(sel(epp, er) < 0), sel(epp, er) < ne, Not(sel(epi, er) < 0), sel(epi, er) < sel(nec, sel(epp, er)), Eq(sel(sel(ea, sel(epp, er)), sel(epi, er)), er))
    s.assume(s.get(st, e, '.m_is_enabled'))
    sm0, con = true_value(s, st, e, mv.val)
    smn, _ = mv.new_value(s, st, e)
    s.assume(table_inv(s, st, e), Eq(s.get(st, e, '.m_value'), Add(sm0, con)))
    o = sub(s, sub(s, m, 'm_objective'), 'm_expression')
    so0, oc = true_value(s, st, o, mv.val)
    son, _ = mv.new_value(s, st, o)
    s.assume(table_inv(s, st, o), Eq(s.get(st, o, '.m_value'), Add(so0, oc)), s.get(st, m, '.m_is_defined_objective'))
    s.reach()
    st0 = st.copy()
    s.call(st, f, m, [mv.loc])
    k = fresh('k', Ref)
    va = vals(s, st)
    s.ob('exactly the altered variables take their new values', Forall(k, Eq(sel(va, k), mv.new(k))), st, auto=False)
    got = s.getter(st, MC + 'Objective' + ID + '::value', sub(s, m, 'm_objective'))
    s.ob('objective value after the move', Eq(got, Add(son, oc)), st, lemmas=mv.points(got, []), extra=[em.meaning(o, so0, son)], auto=False)
    got = s.getter(st, E + '::value', e)
    s.ob('value of every enabled expression after the move', Eq(got, Add(smn, con)), st, lemmas=mv.points(got, [sel(epp, er), sel(epi, er)]), extra=[em.meaning(e, sm0, smn)], auto=False)


def selection(s):
    """a selection move records the variable it sets to one as the chosen one; the list of violated constraints."""
    f, st, m, (mv, em), _, _, _ = model_setup(s, False)
    s.assume(Eq(mv.n, z3.IntVal(2)))
    s.put(st, mv.loc, '.sense', z3.IntVal(s.enum('neighborhood::MoveSense', 'Selection')))
    x = s.ent(MC + 'Variable', sel(mv.first, z3.IntVal(1)))
    sp = s.get(st, x, '.m_extension*.selection_ptr')
    s.reach()
    s.call(st, f, m, [mv.loc])
    S = s.ent(MC + 'Selection', sp)
    s.ob('the chosen variable is the second altered one', Eq(s.get(st, S, '.selected_variable_ptr'), x.idx[0]), st, auto=False)
    o = s.ent(MC + 'Selection', s.ref('other'))
    st0 = State()
    s.ob('the other selections are untouched', Implies(Not(Eq(s.ref('other'), sp)), Eq(s.get(st, o, '.selected_variable_ptr'), s.get(st0, o, '.selected_variable_ptr'))), st, auto=False)


UNITS = [('Expression::evaluate(move)', expression('evaluate')), ('Expression::update(move)', expression('update')),
         ('Constraint::update(move)', constraint_update), ('Objective::update(move)', objective_update),
         ('Model::update(move)', model_update(False)), ('Model::update(move), user-defined neighborhood', model_update(True)), ('Model::update(move): variables, objective, expressions', model_rest), ('Model::update(move): chosen variable', selection)]
