"""C02: evaluating a model gives every value, violation and feasibility exactly."""
from common import *
import c01

E = MC + 'Expression' + ID
V = MC + 'Variable' + ID
C = MC + 'Constraint' + ID
M = 'model::Model' + ID


def vals(s, st):
    s.get(st, s.ent(MC + 'Variable', s.ref('x0')), '.m_value')
    return s.ex.base(st, 'H:Variable', '.m_value', [Ref], IntS)


def true_value(s, st, e, va):
    """mathematical value of the expression at location e for the variable values va."""
    dom, sens, con = [s.get(st, e, p) for p in ('.m_sensitivities?', '.m_sensitivities$', '.m_constant_value')]
    return ssum(dom, lambda k: Mul(sel(sens, k), toreal(sel(va, k)))), con


def sub(s, loc, field):
    f = [x for x in s.ir.types[loc.t]['f'] if x['n'] == field]
    if not f:
        raise Missing('field ' + field)
    return Loc(f[0]['t'], loc.root, loc.path + '.' + field, loc.idx)


def sums_eq(got, want_sum):
    out = []
    for n in D.top_sums(got):
        y = SUMS[n][5]
        if is_sum(want_sum) and not y.eq(want_sum):
            out.append(D.lin_lemma([(z3.RealVal(1), y), (z3.RealVal(-1), want_sum)]))
    return [l for l in out if l is not None]


def constraint_update(s):
    tables(s)
    f = s.fn(C + '::update', 0)
    st = State()
    c = s.ent(MC + 'Constraint', s.ref('c'))
    sense = s.get(st, c, '.m_sense')
    s.assume(Not(sense < 0), sense < 3)
    s.reach()
    va = vals(s, st)
    sm, con = true_value(s, st, sub(s, c, 'm_expression'), va)
    s.call(st, f, c)
    v = Add(sm, con)
    got = s.getter(st, C + '::constraint_value', c)
    lem = sums_eq(got, sm)
    s.ob('constraint value is the value of its expression', Eq(got, v), st, lemmas=lem, auto=False)
    s.ob('expression value', Eq(s.get(st, c, '.m_expression.m_value'), v), st, lemmas=lem, auto=False)
    s.ob('violation is the amount by which the relation fails', Eq(s.getter(st, C + '::violation_value', c), viol(sense, v)), st, lemmas=lem, auto=False)
    s.ob('margin is the slack', Eq(s.getter(st, C + '::margin_value', c), margin(sense, v)), st, lemmas=lem, auto=False)
    z = z3.RealVal(0)
    s.ob('positive part', Eq(s.getter(st, C + '::positive_part', c), If(z < v, v, z)), st, lemmas=lem, auto=False)
    s.ob('negative part', Eq(s.getter(st, C + '::negative_part', c), If(v < z, -v, z)), st, lemmas=lem, auto=False)
    feas = s.getter(st, C + '::is_feasible', c)
    s.ob('feasible within tolerance only', Eq(feas, viol(sense, v) < z3.RealVal('1e-5')), st, lemmas=lem, auto=False)
    s.ob('the variables are unchanged', Eq(vals(s, st), va), st, auto=False)
    no_throw(s)


def constraint_setup(s):
    tables(s)
    f = s.fn(C + '::setup', 2)
    st = State()
    c = s.ent(MC + 'Constraint', s.ref('c'))
    e = Loc(s.cls(MC + 'Expression'), 'e', '', [])
    sme, ce = meaning_parts(s, st, e)
    t = f['ps'][1]['t']
    sense = Loc(t, 'sense', '', [])
    sv = s.ex.load(st, sense)
    s.assume(Not(sv < 0), sv < 3)

    class Props(Contract):
        name = 'Constraint::setup_coefficient_properties'
        assumed = 'touches only the coefficient-property flags (decided under C13)'

        def apply(self, ex, st, fn, this, args):
            return None
    s.use(C + '::setup_coefficient_properties', Props())
    s.call(st, f, c, [e, sv])
    sm2, c2 = meaning_parts(s, st, sub(s, c, 'm_expression'))
    lem = [D.lin_lemma([(z3.RealVal(1), sm2), (z3.RealVal(-1), sme)])] if is_sum(sm2) and not sm2.eq(sme) else []
    s.ob('the constraint holds the given expression', Eq(Add(sm2, c2), Add(sme, ce)), st, lemmas=lem, auto=False)
    s.ob('and the given sense', Eq(s.getter(st, C + '::sense', c), sv), st)
    s.ob('it is enabled', s.getter(st, C + '::is_enabled', c), st)
    s.ob('<= or = flag', Eq(s.getter(st, C + '::is_less_or_equal', c), Not(Eq(sv, z3.IntVal(2)))), st)
    s.ob('>= or = flag', Eq(s.getter(st, C + '::is_greater_or_equal', c), Not(Eq(sv, z3.IntVal(0)))), st)
    no_throw(s)


def relop(key, op):
    def unit(s):
        tables(s)
        f = [f for f in s.ir._fn.values() if f['key'] == key]
        if not f:
            raise Missing(key)
        f = f[0]
        st = State()

        class Props(Contract):
            name = 'Constraint::setup_coefficient_properties'
            assumed = 'touches only the coefficient-property flags (decided under C13)'

            def apply(self, ex, st, fn, this, args):
                return None
        s.use(C + '::setup_coefficient_properties', Props())
        a = operand(s, st, f['ps'][0]['t'], 'a')
        b = operand(s, st, f['ps'][1]['t'], 'b')
        va, vb = val_of(a), val_of(b)
        s.reach()
        r = s.call(st, f, None, [a[0], b[0]])
        z = z3.RealVal(0)
        sense = r.d['.m_sense']
        ev = Val(s.cls(MC + 'Expression'), {p[len('.m_expression'):]: t for p, t in r.d.items() if p.startswith('.m_expression')})
        sm, c = meaning_parts(s, st, ev)
        got = Add(sm, c)
        # the expression is lhs - rhs or rhs - lhs; either is right if the relation is
        pts = [x[2] for x in (a, b) if x[2] is not None]
        lem = []
        if is_sum(sm):
            for sg in (1, -1):
                pr = [(z3.RealVal(1), sm)] + [(z3.RealVal(k), x[1]) for k, x in ((-sg, a), (sg, b)) if x[1] is not None and is_sum(x[1])]
                lem.append(D.lin_lemma(pr, pts))
        holds = If(Eq(sense, z3.IntVal(0)), Not(z < got), If(Eq(sense, z3.IntVal(1)), Eq(got, z), Not(got < z)))
        want = {'<=': Not(vb < va), '==': Eq(va, vb), '>=': Not(va < vb)}[op]
        s.ob('the constraint holds exactly when the written relation holds', Eq(holds, want), st, lemmas=[l for l in lem if l is not None], auto=False)
        s.ob('violation is the amount by which the written relation fails',
             Eq(viol(sense, got), {'<=': viol(0, va - vb), '==': viol(1, va - vb), '>=': viol(2, va - vb)}[op]), st, lemmas=[l for l in lem if l is not None], auto=False)
        s.ob('sense is valid', And(Not(sense < 0), sense < 3), st)
        s.ob('the constraint is enabled', r.d['.m_is_enabled'], st)
        no_throw(s)
    return unit


def objective_update(s):
    tables(s)
    O = MC + 'Objective'
    f = s.fn(O + ID + '::update', 0)
    st = State()
    o = s.obj(O, 'obj')
    va = vals(s, st)
    sm, con = true_value(s, st, sub(s, o, 'm_expression'), va)
    s.call(st, f, o)
    got = s.getter(st, O + ID + '::value', o)
    s.ob('objective value', Eq(got, Add(sm, con)), st, lemmas=sums_eq(got, sm), auto=False)
    s.ob('expression value of the objective', Eq(s.get(st, o, '.m_expression.m_value'), Add(sm, con)), st, lemmas=sums_eq(s.get(st, o, '.m_expression.m_value'), sm), auto=False)


def expression_update(s):
    tables(s)
    f = s.fn(E + '::update', 0)
    st = State()
    e = s.ent(MC + 'Expression', s.ref('e'))
    va = vals(s, st)
    sm, con = true_value(s, st, e, va)
    s.call(st, f, e)
    got = s.getter(st, E + '::value', e)
    s.ob('expression value', Eq(got, Add(sm, con)), st, lemmas=sums_eq(got, sm), auto=False)


def feasibility(s):
    tables(s)
    f = s.fn(M + '::update_violative_constraint_ptrs_and_feasibility', 0)
    st = State()
    m = s.obj('model::Model', 'model')
    s.get(st, s.ent(MC + 'Constraint', s.ref('c0')), '.m_violation_value')
    vv = s.ex.base(st, 'H:Constraint', '.m_violation_value', [Ref], RealS)
    P = '.m_constraint_reference.enabled_constraint_ptrs'
    n = s.get(st, m, P + '#')
    arr = s.get(st, m, P + '@')
    s.assume(Not(n < 0))
    oldlist = s.get(st, m, '.m_current_violative_constraint_ptrs@'), s.get(st, m, '.m_current_violative_constraint_ptrs#'), s.get(st, m, '.m_current_is_feasible')
    s.reach()
    s.call(st, f, m)
    tol = z3.RealVal('1e-5')
    fe = s.getter(st, M + '::is_feasible', m)
    i = fresh('i', IntS)
    allok = Forall(i, Implies(And(Not(i < 0), i < n), sel(vv, sel(arr, i)) < tol))
    cn = s.get(st, m, '.m_current_violative_constraint_ptrs#')
    ca = s.get(st, m, '.m_current_violative_constraint_ptrs@')
    s.ob('feasible exactly when every enabled constraint is satisfied within tolerance', Eq(fe, allok), st)
    k = fresh('k', IntS)
    s.ob('every listed constraint is violated and enabled', Forall(k, Implies(And(Not(k < 0), k < cn),
         And(Not(sel(vv, sel(ca, k)) < tol), Exists(i, And(Not(i < 0), i < n, Eq(sel(arr, i), sel(ca, k))))))), st)
    s.ob('every violated enabled constraint is listed', Forall(i, Implies(And(Not(i < 0), i < n, Not(sel(vv, sel(arr, i)) < tol)),
         Exists(k, And(Not(k < 0), k < cn, Eq(sel(ca, k), sel(arr, i)))))), st)
    s.ob('the previous flag is kept', Eq(s.get(st, m, '.m_previous_is_feasible'), oldlist[2]), st)
    s.ob('the previous list is kept', And(Eq(s.get(st, m, '.m_previous_violative_constraint_ptrs#'), oldlist[1]),
                                         Forall(k, Implies(And(Not(k < 0), k < oldlist[1]), Eq(sel(s.get(st, m, '.m_previous_violative_constraint_ptrs@'), k), sel(oldlist[0], k))))), st)


class FeasContract(Contract):
    """update_violative_constraint_ptrs_and_feasibility, discharged by its own unit."""
    name = 'Model::update_violative_constraint_ptrs_and_feasibility'

    def __init__(self, s):
        self.s = s

    def apply(self, ex, st, fn, this, args):
        s = self.s
        s.get(st, s.ent(MC + 'Constraint', s.ref('c0')), '.m_violation_value')
        vv = ex.base(st, 'H:Constraint', '.m_violation_value', [Ref], RealS)
        P = '.m_constraint_reference.enabled_constraint_ptrs'
        n, arr = s.get(st, this, P + '#'), s.get(st, this, P + '@')
        s.put(st, this, '.m_previous_is_feasible', s.get(st, this, '.m_current_is_feasible'))
        for p in ('#', '@'):
            s.put(st, this, '.m_previous_violative_constraint_ptrs' + p, s.get(st, this, '.m_current_violative_constraint_ptrs' + p))
            s.put(st, this, '.m_current_violative_constraint_ptrs' + p, fresh('viol', s.get(st, this, '.m_current_violative_constraint_ptrs' + p).sort()))
        b = fresh('feas', BoolS)
        s.put(st, this, '.m_current_is_feasible', b)
        j, k = fresh('j', IntS), fresh('k', IntS)
        tol = z3.RealVal('1e-5')
        cn, ca = s.get(st, this, '.m_current_violative_constraint_ptrs#'), s.get(st, this, '.m_current_violative_constraint_ptrs@')
        inr = lambda q, hi: And(Not(q < 0), q < hi)
        ex.facts.append(Eq(b, Forall(j, Implies(inr(j, n), sel(vv, sel(arr, j)) < tol))))
        ex.facts.append(Forall(k, Implies(inr(k, cn), And(Not(sel(vv, sel(ca, k)) < tol), Exists(j, And(inr(j, n), Eq(sel(arr, j), sel(ca, k))))))))
        ex.facts.append(Forall(j, Implies(And(inr(j, n), Not(sel(vv, sel(arr, j)) < tol)), Exists(k, And(inr(k, cn), Eq(sel(ca, k), sel(arr, j)))))))
        return None


def model_update(s):
    """values, violations, feasibility of a whole model after update()."""
    tables(s)
    s.use(M + '::update_violative_constraint_ptrs_and_feasibility', FeasContract(s))
    f = s.fn(M + '::update', 0)
    st = State()
    m = s.obj('model::Model', 'model')
    vals(s, st)
    np_ = s.get(st, m, '.m_constraint_proxies#')
    nc = s.get(st, m, '.m_constraint_proxies@.m_constraints#')
    ca = s.get(st, m, '.m_constraint_proxies@.m_constraints@')
    p, i = z3.Const('p', IntS), z3.Const('i', IntS)
    s.assume(Not(p < 0), p < np_, Not(i < 0), i < sel(nc, p))
    c = s.ent(MC + 'Constraint', sel(sel(ca, p), i))
    sense = s.get(st, c, '.m_sense')
    s.assume(Not(sense < 0), sense < 3)
    s.reach()
    s.call(st, f, m)
    va = vals(s, st)
    sm, con = true_value(s, st, sub(s, c, 'm_expression'), va)
    got = s.getter(st, C + '::constraint_value', c)
    v = Add(sm, con)
    def chk(name, got, want):
        s.ob(name, Eq(got, want), st, lemmas=sums_eq(got, sm), auto=False)
    chk('value of every constraint is that of its expression at the current values', got, v)
    chk('violation of every constraint', s.getter(st, C + '::violation_value', c), viol(sense, v))
    chk('margin of every constraint', s.getter(st, C + '::margin_value', c), margin(sense, v))
    # objective and expressions
    o = sub(s, m, 'm_objective')
    so, co = true_value(s, st, sub(s, o, 'm_expression'), va)
    go = s.getter(st, MC + 'Objective' + ID + '::value', o)
    s.ob('objective value', Implies(s.get(st, m, '.m_is_defined_objective'), Eq(go, Add(so, co))), st, lemmas=sums_eq(go, so), auto=False)
    # feasibility
    s.get(st, c, '.m_violation_value')
    vv = s.ex.base(st, 'H:Constraint', '.m_violation_value', [Ref], RealS)
    P = '.m_constraint_reference.enabled_constraint_ptrs'
    n, arr = s.get(st, m, P + '#'), s.get(st, m, P + '@')
    j = fresh('j', IntS)
    tol = z3.RealVal('1e-5')
    fe = s.getter(st, M + '::is_feasible', m)
    s.ob('feasible only when every enabled constraint is satisfied', Forall(j, Implies(And(fe, Not(j < 0), j < n), sel(vv, sel(arr, j)) < tol)), st)
    s.ob('infeasible only when some enabled constraint is violated', Implies(Not(fe), Exists(j, And(Not(j < 0), j < n, Not(sel(vv, sel(arr, j)) < tol)))), st)


def model_update_expressions(s):
    tables(s)
    s.use(M + '::update_violative_constraint_ptrs_and_feasibility', FeasContract(s))
    f = s.fn(M + '::update', 0)
    st = State()
    m = s.obj('model::Model', 'model')
    va0 = vals(s, st)
    np_ = s.get(st, m, '.m_expression_proxies#')
    nc = s.get(st, m, '.m_expression_proxies@.m_expressions#')
    ca = s.get(st, m, '.m_expression_proxies@.m_expressions@')
    p, i = z3.Const('p', IntS), z3.Const('i', IntS)
    s.assume(Not(p < 0), p < np_, Not(i < 0), i < sel(nc, p))
    for dep in ('dependent_integer_variable_ptrs', 'dependent_binary_variable_ptrs'):
        s.assume(Eq(s.get(st, m, '.m_variable_type_reference.' + dep + '#'), z3.IntVal(0)))     # no eliminated variables: see C09
    e = s.ent(MC + 'Expression', sel(sel(ca, p), i))
    s.reach()
    s.call(st, f, m)
    va = vals(s, st)
    sm, con = true_value(s, st, e, va)
    got = s.getter(st, E + '::value', e)
    s.ob('value of every expression', Eq(got, Add(sm, con)), st, lemmas=sums_eq(got, sm), auto=False)
    s.ob('update leaves the variables alone', Eq(va, va0), st)


def units(ir):
    us = [('Model::update', model_update), ('Model::update (expressions)', model_update_expressions), ('Constraint::update', constraint_update), ('Constraint::setup', constraint_setup), ('Objective::update', objective_update),
          ('Expression::update', expression_update), ('Model::update_violative_constraint_ptrs_and_feasibility', feasibility)]
    pre = 'printemps::model_component::operator'
    for f in ir._fn.values():
        k = f['key']
        m = re.match(re.escape(pre) + r'(<=|==|>=)<', k)
        if m and 'constraint_binary_operator' in f['file'] and len(f['ps']) == 2:
            us.append((k.replace('printemps::model_component::', ''), relop(k, m.group(1))))
    return us
