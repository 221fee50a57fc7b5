"""C05: improvability screening never hides an improving variable."""
from common import *
from c02 import vals, sub, E, V, C, M
from c03 import Mv

R0 = z3.RealVal(0)


def heap(s, st, cls, path, ks, so):
    s.get(st, s.ent(MC + cls, s.ref('x0')), path)
    return s.ex.base(st, 'H:' + cls, path, [Ref] + ks, so)


def list_arg(s, st, f, i, name):
    t = s.ir.deref(f['ps'][i]['t'])
    l = Loc(t, name, '', [])
    n, a = s.ex.rd(st, name, '#', [], [], IntS), s.ex.rd(st, name, '@', [], [IntS], Ref)
    s.assume(Not(n < 0))
    return l, n, a


def within(n, a, x):
    i = fresh('i', IntS)
    return Exists(i, And(Not(i < 0), i < n, Eq(sel(a, i), x)))


def margins(s, st, x):
    """margin flags mean room below / above (class invariant of Variable)."""
    xl = s.ent(MC + 'Variable', x)
    g = lambda p: s.get(st, xl, p)
    return And(Eq(g('.m_has_lower_bound_margin'), g('.m_lower_bound') < g('.m_value')), Eq(g('.m_has_upper_bound_margin'), g('.m_value') < g('.m_upper_bound')))


def variable_fn(name, npar, fixed_ok=True):
    """the margin flags stay in step with the value and the bounds."""
    def unit(s):
        f = s.fn(V + '::' + name, npar)
        st = State()
        x = s.ent(MC + 'Variable', s.ref('x'))
        args = []
        for i, p in enumerate(f['ps']):
            l = Loc(s.ir.deref(p['t']), 'a%d' % i, '', [])
            args.append(l if s.ir.types[p['t']]['k'] == 'ref' else s.ex.load(st, l))
        s.assume(margins(s, st, s.ref('x')))
        st0 = st.copy()
        s.call(st, f, x, args)
        s.ob('margin flags in step with value and bounds', margins(s, st, s.ref('x')), st, auto=False)
        g, h = (lambda p: s.get(st, x, p)), (lambda p: s.get(st0, x, p))
        if name == 'set_value_if_mutable':
            v = s.ex.load(st0, args[0]) if isinstance(args[0], Loc) else args[0]
            s.ob('value', Eq(g('.m_value'), If(h('.m_is_fixed'), h('.m_value'), v)), st, auto=False)
        if name == 'set_bound' and npar == 2:
            s.ob('value within the new bounds', And(Not(g('.m_value') < g('.m_lower_bound')), Not(g('.m_upper_bound') < g('.m_value'))), st, auto=False)
        y = s.ref('y')
        o = s.ent(MC + 'Variable', y)
        s.ob('no other variable is touched', Implies(Not(Eq(y, s.ref('x'))), And(*[Eq(s.get(st, o, p), s.get(st0, o, p)) for p in ('.m_value', '.m_lower_bound', '.m_upper_bound', '.m_is_fixed')])), st, auto=False)
    return unit


def objective_flags(s):
    f = s.fn(M + '::update_variable_objective_improvabilities', 1)
    st = State()
    m = s.obj('model::Model', 'model')
    l, n, a = list_arg(s, st, f, 0, 'list')
    x = s.ref('x')
    xl = s.ent(MC + 'Variable', x)
    s.assume(margins(s, st, x))
    st0 = st.copy()
    s.reach()
    s.call(st, f, m, [l])
    g = lambda p: s.get(st0, xl, p)
    c = Mul(g('.m_extension*.objective_sensitivity'), If(s.get(st0, m, '.m_is_minimization'), z3.RealVal(1), z3.RealVal(-1)))
    # moving by one within the bounds improves the objective
    better = Or(And(R0 < c, Not(Sub(g('.m_value'), z3.IntVal(1)) < g('.m_lower_bound'))), And(c < R0, Not(g('.m_upper_bound') < Add(g('.m_value'), z3.IntVal(1)))))
    got = s.get(st, xl, '.m_is_objective_improvable')
    s.ob('flagged exactly when a unit step within the bounds improves the objective', Implies(within(n, a, x), Eq(got, better)), st, auto=False)
    s.ob('the other flags are untouched', Implies(Not(within(n, a, x)), Eq(got, g('.m_is_objective_improvable'))), st, auto=False)
    s.ob('the feasibility flags are untouched', Eq(s.get(st, xl, '.m_is_feasibility_improvable'), g('.m_is_feasibility_improvable')), st, auto=False)


def can_reduce(s, st, c, x):
    """moving x within its bounds moves the value of the violated enabled constraint c towards satisfaction."""
    cl, xl = s.ent(MC + 'Constraint', c), s.ent(MC + 'Variable', x)
    g, v = (lambda p: s.get(st, cl, p)), (lambda p: s.get(st, xl, p))
    dom, co = sel(g('.m_expression.m_sensitivities?'), x), sel(g('.m_expression.m_sensitivities$'), x)
    down, up = v('.m_lower_bound') < v('.m_value'), v('.m_value') < v('.m_upper_bound')
    cv = g('.m_constraint_value')
    violated = Not(g('.m_violation_value') < z3.RealVal('1e-5'))
    step = If(R0 < cv, Or(And(R0 < co, down), And(co < R0, up)), Or(And(R0 < co, up), And(co < R0, down)))
    return And(g('.m_is_enabled'), violated, dom, step)


def ptr_lists(s, st, x):
    """positive/negative coefficient lists of every constraint, as set up (unit setup_positive_and_negative...)."""
    c = fresh('c', Ref)
    dom, co = heap(s, st, 'Constraint', '.m_expression.m_sensitivities?', [Ref], BoolS), heap(s, st, 'Constraint', '.m_expression.m_sensitivities$', [Ref], RealS)
    fx = s.get(st, s.ent(MC + 'Variable', x), '.m_is_fixed')
    out = [Forall(c, Implies(sel(sel(dom, c), x), Not(Eq(sel(sel(co, c), x), R0))))]      # zero coefficients aside
    for w in ('positive', 'negative'):
        P = '.m_expression.m_%s_coefficient_mutable_variable_ptrs' % w
        n, a = heap(s, st, 'Constraint', P + '#', [], IntS), heap(s, st, 'Constraint', P + '@', [IntS], Ref)
        v = sel(sel(co, c), x)
        cond = And(sel(sel(dom, c), x), Not(fx), R0 < v if w == 'positive' else Not(R0 < v))
        out.append(Forall(c, And(Not(sel(n, c) < 0), Eq(within(sel(n, c), sel(a, c), x), cond))))
    return out


def feasibility_flags(direction):
    def unit(s):
        f = s.fn(M + '::update_variable_feasibility_improvabilities', 1)
        st = State()
        m = s.obj('model::Model', 'model')
        l, n, a = list_arg(s, st, f, 0, 'list')
        x = s.ref('x')
        xl = s.ent(MC + 'Variable', x)
        s.assume(margins(s, st, x))
        for h in ptr_lists(s, st, x):
            s.assume(h)
        s.assume(Not(s.get(st, xl, '.m_is_fixed')))
        st0 = st.copy()
        s.reach()
        s.call(st, f, m, [l])
        got = s.get(st, xl, '.m_is_feasibility_improvable')
        old = s.get(st0, xl, '.m_is_feasibility_improvable')
        i = fresh('i', IntS)
        can = Exists(i, And(Not(i < 0), i < n, can_reduce(s, st0, sel(a, i), x)))
        if direction:
            s.ob('a mutable variable that can reduce a violation is flagged', Implies(can, got), st, auto=False)
            s.ob('a raised flag stays', Implies(old, got), st, auto=False)
        else:
            s.ob('only variables that can reduce a violation are newly flagged', Implies(got, Or(old, can)), st, auto=False)
        s.ob('the objective flags are untouched', Eq(s.get(st, xl, '.m_is_objective_improvable'), s.get(st0, xl, '.m_is_objective_improvable')), st, auto=False)
    return unit


def reset(kind):
    def unit(s):
        name = '::reset_variable_%s_improvabilities' % kind.split()[0]
        want = 'Constraint' if kind.endswith('constraints') else 'Variable'
        c = [f for f in s.ir.find(NS + M + name, 1) if ('::' + want + '<') in s.ir.types[f['ps'][0]['t']]['s']]
        if len(c) != 1:
            raise Missing(name)
        f = c[0]
        st = State()
        m = s.obj('model::Model', 'model')
        l, n, a = list_arg(s, st, f, 0, 'list')
        x = s.ref('x')
        xl = s.ent(MC + 'Variable', x)
        st0 = st.copy()
        s.reach()
        s.call(st, f, m, [l])
        P = '.m_is_%s_improvable' % kind.split()[0]
        other = '.m_is_objective_improvable' if 'feas' in P else '.m_is_feasibility_improvable'
        if want == 'Variable':
            hit = within(n, a, x)
        else:
            i = fresh('i', IntS)
            cl = s.ent(MC + 'Constraint', sel(a, i))
            hit = Exists(i, And(Not(i < 0), i < n, s.get(st0, cl, '.m_is_enabled'), sel(s.get(st0, cl, '.m_expression.m_sensitivities?'), x)))
        s.ob('listed flags are lowered, the others untouched', Eq(s.get(st, xl, P), And(Not(hit), s.get(st0, xl, P))), st, auto=False)
        s.ob('the other kind of flag is untouched', Eq(s.get(st, xl, other), s.get(st0, xl, other)), st, auto=False)
    return unit


def pn_lists(s):
    """positive/negative lists hold exactly the mutable variables with such a coefficient."""
    f = s.fn(E + '::setup_positive_and_negative_coefficient_mutable_variable_ptrs', 0)
    st = State()
    e = s.ent(MC + 'Expression', s.ref('e'))
    x = s.ref('x')
    st0 = st.copy()
    s.reach()
    s.call(st, f, e)
    dom, co = [s.get(st0, e, '.m_sensitivities' + q) for q in '?$']
    fx = s.get(st0, s.ent(MC + 'Variable', x), '.m_is_fixed')
    for w in ('positive', 'negative'):
        P = '.m_%s_coefficient_mutable_variable_ptrs' % w
        n, a = s.get(st, e, P + '#'), s.get(st, e, P + '@')
        v = sel(co, x)
        s.ob('the %s list holds every mutable variable with such a coefficient' % w,
             Implies(And(sel(dom, x), Not(fx), R0 < v if w == 'positive' else v < R0), within(n, a, x)), st, auto=False)
        j = z3.Const('j', IntS)
        y = sel(a, j)
        yf = s.get(st0, s.ent(MC + 'Variable', y), '.m_is_fixed')
        vy = sel(co, y)
        s.ob('the %s list holds only mutable variables with such a coefficient (or zero)' % w,
             Implies(And(Not(j < 0), j < n), And(sel(dom, y), Not(yf), R0 < vy if w == 'positive' else Not(R0 < vy))), st, auto=False)


def objective_sensitivity(s):
    f = s.fn(M + '::setup_variable_objective_sensitivities', 0)
    st = State()
    m = s.obj('model::Model', 'model')
    np_, nc, ca = [s.get(st, m, '.m_variable_proxies' + p) for p in ('#', '@.m_variables#', '@.m_variables@')]
    p, i = z3.Const('p', IntS), z3.Const('i', IntS)
    s.assume(Not(p < 0), p < np_, Not(i < 0), i < sel(nc, p))
    x = sel(sel(ca, p), i)
    s.reach()
    s.call(st, f, m)
    dom, co = [s.get(st, m, '.m_objective.m_expression.m_sensitivities' + q) for q in '?$']
    got = s.get(st, s.ent(MC + 'Variable', x), '.m_extension*.objective_sensitivity')
    s.ob('objective coefficient of every variable', Eq(got, If(sel(dom, x), sel(co, x), R0)), st, auto=False)


UNITS = [('Variable::' + n, variable_fn(n, k)) for n, k in (('update_margin', 0), ('set_value_force', 1), ('set_value_if_mutable', 1), ('set_bound', 2), ('reset_bound', 0), ('fix_by', 1), ('set_lower_or_upper_bound', 1))] + [
    ('Model::update_variable_objective_improvabilities', objective_flags),
    ('Model::update_variable_feasibility_improvabilities, completeness', feasibility_flags(True)),
    ('Model::update_variable_feasibility_improvabilities, exactness', feasibility_flags(False)),
    ('Model::reset_variable_objective_improvabilities', reset('objective')),
    ('Model::reset_variable_feasibility_improvabilities(variables)', reset('feasibility')),
    ('Model::reset_variable_feasibility_improvabilities(constraints)', reset('feasibility constraints')),
    ('Expression::setup_positive_and_negative_coefficient_mutable_variable_ptrs', pn_lists),
    ('Model::setup_variable_objective_sensitivities', objective_sensitivity),
]
