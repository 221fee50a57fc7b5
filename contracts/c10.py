"""C10: initial values of variables outside selections are corrected to legal ones."""
from common import *
from c02 import E, V, C, M
I0, I1 = z3.IntVal(0), z3.IntVal(1)
VF = 'preprocess::Verifier'


def rng(n, *xs):
    return And(*[And(Not(x < 0), x < n) for x in xs])


def verifier(name, vec, binary):
    def unit(s):
        f = s.fn(VF + ID + '::' + name, 2)
        st = State()
        o = s.obj(VF, 'verifier')
        corr = fresh('correction', BoolS)
        i, j, r = fresh('i', IntS), fresh('j', IntS), fresh('x', Ref)
        path = '.m_variable_type_reference.%s' % vec
        n = s.ex.rd(st, 'MODEL', path + '#', [], [], IntS)
        ref = lambda k: s.ex.rd(st, 'MODEL', path + '@', [k], [], Ref)
        g = lambda q, ref, st: s.get(st, s.ent(MC + 'Variable', ref), q)
        st0 = st.copy()
        # listed once each; bounds are ordered, those of a binary variable lie within zero and one (its type)
        s.assume(Not(n < 0), Forall([i, j], Implies(And(rng(n, i, j), Eq(ref(i), ref(j))), Eq(i, j))))
        lb, ub = lambda q: g('.m_lower_bound', q, st0), lambda q: g('.m_upper_bound', q, st0)
        s.assume(Forall(i, Implies(rng(n, i), Not(ub(ref(i)) < lb(ref(i))))))
        if binary:
            s.assume(Forall(i, Implies(rng(n, i), And(Eq(lb(ref(i)), I0), Eq(ub(ref(i)), I1)))))
        s.reach()
        s.call(st, f, o, [corr, fresh('print', BoolS)])
        q = ref(i)
        v0, v1, fx = g('.m_value', q, st0), g('.m_value', q, st), g('.m_is_fixed', q, st0)
        inb = lambda v: And(Not(v < lb(q)), Not(ub(q) < v))
        s.ob('every listed variable ends within its bounds', Implies(rng(n, i), inb(v1)), st, auto=False)
        s.ob('legal values are kept', Implies(And(rng(n, i), inb(v0)), Eq(v1, v0)), st, auto=False)
        s.ob('fixed variables are unchanged', Implies(g('.m_is_fixed', r, st0), Eq(g('.m_value', r, st), g('.m_value', r, st0))), st, auto=False)
        s.ob('without correction nothing changes', Implies(Not(corr), Eq(g('.m_value', r, st), g('.m_value', r, st0))), st, auto=False)
        k = fresh('k', IntS)
        s.ob('variables not listed are unchanged', Implies(Forall(k, Implies(rng(n, k), Not(Eq(ref(k), r)))), Eq(g('.m_value', r, st), g('.m_value', r, st0))), st, auto=False)
        s.ob('bounds and fixings are unchanged', And(Eq(g('.m_lower_bound', r, st), g('.m_lower_bound', r, st0)), Eq(g('.m_upper_bound', r, st), g('.m_upper_bound', r, st0)), Eq(g('.m_is_fixed', r, st), g('.m_is_fixed', r, st0))), st, auto=False)
    return unit


UNITS = [('Verifier::verify_and_correct_binary_variables_initial_values', verifier('verify_and_correct_binary_variables_initial_values', 'binary_variable_ptrs', True)),
         ('Verifier::verify_and_correct_integer_variables_initial_values', verifier('verify_and_correct_integer_variables_initial_values', 'integer_variable_ptrs', False))]
