"""C13: structural labels of constraints are truthful."""
from common import *
import ground as GR
from c02 import E, V, C, M
R = lambda x: z3.RealVal(x)
VSENSE = ['Binary', 'Integer', 'Selection', 'DependentBinary', 'DependentInteger']
LABELS = ['singleton', 'exclusive_or', 'exclusive_nor', 'inverted_integers', 'balanced_integers', 'constant_sum_integers', 'constant_difference_integers',
          'constant_ratio_integers', 'aggregation', 'precedence', 'variable_bound', 'trinomial_exclusive_nor', 'set_partitioning', 'set_packing', 'set_covering',
          'cardinality', 'invariant_knapsack', 'multiple_covering', 'binary_flow', 'integer_flow', 'soft_selection', 'min_max', 'max_min', 'intermediate',
          'equation_knapsack', 'bin_packing', 'knapsack', 'integer_knapsack', 'gf2', 'general_linear']


class Labelled:
    def __init__(self, s):
        self.s = s
        st = self.st = State()
        c = self.c = s.ent(MC + 'Constraint', s.ref('c0'))
        g = lambda p: s.get(st, c, p)
        k, l = self.k, self.l = fresh('k', Ref), fresh('l', Ref)
        self.dom, self.co, self.con = g('.m_expression.m_sensitivities?'), g('.m_expression.m_sensitivities$'), g('.m_expression.m_constant_value')
        self.sense = g('.m_sense')
        v = lambda p, x: s.get(st, s.ent(MC + 'Variable', x), p)
        self.fixed = lambda x: v('.m_is_fixed', x)
        self.kind = lambda x: v('.m_extension*.sense', x)
        self.lb, self.ub = lambda x: v('.m_lower_bound', x), lambda x: v('.m_upper_bound', x)
        en = {n: z3.IntVal(s.enum('model_component::VariableSense', n)) for n in VSENSE}
        cs = {n: z3.IntVal(s.enum('model_component::ConstraintSense', n)) for n in ('Less', 'Equal', 'Greater')}
        self.le, self.eq, self.ge = [Eq(self.sense, cs[n]) for n in ('Less', 'Equal', 'Greater')]
        self.isb = lambda x: Or(*[Eq(self.kind(x), en[n]) for n in ('Binary', 'Selection', 'DependentBinary')])
        self.isi = lambda x: Or(*[Eq(self.kind(x), en[n]) for n in ('Integer', 'DependentInteger')])
        s.assume(Forall(k, Or(*[Eq(self.kind(k), en[n]) for n in VSENSE])), Or(self.le, self.eq, self.ge))
        self.a = lambda x: sel(self.co, x)
        self.has = lambda x: sel(self.dom, x)
        self.n = card(self.dom)
        self.cnt = lambda p: ssum(self.dom, lambda q: If(p(q), z3.IntVal(1), z3.IntVal(0)))
        s.reach()
        self.st0 = st.copy()
        s.call(st, s.fn(C + '::setup_constraint_type', 0), c)
        self.flag = {n: g('.m_is_' + n) for n in LABELS}
        self.key = s.ref('key variable')
        s.assume(Eq(self.key, g('.m_key_variable_ptr')))

    def all(self, p):
        return Forall(self.k, Implies(self.has(self.k), p(self.k)))

    def pairs(self, p):
        return Forall([self.k, self.l], Implies(And(self.has(self.k), self.has(self.l), Not(Eq(self.k, self.l))), p(self.k, self.l)))

    def truth(self):
        a, K, all_, pairs, has = self.a, self.con, self.all, self.pairs, self.has
        bin_, itg, nofix = all_(self.isb), all_(self.isi), all_(lambda x: Not(self.fixed(x)))
        one = all_(lambda x: Eq(a(x), R(1)))
        pm = lambda x: Or(Eq(a(x), R(1)), Eq(a(x), R(-1)))
        pm1 = all_(pm)
        sz = lambda q: Eq(self.n, z3.IntVal(q))
        eq, le, ge = self.eq, self.le, self.ge
        key, kin = self.key, has(self.key)
        same, opp = pairs(lambda x, y: Eq(a(x), a(y))), pairs(lambda x, y: Eq(a(x), -a(y)))
        pos, neg = all_(lambda x: Not(a(x) < 0)), all_(lambda x: Not(a(x) > 0))
        two = And(sz(2), nofix)
        near_int = lambda x: abs_(x - z3.ToReal(z3.ToInt(x))) < z3.RealVal('1e-10')
        integral = And(near_int(K), all_(lambda x: near_int(a(x))))
        keyint = And(kin, self.isi(key), Not(self.fixed(key)))
        only = lambda v: And(Eq(a(key), R(v)), all_(lambda x: Implies(And(Not(Eq(x, key)), self.isi(x), Not(self.fixed(x))), Not(pm(x)))))
        two_ = lambda x: Or(Eq(a(x), R(2)), Eq(a(x), R(-2)))
        return {
            'singleton': sz(1),
            'exclusive_or': And(two, eq, bin_, pm1, same, all_(lambda x: Eq(K, -a(x))), kin),
            'exclusive_nor': And(two, eq, bin_, pm1, opp, Eq(K, R(0)), kin),
            'inverted_integers': And(two, eq, itg, pm1, same, Eq(K, R(0)), kin),
            'balanced_integers': And(two, eq, itg, pm1, opp, Eq(K, R(0)), kin),
            'constant_sum_integers': And(two, eq, itg, pm1, same, Not(Eq(K, R(0))), kin),
            'constant_difference_integers': And(two, eq, itg, pm1, opp, Not(Eq(K, R(0))), kin),
            'constant_ratio_integers': And(two, eq, itg, Eq(K, R(0)), kin, pm(key)),
            'aggregation': And(two, eq),
            'precedence': And(two, Not(eq), opp, Or(bin_, itg)),
            'variable_bound': And(two, Not(eq)),
            'trinomial_exclusive_nor': And(sz(3), eq, nofix, bin_, Eq(K, R(0)), kin, two_(key), all_(lambda x: Or(Eq(x, key), Eq(a(x) * 2, -a(key))))),
            'set_partitioning': And(one, bin_, eq, Eq(K, R(-1))),
            'set_packing': And(one, bin_, le, Eq(K, R(-1))),
            'set_covering': And(one, bin_, ge, Eq(K, R(-1))),
            'cardinality': And(one, bin_, eq, Not(K > -2)),
            'invariant_knapsack': And(one, bin_, le, Not(K > -2)),
            'multiple_covering': And(one, bin_, ge, Not(K > -2)),
            'binary_flow': And(pm1, bin_, eq),
            'integer_flow': And(pm1, itg, eq),
            'soft_selection': And(pm1, bin_, eq, Eq(K, R(0)), kin, Not(self.fixed(key)), all_(lambda x: Or(Eq(x, key), Eq(a(x), -a(key))))),
            'min_max': And(keyint, integral, Or(And(le, only(-1)), And(ge, only(1)))),
            'max_min': And(keyint, integral, Or(And(ge, only(-1)), And(le, only(1)))),
            'intermediate': And(keyint, integral, eq, pm(key)),
            'equation_knapsack': And(bin_, eq, Or(pos, neg)),
            'bin_packing': And(bin_, Exists(self.k, And(has(self.k), Eq(a(self.k), -K))), Or(And(pos, le), And(neg, ge))),
            'knapsack': And(bin_, Or(And(pos, le), And(neg, ge))),
            'integer_knapsack': Or(And(pos, le), And(neg, ge)),
            'gf2': And(eq, nofix, Or(Eq(K, R(0)), Eq(K, R(1)), Eq(K, R(-1))), kin, two_(key),
                       all_(lambda x: Or(Eq(x, key), And(self.isb(x), pm(x))))),
            'general_linear': T}


def abs_(x):
    return z3.If(x < 0, -x, x)


def concl(lem):
    """the conclusion of a schema whose antecedent the solver proves."""
    _, ante, c = D.LEM[lem.get_id()]
    return c if D.solve([], ante, (), 3000, False)[0] == 'proved' else None


def flat(t):
    return [y for x in t.children() for y in flat(x)] if z3.is_and(t) else [t]


def names(t):
    return {x for x in deep_consts(t) if x.split('!')[0] in ('src', 'pos', 'exit', 'lv', 'last', 'lastb', 'SUM')}


def relevant(hyps, flag, key):
    """the conditions that guard the label itself (not: that earlier labels were rejected), and the facts about what they mention."""
    fl = [x for x in flat(flag) if not (z3.is_not(x) and z3.is_and(x.arg(0)) and GR.has_q(x))]
    use = set().union(*[names(x) for x in fl])
    return fl, [h for h in hyps if not h.eq(key) and (not names(h) or names(h) & use)]


def labels(group):
    def unit(s):
        L = Labelled(s)
        t = L.truth()
        sums = sorted({k for k, v in SUMS.items() if v[0] == 'S' and v[4].sort() == IntS and v[1].eq(L.dom)}, key=lambda x: int(x.split('!')[1]))
        sums = [SUMS[k][5] for k in sums]
        lem = []
        if set(group) & {'gf2', 'trinomial_exclusive_nor'}:
            lem = [concl(D.count_one(x)) for x in sums] + [concl(D.count_cover(L.dom, [x, y])) for i, x in enumerate(sums) for y in sums[:i]]
            lem = [x for x in lem if x is not None]
        hy = list(s.hyp) + list(s.ex.facts) + list(s.ex.facts_global)
        seeds = [L.key, z3.IntVal(0), z3.IntVal(1)]
        for n in group:
            ps = list(t[n].children()) if z3.is_and(t[n]) else [t[n]]
            rest = []
            fl, rel = relevant(hy, L.flag[n], s.hyp[-1])
            for x in ps:
                if GR.refute(rel + fl, x, seeds, 2, timeout=4000):
                    continue
                rest.append(x)
            s.ob('labelled %s only if it is' % n.replace('_', ' '), And(*[Implies(L.flag[n], x) for x in rest]), L.st, auto=False, ground=seeds, lemmas=lem)
        if 'general_linear' in group:
            on = [z3.If(L.flag[n], z3.IntVal(1), z3.IntVal(0)) for n in LABELS]
            s.ob('exactly one label', z3.Sum(on) == 1, L.st, auto=False)
    return unit


def kind(s):
    f = s.fn(V + '::setup_sense_binary_or_integer', 0)
    st = State()
    v = s.ent(MC + 'Variable', s.ref('x0'))
    g = lambda p: s.get(st, v, p)
    lb, ub = g('.m_lower_bound'), g('.m_upper_bound')
    s.assume(Not(ub < lb))
    s.reach()
    s.call(st, f, v)
    en = lambda n: z3.IntVal(s.enum('model_component::VariableSense', n))
    k = g('.m_extension*.sense')
    s.ob('binary exactly when the bounds admit no values but zero and one', Eq(Eq(k, en('Binary')), And(Not(lb < 0), Not(ub > 1))), st, auto=False)
    s.ob('integer otherwise', Or(Eq(k, en('Binary')), Eq(k, en('Integer'))), st, auto=False)


GROUPS = [['exclusive_or', 'exclusive_nor'], ['inverted_integers', 'balanced_integers'], ['constant_sum_integers', 'constant_difference_integers'],
          ['constant_ratio_integers', 'precedence', 'variable_bound', 'aggregation'], ['min_max'], ['max_min'], ['intermediate', 'soft_selection'], ['trinomial_exclusive_nor', 'gf2']]
GROUPS.append([n for n in LABELS if not any(n in g for g in GROUPS)])
UNITS = [('Constraint::setup_constraint_type (%s)' % (', '.join(x.replace('_', ' ') for x in g[:4]) + (', ...' if len(g) > 4 else '')), labels(g)) for g in GROUPS] + [('Variable::setup_sense_binary_or_integer', kind)]
