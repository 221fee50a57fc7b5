// Translation unit the extractor parses: /repo's headers plus uses that force
// the <int,double> instantiation of every member the contracts speak about.
#include "std.h"
#define private public
#define protected public
#include "printemps.h"
#undef private
#undef protected
using namespace printemps;
template class model_component::Expression<int, double>;
template class model_component::Variable<int, double>;
template class model_component::Constraint<int, double>;
template class model_component::Objective<int, double>;
template struct model_component::Selection<int, double>;
template struct neighborhood::Move<int, double>;
template class neighborhood::Neighborhood<int, double>;
template class solution::IncumbentHolder<int, double>;
template struct solution::DenseSolution<int, double>;
template struct solution::SparseSolution<int, double>;
template class preprocess::Verifier<int, double>;
template class preprocess::ProblemSizeReducer<int, double>;
template class preprocess::DependentVariableExtractor<int, double>;
template class preprocess::SelectionExtractor<int, double>;
template class preprocess::GF2Solver<int, double>;
template class preprocess::FlippableVariablePairExtractor<int, double>;
template class utility::FixedSizeHashMap<model_component::Variable<int, double> *, double>;
template class utility::UnionFind<int>;
template class utility::FixedSizeQueue<double>;
template class utility::BidirectionalMap<int, int>;
template class multi_array::ValueProxy<double>;
template class multi_array::ValueProxy<int>;
template class solver::Memory<int, double>;
template class model_component::VariableProxy<int, double>;
template class model_component::ExpressionProxy<int, double>;
template class model_component::ConstraintProxy<int, double>;
using E = model_component::Expression<int, double>;
using Vr = model_component::Variable<int, double>;
using VP = model_component::VariableProxy<int, double>;
using EP = model_component::ExpressionProxy<int, double>;
using CP = model_component::ConstraintProxy<int, double>;
using Cn = model_component::Constraint<int, double>;
using M = model::Model<int, double>;
using Mv = neighborhood::Move<int, double>;
void vp_use_expr(E &e, E &e2, VP &vp, EP &ep, double d, int i) {
    e += d;
    e -= d;
    e *= d;
    e /= d;
    e += i;
    e -= i;
    e *= i;
    e /= i;
    e = d;
    e = i;
    e = vp;
    e = ep;
    e += e2;
    e -= e2;
    e += vp;
    e -= vp;
    e += ep;
    e -= ep;
    e += vp(0);
    e -= vp(0);
    (void)(e + e2);
    (void)(e - e2);
    (void)(e + d);
    (void)(d + e);
    (void)(e - d);
    (void)(d - e);
    (void)(e * d);
    (void)(d * e);
    (void)(e / d);
    (void)(e + i);
    (void)(i + e);
    (void)(e - i);
    (void)(i - e);
    (void)(e * i);
    (void)(i * e);
    (void)(vp(0) + vp(0));
    (void)(vp(0) - vp(0));
    (void)(vp(0) + d);
    (void)(d + vp(0));
    (void)(vp(0) - d);
    (void)(d - vp(0));
    (void)(vp(0) * d);
    (void)(d * vp(0));
    (void)(vp(0) / d);
    (void)(e + vp(0));
    (void)(vp(0) + e);
    (void)(e - vp(0));
    (void)(vp(0) - e);
    (void)(ep(0) + vp(0));
    (void)(ep + e);
    (void)(e + ep);
    (void)(ep - e);
    (void)(e - ep);
    (void)(vp.sum());
    (void)(ep.sum());
    (void)(vp.dot(std::vector<double>()));
    (void)(ep.dot(std::vector<double>()));
    (void)vp.dot({1, 2}, std::vector<double>());
    (void)ep.dot({1, 2}, std::vector<double>());
    (void)vp.sum({1});
    (void)ep.sum({1});
    (void)+vp;
    (void)-vp;
    (void)+ep;
    (void)-ep;
}
void vp_use_con(Cn &c, E &e, VP &vp, EP &ep, double d, E &e2) {
    c = (e <= d);
    c = (e == d);
    c = (e >= d);
    c = (d <= e);
    c = (d == e);
    c = (d >= e);
    c = (e <= e2);
    c = (e == e2);
    c = (e >= e2);
    c = (vp(0) <= d);
    c = (vp(0) == d);
    c = (vp(0) >= d);
    c = (vp(0) <= vp(1));
    c = (vp(0) == vp(1));
    c = (vp(0) >= vp(1));
    c = (vp(0) <= e);
    c = (e <= vp(0));
    c = (vp(0) == e);
    c = (e == vp(0));
    c = (vp(0) >= e);
    c = (e >= vp(0));
    c = (ep <= d);
    c = (ep == d);
    c = (ep >= d);
    c = (ep(0) <= d);
    c = (d <= vp(0));
    c = (d >= vp(0));
    c = (d == vp(0));
}
template <class F> void vp_take(F);
#define T(x) vp_take(&M::x)
void vp_use_model(M &m, Mv &mv, solution::SolutionScore &s, E &e, option::Option &o, VP &vp, EP &ep) {
    m.update();
    m.update(mv);
    (void)m.evaluate(mv);
    (void)m.evaluate(mv, s);
    m.evaluate(&s, mv);
    T(evaluate_single);
    T(evaluate_multi);
    T(evaluate_selection);
    T(update_violative_constraint_ptrs_and_feasibility);
    T(update_dependent_variables_and_disabled_constraints);
    m.update_variable_objective_improvabilities();
    m.update_variable_feasibility_improvabilities();
    m.reset_variable_objective_improvabilities();
    m.reset_variable_feasibility_improvabilities();
    m.reset_variable_feasibility_improvabilities(m.constraint_reference().constraint_ptrs);
    m.reset_variable_feasibility_improvabilities(m.variable_reference().variable_ptrs);
    T(compute_lagrangian);
    T(compute_naive_dual_bound);
    T(setup);
    T(setup_structure);
    T(categorize_variables);
    T(categorize_constraints);
    T(setup_variable_related_constraints);
    T(setup_variable_objective_sensitivities);
    T(setup_variable_constraint_sensitivities);
    T(setup_fixed_sensitivities);
    T(setup_positive_and_negative_coefficient_mutable_variable_ptrs);
    T(setup_is_integer);
    T(set_selections);
    T(update_variable_bounds);
    T(shrink_global_penalty_coefficient);
    T(setup_neighborhood);
    T(setup_unique_names);
    T(export_lp_instance);
    T(import_mps);
    T(write_mps);
    T(sign);
    m.minimize(e);
    m.maximize(e);
    m.minimize(vp);
    m.maximize(vp);
    m.minimize(ep);
    m.maximize(ep);
    (void)m.export_dense_solution();
    (void)m.export_named_solution();
    (void)m.export_sparse_solution();
    vp_take(&M::export_local_penalty_coefficient_proxies);
    vp_take(&M::generate_variable_parameter_proxies<int>);
    vp_take(&M::generate_constraint_parameter_proxies<double>);
    vp_take(&M::generate_expression_parameter_proxies<double>);
    m.import_solution(std::unordered_map<std::string, int>());
    m.import_solution(m.export_dense_solution());
    m.import_solution(m.export_sparse_solution());
    vp_take(&M::fix_variables);
    vp_take(&M::unfix_variables);
    vp_take(&M::set_user_defined_selection_constraints);
    vp_take(&M::setup_flippable_variable_ptr_pairs);
}
void vp_use_solver(M &m) { auto r = solver::solve(&m); }
void vp_use_util(std::unordered_set<int> &a, std::unordered_set<int> &b, std::vector<int> &v, std::unordered_map<int, double> &p, std::unordered_map<int, double> &q) {
    (void)utility::intersection_set(a, b);
    (void)utility::union_set(a, b);
    utility::update_intersection_set(&a, b);
    utility::update_union_set(&a, b);
    (void)utility::to_vector(a);
    (void)utility::from_vector(v);
    (void)utility::to_vector_pair(p);
    (void)utility::distance_l1(p, q);
    (void)utility::distance_l0(p, q);
    (void)utility::min(v);
    (void)utility::max(v);
    (void)utility::max_abs(v);
    (void)utility::argmin(v);
    (void)utility::argmax(v);
    (void)utility::count(v, 1);
}
