#include "prep.h"
#include <optional>
// presolve operations against enumeration of the feasible set
struct Snap {
    std::vector<int> lb, ub, val; std::vector<char> fixed;
    std::vector<RC> cons;
};
static Snap snap(Model &m, const Inst &in) {
    Snap s; std::map<Var *, int> id;
    for (int i = 0; i < in.n(); i++) { s.lb.push_back(in.v[i]->lower_bound()); s.ub.push_back(in.v[i]->upper_bound()); s.val.push_back(in.v[i]->value()); s.fixed.push_back(in.v[i]->is_fixed()); id[in.v[i]] = i; }
    for (auto &p : m.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) if (c.is_enabled()) {
        RC r; r.s = c.sense(); r.e.k = c.expression().constant_value();
        for (auto &t : c.expression().sensitivities()) r.e.c[id.at(t.first)] += t.second;
        s.cons.push_back(r);
    }
    return s;
}
static bool adm(const Snap &s, const std::vector<int> &x) {
    for (size_t i = 0; i < x.size(); i++) if (s.fixed[i] ? x[i] != s.val[i] : (x[i] < s.lb[i] || x[i] > s.ub[i])) return false;
    for (auto &c : s.cons) if (!c.ok(x)) return false;
    return true;
}
int main(int argc, char **argv) {
    H h(argc, argv);
    long lim = 60000;
    auto gen = [&](int kind) {
        Inst in;
        if (kind == 0) in = random_inst(h, 5, 5, h.p(0.5), 0.15, h.p(0.5) ? 0.8 : 0.3);
        else if (kind == 1) {   // set structures
            int n = h.in(2, 7), m = h.in(1, 5);
            for (int i = 0; i < n; i++) in.add(0, 1, h.p(0.1), h.in(0, 1));
            bool cov = h.p(0.3);
            for (int j = 0; j < m; j++) { RC r; r.e.k = -1; for (int i = 0; i < n; i++) if (h.p(0.6)) r.e.c[i] = 1; if (r.e.c.empty()) r.e.c[0] = 1; r.s = cov ? Sense::Greater : h.p(0.5) ? Sense::Equal : random_sense(h); if (h.p(0.1)) { for (auto &t : r.e.c) t.second = -1; r.e.k = 1; } in.cons.push_back(r); }
            in.obj = random_re(h, n, h.in(0, n + 2), h.p(0.7)); in.minimize = h.p(0.5);
            if (h.p(0.3)) for (auto &t : in.obj.c) t.second = 1;
        } else {                // decimal coefficients, duplicates, opposite pairs
            in = random_inst(h, 4, 2, true, 0.15, 0.3);
            int k = h.in(1, 3);
            for (int q = 0; q < k; q++) {
                RC r{random_re(h, in.n(), h.in(1, 3), true), random_sense(h)};
                if (r.e.c.empty()) r.e.c[0] = 1;
                double sc = h.p(0.5) ? 0.1 : h.p(0.5) ? 1.0 : 0.01;
                for (auto &t : r.e.c) t.second = std::round(t.second) * sc;
                r.e.k = std::round(r.e.k) * sc;
                in.cons.push_back(r);
                if (h.p(0.6)) { RC o = r; int w = h.in(0, 3); if (w == 1) o.s = r.s == Sense::Less ? Sense::Greater : r.s == Sense::Greater ? Sense::Less : Sense::Equal; if (w == 2) { for (auto &t : o.e.c) t.second = -t.second; o.e.k = -o.e.k; } if (w == 3) o.e.k += h.in(-1, 1); in.cons.push_back(o); }
            }
        }
        return in;
    };
    while (h.more(0.7) && h.evals < lim) {
        int kind = h.in(0, 2);
        Inst in = gen(kind);
        if (in.box() > 20000) continue;
        in.dup = h.p(0.1);
        Model m; in.build(m, h.p(0.5));
        std::string full = in.str();
        std::string dis;
        if (h.p(0.2)) for (size_t j = 0; j < in.cons.size(); j++) if (h.p(0.3)) { in.c[j]->disable(); in.cons[j].e.c.clear(); in.cons[j].e.k = 0; in.cons[j].s = Sense::Less; dis += str(" c%zu is disabled", j); }
        std::vector<std::vector<int>> feas; in.each([&](const std::vector<int> &x) { if (in.feasible(x)) feas.push_back(x); });
        int op = h.in(0, 7);
        const char *nm[] = {"reduce_problem_size", "remove_independent_variables", "extract_implicit_equality_constraints", "remove_redundant_set_constraints", "remove_duplicated_constraints", "remove_redundant_set_variables", "update_variable_bounds", "setup with presolve"};
        std::string d = full + dis + " op " + nm[op];
        std::optional<double> cut; int cutdir = 0;
        bool dominance = op == 1 || op == 0 || op == 5 || op == 7;
        bool threw = false; std::string what;
        try {
            if (op == 7) {
                option::Option o = base_option(h, true);
                o.preprocess.is_enabled_extract_implicit_equality_constraints = h.p(0.5); o.preprocess.is_enabled_remove_redundant_set_constraints = h.p(0.5);
                o.preprocess.is_enabled_remove_redundant_set_variables = h.p(0.5); o.preprocess.is_enabled_remove_duplicated_constraints = h.p(0.5);
                o.preprocess.is_enabled_extract_dependent_exclusive_or = o.preprocess.is_enabled_extract_dependent_exclusive_nor = o.preprocess.is_enabled_extract_dependent_inverted_integers = o.preprocess.is_enabled_extract_dependent_balanced_integers = o.preprocess.is_enabled_extract_dependent_constant_sum_integers = o.preprocess.is_enabled_extract_dependent_constant_difference_integers = o.preprocess.is_enabled_extract_dependent_constant_ratio_integers = o.preprocess.is_enabled_extract_dependent_intermediate = false;
                o.neighborhood.selection_mode = option::selection_mode::Off;
                m.setup(o, false);
            } else {
                m.setup_unique_names(); m.setup_structure();
                preprocess::ProblemSizeReducer<int, double> r(&m);
                if ((h.p(0.3) && op != 6) || op == 5) { d += " after reduce"; r.reduce_problem_size(false); m.setup_structure(); if (op != 0) dominance = true; }
                if (op == 0) r.reduce_problem_size(false);
                if (op == 1) r.remove_independent_variables(false);
                if (op == 2) r.extract_implicit_equality_constraints(false);
                if (op == 3) r.remove_redundant_set_constraints(false);
                if (op == 4) r.remove_duplicated_constraints(false);
                if (op == 5) r.remove_redundant_set_variables(false);
                if (op == 6) {
                    if (in.obj.c.empty()) continue;
                    option::Option o = base_option(h, true);
                    o.neighborhood.selection_mode = option::selection_mode::Off;
                    m.setup_neighborhood(o, false);
                    m.m_problem_size_reducer.setup(&m);
                    auto p = in.point(h); double v = in.obj.eval(p); bool primal = h.p(0.6);
                    cut = v; cutdir = (in.minimize == primal) ? -1 : 1;
                    d += str(" bound %g %s", v, primal ? "primal" : "dual");
                    m.update_variable_bounds(v, primal, false);
                }
            }
        } catch (std::exception &e) { threw = true; what = e.what(); }
        h.count(d);
        if (threw) {
            std::vector<std::vector<int>> g;
            for (auto &x : feas) if (!cut || (cutdir < 0 ? in.obj.eval(x) <= *cut + 1e-9 : in.obj.eval(x) >= *cut - 1e-9)) g.push_back(x);
            if (!g.empty()) h.fail("throw", d + ": throws although " + xs(g[0]) + " is feasible: " + what.substr(0, 120));
            continue;
        }
        Snap s = snap(m, in);
        long n_new = 0; std::optional<double> b0, b1;
        auto better = [&](std::optional<double> &b, double v) { if (!b || (in.minimize ? v < *b : v > *b)) b = v; };
        for (int i = 0; i < in.n(); i++) if (in.fixed[i] && (s.fixed[i] == 0 || s.val[i] != in.x0[i])) h.fail("unfix", d + str(": fixed variable x%d was changed to %d", i, s.val[i]));
        bool bad = false;
        in.each([&](const std::vector<int> &x) {
            bool o = in.feasible(x), n = adm(s, x);
            if (op == 6) {
                bool keep = cutdir < 0 ? in.obj.eval(x) <= *cut : in.obj.eval(x) >= *cut;
                if (in.in_bounds(x) && keep && !adm(Snap{s.lb, s.ub, s.val, s.fixed, {}}, x) && !bad) { bad = true; h.fail("bounds", d + ": cuts off " + xs(x)); }
                return;
            }
            if (o) better(b0, in.obj.eval(x));
            if (n) { better(b1, in.obj.eval(x)); n_new++; }
            if (n && !o && !bad) { bad = true; h.fail("admit", d + ": admits infeasible " + xs(x)); }
            if (o && !n && !dominance && !bad) { bad = true; h.fail("cut", d + ": cuts off feasible " + xs(x)); }
        });
        if (op != 6 && !bad) {
            if (b0.has_value() != b1.has_value()) h.fail("opt", d + ": no feasible solution is left");
            else if (b0 && in.has_obj && !near(*b0, *b1)) h.fail("opt", d + str(": the optimum changes from %.10g to %.10g", *b0, *b1));
        }
        // a fixed variable sits within the original bounds
        for (int i = 0; i < in.n(); i++) { if (s.fixed[i] && !in.fixed[i] && (s.val[i] < in.lb[i] || s.val[i] > in.ub[i]) && !feas.empty()) h.fail("range", d + str(": x%d is fixed at %d outside its bounds", i, s.val[i])); if (!in.fixed[i] && !feas.empty() && (s.lb[i] < in.lb[i] || s.ub[i] > in.ub[i])) h.fail("loosen", d + str(": bounds of x%d become [%d,%d]", i, s.lb[i], s.ub[i])); }
    }
    // large bounds: sampled points must not be cut off / admitted
    long n2 = 0;
    while (h.more(1.0) && n2++ < 60000) {
        Inst in; int n = h.in(1, 4);
        for (int i = 0; i < n; i++) { int k = h.in(0, 5); if (k == 0) in.add(constant::INT_HALF_MIN, constant::INT_HALF_MAX, false, h.in(-5, 5)); else if (k == 1) in.add(0, constant::INT_HALF_MAX, false, 3); else if (k == 2) in.add(-300000, h.in(0, 400000), false, 0); else if (k == 3) in.add(0, 1, false, 0); else { int l = h.in(-20, 5); in.add(l, l + h.in(0, 30), false, l); } }
        std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = h.p(0.7) ? h.in(std::max(in.lb[i], -50), std::min(in.ub[i], 50)) : h.in(std::max(in.lb[i], -500000), std::min(in.ub[i], 500000));
        int mm = h.in(1, 4);
        for (int j = 0; j < mm; j++) { RC r{random_re(h, n, h.in(1, n), h.p(0.6)), random_sense(h)}; if (r.e.c.empty()) r.e.c[0] = 1; r.e.k = 0; double v = r.e.eval(p); double sl = h.p(0.4) ? 0 : h.in(0, 200000) * 0.5; r.e.k = r.s == Sense::Less ? -v - sl : r.s == Sense::Greater ? -v + sl : -v; in.cons.push_back(r); }
        in.obj = random_re(h, n, 2, true); in.minimize = h.p(0.5);
        Model m; in.build(m, h.p(0.5));
        std::string d = in.str();
        if (!in.feasible(p)) continue;
        std::vector<std::vector<int>> pts; for (int q = 0; q < 30; q++) { auto x = p; for (int i = 0; i < n; i++) if (h.p(0.4)) { long y = (long)p[i] + h.in(-2, 2) * (h.p(0.3) ? 100000L : 1L); x[i] = (int)std::min<long>(in.ub[i], std::max<long>(in.lb[i], y)); } pts.push_back(x); }
        pts.push_back(p);
        try {
            m.setup_unique_names(); m.setup_structure();
            preprocess::ProblemSizeReducer<int, double> r(&m);
            int k = 0; while (k++ < 5) { int a = r.remove_redundant_constraints_with_tightening_variable_bounds(false), b = r.remove_implicit_fixed_variables(false); if (a + b == 0) break; }
        } catch (std::exception &e) { h.fail("throw", d + ": bound tightening throws although " + xs(p) + " is feasible: " + std::string(e.what()).substr(0, 100)); continue; }
        Snap s = snap(m, in);
        h.count(d);
        for (auto &x : pts) { bool o = in.feasible(x), nn = adm(s, x); if (o && !nn) { h.fail("cut", d + ": cuts off feasible " + xs(x)); break; } if (nn && !o) { h.fail("admit", d + ": admits infeasible " + xs(x)); break; } }
    }
    return h.done();
}
