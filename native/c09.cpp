#include "prep.h"
#include <csignal>
#include <unistd.h>
// eliminating dependent variables against the original equations
static char g_d[8192];
static void on_alarm(int) { printf("FAIL [hang] %s: the elimination does not terminate within 5 s\nEVAL 1 1\n", g_d); fflush(stdout); _exit(1); }
int main(int argc, char **argv) {
    H h(argc, argv);
    long lim = 60000;
    signal(SIGALRM, on_alarm);
    while (h.more(1.0) && h.evals < lim) {
        Inst in; int n = h.in(2, 6);
        bool allbin = h.p(0.3);
        for (int i = 0; i < n; i++) {
            if (allbin || h.p(0.4)) in.add(0, 1, h.p(0.08), h.in(0, 1));
            else if (h.p(0.08)) in.add(constant::INT_HALF_MIN, constant::INT_HALF_MAX, false, h.in(-3, 3));
            else { int l = h.in(-4, 3); in.add(l, l + h.in(1, 5), h.p(0.08), h.in(l, l + 5)); }
        }
        int m_ = h.in(1, 4);
        for (int j = 0; j < m_; j++) {
            int a = h.in(0, n - 1), b = h.in(0, n - 1); if (a == b) continue;
            RC r; r.s = Sense::Equal; int k = h.in(0, 9);
            double t = h.p(0.5) ? 1 : h.p(0.5) ? -1 : h.in(2, 3);
            if (k == 0) { r.e.c[a] = t; r.e.c[b] = t; r.e.k = -t; }
            else if (k == 1) { r.e.c[a] = t; r.e.c[b] = -t; r.e.k = 0; }
            else if (k == 2) { r.e.c[a] = t; r.e.c[b] = t; r.e.k = 0; }
            else if (k == 3) { r.e.c[a] = t; r.e.c[b] = t; r.e.k = h.p(0.8) ? h.in(-5, 5) * t : h.in(-5, 5) * 0.5; }
            else if (k == 4) { r.e.c[a] = t; r.e.c[b] = -t; r.e.k = h.p(0.8) ? h.in(-5, 5) * t : h.in(-5, 5) * 0.5; }
            else if (k == 5) { r.e.c[a] = h.in(1, 3); r.e.c[b] = h.p(0.7) ? -h.in(1, 6) : 0.5 * h.in(1, 5); r.e.k = 0; }
            else if (k == 6 || k == 7) { for (int i = 0; i < n; i++) if (h.p(0.5)) r.e.c[i] = h.in(1, 3); r.e.c[a] = h.p(0.5) ? -1 : 1; if (h.p(0.2)) r.e.c[b] = 0.5; r.e.k = h.p(0.8) ? h.in(-3, 3) : 0.5; if (r.e.c.size() < 2) r.e.c[b] = 1; }
            else { r.e = random_re(h, n, h.in(1, 3), h.p(0.6)); if (r.e.c.empty()) r.e.c[a] = 1; r.s = random_sense(h); }
            in.cons.push_back(r);
        }
        if (h.p(0.15) && n >= 3) { int x = 0, y = 1, z = 2; RC r; r.s = Sense::Equal; r.e.c = {{x, 1}, {y, -1}}; in.cons.push_back(r); r.e.c = {{y, 1}, {z, -1}}; in.cons.push_back(r); r.e.c = {{x, -1}, {z, 1}}; r.e.k = h.p(0.3) ? 1 : 0; in.cons.push_back(r); }
        for (int q = h.in(0, 2); q > 0; q--) { RC r{random_re(h, n, h.in(1, n), h.p(0.6)), random_sense(h)}; if (!r.e.c.empty()) in.cons.push_back(r); }
        if (in.cons.empty()) continue;
        in.obj = random_re(h, n, h.in(0, n), h.p(0.5)); in.minimize = h.p(0.5); in.has_obj = h.p(0.9);
        Model m; in.build(m, h.p(0.5));
        int eu = h.in(0, 2); RE ue; model_component::IPExpression *uep = nullptr;
        if (eu == 0) { ue = random_re(h, n, 3, true); auto &p = m.create_expression("e", in.expr(ue)); uep = &p.flat_indexed_expressions(0); }
        std::string d = in.str();
        option::Option o = base_option(h, true);
        auto &P = o.preprocess; bool all = h.p(0.6);
        P.is_enabled_extract_dependent_exclusive_or = all || h.p(0.5); P.is_enabled_extract_dependent_exclusive_nor = all || h.p(0.5); P.is_enabled_extract_dependent_inverted_integers = all || h.p(0.5);
        P.is_enabled_extract_dependent_balanced_integers = all || h.p(0.5); P.is_enabled_extract_dependent_constant_sum_integers = all || h.p(0.5); P.is_enabled_extract_dependent_constant_difference_integers = all || h.p(0.5);
        P.is_enabled_extract_dependent_constant_ratio_integers = all || h.p(0.5); P.is_enabled_extract_dependent_intermediate = all || h.p(0.5);
        bool reduce = h.p(0.3); if (reduce) d += " (with problem size reduction)";
        snprintf(g_d, sizeof g_d, "%s", d.c_str());
        bool threw = false; std::string what;
        alarm(5);
        try {
            m.setup_unique_names(); m.fix_variables_with_single_value(); m.setup_structure();
            m.m_problem_size_reducer.setup(&m);
            preprocess::DependentVariableExtractor<int, double> x(&m);
            while (x.extract(o, false) != 0) {
                while (true) { m.setup_structure(); if (x.eliminate(false) == 0) break; }
                if (reduce) m.m_problem_size_reducer.reduce_problem_size(false);
                m.setup_structure();
            }
            m.setup_structure();
            m.setup_fixed_sensitivities(false);
        } catch (std::exception &e) { threw = true; what = e.what(); }
        alarm(0);
        h.count(d);
        bool anyunb = false; for (int i = 0; i < n; i++) anyunb |= in.ub[i] > 1000;
        if (threw) {
            if (!anyunb && in.box() < 20000) { bool f = false; std::vector<int> w; in.each([&](const std::vector<int> &x) { if (!f && in.feasible(x)) { f = true; w = x; } }); if (f) h.fail("throw", d + ": throws although " + xs(w) + " is feasible: " + what.substr(0, 150)); }
            continue;
        }
        std::vector<char> dep(n); for (int i = 0; i < n; i++) dep[i] = in.v[i]->dependent_expression_ptr() != nullptr;
        // nothing mentions an eliminated variable any more
        auto mention = [&](model_component::IPExpression &e, const std::string &w) { for (auto &t : e.sensitivities()) for (int i = 0; i < n; i++) if (dep[i] && in.v[i] == t.first) h.fail("mention", d + ": " + w + str(" still mentions the eliminated x%d", i)); };
        if (in.has_obj) mention(m.objective().expression(), "the objective");
        for (auto &p : m.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) if (c.is_enabled()) mention(c.expression(), "constraint " + c.name());
        for (int i = 0; i < n; i++) if (dep[i]) { if (!in.v[i]->dependent_expression_ptr()) h.fail("noexpr", d); else mention(*in.v[i]->dependent_expression_ptr(), str("the defining expression of x%d", i)); }
        if (uep) mention(*uep, "a user expression");
        // every assignment of the remaining variables
        auto visit = [&](const std::vector<int> &y) {
            for (int i = 0; i < n; i++) if (!dep[i] && !in.v[i]->is_fixed()) in.v[i]->set_value_force(y[i]);
            m.update();
            std::vector<int> x(n); for (int i = 0; i < n; i++) x[i] = in.v[i]->value();
            std::string at = d + " at " + xs(x);
            for (int i = 0; i < n; i++) if (dep[i]) {
                double v = in.v[i]->dependent_expression_ptr()->constant_value(); for (auto &t : in.v[i]->dependent_expression_ptr()->sensitivities()) v += t.second * t.first->value();
                if (!near(v, std::round(v))) return;       // no integer value: that assignment has no completion; judged by feasibility below
            }
            bool exact = true;
            for (size_t j = 0; j < in.cons.size(); j++) if (!in.c[j]->is_enabled() && !reduce && in.cons[j].s == Sense::Equal && !in.cons[j].ok(x)) { exact = false; h.fail("forced", at + str(": equation c%zu, used to define a variable, does not hold", j)); }
            if (!exact) return;
            if (in.has_obj && !near(m.objective().value(), in.obj.eval(x))) h.fail("obj", at + str(": objective %g, original %g", m.objective().value(), in.obj.eval(x)));
            if (uep && !near(uep->value(), ue.eval(x))) h.fail("expr", at + str(": expression %g, original %g", uep->value(), ue.eval(x)));
            for (size_t j = 0; j < in.cons.size(); j++) if (in.c[j]->is_enabled() && !near(in.c[j]->constraint_value(), in.cons[j].e.eval(x))) h.fail("con", at + str(": constraint c%zu value %g, original %g", j, in.c[j]->constraint_value(), in.cons[j].e.eval(x)));
            bool f = true; for (auto &p : m.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) if (c.is_enabled() && c.violation_value() > 1e-5) f = false;
            bool unb_ok = true; (void)unb_ok;
            if (f && !in.feasible(x)) h.fail("admit", at + ": accepted although infeasible in the original model");
            if (!f && in.feasible(x) && !reduce) h.fail("reject", at + ": rejected although feasible in the original model");
        };
        Inst sub = in; for (int i = 0; i < n; i++) { if (dep[i]) { sub.fixed[i] = 1; sub.x0[i] = 0; } else if (in.v[i]->is_fixed()) { sub.fixed[i] = 1; sub.x0[i] = in.v[i]->value(); } else { int L = in.v[i]->lower_bound(), U = in.v[i]->upper_bound(); sub.lb[i] = std::min(std::max(L, -6), U); sub.ub[i] = std::max(std::min(U, 6), L); if (sub.lb[i] > sub.ub[i]) std::swap(sub.lb[i], sub.ub[i]); } }
        long f0 = h.fails;
        if (sub.box() < 3000) sub.each([&](const std::vector<int> &y) { if (h.fails < f0 + 2) visit(y); });
        else for (int q = 0; q < 200 && h.fails < f0 + 2; q++) visit(sub.point(h));
        // every original feasible assignment survives: dependents equal their expressions there
        if (!reduce && !anyunb && in.box() < 3000) in.each([&](const std::vector<int> &x) {
            if (h.fails >= f0 + 2 || !in.feasible(x)) return;
            for (int i = 0; i < n; i++) if (dep[i]) {
                std::map<Var *, int> id; for (int q = 0; q < n; q++) id[in.v[q]] = q;
                auto *e = in.v[i]->dependent_expression_ptr(); double v = e->constant_value(); for (auto &t : e->sensitivities()) v += t.second * x[id[t.first]];
                if (!near(v, x[i])) h.fail("value", d + " at " + xs(x) + str(": the defining expression of x%d gives %g", i, v));
            }
        });
        // a fractional forced value must not be accepted with a rounded one
        if (sub.box() < 3000) sub.each([&](const std::vector<int> &y) {
            if (h.fails >= f0 + 2) return;
            for (int i = 0; i < n; i++) if (!dep[i] && !in.v[i]->is_fixed()) in.v[i]->set_value_force(y[i]);
            m.update();
            bool f = true; for (auto &p : m.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) if (c.is_enabled() && c.violation_value() > 1e-5) f = false;
            std::vector<int> x(n); for (int i = 0; i < n; i++) x[i] = in.v[i]->value();
            if (f && !in.feasible(x)) h.fail("admit", d + " at " + xs(x) + ": accepted although infeasible in the original model");
        });
    }
    return h.done();
}
