#include "prep.h"
#include <csignal>
#include <cstring>
#include <unistd.h>
// the solver's result against the model the user wrote
static char g_d[8192];
static long g_ev = 0;
static void on_alarm(int) { printf("FAIL [hang] %s: the solver does not return within 20 s\nEVAL %ld 1\n", g_d, g_ev + 1); fflush(stdout); _exit(1); }
int main(int argc, char **argv) {
    H h(argc, argv);
    long lim = argc > 3 ? atol(argv[3]) : 30000;
    signal(SIGALRM, on_alarm);
    while (h.more(1.0) && h.evals < lim) {
        Inst in; int n = h.in(2, 6); bool allbin = h.p(0.4);
        for (int i = 0; i < n; i++) {
            if (allbin || h.p(0.5)) in.add(0, 1, h.p(0.08), h.in(0, 1));
            else { int l = h.in(-4, 3); in.add(l, l + h.in(1, 5), h.p(0.08), h.in(l, l + 5)); }
        }
        int m_ = h.in(0, 4);
        for (int j = 0; j < m_; j++) {
            int a = h.in(0, n - 1), b = h.in(0, n - 1); if (a == b) continue;
            RC r; r.s = Sense::Equal; int k = h.in(0, 11);
            double t = h.p(0.5) ? 1 : h.p(0.5) ? -1 : h.in(2, 3);
            if (k == 0) { r.e.c[a] = t; r.e.c[b] = t; r.e.k = -t; }
            else if (k == 1) { r.e.c[a] = t; r.e.c[b] = -t; }
            else if (k == 2) { r.e.c[a] = t; r.e.c[b] = t; r.e.k = h.in(-4, 4) * t; }
            else if (k == 3) { r.e.c[a] = t; r.e.c[b] = -t; r.e.k = h.in(-4, 4) * t; }
            else if (k == 4) { r.e.c[a] = h.in(1, 3); r.e.c[b] = -h.in(1, 4); }
            else if (k == 5) { for (int i = 0; i < n; i++) if (h.p(0.5)) r.e.c[i] = h.in(1, 3); r.e.c[a] = h.p(0.5) ? -1 : 1; r.e.k = h.in(-3, 3); }
            else if (k == 6) { r.e.c[a] = 1; r.e.c[b] = -1; r.s = Sense::Less; r.e.k = h.p(0.5) ? 0 : h.in(-2, 2); }
            else if (k == 7) { for (int i = 0; i < n; i++) if (h.p(0.6)) r.e.c[i] = 1; r.e.k = -1; r.s = random_sense(h); if (r.e.c.empty()) continue; }
            else if (k == 8) { r.e.c[a] = 1; r.e.c[b] = 1; int z = h.in(0, n - 1); if (z == a || z == b) continue; r.e.c[z] = -2; }
            else { r.e = random_re(h, n, h.in(1, n + 1), h.p(0.6)); if (r.e.c.empty()) continue; r.s = random_sense(h); }
            in.cons.push_back(r);
        }
        if (h.p(0.35)) plant_selection(h, in, h.in(2, 4));
        n = in.n();
        if (h.p(0.2) && n >= 4) {  // parity equations with a key variable each
            int nk = h.in(1, 2);
            for (int q = 0; q < nk; q++) { RC r; r.s = Sense::Equal; for (int i = 0; i < n; i++) if (in.lb[i] == 0 && in.ub[i] == 1 && h.p(0.5)) r.e.c[i] = 1; int y = in.add(0, 2, false, 0); r.e.c[y] = -2; r.e.k = -h.in(0, 1); if (r.e.c.size() > 2) in.cons.push_back(r); }
            n = in.n();
        }
        if (in.box() > 40000) continue;
        in.obj = random_re(h, n, h.in(0, n + 1), h.p(0.5)); in.minimize = h.p(0.5); in.has_obj = h.p(0.9);
        Model m; bool arr = h.p(0.5); in.build(m, arr);
        RE ue = random_re(h, n, 3, h.p(0.5)); m.create_expression("e", in.expr(ue));
        option::Option o;
        o.general.iteration_max = h.in(0, 12); o.general.time_max = 5; o.general.seed = h.in(0, 1 << 20);
        o.general.is_enabled_fast_evaluation = h.p(0.8);
        o.tabu_search.iteration_max = h.in(1, 40); o.tabu_search.seed = h.in(0, 1 << 20); o.tabu_search.is_enabled_shuffle = h.p(0.7);
        o.tabu_search.initial_tabu_tenure = h.in(1, 10);
        if (h.p(0.5)) { o.tabu_search.is_enabled_move_curtail = h.p(0.5); o.tabu_search.is_enabled_automatic_break = h.p(0.5); o.tabu_search.is_enabled_initial_modification = h.p(0.5); o.tabu_search.ignore_tabu_if_global_incumbent = h.p(0.5); }
        auto &P = o.preprocess; bool all = h.p(0.4); double q = h.p(0.5) ? 0.3 : 0.8;
        P.is_enabled_presolve = all || h.p(q); P.is_enabled_remove_duplicated_constraints = all || h.p(q); P.is_enabled_remove_redundant_set_variables = all || h.p(q);
        P.is_enabled_remove_redundant_set_constraints = all || h.p(q); P.is_enabled_extract_implicit_equality_constraints = all || h.p(q); P.is_enabled_online_bounding = all || h.p(q);
        P.is_enabled_initial_value_correction = h.p(0.9);
        P.is_enabled_extract_dependent_exclusive_or = all || h.p(q); P.is_enabled_extract_dependent_exclusive_nor = all || h.p(q); P.is_enabled_extract_dependent_inverted_integers = all || h.p(q);
        P.is_enabled_extract_dependent_balanced_integers = all || h.p(q); P.is_enabled_extract_dependent_constant_sum_integers = all || h.p(q); P.is_enabled_extract_dependent_constant_difference_integers = all || h.p(q);
        P.is_enabled_extract_dependent_constant_ratio_integers = all || h.p(q); P.is_enabled_extract_dependent_intermediate = all || h.p(q);
        auto &N = o.neighborhood; bool alln = h.p(0.5);
        N.is_enabled_exclusive_or_move = alln || h.p(q); N.is_enabled_exclusive_nor_move = alln || h.p(q); N.is_enabled_inverted_integers_move = alln || h.p(q); N.is_enabled_balanced_integers_move = alln || h.p(q);
        N.is_enabled_constant_sum_integers_move = alln || h.p(q); N.is_enabled_constant_difference_integers_move = alln || h.p(q); N.is_enabled_constant_ratio_integers_move = alln || h.p(q);
        N.is_enabled_aggregation_move = alln || h.p(q); N.is_enabled_precedence_move = alln || h.p(q); N.is_enabled_variable_bound_move = alln || h.p(q); N.is_enabled_trinomial_exclusive_nor_move = alln || h.p(q);
        N.is_enabled_soft_selection_move = alln || h.p(q); N.is_enabled_chain_move = alln || h.p(q); N.is_enabled_two_flip_move = h.p(0.3); N.is_enabled_integer_step_size_adjuster = h.p(0.4);
        int sm = h.in(0, 4); N.selection_mode = sel_mode(sm);
        o.lagrange_dual.is_enabled = h.p(0.3); o.lagrange_dual.iteration_max = h.in(1, 30); o.local_search.is_enabled = h.p(0.3); o.local_search.iteration_max = h.in(1, 30);
        o.pdlp.is_enabled = h.p(0.1); o.pdlp.iteration_max = 200; o.pdlp.time_max = 1;
        o.output.is_enabled_store_feasible_solutions = h.p(0.7);
        o.parallel.is_enabled_move_update_parallelization = o.parallel.is_enabled_move_evaluation_parallelization = false;
        o.restart.restart_mode = h.p(0.3) ? option::restart_mode::Simple : option::restart_mode::Smart;
        std::string d = in.str() + str(" [presolve %d lagrange %d local %d pdlp %d sel %d iters %d/%d arrays %d all %d,%d online %d]", P.is_enabled_presolve, o.lagrange_dual.is_enabled, o.local_search.is_enabled, o.pdlp.is_enabled, sm, o.general.iteration_max, o.tabu_search.iteration_max, arr, all, alln, P.is_enabled_online_bounding);
        snprintf(g_d, sizeof g_d, "%s", d.c_str()); g_ev = h.evals;
        bool any = false; double best = 0;
        in.each([&](const std::vector<int> &x) { if (in.feasible(x)) { double v = in.has_obj ? in.obj.eval(x) : 0; if (!any || (in.minimize ? v < best : v > best)) best = v; any = true; } });
        alarm(20);
        try {
            auto r = solver::solve(&m, o);
            alarm(0);
            h.count(d);
            auto &S = r.solution;
            auto val = [&](int i) { return arr ? S.variables("x").flat_indexed_values(i) : S.variables("x" + std::to_string(i)).flat_indexed_values(0); };
            auto cv = [&](int i) { return arr ? S.constraints("c").flat_indexed_values(i) : S.constraints("c" + std::to_string(i)).flat_indexed_values(0); };
            auto vv = [&](int i) { return arr ? S.violations("c").flat_indexed_values(i) : S.violations("c" + std::to_string(i)).flat_indexed_values(0); };
            std::vector<int> x; for (int i = 0; i < n; i++) x.push_back(val(i));
            d += " returned " + xs(x);
            bool elim = P.is_enabled_presolve;   // the bounds of an eliminated variable are constraints of the reduced model
            if ((S.is_feasible() || !elim) && !in.in_bounds(x)) h.fail("range", d + ": a value is outside the bounds or the fixing the user gave");
            double ob = in.has_obj ? in.obj.eval(x) : 0;
            if (!near(S.objective(), ob)) h.fail("objective", d + str(": reported objective %g, the user's objective is %g", S.objective(), ob));
            if (!near(S.expressions("e").flat_indexed_values(0), ue.eval(x))) h.fail("expression", d + str(": reported expression %g, is %g", S.expressions("e").flat_indexed_values(0), ue.eval(x)));
            double tv = 0;
            for (size_t j = 0; j < in.cons.size(); j++) {
                double v = in.cons[j].e.eval(x), w = in.cons[j].viol(x); tv += w;
                if (!near(cv(j), v)) h.fail("constraint", d + str(": constraint %zu reported %g, is %g", j, cv(j), v));
                if (!near(vv(j), w)) h.fail("violation", d + str(": violation of constraint %zu reported %g, is %g", j, vv(j), w));
            }
            if (in.in_bounds(x) ? !near(S.total_violation(), tv) && (!elim || S.is_feasible()) : S.total_violation() < tv - 1e-6) h.fail("total", d + str(": total violation reported %g, is %g", S.total_violation(), tv));
            bool feas = in.feasible(x);
            if (S.is_feasible() && !feas) h.fail("feasible", d + ": reported feasible but a constraint of the user is violated");
            if (S.is_feasible() && any && in.has_obj && (in.minimize ? S.objective() < best - 1e-6 : S.objective() > best + 1e-6)) h.fail("better", d + str(": objective %g beats the true optimum %g", S.objective(), best));
            if (r.status.is_found_feasible_solution != S.is_feasible()) h.fail("status", d + str(": the status says found=%d, the solution says feasible=%d", r.status.is_found_feasible_solution, S.is_feasible()));
            if (S.is_feasible() && !any) h.fail("infeasible", d + ": an infeasible model is reported feasible");
            for (auto &s : r.feasible_solution_archive.solutions()) {
                std::vector<int> y(n, 0);
                for (auto &p : s.variables) { int k = -1; for (int i = 0; i < n; i++) if (p.first == in.v[i]->name()) k = i; if (k < 0) h.fail("archive", d + ": unknown name " + p.first); else y[k] = p.second; }
                if (!in.feasible(y)) h.fail("archive", d + ": a stored feasible solution " + xs(y) + " is not feasible");
                else if (in.has_obj && !near(s.objective, in.obj.eval(y))) h.fail("archive", d + ": stored feasible solution " + xs(y) + str(" reported objective %g, is %g", (double)s.objective, in.obj.eval(y)));
            }
        } catch (const std::exception &e) {
            alarm(0);
            h.count(d);
            if (any && !strstr(e.what(), "function verify_")) h.fail("error", d + ": the solver fails on a feasible model: " + e.what());
        }
    }
    return h.done();
}
