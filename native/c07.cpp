#include "common.h"
using IH = solution::IncumbentHolder<int, double>;
using SC = solution::SolutionScore;
struct Ref { bool has = false; double obj = HUGE_VALF; int id = -1; SC sc; };
int main(int argc, char **argv) {
    H h(argc, argv);
    while (h.more(0.5) && h.evals < 12000) {
        IH ih;
        Ref loc, glo, fea;
        double bl = HUGE_VALF, bg = HUGE_VALF, bf = HUGE_VALF;
        bool found = false;
        bool viamodel = h.p(0.4);
        // a model whose variable carries the id, with a dependent variable and a disabled constraint
        Model m;
        Inst in;
        in.add(-100000, 100000); in.add(-100000, 100000);
        in.cons.push_back(RC{RE{{{0, 1.0}}, -3}, Sense::Less}); in.cons.push_back(RC{RE{{{0, 2.0}, {1, 1.0}}, 5}, Sense::Greater});
        in.obj = RE{{{0, 1.0}}, 0};
        model_component::ExpressionProxy<int, double> *de = nullptr;
        if (viamodel) {
            in.build(m);
            de = &m.create_expression("d", 2 * (*in.v[0]) + 7);
            in.c[1]->disable();
            in.v[1]->set_dependent_expression_ptr(&de->flat_indexed_expressions(0));
            m.setup_unique_names(); m.setup_structure();
        }
        std::string prog = viamodel ? "model" : "solution";
        int steps = h.in(1, 12), grid = h.p(0.5) ? 3 : 50;
        for (int t = 0; t < steps; t++) {
            if (h.p(0.12)) { ih.reset_local_augmented_incumbent(); bl = HUGE_VALF; loc.obj = HUGE_VALF; prog += "; reset"; continue; }
            SC s;
            s.objective = h.in(-grid, grid); s.local_augmented_objective = h.in(-grid, grid); s.global_augmented_objective = h.in(-grid, grid);
            if (h.p(0.2)) { double d = h.p(0.5) ? 0.5 : 1e-7; s.objective += d; s.local_augmented_objective -= d; s.global_augmented_objective += d; }
            s.is_feasible = h.p(0.5); s.total_violation = s.is_feasible ? 0 : 1; s.local_penalty = t; s.global_penalty = 2 * t;
            prog += str("; try(o=%g,l=%g,g=%g,%s)", s.objective, s.local_augmented_objective, s.global_augmented_objective, s.is_feasible ? "feas" : "inf");
            int id = t + 1, st;
            if (viamodel) { in.v[0]->set_value_force(id); m.m_objective.update(); in.c[0]->update(); st = ih.try_update_incumbent(&m, s); }
            else {
                solution::DenseSolution<int, double> sol;
                sol.objective = id; sol.total_violation = id * 2; sol.is_feasible = s.is_feasible;
                multi_array::ValueProxy<int> vp(0); vp.value() = id; sol.variable_value_proxies.push_back(vp);
                st = ih.try_update_incumbent(sol, s);
            }
            const double E = constant::EPSILON;
            int want = 0;
            if (s.local_augmented_objective + E < bl) { want |= 1; bl = s.local_augmented_objective; loc = Ref{true, bl, id, s}; }
            if (s.global_augmented_objective + E < bg) { want |= 2; bg = s.global_augmented_objective; glo = Ref{true, bg, id, s}; }
            if (s.is_feasible) { found = true; if (s.objective + E < bf) { want |= 4; bf = s.objective; fea = Ref{true, bf, id, s}; } }
            auto bad = [&](const std::string &w) { h.fail("incumbent", prog + ": " + w); };
            if (st != want) bad(str("status %d, expected %d", st, want));
            if (ih.is_found_feasible_solution() != found) bad("is_found_feasible_solution wrong");
            auto chk = [&](const Ref &r, double o, const SC &sc, const solution::DenseSolution<int, double> &d, const char *w) {
                if (!(o == r.obj || (o > 1e300 && r.obj > 1e300) || near(o, r.obj, 1e-9))) { bad(str("%s objective %g, best seen %g", w, o, r.obj)); return; }
                if (!r.has) return;
                if (sc.objective != r.sc.objective || sc.local_penalty != r.sc.local_penalty || sc.is_feasible != r.sc.is_feasible || sc.global_augmented_objective != r.sc.global_augmented_objective || sc.local_augmented_objective != r.sc.local_augmented_objective || sc.global_penalty != r.sc.global_penalty || sc.total_violation != r.sc.total_violation)
                    bad(str("%s score is not the score of the best candidate", w));
                int got = d.variable_value_proxies[0].value();
                if (got != r.id) bad(str("%s solution is candidate %d, best is candidate %d", w, got, r.id));
                if (viamodel) {
                    if (d.variable_value_proxies[1].value() != 2 * r.id + 7) bad(str("%s solution: dependent variable %d, its expression %d", w, d.variable_value_proxies[1].value(), 2 * r.id + 7));
                    double cv = 2 * r.id + (2 * r.id + 7) + 5;
                    if (!near(d.constraint_value_proxies[1].value(), cv)) bad(str("%s solution: disabled constraint value %g expected %g", w, d.constraint_value_proxies[1].value(), cv));
                    if (!near(d.expression_value_proxies[0].value(), 2 * r.id + 7)) bad(str("%s solution: expression value", w));
                } else if (d.objective != r.id || d.total_violation != 2 * r.id) bad(str("%s solution objective field", w));
            };
            chk(loc, ih.local_augmented_incumbent_objective(), ih.local_augmented_incumbent_score(), ih.local_augmented_incumbent_solution(), "local");
            chk(glo, ih.global_augmented_incumbent_objective(), ih.global_augmented_incumbent_score(), ih.global_augmented_incumbent_solution(), "global");
            chk(fea, ih.feasible_incumbent_objective(), ih.feasible_incumbent_score(), ih.feasible_incumbent_solution(), "feasible");
            if (fea.has && !ih.feasible_incumbent_score().is_feasible) bad("stored feasible incumbent is infeasible");
        }
        h.count(prog, steps > 1);
    }
    // argmin / argmax helpers over scores
    while (h.more(0.7) && h.evals < 18000) {
        std::vector<SC> v; int n = h.in(1, 7); std::string d = "scores";
        for (int i = 0; i < n; i++) { SC s; s.objective = h.in(-3, 3); s.objective_improvement = h.in(-3, 3); s.local_penalty = h.in(0, 4); s.global_penalty = h.in(0, 4); s.local_augmented_objective = h.in(-3, 3); s.global_augmented_objective = h.in(-3, 3); v.push_back(s); d += str(" (%g,%g,%g,%g,%g,%g)", s.objective, s.objective_improvement, s.local_penalty, s.global_penalty, s.local_augmented_objective, s.global_augmented_objective); }
        h.count(d);
        auto chk = [&](int got, double SC::*f, bool mx, const char *w) {
            if (got < 0 || got >= n) { h.fail("argmin", d + w + " out of range"); return; }
            for (auto &s : v) if (mx ? s.*f > v[got].*f : s.*f < v[got].*f) { h.fail("argmin", d + " " + w); return; }
        };
        chk(solution::argmax_index_objective_improvement(v), &SC::objective_improvement, true, "objective_improvement");
        chk(solution::argmin_index_objective(v), &SC::objective, false, "objective");
        chk(solution::argmin_index_local_penalty(v), &SC::local_penalty, false, "local_penalty");
        chk(solution::argmin_index_global_penalty(v), &SC::global_penalty, false, "global_penalty");
        chk(solution::argmin_index_local_augmented_objective(v), &SC::local_augmented_objective, false, "local_augmented");
        chk(solution::argmin_index_global_augmented_objective(v), &SC::global_augmented_objective, false, "global_augmented");
    }
    return h.done();
}
