#include "prep.h"
// incremental scoring against performing the move on the reference model
using SC = solution::SolutionScore;
struct RefScore { double obj, viol, lp, gp; bool feas; };
int main(int argc, char **argv) {
    H h(argc, argv); h.tiny = true;
    long lim = 120000;
    while (h.more(0.6) && h.evals < lim) {
        Inst in = random_inst(h, h.p(0.1) ? 40 : 6, 5, h.p(0.5), 0.1, h.p(0.5) ? 0.9 : 0.4);
        bool sel = h.p(0.5);
        if (sel) { plant_selection(h, in, h.in(2, 5)); for (int j = h.in(0, 4); j > 0; j--) in.cons.push_back(RC{random_re(h, in.n(), h.in(1, 5), true), random_sense(h)}); }
        // margins: loose constraints over binaries
        if (h.p(0.5)) { RE e = random_re(h, in.n(), h.in(1, 4), true); e.k = -h.in(0, 12); in.cons.push_back(RC{e, Sense::Less}); e.k = h.in(0, 12); in.cons.push_back(RC{e, Sense::Greater}); }
        Model m;
        in.has_obj = h.p(0.9);
        in.dup = h.p(0.1);
        in.build(m, h.p(0.5));
        int late = -1;   // a bound changed after the constraints were written
        if (h.p(0.15)) { late = h.in(0, in.n() - 1); if (!in.fixed[late]) { in.lb[late] = -h.in(0, 3); in.ub[late] = h.in(1, 9); in.v[late]->set_bound(in.lb[late], in.ub[late]); } }
        auto o = base_option(h, false);
        o.neighborhood.selection_mode = sel_mode(sel ? h.in(2, 4) : 0);
        try { m.setup(o, false); } catch (std::exception &e) { continue; }
        std::string d = in.str() + (late >= 0 ? str(" (bounds of x%d set after the constraints)", late) : "");
        std::vector<char> en(in.cons.size());
        std::vector<double> pl(in.cons.size()), pg(in.cons.size());
        for (size_t j = 0; j < in.cons.size(); j++) { if (h.p(0.1)) in.c[j]->disable(); en[j] = in.c[j]->is_enabled(); pl[j] = h.in(0, 5); pg[j] = h.in(0, 5); in.c[j]->local_penalty_coefficient_less() = pl[j]; in.c[j]->local_penalty_coefficient_greater() = pg[j]; }
        double G = h.in(1, 100); m.set_global_penalty_coefficient(G);
        m.categorize_constraints();
        for (auto *v : m.variable_type_reference().selection_variable_ptrs) { v->reset_related_selection_constraint_ptr_index(); }
        m.setup_variable_related_selection_constraint_ptr_index();
        std::vector<int> x(in.n());
        auto ref = [&](const std::vector<int> &z) {
            RefScore r{0, 0, 0, 0, true};
            double sg = in.minimize ? 1 : -1;
            if (in.has_obj) r.obj = sg * in.obj.eval(z);
            for (size_t j = 0; j < in.cons.size(); j++) {
                if (!en[j]) continue;
                double v = in.cons[j].e.eval(z);
                if (in.cons[j].s != Sense::Greater && v > 0) { r.viol += v; r.lp += v * pl[j]; }
                if (in.cons[j].s != Sense::Less && v < 0) { r.viol -= v; r.lp -= v * pg[j]; }
            }
            r.gp = r.viol * G; r.feas = !(r.viol > constant::EPSILON);
            return r;
        };
        for (int rep = 0; rep < 3; rep++) {
            auto p0 = in.point(h);
            for (int i = 0; i < in.n(); i++) if (in.v[i]->sense() != model_component::VariableSense::Selection && !in.v[i]->is_fixed()) in.v[i]->set_value_force(p0[i]);
            for (auto &s : m.selections()) { Var *c = s.variable_ptrs[h.in(0, s.variable_ptrs.size() - 1)]; for (auto *v : s.variable_ptrs) v->set_value_force(v == c); c->select(); }
            for (int i = 0; i < in.n(); i++) x[i] = in.v[i]->value();
            m.update();
            SC cur = m.evaluate({});
            RefScore rc = ref(x);
            auto cmp = [&](const SC &s, const RefScore &r, const std::string &w, bool flags, bool redviol, double objdiff, const std::vector<int> &y) {
                std::string at = d + " at " + xs(x) + " -> " + xs(y) + " " + w;
                auto bad = [&](const char *f, double g, double e) { h.fail("score", at + str(": %s %.9g, after the move %.9g", f, g, e)); };
                if (!near(s.objective, r.obj)) bad("objective", s.objective, r.obj);
                if (!near(s.total_violation, r.viol)) bad("total violation", s.total_violation, r.viol);
                if (!near(s.local_penalty, r.lp)) bad("local penalty", s.local_penalty, r.lp);
                if (!near(s.global_penalty, r.gp)) bad("global penalty", s.global_penalty, r.gp);
                if (!near(s.local_augmented_objective, r.obj + r.lp)) bad("local augmented", s.local_augmented_objective, r.obj + r.lp);
                if (!near(s.global_augmented_objective, r.obj + r.gp)) bad("global augmented", s.global_augmented_objective, r.obj + r.gp);
                if (s.is_feasible != r.feas) bad("feasible", s.is_feasible, r.feas);
                if (!near(s.objective_improvement, objdiff)) bad("objective improvement", s.objective_improvement, objdiff);
                if (objdiff > 2 * constant::EPSILON && !s.is_objective_improvable) bad("objective-improvable flag", 0, 1);
                if (redviol && !s.is_feasibility_improvable) bad("feasibility-improvable flag", 0, 1);
            };
            cmp(cur, rc, "current", true, false, 0, x);
            for (int t = 0; t < 6; t++) {
                Move mv; std::vector<int> y = x; int kind = h.in(0, 2);
                auto &S = m.selections();
                if (kind == 2 && S.size()) {
                    auto &s = S[h.in(0, S.size() - 1)];
                    Var *to = s.variable_ptrs[h.in(0, s.variable_ptrs.size() - 1)];
                    if (to == s.selected_variable_ptr) continue;
                    mv.alterations.emplace_back(s.selected_variable_ptr, 0); mv.alterations.emplace_back(to, 1);
                    mv.sense = neighborhood::MoveSense::Selection; mv.related_constraint_ptrs = s.related_constraint_ptrs;
                } else {
                    std::set<int> used;
                    for (int q = kind == 0 ? 1 : h.in(2, 4); q > 0; q--) { int i = h.in(0, in.n() - 1); if (used.count(i) || in.v[i]->is_fixed()) continue; used.insert(i); mv.alterations.emplace_back(in.v[i], h.in(in.lb[i], in.ub[i])); }
                    if (mv.alterations.empty()) continue;
                    mv.sense = neighborhood::MoveSense::General;
                    for (auto &a : mv.alterations) for (auto *c : a.first->related_constraint_ptrs()) mv.related_constraint_ptrs.push_back(c);
                    mv.sort_and_unique_related_constraint_ptrs();
                }
                for (auto &a : mv.alterations) for (int i = 0; i < in.n(); i++) if (in.v[i] == a.first) y[i] = a.second;
                RefScore r = ref(y);
                bool red = false;
                for (size_t j = 0; j < in.cons.size(); j++) if (en[j] && in.cons[j].viol(y) < in.cons[j].viol(x) - 3 * constant::EPSILON) red = true;
                double od = in.has_obj ? rc.obj - r.obj : 0;
                std::string md = d + xs(x) + xs(y);
                h.count(md);
                cmp(m.evaluate(mv), r, "full", true, red, od, y);
                SC s;
                m.evaluate_multi(&s, mv, cur); cmp(s, r, "multi", true, red, od, y);
                cmp(m.evaluate(mv, cur), r, "dispatch", true, red, od, y);
                if (mv.alterations.size() == 1) { SC t1; m.evaluate_single(&t1, mv, cur); cmp(t1, r, "single", true, red, od, y); }
                if (mv.sense == neighborhood::MoveSense::Selection) { SC t2; m.evaluate_selection(&t2, mv, cur); cmp(t2, r, "selection", true, red, od, y); }
                // and really perform it
            }
        }
    }
    return h.done();
}
