#include "prep.h"
// sequences of incremental updates against evaluation from scratch
int main(int argc, char **argv) {
    H h(argc, argv); h.tiny = true;
    long lim = 20000;
    while (h.more(0.5) && h.evals < lim) {
        Inst in = random_inst(h, h.p(0.1) ? 60 : 6, 5, h.p(0.5));
        bool sel = h.p(0.5);
        int sb = in.n(), sk = 0;
        if (sel) { sk = h.in(2, 4); plant_selection(h, in, sk); for (int j = h.in(0, 3); j > 0; j--) in.cons.push_back(RC{random_re(h, in.n(), h.in(1, 5), true), random_sense(h)}); }
        Model m;
        in.dup = h.p(0.1);
        in.build(m, h.p(0.5));
        int ne = h.in(0, 2); std::vector<RE> es; std::vector<model_component::ExpressionProxy<int, double> *> ep;
        for (int i = 0; i < ne; i++) { es.push_back(random_re(h, in.n(), 3)); ep.push_back(&m.create_expression("e" + std::to_string(i), in.expr(es.back()))); }
        std::vector<char> en(in.cons.size(), 1);
        auto o = base_option(h, false);
        o.neighborhood.selection_mode = sel_mode(sel ? h.in(2, 4) : 0);
        try { m.setup(o, false); } catch (std::exception &e) { continue; }
        for (size_t j = 0; j < in.cons.size(); j++) en[j] = in.c[j]->is_enabled();
        std::string d = in.str();
        std::vector<int> x(in.n());
        auto p0 = in.point(h);
        for (int i = 0; i < in.n(); i++) if (in.v[i]->sense() != model_component::VariableSense::Selection && !in.v[i]->is_fixed()) in.v[i]->set_value_force(p0[i]);
        for (int i = 0; i < in.n(); i++) x[i] = in.v[i]->value();
        m.update();
        int steps = h.in(1, 8);
        std::string prog;
        auto vs = [&]() { std::vector<char> r; for (auto *c : m.current_violative_constraint_ptrs()) { for (size_t j = 0; j < in.c.size(); j++) if (in.c[j] == c) r.push_back(j); } std::sort(r.begin(), r.end()); return r; };
        for (int t = 0; t < steps; t++) {
            Move mv;
            std::vector<int> y = x;
            auto &S = m.selections();
            if (S.size() && h.p(0.5)) {
                auto &s = S[h.in(0, S.size() - 1)];
                Var *to = s.variable_ptrs[h.in(0, s.variable_ptrs.size() - 1)];
                if (to == s.selected_variable_ptr || s.selected_variable_ptr == nullptr || to->is_fixed() || s.selected_variable_ptr->is_fixed()) continue;
                mv.alterations.emplace_back(s.selected_variable_ptr, 0); mv.alterations.emplace_back(to, 1);
                mv.sense = neighborhood::MoveSense::Selection;
                prog += "; selection";
                for (auto *c : s.related_constraint_ptrs) mv.related_constraint_ptrs.push_back(c);
            } else {
                int k = h.in(1, 3); std::set<int> used;
                for (int q = 0; q < k; q++) {
                    int i = h.in(0, in.n() - 1);
                    if (used.count(i) || in.v[i]->is_fixed() || in.v[i]->sense() == model_component::VariableSense::Selection) continue;
                    used.insert(i); mv.alterations.emplace_back(in.v[i], h.in(in.lb[i], in.ub[i]));
                }
                if (mv.alterations.empty()) continue;
                mv.sense = neighborhood::MoveSense::General;
                for (auto &a : mv.alterations) for (auto *c : a.first->related_constraint_ptrs()) mv.related_constraint_ptrs.push_back(c);
                mv.sort_and_unique_related_constraint_ptrs();
                prog += "; move";
            }
            for (auto &a : mv.alterations) { for (int i = 0; i < in.n(); i++) if (in.v[i] == a.first) { y[i] = a.second; prog += str(" x%d:=%d", i, a.second); } }
            auto pv = vs(); bool pf = m.is_feasible();
            m.update(mv);
            x = y;
            auto bad = [&](const std::string &w) { h.fail("drift", d + " start " + xs(p0) + prog + ": " + w); };
            bool feas = true; std::vector<char> want;
            for (int i = 0; i < in.n(); i++) if (in.v[i]->value() != x[i]) bad(str("x%d is %d", i, in.v[i]->value()));
            for (size_t j = 0; j < in.cons.size(); j++) {
                if (!en[j]) continue;
                double v = in.cons[j].e.eval(x), w = in.cons[j].viol(x);
                double mg = in.cons[j].s == Sense::Less ? std::max(-v, 0.0) : in.cons[j].s == Sense::Greater ? std::max(v, 0.0) : 0.0;
                if (!near(in.c[j]->constraint_value(), v)) bad(str("constraint %zu value %.9g, from scratch %.9g", j, in.c[j]->constraint_value(), v));
                if (!near(in.c[j]->expression().value(), v)) bad(str("constraint %zu expression value", j));
                if (!near(in.c[j]->violation_value(), w)) bad(str("constraint %zu violation %.9g, from scratch %.9g", j, in.c[j]->violation_value(), w));
                if (!near(in.c[j]->margin_value(), mg)) bad(str("constraint %zu margin %.9g, from scratch %.9g", j, in.c[j]->margin_value(), mg));
                if (!near(in.c[j]->positive_part(), std::max(v, 0.0)) || !near(in.c[j]->negative_part(), std::max(-v, 0.0))) bad(str("constraint %zu parts", j));
                if (w >= constant::EPSILON) { feas = false; want.push_back(j); }
            }
            if (in.has_obj && !near(m.objective().value(), in.obj.eval(x))) bad(str("objective %.9g, from scratch %.9g", m.objective().value(), in.obj.eval(x)));
            for (int i = 0; i < ne; i++) if (!near(ep[i]->value(), es[i].eval(x))) bad(str("expression %d value %.9g, from scratch %.9g", i, ep[i]->value(), es[i].eval(x)));
            if (m.is_feasible() != feas) bad("feasibility flag");
            if (vs() != want) bad("violated-constraint list");
            std::vector<char> prev; for (auto *c : m.previous_violative_constraint_ptrs()) for (size_t j = 0; j < in.c.size(); j++) if (in.c[j] == c) prev.push_back(j);
            std::sort(prev.begin(), prev.end());
            if (prev != pv || m.previous_is_feasible() != pf) bad("previous violated list / feasibility");
            for (auto &s : S) {
                int ones = 0; for (auto *v : s.variable_ptrs) if (v->value() == 1) { ones++; if (v != s.selected_variable_ptr && ones == 1) bad("chosen variable of a selection is not the one set to 1"); }
                if (ones != 1) bad("selection does not have exactly one");
            }
        }
        h.count(d + prog, steps > 1);
        // a second look: everything equals a full update
        std::vector<double> cv; for (size_t j = 0; j < in.c.size(); j++) cv.push_back(in.c[j]->constraint_value());
        double ov = m.objective().value(); bool f = m.is_feasible();
        m.update();
        for (size_t j = 0; j < in.c.size(); j++) if (en[j] && !near(cv[j], in.c[j]->constraint_value())) h.fail("drift", d + prog + " full update differs");
        if (in.has_obj && !near(ov, m.objective().value())) h.fail("drift", d + prog + " full update of the objective differs");
        if (f != m.is_feasible()) h.fail("drift", d + prog + " full update feasibility differs");
    }
    return h.done();
}
