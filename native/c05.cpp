#include "prep.h"
// improvability flags against their definition
int main(int argc, char **argv) {
    H h(argc, argv); h.tiny = true;
    long lim = 40000;
    while (h.more(0.6) && h.evals < lim) {
        Inst in = random_inst(h, h.p(0.1) ? 30 : 6, 5, h.p(0.5), 0.15, h.p(0.5) ? 0.9 : 0.4);
        bool sel = h.p(0.3);
        if (sel) plant_selection(h, in, h.in(2, 4));
        Model m;
        in.has_obj = h.p(0.9);
        in.dup = h.p(0.1);
        in.build(m, h.p(0.5));
        auto o = base_option(h, false);
        o.neighborhood.selection_mode = sel_mode(sel ? h.in(2, 4) : 0);
        try { m.setup(o, false); } catch (std::exception &e) { continue; }
        std::string d = in.str();
        for (size_t j = 0; j < in.cons.size(); j++) if (h.p(0.1)) in.c[j]->disable();
        for (int i = 0; i < in.n(); i++) if (h.p(0.1)) { /* fixing during the search */ in.v[i]->fix(); d += str(" x%d fixed later", i); }
        m.categorize_variables(); m.categorize_constraints();
        m.setup_positive_and_negative_coefficient_mutable_variable_ptrs();
        for (int rep = 0; rep < 4; rep++) {
            auto p0 = in.point(h);
            std::string how;
            bool inc = rep > 0 && h.p(0.5);
            if (!inc) {
                for (int i = 0; i < in.n(); i++) if (!in.v[i]->is_fixed()) { int k = h.in(0, 2); if (k == 0) in.v[i]->set_value_force(p0[i]); else if (k == 1) in.v[i]->set_value_if_mutable(p0[i]); else *in.v[i] = p0[i]; }
                m.update();
            } else {
                Move mv; mv.sense = neighborhood::MoveSense::General; std::set<int> used;
                for (int q = h.in(1, 3); q > 0; q--) { int i = h.in(0, in.n() - 1); if (used.count(i) || in.v[i]->is_fixed()) continue; used.insert(i); mv.alterations.emplace_back(in.v[i], h.in(in.lb[i], in.ub[i])); }
                if (mv.alterations.empty()) continue;
                for (auto &a : mv.alterations) for (auto *c : a.first->related_constraint_ptrs()) mv.related_constraint_ptrs.push_back(c);
                mv.sort_and_unique_related_constraint_ptrs();
                m.update(mv); how = " after a move";
            }
            std::vector<int> x(in.n()); for (int i = 0; i < in.n(); i++) x[i] = in.v[i]->value();
            auto obj_ref = [&](int i) {
                if (!in.has_obj) return false;
                auto it = in.obj.c.find(i); double c = it == in.obj.c.end() ? 0 : it->second;
                if (!in.minimize) c = -c;
                return (c > 0 && x[i] > in.lb[i]) || (c < 0 && x[i] < in.ub[i]);
            };
            auto fea_ref = [&](int i, const std::vector<char> &use) {
                for (size_t j = 0; j < in.cons.size(); j++) {
                    if (!use[j] || !in.c[j]->is_enabled()) continue;
                    auto it = in.cons[j].e.c.find(i); if (it == in.cons[j].e.c.end() || it->second == 0) continue;
                    double w = in.cons[j].viol(x); if (w <= constant::EPSILON) continue;
                    // the definition: some value within the bounds reduces the violation
                    for (int y : {in.lb[i], x[i] - 1, x[i] + 1, in.ub[i]}) {
                        if (y < in.lb[i] || y > in.ub[i] || y == x[i]) continue;
                        auto z = x; z[i] = y; double r = in.cons[j].viol(z);
                        if (r < w - 1e-9) return true;
                        // overshooting an equality still is a direction that reduces it; the smallest step decides up to unit granularity
                        if (in.cons[j].s == Sense::Equal && ((in.cons[j].e.eval(z) - in.cons[j].e.eval(x)) * in.cons[j].e.eval(x) < 0)) return true;
                    }
                }
                return false;
            };
            std::string at = d + " at " + xs(x) + how;
            auto chk_o = [&](Var *v, bool want, const char *w) { if (v->is_objective_improvable() != want) h.fail("obj", at + str(": %s objective-improvable flag of %s is %d, should be %d", w, v->name().c_str(), !want, want)); };
            auto chk_f = [&](Var *v, bool want, const char *w) { if (v->is_feasibility_improvable() != want) h.fail("feas", at + str(": %s feasibility-improvable flag of %s is %d, should be %d", w, v->name().c_str(), !want, want)); };
            for (int i = 0; i < in.n(); i++) { in.v[i]->set_is_objective_improvable(h.p(0.5)); in.v[i]->set_is_feasibility_improvable(h.p(0.5)); }
            m.reset_variable_objective_improvabilities(); m.update_variable_objective_improvabilities();
            m.reset_variable_feasibility_improvabilities(); m.update_variable_feasibility_improvabilities();
            std::vector<char> all(in.cons.size(), 1);
            for (int i = 0; i < in.n(); i++) if (!in.v[i]->is_fixed()) { chk_o(in.v[i], obj_ref(i), "full"); chk_f(in.v[i], fea_ref(i, all), "full"); }
            h.count(at);
            // restricted refresh
            std::vector<char> of(in.n()), ff(in.n());
            for (int i = 0; i < in.n(); i++) { of[i] = h.p(0.5); ff[i] = h.p(0.5); in.v[i]->set_is_objective_improvable(of[i]); in.v[i]->set_is_feasibility_improvable(ff[i]); }
            std::vector<Var *> vs; std::vector<char> inv(in.n());
            for (int i = 0; i < in.n(); i++) if (h.p(0.4)) { vs.push_back(in.v[i]); inv[i] = 1; }
            std::vector<Con *> cs; std::vector<char> use(in.cons.size());
            for (size_t j = 0; j < in.cons.size(); j++) if (h.p(0.5)) { cs.push_back(in.c[j]); use[j] = 1; }
            m.update_variable_objective_improvabilities(vs);
            for (int i = 0; i < in.n(); i++) if (!in.v[i]->is_fixed()) chk_o(in.v[i], inv[i] ? obj_ref(i) : of[i], "restricted");
            bool rst = h.p(0.5);
            std::vector<char> base = ff;
            if (rst) {
                if (h.p(0.5)) {
                    m.reset_variable_feasibility_improvabilities(cs);
                    for (size_t j = 0; j < in.cons.size(); j++) if (use[j] && in.c[j]->is_enabled()) for (auto &t : in.cons[j].e.c) if (t.second != 0) base[t.first] = 0;
                } else {
                    m.reset_variable_feasibility_improvabilities(vs);
                    for (int i = 0; i < in.n(); i++) if (inv[i]) base[i] = 0;
                }
            }
            m.update_variable_feasibility_improvabilities(cs);
            for (int i = 0; i < in.n(); i++) if (!in.v[i]->is_fixed()) {
                // constraints whose terms vanish (zero coefficient) may or may not be reset: skip
                bool zero = false; for (size_t j = 0; j < in.cons.size(); j++) { auto it = in.cons[j].e.c.find(i); if (it != in.cons[j].e.c.end() && it->second == 0) zero = true; }
                if (!zero) chk_f(in.v[i], base[i] || fea_ref(i, use), "restricted");
            }
        }
    }
    return h.done();
}
