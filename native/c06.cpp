#include "prep.h"
// candidate moves after Model::setup, for havocked values: legality, related constraints, relation kept
using MS = neighborhood::MoveSense;
static void relation(H &h, Inst &in, int kind) {
    auto bin = [&]() { return in.add(0, 1, h.p(0.05), h.in(0, 1)); };
    auto itg = [&]() { int l = h.in(-6, 2); return in.add(l, l + h.in(2, 9), h.p(0.05), l + 1); };
    double s = h.p(0.5) ? 1 : -1;
    auto push = [&](RE e, Sense q) { for (auto &t : e.c) t.second *= s; e.k *= s; in.cons.push_back(RC{e, q}); };
    RE e; int a, b, c;
    Sense lt = h.p(0.5) ? Sense::Less : Sense::Greater;
    switch (kind) {
        case 0: a = bin(); b = bin(); e.c = {{a, 1}, {b, 1}}; e.k = -1; push(e, Sense::Equal); break;
        case 1: a = bin(); b = bin(); e.c = {{a, 1}, {b, -1}}; push(e, Sense::Equal); break;
        case 2: a = itg(); b = itg(); e.c = {{a, 1}, {b, 1}}; push(e, Sense::Equal); break;
        case 3: a = itg(); b = itg(); e.c = {{a, 1}, {b, -1}}; push(e, Sense::Equal); break;
        case 4: a = itg(); b = itg(); e.c = {{a, 1}, {b, 1}}; e.k = h.in(-8, 8); push(e, Sense::Equal); break;
        case 5: a = itg(); b = itg(); e.c = {{a, 1}, {b, -1}}; e.k = h.in(-8, 8); push(e, Sense::Equal); break;
        case 6: a = itg(); b = itg(); { int r = h.in(2, 4); int u = h.in(1, 3); if (h.p(0.5)) std::swap(a, b); e.c = {{a, (double)u}, {b, (h.p(0.5) ? -1.0 : 1.0) * u * r}}; } push(e, Sense::Equal); break;
        case 7: a = h.p(0.3) ? bin() : itg(); b = itg(); e.c = {{a, (double)h.in(1, 4)}, {b, (h.p(0.5) ? -1.0 : 1.0) * h.in(1, 4)}}; e.k = h.in(-8, 8); push(e, Sense::Equal); break;
        case 8: a = h.p(0.5) ? bin() : itg(); b = h.p(0.5) ? bin() : itg(); e.c = {{a, 1}, {b, -1}}; e.k = h.in(-3, 3); push(e, lt); break;
        case 9: a = h.p(0.5) ? bin() : itg(); b = itg(); e.c = {{a, h.p(0.4) ? 0.5 * h.in(1, 7) : (double)h.in(1, 5)}, {b, (h.p(0.5) ? -1.0 : 1.0) * h.in(1, 5)}}; e.k = h.in(-8, 8); push(e, lt); break;
        case 10: a = bin(); b = bin(); c = bin(); e.c = {{a, 1}, {b, 1}, {c, -2}}; push(e, Sense::Equal); break;
        case 11: { int k = h.in(2, 4); a = bin(); e.c[a] = -1; for (int i = 0; i < k; i++) e.c[bin()] = 1; push(e, Sense::Equal); break; }
        default: plant_selection(h, in, h.in(2, 4));
    }
}
int main(int argc, char **argv) {
    H h(argc, argv);
    long lim = 400000;
    while (h.more(0.6) && h.evals < lim) {
        Inst in;
        int nr = h.in(1, 4);
        for (int i = 0; i < nr; i++) relation(h, in, h.in(0, 12));
        for (int j = h.in(0, 4); j > 0; j--) in.cons.push_back(RC{random_re(h, in.n(), h.in(1, 5), true), random_sense(h)});
        int extra = h.in(0, 8); for (int i = 0; i < extra; i++) h.p(0.5) ? in.add(0, 1, false, 0) : in.add(-h.in(0, 5), h.in(0, 30), false, 0);
        bool presolve = h.p(0.15);
        if (presolve && h.p(0.7)) {   // parity system
            int k = h.in(1, 3); std::vector<int> b; for (int i = 0; i < k; i++) b.push_back(in.add(0, 1, false, 0));
            for (int i = 0; i < k; i++) { RE e; for (int j = 0; j < k; j++) if (i == j || h.p(0.4)) e.c[b[j]] = 1; e.c[in.add(-5, 5, false, 0)] = h.p(0.5) ? 2 : -2; e.k = h.in(0, 1); in.cons.push_back(RC{e, Sense::Equal}); }
        }
        if (in.box() == 0) continue;
        in.obj = random_re(h, in.n(), h.in(0, in.n()), true);
        Model m;
        in.dup = h.p(0.1);
        in.build(m, h.p(0.5));
        option::Option o = base_option(h, presolve);
        o.neighborhood.selection_mode = sel_mode(h.in(0, 4));
        if (presolve) { o.preprocess.is_enabled_extract_dependent_exclusive_or = o.preprocess.is_enabled_extract_dependent_exclusive_nor = o.preprocess.is_enabled_extract_dependent_inverted_integers = o.preprocess.is_enabled_extract_dependent_balanced_integers = o.preprocess.is_enabled_extract_dependent_constant_sum_integers = o.preprocess.is_enabled_extract_dependent_constant_difference_integers = o.preprocess.is_enabled_extract_dependent_constant_ratio_integers = o.preprocess.is_enabled_extract_dependent_intermediate = h.p(0.5); }
        o.neighborhood.is_enabled_two_flip_move = true;
        std::string d = in.str() + (presolve ? " [presolve]" : "") + str(" [selection mode %d]", (int)o.neighborhood.selection_mode);
        if (!presolve && h.p(0.3) && in.n() >= 2) { auto &fp = m.m_flippable_variable_ptr_pairs; int a = h.in(0, in.n() - 1), b = h.in(0, in.n() - 1); if (a != b && in.ub[a] == 1 && in.lb[a] == 0 && in.ub[b] == 1 && in.lb[b] == 0) fp.push_back({in.v[a], in.v[b]}); }
        try { m.setup(o, false); } catch (std::exception &e) { continue; }
        std::map<Var *, int> id; for (int i = 0; i < in.n(); i++) id[in.v[i]] = i;
        auto &N = m.neighborhood();
        for (int rep = 0; rep < 3; rep++) {
            for (auto *v : m.variable_reference().mutable_variable_ptrs) if (v->sense() != model_component::VariableSense::Selection) v->set_value_force(v->lower_bound() + h.in(0, std::min(40, v->upper_bound() - v->lower_bound())));
            for (auto &s : m.selections()) { std::vector<Var *> mu; bool fx = false; for (auto *v : s.variable_ptrs) { if (!v->is_fixed()) mu.push_back(v); else if (v->value() == 1) fx = true; } if (fx || mu.empty()) continue; Var *c = mu[h.in(0, mu.size() - 1)]; for (auto *v : mu) v->set_value_force(v == c); c->select(); }
            m.update();
            if (h.p(0.5)) { m.reset_variable_objective_improvabilities(); m.update_variable_objective_improvabilities(); m.reset_variable_feasibility_improvabilities(); m.update_variable_feasibility_improvabilities(); }
            else for (auto *v : in.v) { v->set_is_objective_improvable(h.p(0.5)); v->set_is_feasibility_improvable(h.p(0.5)); }
            std::vector<int> x(in.n()); for (int i = 0; i < in.n(); i++) x[i] = in.v[i]->value();
            bool all = h.p(0.4), ao = h.p(0.5), af = h.p(0.5);
            for (auto *g : N.m_move_generator_ptrs) { g->enable(); for (auto &mv : g->moves()) mv.is_available = h.p(0.95); }
            // chains of two offered moves
            auto check = [&](const Move &mv, const char *what) {
                std::string md; std::vector<int> y = x;
                for (auto &a : mv.alterations) { if (a.first == nullptr) { h.fail("move", d + " at " + xs(x) + ": null variable in a move"); return; } md += str(" x%d:=%d", id[a.first], a.second); y[id[a.first]] = a.second; }
                std::string at = d + " at " + xs(x) + str(" %s move (sense %d)", what, (int)mv.sense) + md;
                h.count(at);
                for (auto &a : mv.alterations) {
                    if (a.second < a.first->lower_bound() || a.second > a.first->upper_bound()) h.fail("bounds", at + ": outside the bounds");
                    if (a.first->is_fixed()) h.fail("fixed", at + ": alters a fixed variable");
                    for (size_t j = 0; j < in.c.size(); j++) if (in.c[j]->is_enabled() && in.c[j]->expression().sensitivities().count(a.first)) {
                        int k = 0; for (auto *c : mv.related_constraint_ptrs) if (c == in.c[j]) k++;
                        if (k != 1) h.fail("related", at + str(": constraint %zu is listed %d times among the related constraints", j, k));
                    }
                }
                std::set<Var *> as; for (auto &a : mv.alterations) as.insert(a.first);
                auto sat = [&](int level) {   // 0: satisfied when completable, 1: not worse
                    bool any = false, good = false;
                    for (size_t j = 0; j < in.c.size(); j++) {
                        if (!in.c[j]->is_enabled()) continue;
                        auto &S = in.c[j]->expression().sensitivities();
                        bool inset = true; for (auto *v : as) if (!S.count(v)) inset = false;
                        if (!inset || (mv.sense != MS::SoftSelection && S.size() != as.size())) continue;
                        bool lab = false; auto *c = in.c[j];
                        switch (mv.sense) {
                            case MS::ExclusiveOr: lab = c->is_exclusive_or(); break; case MS::ExclusiveNor: lab = c->is_exclusive_nor(); break;
                            case MS::InvertedIntegers: lab = c->is_inverted_integers(); break; case MS::BalancedIntegers: lab = c->is_balanced_integers(); break;
                            case MS::ConstantSumIntegers: lab = c->is_constant_sum_integers(); break; case MS::ConstantDifferenceIntegers: lab = c->is_constant_difference_integers(); break;
                            case MS::ConstantRatioIntegers: lab = c->is_constant_ratio_integers(); break; case MS::Aggregation: lab = c->is_aggregation(); break;
                            case MS::Precedence: lab = c->is_precedence(); break; case MS::VariableBound: lab = c->is_variable_bound(); break;
                            case MS::TrinomialExclusiveNor: lab = c->is_trinomial_exclusive_nor(); break; case MS::SoftSelection: lab = c->is_soft_selection(); break; default: break;
                        }
                        if (!lab) continue;
                        any = true;
                        auto val = [&](const std::vector<int> &z) { double r = c->expression().constant_value(); for (auto &t : S) r += t.second * z[id[t.first]]; return r; };
                        auto vio = [&](const std::vector<int> &z) { double r = val(z); return c->sense() == Sense::Less ? std::max(r, 0.0) : c->sense() == Sense::Greater ? std::max(-r, 0.0) : std::fabs(r); };
                        if (level == 1) { if (vio(y) <= vio(x) + 1e-9) good = true; continue; }
                        if (vio(y) <= 1e-6) { good = true; continue; }
                        // completable?
                        bool comp = true;   // every altered variable could be completed from the others
                        for (auto &t : S) { double need = y[id[t.first]] - val(y) / t.second; if (std::fabs(need - std::round(need)) > 1e-9) comp = false; }
                        if (!comp && mv.sense != MS::VariableBound) good = true;
                    }
                    if (any && !good) h.fail("relation", at + ": the relation it comes from is violated");
                };
                if (mv.sense >= MS::ExclusiveOr && mv.sense <= MS::Aggregation) sat(0);
                if (mv.sense == MS::VariableBound || mv.sense == MS::TrinomialExclusiveNor) sat(0);
                if (mv.sense == MS::Precedence || mv.sense == MS::SoftSelection) sat(1);
                if (mv.sense == MS::Selection) {
                    int ok = 0;
                    for (auto &s : m.selections()) { bool me = false; int ones = 0; for (auto *v : s.variable_ptrs) { if (as.count(v)) me = true; ones += y[id[v]]; } if (me) { if (ones != 1) h.fail("selection", at + ": the selection has not exactly one"); ok++; } }
                    if (ok != 1) h.fail("selection", at + ": touches several selections");
                } else for (auto &a : mv.alterations) if (a.first->sense() == model_component::VariableSense::Selection && mv.sense != MS::Chain) h.fail("selection", at + ": a non-selection move alters a selection variable");
            };
            N.update_moves(all, ao, af, false, 1);
            std::vector<Move *> off = N.move_ptrs();
            // every flagged move, and exactly those, is offered
            std::set<Move *> want;
            for (auto *g : N.m_move_generator_ptrs) for (size_t i = 0; i < g->moves().size(); i++) if (g->flags()[i]) want.insert(&g->moves()[i]);
            for (auto *p : off) { if (!want.count(p)) h.fail("offer", d + ": a move not flagged is offered"); if (p->is_available) check(*p, "offered"); }
            if (off.size() >= 2 && h.p(0.5)) {
                Move *a = off[h.in(0, off.size() - 1)], *b = off[h.in(0, off.size() - 1)];
                std::set<Var *> as; bool dup = false; for (auto &t : a->alterations) as.insert(t.first); for (auto &t : b->alterations) if (as.count(t.first)) dup = true;
                if (!dup && a->is_available && b->is_available) { Move c = *a + *b; check(c, "combined"); N.chain().register_move(c); N.update_moves(all, ao, af, false, 1); for (auto *p : N.move_ptrs()) if (p->sense == MS::Chain) check(*p, "chain"); N.chain().clear_moves(); }
            }
        }
    }
    return h.done();
}
