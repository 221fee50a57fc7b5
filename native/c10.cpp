#include "prep.h"
// selections and corrected initial values
int main(int argc, char **argv) {
    H h(argc, argv);
    long lim = 80000;
    while (h.more(1.0) && h.evals < lim) {
        Inst in = random_inst(h, 5, 3, true, 0.15, 0.5);
        int base = in.n(), g = h.in(0, 4), k = h.in(3, 8);
        for (int i = 0; i < k; i++) in.add(0, 1, h.p(0.08), h.in(0, 1));
        for (int j = 0; j < g; j++) {
            RC r; r.s = h.p(0.9) ? Sense::Equal : random_sense(h); r.e.k = h.p(0.9) ? -1 : -2;
            for (int i = 0; i < k; i++) if (h.p(0.5)) r.e.c[base + i] = 1;
            if (h.p(0.1)) r.e.c[h.in(0, base - 1)] = 1;
            if (h.p(0.1)) { for (auto &t : r.e.c) t.second = -1; r.e.k = -r.e.k; }
            if (r.e.c.size() < 2) continue;
            in.cons.push_back(r);
        }
        in.has_obj = h.p(0.9) || in.cons.empty();
        Model m; in.dup = h.p(0.1); in.build(m, h.p(0.5));
        std::vector<int> raw(in.n());
        for (int i = 0; i < in.n(); i++) { raw[i] = in.v[i]->value(); if (!in.fixed[i]) { raw[i] = h.p(0.6) ? h.in(in.lb[i], in.ub[i]) : h.in(-7, 9); in.v[i]->set_value_force(raw[i]); } }
        std::string d = in.str() + " initial " + xs(raw);
        bool presolve = h.p(0.3);
        auto o = base_option(h, presolve);
        int mode = h.in(1, 5); bool user = mode == 5;
        o.neighborhood.selection_mode = user ? option::selection_mode::UserDefined : sel_mode(mode);
        std::vector<char> usr(in.cons.size());
        for (size_t j = 0; j < in.cons.size(); j++) if (user && h.p(0.6)) { in.c[j]->set_is_user_defined_selection(true); usr[j] = 1; }
        for (size_t j = 0; j < in.cons.size(); j++) if (h.p(0.1)) { in.c[j]->disable(); d += str(" c%zu disabled", j); in.cons[j].e.c.clear(); in.cons[j].e.k = 0; in.cons[j].s = Sense::Less; }
        bool corr = h.p(0.9); o.preprocess.is_enabled_initial_value_correction = corr;
        d += str(" mode %d presolve %d", mode, presolve);
        h.count(d);
        try { m.setup(o, false); } catch (std::exception &e) {
            if (corr && in.box() < 20000) { std::vector<int> w; in.each([&](const std::vector<int> &x) { if (w.empty() && in.feasible(x)) w = x; }); if (!w.empty()) h.fail("throw", d + ": setup throws although " + xs(w) + " is feasible: " + std::string(e.what()).substr(0, 160)); }
            continue;
        }
        std::set<Var *> used;
        for (auto &s : m.selections()) {
            auto *c = s.constraint_ptr; std::string w = d + ": selection from " + (c ? c->name() : std::string("nothing"));
            if (!c) { h.fail("sel", w); continue; }
            if (c->is_enabled()) h.fail("enabled", w + " is still evaluated");
            if (user && !c->is_user_defined_selection()) h.fail("user", w + " was not designated by the user");
            auto it = std::find(in.c.begin(), in.c.end(), c);
            if (it != in.c.end()) {
                auto &r = in.cons[it - in.c.begin()];
                std::set<Var *> a(s.variable_ptrs.begin(), s.variable_ptrs.end()), b; bool ok = r.s == Sense::Equal; double q = 0; std::set<double> cs;
                for (auto &t : r.e.c) { b.insert(in.v[t.first]); cs.insert(t.second); if (!presolve && (in.lb[t.first] < 0 || in.ub[t.first] > 1)) ok = false; } for (auto *v : s.variable_ptrs) if (v->lower_bound() != 0 || v->upper_bound() != 1) ok = v->is_fixed() && ok;
                if (!presolve) { if (cs.size() != 1 || *cs.begin() != -r.e.k) ok = false; if (a != b || a.size() != s.variable_ptrs.size()) ok = false; }
                (void)q;
                if (!ok) h.fail("exact", w + " is not an exactly-one constraint over its binary variables: " + r.str());
            }
            int ones = 0; Var *one = nullptr;
            for (auto *v : s.variable_ptrs) {
                if (!used.insert(v).second) h.fail("overlap", w + ": variable " + v->name() + " belongs to two selections");
                if (v->value() == 1) { ones++; one = v; } else if (v->value() != 0) h.fail("value", w + str(": value %d of ", v->value()) + v->name());
                if (v->selection_ptr() != &s) h.fail("ptr", w + ": " + v->name() + " does not know its selection");
            }
            if (ones != 1) h.fail("ones", w + str(": %d variables are one", ones));
            else if (s.selected_variable_ptr != one) h.fail("chosen", w + ": recorded choice is not the variable which is one");
        }
        for (int i = 0; i < in.n(); i++) {
            int v = in.v[i]->value();
            bool dep = in.v[i]->dependent_expression_ptr() != nullptr;
            if (in.fixed[i]) { if (v != in.x0[i] || !in.v[i]->is_fixed()) h.fail("fixed", d + str(": fixed x%d became %d", i, v)); }
            else if (!dep && !in.v[i]->is_fixed() && (v < in.lb[i] || v > in.ub[i])) h.fail("bounds", d + str(": x%d is %d after correction", i, v));
            if (!presolve && !in.fixed[i] && in.lb[i] < in.ub[i] && !used.count(in.v[i]) && raw[i] >= in.lb[i] && raw[i] <= in.ub[i] && v != raw[i] && !in.v[i]->is_fixed()) h.fail("kept", d + str(": the legal initial value %d of x%d was changed to %d", raw[i], i, v));
        }
        if (!presolve) for (size_t j = 0; j < in.cons.size(); j++) {
            bool sel = false; for (auto &s : m.selections()) sel |= s.constraint_ptr == in.c[j];
            if (!sel && !in.c[j]->is_enabled() && !in.cons[j].e.c.empty()) h.fail("lost", d + str(": constraint c%zu was disabled without becoming a selection", j));
        }
    }
    return h.done();
}
