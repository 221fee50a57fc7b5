#include "prep.h"
// structural labels against the definition of each structure
using VS = model_component::VariableSense;
struct L { const char *name; bool on; bool truth; bool listed; };
int main(int argc, char **argv) {
    H h(argc, argv);
    long lim = 200000;
    while (h.more(0.6) && h.evals < lim) {
        Inst in;
        int n = h.p(0.1) ? h.in(8, 20) : h.in(1, 6);
        double pb = h.in(0, 2) * 0.5;
        for (int i = 0; i < n; i++) { if (h.p(pb)) in.add(0, h.p(0.05) ? 0 : 1, h.p(0.05), h.in(0, 1)); else { int l = h.in(-9, 3); in.add(l, l + h.in(1, 9), h.p(0.05), l); } }
        int mc = h.in(1, 4);
        for (int j = 0; j < mc; j++) {
            RE e; int mode = h.in(0, 7); int t = h.p(0.5) ? h.in(1, 3) : h.in(1, n);
            for (int q = 0; q < t; q++) {
                double c = mode == 0 ? 1 : mode == 1 ? (h.p(0.5) ? 1 : -1) : mode == 2 ? h.in(1, 9) : mode == 3 ? -h.in(1, 9) : mode == 4 ? h.ncoef() : mode == 5 ? (h.p(0.3) ? 1.5 : h.p(0.5) ? 1 : -1) : mode == 6 ? (h.p(0.6) ? 1 : h.p(0.5) ? 2 : -2) : (h.p(0.3) ? 2.5 * (h.p(0.5) ? 1 : -1) : h.p(0.5) ? 1 : -1);
                e.c[h.in(0, n - 1)] = c;
            }
            int k = h.in(0, 5); e.k = k == 0 ? 0 : k == 1 ? -1 : k == 2 ? 1 : k == 3 ? h.in(-6, 6) : k == 4 ? h.in(-6, 6) * 0.5 : (h.p(0.5) && e.c.size() ? -e.c.begin()->second : 1.5);
            in.cons.push_back(RC{e, random_sense(h)});
        }
        if (h.p(0.2) && n >= 3) { RE e; e.c = {{0, 1}, {1, 1}, {2, -2}}; e.k = h.in(-1, 1); in.cons.push_back(RC{e, Sense::Equal}); }
        in.obj = random_re(h, n, 2);
        Model m; in.build(m, h.p(0.5));
        m.setup_unique_names(); m.setup_structure();
        if (h.p(0.3)) { // analysed again after a change
            int i = h.in(0, n - 1); if (!in.fixed[i]) { int l = h.in(-1, 1); in.lb[i] = l; in.ub[i] = l + h.in(1, 2); in.v[i]->set_bound(in.lb[i], in.ub[i]); }
            m.setup_structure();
        }
        auto &T = m.constraint_type_reference();
        auto has = [&](const std::vector<Con *> &v, Con *c) { return std::count(v.begin(), v.end(), c) == 1; };
        for (size_t j = 0; j < in.c.size(); j++) {
            Con *c = in.c[j];
            auto &S = c->expression().sensitivities(); double k = c->expression().constant_value();
            std::string at = in.str() + str(" constraint %zu", j);
            h.count(at, S.size() > 1);
            int sz = S.size(); bool eq = c->sense() == Sense::Equal, le = c->sense() == Sense::Less, ge = c->sense() == Sense::Greater;
            bool bin = true, itg = true, fx = false, pm1 = true, one = true, pos = true, neg = true, ic = k == std::floor(k); int p1 = 0, m1 = 0, ip1 = 0, im1 = 0;
            std::vector<double> co; std::vector<Var *> vs; bool binpack = false;
            for (auto &t : S) {
                co.push_back(t.second); vs.push_back(t.first);
                int i = 0; while (in.v[i] != t.first) i++;
                bool b = (in.lb[i] == 0 && in.ub[i] <= 1) || (in.lb[i] == 1 && in.ub[i] == 1);
                bin &= b; itg &= !b; fx |= t.first->is_fixed(); pm1 &= t.second == 1 || t.second == -1; one &= t.second == 1; pos &= t.second >= 0; neg &= t.second <= 0; ic &= t.second == std::floor(t.second);
                p1 += t.second == 1; m1 += t.second == -1; if (!b && !t.first->is_fixed()) { ip1 += t.second == 1; im1 += t.second == -1; }
                if (t.second == -k) binpack = true;
            }
            double a0 = sz > 0 ? co[0] : 0, a1 = sz > 1 ? co[1] : 0;
            auto *key = c->key_variable_ptr();
            bool keyin = key && S.count(key); double kc = keyin ? S.at(key) : 0;
            std::vector<int> twos; int ones3 = 0; if (sz == 3) for (double q : co) { if (std::fabs(q) == 2) twos.push_back(q); }
            bool tri = sz == 3 && eq && bin && !fx && k == 0 && twos.size() == 1 && (twos[0] == -2 ? p1 == 2 : m1 == 2);
            bool kint = false; if (keyin) { int i = 0; while (in.v[i] != key) i++; kint = !((in.lb[i] == 0 && in.ub[i] <= 1) || (in.lb[i] == 1 && in.ub[i] == 1)) && !key->is_fixed(); }
            std::vector<L> ls = {
                {"singleton", c->is_singleton(), sz == 1, has(T.singleton_ptrs, c)},
                {"exclusive or", c->is_exclusive_or(), sz == 2 && eq && bin && !fx && a0 == a1 && pm1 && k == -a0 && keyin, has(T.exclusive_or_ptrs, c)},
                {"exclusive nor", c->is_exclusive_nor(), sz == 2 && eq && bin && !fx && a0 == -a1 && pm1 && k == 0 && keyin, has(T.exclusive_nor_ptrs, c)},
                {"inverted integers", c->is_inverted_integers(), sz == 2 && eq && itg && !fx && a0 == a1 && pm1 && k == 0 && keyin, has(T.inverted_integers_ptrs, c)},
                {"balanced integers", c->is_balanced_integers(), sz == 2 && eq && itg && !fx && a0 == -a1 && pm1 && k == 0 && keyin, has(T.balanced_integers_ptrs, c)},
                {"constant sum integers", c->is_constant_sum_integers(), sz == 2 && eq && itg && !fx && a0 == a1 && pm1 && k != 0 && keyin, has(T.constant_sum_integers_ptrs, c)},
                {"constant difference integers", c->is_constant_difference_integers(), sz == 2 && eq && itg && !fx && a0 == -a1 && pm1 && k != 0 && keyin, has(T.constant_difference_integers_ptrs, c)},
                {"constant ratio integers", c->is_constant_ratio_integers(), sz == 2 && eq && itg && !fx && k == 0 && keyin && std::fabs(kc) == 1, has(T.constant_ratio_integers_ptrs, c)},
                {"aggregation", c->is_aggregation(), sz == 2 && eq && !fx, has(T.aggregation_ptrs, c)},
                {"precedence", c->is_precedence(), sz == 2 && !eq && !fx && a0 == -a1 && (bin || itg), has(T.precedence_ptrs, c)},
                {"variable bound", c->is_variable_bound(), sz == 2 && !eq && !fx, has(T.variable_bound_ptrs, c)},
                {"trinomial exclusive nor", c->is_trinomial_exclusive_nor(), tri && keyin && std::fabs(kc) == 2, has(T.trinomial_exclusive_nor_ptrs, c)},
                {"set partitioning", c->is_set_partitioning(), one && bin && eq && k == -1, has(T.set_partitioning_ptrs, c)},
                {"set packing", c->is_set_packing(), one && bin && le && k == -1, has(T.set_packing_ptrs, c)},
                {"set covering", c->is_set_covering(), one && bin && ge && k == -1, has(T.set_covering_ptrs, c)},
                {"cardinality", c->is_cardinality(), one && bin && eq && k <= -2, has(T.cardinality_ptrs, c)},
                {"invariant knapsack", c->is_invariant_knapsack(), one && bin && le && k <= -2, has(T.invariant_knapsack_ptrs, c)},
                {"multiple covering", c->is_multiple_covering(), one && bin && ge && k <= -2, has(T.multiple_covering_ptrs, c)},
                {"binary flow", c->is_binary_flow(), pm1 && bin && eq, has(T.binary_flow_ptrs, c)},
                {"integer flow", c->is_integer_flow(), pm1 && itg && eq && p1 > 1 && m1 > 1, has(T.integer_flow_ptrs, c)},
                {"soft selection", c->is_soft_selection(), pm1 && bin && eq && k == 0 && keyin && !key->is_fixed() && (kc == 1 ? p1 == 1 && m1 > 0 : m1 == 1 && p1 > 0), has(T.soft_selection_ptrs, c)},
                {"min-max", c->is_min_max(), keyin && kint && ic && ((le && kc == -1 && im1 == 1 && ip1 == 0) || (ge && kc == 1 && ip1 == 1 && im1 == 0)), has(T.min_max_ptrs, c)},
                {"max-min", c->is_max_min(), keyin && kint && ic && ((ge && kc == -1 && im1 == 1 && ip1 == 0) || (le && kc == 1 && ip1 == 1 && im1 == 0)), has(T.max_min_ptrs, c)},
                {"intermediate", c->is_intermediate(), keyin && kint && ic && eq && std::fabs(kc) == 1, has(T.intermediate_ptrs, c)},
                {"equation knapsack", c->is_equation_knapsack(), bin && eq && (pos || neg), has(T.equation_knapsack_ptrs, c)},
                {"bin packing", c->is_bin_packing(), bin && binpack && ((pos && le) || (neg && ge)), has(T.bin_packing_ptrs, c)},
                {"knapsack", c->is_knapsack(), bin && ((pos && le) || (neg && ge)), has(T.knapsack_ptrs, c)},
                {"integer knapsack", c->is_integer_knapsack(), (pos && le) || (neg && ge), has(T.integer_knapsack_ptrs, c)},
                {"general linear", c->is_general_linear(), true, has(T.general_linear_ptrs, c)},
            };
            // parity: one integer (or binary) of coefficient +-2, the rest binaries of +-1, constant 0 or +-1, nothing fixed
            { int two = 0; bool rest = true; for (auto &t : S) { int i = 0; while (in.v[i] != t.first) i++; bool b = (in.lb[i] == 0 && in.ub[i] <= 1) || (in.lb[i] == 1 && in.ub[i] == 1); if (std::fabs(t.second) == 2) two++; else rest &= b && std::fabs(t.second) == 1; }
              ls.push_back({"parity", c->is_gf2(), eq && !fx && two == 1 && rest && std::fabs(k) <= 1 && k == std::floor(k) && keyin && std::fabs(kc) == 2, has(T.gf2_ptrs, c)}); }
            int on = 0; std::string names;
            for (auto &l : ls) {
                if (l.on) { on++; names += std::string(l.name) + ","; if (!l.truth) h.fail("label", at + ": labelled " + l.name + " but it does not have that structure"); }
                if (l.on && c->is_enabled() && !l.listed) h.fail("list", at + str(": labelled %s but not listed (once) under that label", l.name));
                if (!l.on && l.listed) h.fail("list", at + str(": listed under %s without the label", l.name));
            }
            if (on != 1) h.fail("unique", at + str(": %d labels: ", on) + names);
        }
    }
    return h.done();
}
