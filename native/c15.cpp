#include "prep.h"
using namespace printemps::model_component;
// every element of a multi-dimensional array is addressed exactly once
template <class P> static auto &at(P &p, const std::vector<int> &i) {
    switch (i.size()) { case 1: return p(i[0]); case 2: return p(i[0], i[1]); case 3: return p(i[0], i[1], i[2]); default: return p(i[0], i[1], i[2], i[3]); }
}
int main(int argc, char **argv) {
    H h(argc, argv);
    long lim = 12000;
    while (h.more(1.0) && h.evals < lim) {
        std::vector<int> sh; int nd = h.in(0, 5); for (int i = 0; i < nd; i++) sh.push_back(h.p(0.2) ? 1 : h.in(1, nd > 3 ? 3 : nd == 1 ? 14 : 5));
        if (h.p(0.02)) sh = {h.in(1, 3), h.in(9, 120)};
        nd = sh.size();
        int tot = 1; for (int s : sh) tot *= s;
        std::string d = "shape " + xs(sh);
        h.count(d + std::to_string(h.evals));
        auto bad = [&](const char *t, const std::string &w) { h.fail(t, d + ": " + w); };
        Model m;
        int shift = h.in(0, 2); for (int i = 0; i < shift; i++) { m.create_variables("p" + std::to_string(i), h.in(1, 3)); m.create_expression("q" + std::to_string(i)); m.create_constraint("r" + std::to_string(i)); }
        bool one = nd == 1 && h.p(0.5);
        bool bnd = h.p(0.5); int L = h.in(-5, 2), U = L + h.in(0, 4);
        auto &x = nd == 0 ? (bnd ? m.create_variable("x", L, U) : m.create_variable("x")) : one ? (bnd ? m.create_variables("x", sh[0], L, U) : m.create_variables("x", sh[0])) : (bnd ? m.create_variables("x", sh, L, U) : m.create_variables("x", sh));
        auto &e = nd == 0 ? m.create_expression("e") : one ? m.create_expressions("e", sh[0]) : m.create_expressions("e", sh);
        auto &c = nd == 0 ? m.create_constraint("c") : one ? m.create_constraints("c", sh[0]) : m.create_constraints("c", sh);
        multi_array::ValueProxy<int> vp = nd == 0 ? multi_array::ValueProxy<int>(7) : one ? multi_array::ValueProxy<int>(7, sh[0]) : multi_array::ValueProxy<int>(7, sh);
        std::vector<int> S = nd == 0 ? std::vector<int>{1} : sh; int D = S.size();
        for (multi_array::AbstractMultiArray *a : {(multi_array::AbstractMultiArray *)&x, (multi_array::AbstractMultiArray *)&e, (multi_array::AbstractMultiArray *)&c, (multi_array::AbstractMultiArray *)&vp})
            if (a->number_of_elements() != tot || a->number_of_dimensions() != D || a->shape() != S) bad("shape", "number of elements, dimensions or shape");
        if ((int)x.flat_indexed_variables().size() != tot || (int)e.flat_indexed_expressions().size() != tot || (int)c.flat_indexed_constraints().size() != tot || (int)vp.flat_indexed_values().size() != tot || (int)vp.flat_indexed_names().size() != tot) { bad("size", "number of stored elements"); continue; }
        if (x.index() != shift || e.index() != shift || c.index() != shift) bad("proxy", "array index");
        std::vector<std::vector<int>> idx; std::set<int> seen; std::set<std::string> labels;
        std::vector<int> i(D, 0);
        while (true) { idx.push_back(i); int k = D - 1; for (; k >= 0; k--) { if (++i[k] < S[k]) break; i[k] = 0; } if (k < 0) break; }
        for (auto &t : idx) {
            int f = x.flat_index(t);
            if (f < 0 || f >= tot || !seen.insert(f).second) { bad("bijection", xs(t) + str(" is at position %d", f)); break; }
            if (e.flat_index(t) != f || c.flat_index(t) != f || vp.flat_index(t) != f) bad("same", "kinds of arrays disagree on " + xs(t));
            if (x.multi_dimensional_index(f) != t) bad("inverse", xs(t) + " -> " + xs(x.multi_dimensional_index(f)));
            std::vector<int> u(D, -1); vp.update_multi_dimensional_index(&u, f); if (u != t) bad("update-index", xs(t) + " -> " + xs(u));
            labels.insert(x.indices_label(f));
            auto *v = &x.flat_indexed_variables(f); auto *ex = &e.flat_indexed_expressions(f); auto *co = &c.flat_indexed_constraints(f);
            if (&x(t) != v || &x[f] != v || &const_cast<const VariableProxy<int, double> &>(x)(t) != v) bad("variable", "access to variable " + xs(t));
            if (&e(t) != ex || &e[f] != ex || &const_cast<const ExpressionProxy<int, double> &>(e)(t) != ex) bad("expression", "access to expression " + xs(t));
            if (&c(t) != co || &c[f] != co || &const_cast<const ConstraintProxy<int, double> &>(c)(t) != co) bad("constraint", "access to constraint " + xs(t));
            if (D <= 4) { if (&at(x, t) != v || &at(e, t) != ex || &at(c, t) != co || &at(vp, t) != &vp.flat_indexed_values(f)) bad("args", "access by arguments " + xs(t)); }
            if (&vp.values(t) != &vp.flat_indexed_values(f) || &vp[f] != &vp.flat_indexed_values(f) || &vp.names(t) != &vp.flat_indexed_names(f)) bad("value", "access to value " + xs(t));
            if (v->flat_index() != f || v->multi_dimensional_index() != t || v->proxy_index() != shift) bad("var-self", "variable " + xs(t) + " does not know its position");
            if (ex->flat_index() != f || ex->multi_dimensional_index() != t || ex->proxy_index() != shift) bad("expr-self", "expression " + xs(t) + " does not know its position");
            if (co->flat_index() != f || co->multi_dimensional_index() != t || co->proxy_index() != shift) bad("con-self", "constraint " + xs(t) + " does not know its position");
        }
        if ((int)labels.size() != tot) bad("labels", "labels of elements coincide");
        // whole-array operations
        int w = h.in(-9, 9); vp.fill(w); for (int f = 0; f < tot; f++) if (vp.flat_indexed_values(f) != w) bad("fill", "fill misses an element");
        { auto vq = vp; int k = h.in(0, tot - 1); vq(idx[k]) = w + 1; int df = 0; for (int f = 0; f < tot; f++) df += vq[f] != vp[f]; if (df != 1 || vq == vp || !(vq != vp)) bad("one", "assigning one value changes others"); }
        for (int f = 0; f < tot; f++) { bool ok = bnd ? x[f].lower_bound() == L && x[f].upper_bound() == U : !x[f].has_bounds(); if (!ok) bad("create-bound", "bounds given at creation"); }
        if (h.p(0.5)) { int l = h.in(-4, 4), u = l + h.in(0, 5); x.set_bound(l, u); for (int f = 0; f < tot; f++) if (x[f].lower_bound() != l || x[f].upper_bound() != u) bad("set-bound", "set_bound misses an element"); }
        x.reset_bound(); for (int f = 0; f < tot; f++) if (x[f].has_bounds()) bad("reset-bound", "reset_bound misses an element");
        { int k = h.in(0, tot - 1); x(idx[k]).set_bound(-3, 8); for (int f = 0; f < tot; f++) if (x[f].has_bounds() != (f == k)) bad("one-bound", "bounding one variable affects another"); x.reset_bound(); }
        c.disable(); for (int f = 0; f < tot; f++) if (c[f].is_enabled()) bad("disable", "disable misses an element");
        { int k = h.in(0, tot - 1); c(idx[k]).enable(); for (int f = 0; f < tot; f++) if (c[f].is_enabled() != (f == k)) bad("one-enable", "enabling one constraint affects another"); }
        c.enable(); for (int f = 0; f < tot; f++) if (!c[f].is_enabled()) bad("enable", "enable misses an element");
        std::vector<int> val(tot); for (int f = 0; f < tot; f++) { val[f] = h.in(-50, 50); x(idx[f]) = val[f]; }
        for (int f = 0; f < tot; f++) if (x[f].value() != val[f]) { bad("assign", "values do not stay with their variables"); break; }
        std::vector<double> ec(tot), ek(tot);
        for (int f = 0; f < tot; f++) { ec[f] = h.ncoef(); ek[f] = h.coef(); e(idx[f]) = ec[f] * x(idx[f]) + ek[f]; }
        if (h.p(0.3)) { int a = h.in(0, tot - 1), b = h.in(0, tot - 1); if (a != b) { e(idx[a]) = e(idx[b]) + 0; ec[a] = ec[b]; ek[a] = ek[b]; auto *vb = &x[b]; if (e[a].sensitivities().size() != 1 || e[a].sensitivities().begin()->first != vb) bad("copy", "copied expression"); if (e[a].flat_index() != a || e[b].flat_index() != b) bad("copy-index", "assigning an expression changes its position"); e(idx[a]) = ec[a] * x(idx[a]) + ek[a]; } }
        for (int f = 0; f < tot; f++) c(idx[f]) = (e(idx[f]) <= 3);
        for (int f = 0; f < tot; f++) if (c[f].flat_index() != f || c[f].proxy_index() != shift || c[f].multi_dimensional_index() != idx[f] || e[f].flat_index() != f || e[f].multi_dimensional_index() != idx[f]) { bad("keep-index", "assignment moves an element"); break; }
        m.setup_unique_names(); m.update();
        auto ev = e.export_values_and_names(); auto cv = c.export_values_and_names(); auto vv = c.export_violations_and_names(); auto xv = x.export_values_and_names();
        for (int f = 0; f < tot; f++) {
            double t = ec[f] * val[f] + ek[f];
            if (xv[f] != val[f] || xv.flat_indexed_names(f) != x[f].name()) bad("export-var", "exported variables");
            if (!near(ev[f], t) || ev.flat_indexed_names(f) != e[f].name()) bad("export-expr", "exported expressions");
            if (!near(cv[f], t - 3) || !near(vv[f], std::max(0.0, t - 3)) || cv.flat_indexed_names(f) != c[f].name()) bad("export-con", "exported constraints");
        }
        // sums and dot products
        auto same = [&](Expr r, const std::map<int, double> &co, double k) {
            std::map<int, double> g; for (auto &t : r.sensitivities()) if (t.second != 0) { int f = (int)(t.first - &x[0]); g[f] += t.second; }
            std::map<int, double> q; for (auto &t : co) if (t.second != 0) q[t.first] = t.second;
            if (g.size() != q.size() || !near(r.constant_value(), k)) return false;
            for (auto &t : q) { auto it = g.find(t.first); if (it == g.end() || !near(it->second, t.second)) return false; }
            return true;
        };
        std::map<int, double> all, alle; double allk = 0; for (int f = 0; f < tot; f++) { all[f] = 1; alle[f] = ec[f]; allk += ek[f]; }
        if (!same(x.sum(), all, 0)) bad("sum", "sum of the variables");
        if (!same(e.sum(), alle, allk)) bad("expr-sum", "sum of the expressions");
        { auto s = x.selection(); if (!same(s.expression(), all, -1) || s.sense() != Sense::Equal) bad("selection", "selection over the array"); }
        if (D == 1) {
            std::vector<double> q(tot); std::map<int, double> a, b; double k = 0; for (int f = 0; f < tot; f++) { q[f] = h.coef(); a[f] = q[f]; b[f] = q[f] * ec[f]; k += q[f] * ek[f]; }
            if (!same(x.dot(q), a, 0)) bad("dot", "dot product of the variables");
            if (!same(e.dot(q), b, k)) bad("expr-dot", "dot product of the expressions");
        }
        for (int rep = 0; rep < 3; rep++) {
            std::vector<int> pat(D); int free = 0; for (int j = 0; j < D; j++) { if (h.p(0.5)) { pat[j] = Range::All; free++; } else pat[j] = h.in(0, S[j] - 1); }
            std::map<int, double> a, b; double k = 0; std::vector<int> hit;
            for (int f = 0; f < tot; f++) { bool in = true; for (int j = 0; j < D; j++) if (pat[j] != Range::All && pat[j] != idx[f][j]) in = false; if (in) { a[f] = 1; b[f] = ec[f]; k += ek[f]; hit.push_back(f); } }
            if (!same(x.sum(pat), a, 0)) bad("part-sum", "partial sum of the variables " + xs(pat));
            if (!same(e.sum(pat), b, k)) bad("part-expr-sum", "partial sum of the expressions " + xs(pat));
            { auto s = x.selection(pat); if (!same(s.expression(), a, -1) || s.sense() != Sense::Equal) bad("part-selection", "selection " + xs(pat)); }
            if (free <= 1) {
                std::vector<double> q(hit.size()); a.clear(); b.clear(); k = 0; for (size_t j = 0; j < hit.size(); j++) { q[j] = h.coef(); a[hit[j]] = q[j]; b[hit[j]] = q[j] * ec[hit[j]]; k += q[j] * ek[hit[j]]; }
                if (!same(x.dot(pat, q), a, 0)) bad("part-dot", "partial dot product of the variables " + xs(pat));
                if (!same(e.dot(pat, q), b, k)) bad("part-expr-dot", "partial dot product of the expressions " + xs(pat));
            }
        }
        if (nd == 0 || tot == 1) {
            x = 4; if (x.value() != 4 || x[0].value() != 4) bad("single", "single element access"); x.fix_by(5); if (!x.is_fixed() || !x[0].is_fixed() || x[0].value() != 5) bad("single-fix", "fixing a single variable"); x.unfix(); if (x[0].is_fixed()) bad("single-unfix", "unfixing a single variable");
        }
    }
    return h.done();
}
