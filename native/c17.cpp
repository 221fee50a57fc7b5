#include "prep.h"
using BM = utility::BinaryMatrix;
// linear algebra over GF(2)
static int rank_of(std::vector<std::vector<int>> a) {
    int r = 0, n = a.size(), c = n ? a[0].size() : 0;
    for (int j = 0; j < c && r < n; j++) { int p = -1; for (int i = r; i < n; i++) if (a[i][j]) { p = i; break; } if (p < 0) continue; std::swap(a[p], a[r]); for (int i = 0; i < n; i++) if (i != r && a[i][j]) for (int k = 0; k < c; k++) a[i][k] ^= a[r][k]; r++; }
    return r;
}
int main(int argc, char **argv) {
    H h(argc, argv);
    long lim = 40000;
    auto show = [](const std::vector<std::vector<int>> &a) { std::string s; for (auto &r : a) { for (int x : r) s += char('0' + x); s += "/"; } return s; };
    for (int n = 1; n <= 3; n++) for (int code = 0; code < (1 << (n * n)); code++) {  // all matrices up to 3x3, then random ones
        std::vector<std::vector<int>> a(n, std::vector<int>(n)); for (int i = 0; i < n * n; i++) a[i / n][i % n] = code >> i & 1;
        BM m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = a[i][j];
        auto r = m.inverse_and_rank(); int rk = rank_of(a); h.count(show(a));
        if (r.second != rk) h.fail("rank", show(a) + str(": rank %d, is %d", r.second, rk));
        if (rk == n) { BM p = m.dot(r.first), q = r.first.dot(m); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (p[i][j] != (i == j) || q[i][j] != (i == j)) { h.fail("inverse", show(a)); i = n; break; } }
    }
    while (h.more(1.0) && h.evals < lim) {
        int kind = h.in(0, 3);
        if (kind <= 1) {
            int n = h.in(1, 12); double q = h.in(1, 9) * 0.1;
            std::vector<std::vector<int>> a(n, std::vector<int>(n));
            if (kind == 0) for (auto &r : a) for (int &x : r) x = h.p(q);
            else { // invertible by construction: random row operations on a permutation
                std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[h.in(0, i)]); for (int i = 0; i < n; i++) a[i][p[i]] = 1;
                for (int t = 0; t < 4 * n && n > 1; t++) { int x = h.in(0, n - 1), y = h.in(0, n - 1); if (x != y) for (int k = 0; k < n; k++) a[x][k] ^= a[y][k]; }
                if (h.p(0.2) && n > 1) a[0] = a[n - 1];
            }
            h.count(show(a));
            BM m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = a[i][j];
            auto r = m.inverse_and_rank(); int rk = rank_of(a);
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (m[i][j] != a[i][j]) h.fail("const", show(a) + ": the matrix was changed");
            if (r.second != rk) h.fail("rank", show(a) + str(": rank %d, is %d", r.second, rk));
            if (rk == n) {
                BM p = m.dot(r.first), q2 = r.first.dot(m), I = BM::identity(n); bool ok = true;
                for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int w = i == j; if (p[i][j] != w || q2[i][j] != w || I[i][j] != w) ok = false; }
                if (!ok) h.fail("inverse", show(a) + ": the product with the inverse is not the identity");
            }
        } else if (kind == 2) {
            int n = h.in(1, 6), k = h.in(1, 6), c = h.in(1, 6); BM a(n, k), b(k, c); std::vector<int> v(k); std::string d = str("product %dx%d %dx%d ", n, k, k, c);
            for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) { a[i][j] = h.in(0, 1); d += char('0' + a[i][j]); } for (int i = 0; i < k; i++) for (int j = 0; j < c; j++) { b[i][j] = h.in(0, 1); d += char('0' + b[i][j]); } for (int &x : v) x = h.in(0, 1);
            h.count(d); BM p = a.dot(b); auto w = a.dot(v); if (p.number_of_rows() != n || p.number_of_columns() != c || (int)w.size() != n) { h.fail("size", d); continue; }
            for (int i = 0; i < n; i++) { int s = 0; for (int t = 0; t < k; t++) s ^= a[i][t] & v[t]; if (w[i] != s) h.fail("vector", d); for (int j = 0; j < c; j++) { int s2 = 0; for (int t = 0; t < k; t++) s2 ^= a[i][t] & b[t][j]; if (p[i][j] != s2) { h.fail("product", d); i = n; break; } } }
            // reachability
            BM g(n, n); std::vector<std::vector<int>> r(n, std::vector<int>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = g[i][j] = h.p(0.25);
            for (int t = 0; t < n; t++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] |= r[i][t] & r[t][j];
            BM re = g.reachability(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((re[i][j] != 0) != (r[i][j] != 0)) { h.fail("reach", d); i = n; break; }
        } else {
            int n = h.in(1, 4); Inst in; std::vector<int> bin, key; bool chain = h.p(0.15);
            for (int i = 0; i < n; i++) bin.push_back(in.add(0, 1, h.p(0.05), h.in(0, 1)));
            for (int i = 0; i < n; i++) { int w = h.p(0.8) ? 3 : h.in(0, 2); key.push_back(chain && i == 0 ? bin[0] : in.add(-w + std::min(h.in(-1, 1), w), w, h.p(0.05), 0)); }
            for (int i = 0; i < n; i++) {
                RC r; r.s = h.p(0.97) ? Sense::Equal : Sense::Less; r.e.k = h.p(0.95) ? h.in(-1, 1) : h.in(-3, 3);
                for (int j = 0; j < n; j++) if (h.p(0.7)) r.e.c[bin[j]] = h.p(0.6) ? 1 : -1;
                r.e.c[key[i]] = h.p(0.5) ? 2 : -2; in.cons.push_back(r);
            }
            in.obj = random_re(h, in.n(), 3, true);
            bool pre = h.p(0.4); Model m; in.build(m, h.p(0.5)); std::string d = in.str() + str(" presolve %d", pre); h.count(d);
            auto o = base_option(h, pre); o.neighborhood.selection_mode = sel_mode(0);
            if (pre) {
                try { m.setup(o, false); } catch (std::exception &) { continue; }
            } else {
                m.setup_unique_names(); m.categorize_variables(); m.setup_structure(); 
                std::vector<std::pair<int, int>> before; for (int i = 0; i < in.n(); i++) before.push_back({in.v[i]->value(), in.v[i]->is_fixed()});
                std::vector<Con *> gs(m.constraint_type_reference().gf2_ptrs.begin(), m.constraint_type_reference().gf2_ptrs.end());
                if (gs.empty()) continue;
                preprocess::GF2Solver<int, double> s(&m); bool ok = s.solve(false);
                for (int i = 0; i < in.n(); i++) {
                    if (!ok && (in.v[i]->value() != before[i].first || in.v[i]->is_fixed() != (bool)before[i].second)) h.fail("untouched", d + str(": x%d changed although the solver failed", i));
                    if (ok && (in.v[i]->value() < in.lb[i] || in.v[i]->value() > in.ub[i])) h.fail("bounds", d + str(": x%d fixed at %d", i, in.v[i]->value()));
                    if (in.fixed[i] && in.v[i]->value() != in.x0[i]) h.fail("fixed", d + str(": fixed x%d became %d", i, in.v[i]->value()));
                }
                if (ok) for (auto *c : gs) { auto it = std::find(in.c.begin(), in.c.end(), c); std::vector<int> x; for (auto *v : in.v) x.push_back(v->value()); auto &r = in.cons[it - in.c.begin()]; if (!r.ok(x)) h.fail("parity", d + ": at " + xs(x) + " constraint " + r.str() + " fails"); }
                // exactly the full-rank systems are solved
                if (gs.size() == in.cons.size() && !chain) {
                    std::vector<std::vector<int>> a; std::set<int> used; for (auto &r : in.cons) { for (auto &t : r.e.c) if (std::fabs(t.second) == 1) used.insert(t.first); }
                    std::vector<int> cols(used.begin(), used.end()); std::set<int> kk(key.begin(), key.end());
                    for (auto &r : in.cons) { std::vector<int> w; for (int c : cols) w.push_back(r.e.c.count(c) ? 1 : 0); a.push_back(w); }
                    bool full = (int)cols.size() == n && rank_of(a) == n;
                    if (full != ok) h.fail("report", d + str(": solver reports %d", ok));
                }
                continue;
            }
            if (in.box() > 20000) continue;
            // presolve with the parity solver keeps a feasible model feasible
            std::vector<int> w; in.each([&](const std::vector<int> &x) { if (w.empty() && in.feasible(x)) w = x; });
            for (int i = 0; i < in.n(); i++) if (in.fixed[i] && in.v[i]->value() != in.x0[i]) h.fail("fixed", d + str(": fixed x%d became %d", i, in.v[i]->value()));
            if (w.empty()) continue;
            bool some = false; in.each([&](const std::vector<int> &x) { if (some || !in.feasible(x)) return; for (int i = 0; i < in.n(); i++) if (in.v[i]->is_fixed() && in.v[i]->dependent_expression_ptr() == nullptr && in.v[i]->value() != x[i]) return; some = true; });
            if (!some) h.fail("presolve", d + ": " + xs(w) + " is feasible, but no feasible assignment agrees with the fixed values");
        }
    }
    return h.done();
}
