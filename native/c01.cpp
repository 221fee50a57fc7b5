#include "common.h"
// random programs over expressions, mirrored on reference expressions
static RE add(const RE &a, const RE &b, double s = 1) { RE r = a; for (auto &p : b.c) r.c[p.first] += s * p.second; r.k += s * b.k; return r; }
static RE mul(const RE &a, double s) { RE r = a; for (auto &p : r.c) p.second *= s; r.k *= s; return r; }
int main(int argc, char **argv) {
    H h(argc, argv); h.tiny = true;
    while (h.more(0.3) && h.evals < 40000) {
        Model m;
        int   n = h.in(1, 6);
        auto &px = m.create_variables("x", n);
        auto &ps = m.create_variable("y");
        auto &pe = m.create_expressions("e", 3);
        std::vector<Var *> v;
        Inst in;
        for (int i = 0; i < n; i++) { v.push_back(&px(i)); int l = h.in(-5, 3), u = l + h.in(0, 5); px(i).set_bound(l, u); in.add(l, u); if (h.p(0.2)) { int w = h.in(l, u); px(i).fix_by(w); in.fixed[i] = 1; in.x0[i] = w; } }
        ps.set_bound(-3, 3); in.add(-3, 3); v.push_back(&ps.flat_indexed_variables(0));
        in.v = v;
        int N = n + 1;
        std::vector<std::pair<Expr, RE>> pool;
        std::string prog = str("n=%d", n);
        auto leaf = [&]() {
            RE r;
            int k = h.in(0, 5);
            if (k == 0) { int i = h.in(0, n - 1); r.c[i] = 1; prog += str(" x%d", i); return std::make_pair(px(i).to_expression(), r); }
            if (k == 1) { r.c[n] = 1; prog += " y"; return std::make_pair(ps.to_expression(), r); }
            if (k == 2) { for (int i = 0; i < n; i++) r.c[i] = 1; prog += " sum"; return std::make_pair(px.sum(), r); }
            if (k == 3) { std::vector<double> w; prog += " dot"; for (int i = 0; i < n; i++) { w.push_back(h.coef()); r.c[i] = w[i]; } return std::make_pair(px.dot(w), r); }
            RE e = random_re(h, N, h.in(1, 4)); prog += " (" + e.str() + ")"; return std::make_pair(in.expr(e), e);
        };
        pool.push_back(leaf()); pool.push_back(leaf());
        int steps = h.in(1, 7);
        for (int t = 0; t < steps; t++) {
            auto &a = pool[h.in(0, pool.size() - 1)];
            auto &b = pool[h.in(0, pool.size() - 1)];
            double c = h.ncoef();
            int ci = h.in(1, 5) * (h.p(0.5) ? 1 : -1);
            int vi = h.in(0, N - 1);
            RE rv; rv.c[vi] = 1;
            RE ry; ry.c[n] = 1;
            Var &var = *v[vi];
            std::pair<Expr, RE> r = std::make_pair(a.first.copy(), a.second);
            int k = h.in(0, 35);
            prog += str("; op%d(a=%ld,b=%ld,c=%g,i=%d,v=%d)", k, (long)(&a - &pool[0]), (long)(&b - &pool[0]), c, ci, vi);
            switch (k) {
                case 0: r = {a.first + b.first, add(a.second, b.second)}; break;
                case 1: r = {a.first - b.first, add(a.second, b.second, -1)}; break;
                case 2: r = {c * a.first, mul(a.second, c)}; break;
                case 3: r = {a.first * c, mul(a.second, c)}; break;
                case 4: r = {a.first / c, mul(a.second, 1 / c)}; break;
                case 5: r = {-a.first, mul(a.second, -1)}; break;
                case 6: r = {+a.first, a.second}; break;
                case 7: r = {a.first + c, a.second}; r.second.k += c; break;
                case 8: r = {c + a.first, a.second}; r.second.k += c; break;
                case 9: r = {a.first - c, a.second}; r.second.k -= c; break;
                case 10: r = {c - a.first, mul(a.second, -1)}; r.second.k += c; break;
                case 11: r = {a.first + var, add(a.second, rv)}; break;
                case 12: r = {var + a.first, add(a.second, rv)}; break;
                case 13: r = {a.first - var, add(a.second, rv, -1)}; break;
                case 14: r = {var - a.first, add(rv, a.second, -1)}; break;
                case 15: r = {var + c, rv}; r.second.k += c; break;
                case 16: r = {c - var, mul(rv, -1)}; r.second.k += c; break;
                case 17: r = {var * c, mul(rv, c)}; break;
                case 18: r = {c * var, mul(rv, c)}; break;
                case 19: r = {var / c, mul(rv, 1 / c)}; break;
                case 20: r = {var + *v[0], add(rv, RE{{{0, 1.0}}, 0})}; break;
                case 21: r = {var - *v[0], add(rv, RE{{{0, 1.0}}, 0}, -1)}; break;
                case 22: r = {a.first.copy(), add(a.second, b.second)}; r.first += b.first; break;
                case 23: r = {a.first.copy(), add(a.second, b.second, -1)}; r.first -= b.first; break;
                case 24: r = {a.first.copy(), mul(a.second, c)}; r.first *= c; break;
                case 25: r = {a.first.copy(), mul(a.second, 1 / c)}; r.first /= c; break;
                case 26: r = {a.first.copy(), add(a.second, ry)}; r.first += ps; break;
                case 27: r = {a.first.copy(), add(a.second, ry, -1)}; r.first -= ps; break;
                case 28: { pe(0) = a.first; pe(1) = b.first; pe(2) = var; RE t = add(add(a.second, b.second), rv); r = {pe.sum(), t}; break; }
                case 29: { pe(0) = a.first; pe(1) = b.first; pe(2) = 3 * var; std::vector<double> w = {c, (double)ci, 2.0}; r = {pe.dot(w), add(add(mul(a.second, c), b.second, ci), rv, 6)}; break; }
                case 30: { auto &e = m.create_expression("s"); e = a.first; Expr z = Expr::create_instance(); z = e; r = {z, a.second}; break; }
                case 31: { auto &e = m.create_expression("s"); e = a.first; r = {e + b.first, add(a.second, b.second)}; break; }
                case 32: { auto &e = m.create_expression("s", a.first); e += b.first; e -= c; RE t = add(a.second, b.second); t.k -= c; r = {e.to_expression(), t}; break; }
                case 33: { auto &e = m.create_expression("s", a.first); e *= ci; r = {-e, mul(a.second, -ci)}; break; }
                case 34: r = {ps * c - b.first, add(mul(ry, c), b.second, -1)}; break;
                case 35: r = {a.first.copy(), a.second}; r.first += ci; r.second.k += ci; break;
            }
            pool.push_back(std::move(r));
        }
        bool big = false;
        for (auto &e : pool) { for (auto &q : e.second.c) if (std::fabs(q.second) > 1e6) big = true; if (std::fabs(e.second.k) > 1e6) big = true; }
        h.count(prog);
        if (big) continue;
        for (int rep = 0; rep < 3; rep++) {
            auto x = in.point(h);
            for (int i = 0; i < N; i++) v[i]->set_value_force(x[i]);
            for (auto &e : pool) {
                double a = e.first.evaluate(), b = e.second.eval(x);
                if (!near(a, b)) h.fail("value", prog + " at " + xs(x) + str(" gives %.9g, arithmetic gives %.9g (%s)", a, b, e.second.str().c_str()));
                e.first.update();
                if (!near(e.first.value(), b)) h.fail("update", prog + str(" value %.9g expected %.9g", e.first.value(), b));
                double lo = e.first.lower_bound(), hi = e.first.upper_bound();
                if (b < lo - 1e-6 * (1 + std::fabs(lo)) || b > hi + 1e-6 * (1 + std::fabs(hi))) h.fail("bounds", prog + " at " + xs(x) + str(" value %.9g outside [%.9g,%.9g]", b, lo, hi));
                double ft = 0;
                for (auto &q : e.second.c) if (in.fixed[q.first]) ft += q.second * x[q.first];
                if (!near(e.first.fixed_term_value(), ft)) h.fail("fixed_term", prog + str(" fixed term %.9g expected %.9g", e.first.fixed_term_value(), ft));
            }
        }
        // bounds are attained (no needlessly loose bound)
        {
            auto &e = pool.back();
            double lo = e.second.k, hi = lo;
            for (auto &q : e.second.c) { int i = q.first; double a = q.second * (in.fixed[i] ? in.x0[i] : in.lb[i]), b = q.second * (in.fixed[i] ? in.x0[i] : in.ub[i]); lo += std::min(a, b); hi += std::max(a, b); }
            for (int i = 0; i < N; i++) if (in.fixed[i]) v[i]->set_value_force(in.x0[i]);
            if (!near(e.first.lower_bound(), lo) || !near(e.first.upper_bound(), hi)) h.fail("bounds", prog + str(" bounds [%.9g,%.9g] expected [%.9g,%.9g]", e.first.lower_bound(), e.first.upper_bound(), lo, hi));
        }
        // substitute and solve
        {
            auto &a = pool[h.in(0, pool.size() - 1)];
            int vi = h.in(0, N - 1);
            RE sub = random_re(h, N, h.in(0, 3)); sub.c.erase(vi);
            Expr t = a.first.copy(); t.substitute(v[vi], in.expr(sub));
            RE rt = a.second; double cv = rt.c.count(vi) ? rt.c[vi] : 0; rt.c.erase(vi); rt = add(rt, sub, cv);
            auto x = in.point(h);
            for (int i = 0; i < N; i++) v[i]->set_value_force(x[i]);
            if (!near(t.evaluate(), rt.eval(x))) h.fail("substitute", prog + str(" substituting x%d by %s in %s gives %.9g expected %.9g at ", vi, sub.str().c_str(), a.second.str().c_str(), t.evaluate(), rt.eval(x)) + xs(x));
            if (t.sensitivities().count(v[vi])) h.fail("substitute", prog + " the substituted variable is still mentioned");
            if (std::fabs(cv) > 1e-9) {
                Expr so = a.first.solve(v[vi]);
                RE rs = a.second; rs.c.erase(vi); rs = mul(rs, -1 / cv);
                if (!near(so.evaluate(), rs.eval(x))) h.fail("solve", prog + str(" solving %s for x%d gives %.9g expected %.9g at ", a.second.str().c_str(), vi, so.evaluate(), rs.eval(x)) + xs(x));
                if (so.sensitivities().count(v[vi])) h.fail("solve", prog + " the solved variable is still mentioned");
            }
        }
    }
    return h.done();
}
