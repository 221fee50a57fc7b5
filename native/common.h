// Shared code of the bounded native stand-ins: generator, counters, reporting.
#pragma once
#include <printemps.h>
#include <chrono>
#include <cstdio>
#include <cstdarg>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
using namespace printemps;
using Var = model_component::IPVariable;
using Expr = model_component::IPExpression;
using Con = model_component::IPConstraint;
using Sense = model_component::ConstraintSense;
using Model = model::IPModel;
using Move = neighborhood::Move<int, double>;

struct H {
    uint64_t s;
    double   budget;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    long evals = 0, fails = 0, samples = 0;
    std::unordered_set<uint64_t> seen;
    std::map<std::string, int>   per;
    H(int argc, char **argv) {
        s      = (argc > 1 ? strtoull(argv[1], 0, 10) : 1) * 0xD1342543DE82EF95ULL + 12345;
        s = next() ^ (next() << 17);
        budget = argc > 2 ? atof(argv[2]) : 20;
    }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ULL;
        uint64_t z = s;
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    int  in(int a, int b) { return a + (int)(next() % (uint64_t)((long)b - a + 1)); }
    bool p(double q) { return (next() >> 11) * 0x1.0p-53 < q; }
    bool tiny = false;   // also draw coefficients near the tolerance (never within it); off where the code divides by them in floating point
    double coef() {  // mixed: small integers, halves, quarters
        int m = in(0, 9);
        if (m < 6) { int v = in(-4, 4); return v; }
        if (m < 8) return in(-9, 9) * 0.5;
        if (m < 9) return (tiny && !in(0, 3)) ? in(-9, 9) * (in(0, 1) ? 3e-5 : 2e-7) : in(-9, 9) * 0.25;
        return in(-1000, 1000);
    }
    double ncoef() { double c; while ((c = coef()) == 0) {} return c; }
    double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    bool   more(double share = 1.0) { return elapsed() < budget * share && fails < 30; }
    void   count(const std::string &inst, bool nontrivial = true) {
        evals++;
        if (nontrivial && seen.size() < 2000000) seen.insert(std::hash<std::string>()(inst));
        if (samples < 4 && (evals == 1 || evals % 97 == 0)) { printf("SAMPLE %s\n", inst.substr(0, 400).c_str()); samples++; }
    }
    void fail(const std::string &tag, const std::string &msg) {
        fails++;
        if (per[tag]++ < 3) { printf("FAIL [%s] %s\n", tag.c_str(), msg.c_str()); fflush(stdout); }
    }
    int done() {
        printf("EVAL %ld %zu\n", evals, seen.size());
        return fails ? 1 : 0;
    }
};
inline std::string str(const char *f, ...) {
    char b[8192];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
inline bool near(double a, double b, double tol = 1e-6) {
    if (a == b) return true;
    return std::fabs(a - b) <= tol * (1.0 + std::max(std::fabs(a), std::fabs(b)));
}
// a reference linear expression
struct RE {
    std::map<int, double> c;
    double                k = 0;
    double eval(const std::vector<int> &x) const {
        double v = k;
        for (auto &p : c) v += p.second * x[p.first];
        return v;
    }
    std::string str() const {
        std::ostringstream o;
        for (auto &p : c) o << (p.second >= 0 ? "+" : "") << p.second << "*x" << p.first << " ";
        o << (k >= 0 ? "+" : "") << k;
        return o.str();
    }
};
struct RC {
    RE    e;
    Sense s;
    double viol(const std::vector<int> &x) const {
        double v = e.eval(x);
        if (s == Sense::Less) return std::max(v, 0.0);
        if (s == Sense::Greater) return std::max(-v, 0.0);
        return std::fabs(v);
    }
    bool ok(const std::vector<int> &x, double tol = 1e-5) const { return viol(x) <= tol; }
    std::string str() const { return e.str() + (s == Sense::Less ? " <= 0" : s == Sense::Greater ? " >= 0" : " == 0"); }
};
struct Inst {
    std::vector<int>  lb, ub;
    std::vector<char> fixed;
    std::vector<int>  x0;
    std::vector<RC>   cons;
    RE                obj;
    bool              minimize = true, has_obj = true;
    std::vector<Var *> v;   // after build
    std::vector<Con *> c;
    int n() const { return (int)lb.size(); }
    int add(int l, int u, bool f = false, int x = 0) {
        lb.push_back(l); ub.push_back(u); fixed.push_back(f); x0.push_back(std::min(u, std::max(l, x)));
        return n() - 1;
    }
    std::string str() const {
        std::ostringstream o;
        o << "vars:";
        for (int i = 0; i < n(); i++) o << " x" << i << (fixed[i] ? "=" : " in [") << (fixed[i] ? "" : "") << (fixed[i] ? std::to_string(x0[i]) + "(fixed) in [" : "") << lb[i] << "," << ub[i] << "]";
        o << " obj:" << (has_obj ? (minimize ? "min " : "max ") + obj.str() : std::string("none")) << " s.t.";
        for (auto &r : cons) o << " " << r.str() << ";";
        return o.str();
    }
    Expr expr(const RE &e) const {
        Expr r = Expr::create_instance();
        for (auto &p : e.c) r += p.second * (*v[p.first]);
        r += e.k;
        return r;
    }
    bool dup = false;   // give every constraint the same name
    void build(Model &m, bool arrays = false) {
        v.clear(); c.clear();
        if (arrays) {
            auto &p = m.create_variables("x", n());
            for (int i = 0; i < n(); i++) v.push_back(&p(i));
        } else
            for (int i = 0; i < n(); i++) { auto &p = m.create_variable("x" + std::to_string(i)); v.push_back(&p.flat_indexed_variables(0)); }
        for (int i = 0; i < n(); i++) {
            if (lb[i] > constant::INT_HALF_MIN || ub[i] < constant::INT_HALF_MAX) v[i]->set_bound(lb[i], ub[i]);
            v[i]->set_value_force(x0[i]);
            if (fixed[i]) v[i]->fix_by(x0[i]);
        }
        if (cons.size() && arrays) {
            auto &p = m.create_constraints("c", (int)cons.size());
            for (size_t i = 0; i < cons.size(); i++) { set(p, i, cons[i]); c.push_back(&p(i)); }
        } else
            for (size_t i = 0; i < cons.size(); i++) {
                auto &p = m.create_constraint(dup ? std::string("c") : "c" + std::to_string(i));
                set(p, 0, cons[i]);
                c.push_back(&p.flat_indexed_constraints(0));
            }
        if (has_obj) { if (minimize) m.minimize(expr(obj)); else m.maximize(expr(obj)); }
    }
    template <class P> void set(P &p, int i, const RC &r) {
        auto &t = p.flat_indexed_constraints(i);
        if (r.s == Sense::Less) t = (expr(r.e) <= 0);
        else if (r.s == Sense::Greater) t = (expr(r.e) >= 0);
        else t = (expr(r.e) == 0);
    }
    bool in_bounds(const std::vector<int> &x) const {
        for (int i = 0; i < n(); i++) {
            if (fixed[i] ? x[i] != x0[i] : (x[i] < lb[i] || x[i] > ub[i])) return false;
        }
        return true;
    }
    bool feasible(const std::vector<int> &x) const {
        if (!in_bounds(x)) return false;
        for (auto &r : cons) if (!r.ok(x)) return false;
        return true;
    }
    // enumerate the box (caller keeps it small)
    template <class F> void each(F f) const {
        std::vector<int> x(n());
        for (int i = 0; i < n(); i++) x[i] = fixed[i] ? x0[i] : lb[i];
        while (true) {
            f(x);
            int i = 0;
            for (; i < n(); i++) {
                if (fixed[i]) continue;
                if (x[i] < ub[i]) { x[i]++; break; }
                x[i] = lb[i];
            }
            if (i == n()) return;
        }
    }
    double box() const { double b = 1; for (int i = 0; i < n(); i++) if (!fixed[i]) b *= (double)ub[i] - lb[i] + 1; return b; }
    std::vector<int> point(H &h) const {
        std::vector<int> x(n());
        for (int i = 0; i < n(); i++) x[i] = fixed[i] ? x0[i] : h.in(std::max(lb[i], -1000), std::min(ub[i], 1000));
        return x;
    }
};
inline std::string xs(const std::vector<int> &x) { std::string s = "("; for (int a : x) s += std::to_string(a) + ","; return s + ")"; }
inline RE random_re(H &h, int n, int terms, bool integral = false) {
    RE e;
    for (int i = 0; i < terms; i++) { double c = integral ? (double)h.in(-3, 3) : h.coef(); if (c != 0) e.c[h.in(0, n - 1)] = c; }
    e.k = integral ? h.in(-6, 6) : h.coef();
    return e;
}
inline Sense random_sense(H &h) { int k = h.in(0, 2); return k == 0 ? Sense::Less : k == 1 ? Sense::Equal : Sense::Greater; }
inline Inst random_inst(H &h, int maxn, int maxm, bool integral = false, double pfix = 0.15, double pbin = 0.5) {
    Inst in;
    int n = h.in(1, maxn), m = h.in(0, maxm);
    for (int i = 0; i < n; i++) {
        if (h.p(pbin)) in.add(0, 1, h.p(pfix), h.in(0, 1));
        else { int l = h.in(-4, 3); in.add(l, l + h.in(0, 4), h.p(pfix), h.in(l, l + 4)); }
    }
    for (int j = 0; j < m; j++) { RC r{random_re(h, n, h.in(1, n + 1), integral || h.p(0.6)), random_sense(h)}; in.cons.push_back(r); }
    in.obj = random_re(h, n, h.in(0, n + 1), integral);
    in.minimize = h.p(0.5);
    return in;
}
