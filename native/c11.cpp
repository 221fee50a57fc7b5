#include "prep.h"
#include <unistd.h>
#include <cstdlib>
// MPS files against the model they describe
static std::string num(H &h, double v) { char b[64]; int k = h.in(0, 2); snprintf(b, sizeof b, k == 0 ? "%.17g" : k == 1 ? "%.17e" : "%.12f", v); if (k == 2 && atof(b) != v) snprintf(b, sizeof b, "%.17g", v); return b; }
int main(int argc, char **argv) {
    H h(argc, argv); h.tiny = true;
    char dir[] = "/tmp/vpc11XXXXXX"; if (!mkdtemp(dir)) return 2;
    std::string f = std::string(dir) + "/a.mps";
    long lim = 12000;
    auto value = [&](bool big) { int k = h.in(0, 5); return k < 3 ? (double)h.in(-9, 9) : k == 3 ? h.in(-99999, 99999) * 0.001 : k == 4 ? h.in(-2000000000, 2000000000) * (big ? 1.0 : 1e-6) : h.in(-1000000, 1000000) / 7.0; };
    while (h.more(1.0) && h.evals < lim) {
        bool roundtrip = h.p(0.5);
        Inst in; int n = h.in(1, 6), m_ = h.in(0, 5);
        for (int i = 0; i < n; i++) { int k = h.in(0, 7); int l = h.in(-9, 9); if (k == 0) in.add(constant::INT_HALF_MIN, constant::INT_HALF_MAX); else if (k == 1) in.add(0, constant::INT_HALF_MAX); else if (k == 2) in.add(constant::INT_HALF_MIN, l); else if (k == 3) in.add(l, constant::INT_HALF_MAX); else if (k == 4) in.add(l, l + h.in(0, 100000), true, l); else if (k == 5) in.add(0, 1); else in.add(l, l + h.in(0, 20)); }
        for (int j = 0; j < m_; j++) { RC r; for (int i = 0; i < n; i++) if (h.p(0.5)) { double c = value(true); if (c != 0) r.e.c[i] = c; } r.e.k = value(true); r.s = random_sense(h); in.cons.push_back(r); }
        for (int i = 0; i < n; i++) if (h.p(0.6)) { double c = value(true); if (c != 0) in.obj.c[i] = c; }
        in.obj.k = h.p(0.5) ? value(false) : 0; in.minimize = h.p(0.5); in.has_obj = h.p(0.95) || m_ == 0;
        std::string d = in.str();
        try {
            if (roundtrip) {
                Model m; in.build(m, h.p(0.5));
                if (h.p(0.2)) m.set_name("a b c");
                m.write_mps(f);
                std::map<std::string, int> cid, vid;
                for (int i = 0; i < n; i++) vid[utility::delete_space(in.v[i]->name())] = i;
                for (size_t j = 0; j < in.c.size(); j++) cid[utility::delete_space(in.c[j]->name())] = j;
                h.count("round trip " + d);
                Model q; q.import_mps(mps::MPS(f), false);
                auto &vp = q.variable_proxies(); if (vp.size() != 1 || (int)vp[0].flat_indexed_variables().size() != n) { h.fail("vars", "round trip " + d + ": number of variables differs"); continue; }
                std::map<Var *, int> id;
                for (auto &v : vp[0].flat_indexed_variables()) {
                    if (!vid.count(v.name())) { h.fail("vars", "round trip " + d + ": unknown variable " + v.name()); continue; }
                    int i = vid[v.name()]; id[&v] = i;
                    if (in.fixed[i] ? !(v.is_fixed() && v.value() == in.x0[i]) : (v.is_fixed() && in.lb[i] != in.ub[i])) h.fail("fix", "round trip " + d + str(": fixing of x%d differs", i));
                    if (!in.fixed[i] && (v.lower_bound() != in.lb[i] || v.upper_bound() != in.ub[i])) h.fail("bound", "round trip " + d + str(": bounds of x%d become [%d,%d]", i, v.lower_bound(), v.upper_bound()));
                }
                size_t nc = 0;
                for (auto &p : q.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) {
                    nc++; if (!cid.count(c.name())) { h.fail("cons", "round trip " + d + ": unknown row " + c.name()); continue; }
                    auto &r = in.cons[cid[c.name()]];
                    if (c.sense() != r.s) h.fail("sense", "round trip " + d + ": sense of " + c.name());
                    std::map<int, double> e; for (auto &t : c.expression().sensitivities()) e[id[t.first]] = t.second;
                    if (e != r.e.c) h.fail("coef", "round trip " + d + ": coefficients of " + c.name());
                    if (c.expression().constant_value() != r.e.k) h.fail("rhs", "round trip " + d + str(": right-hand side of %s: %.17g", c.name().c_str(), c.expression().constant_value()));
                }
                if (nc != in.cons.size()) h.fail("cons", "round trip " + d + ": number of rows differs");
                std::map<int, double> e; for (auto &t : q.objective().expression().sensitivities()) e[id[t.first]] = t.second * (q.is_minimization() ? 1 : -1);
                std::map<int, double> w; if (in.has_obj) for (auto &t : in.obj.c) w[t.first] = in.minimize ? t.second : -t.second;
                if (e != w) h.fail("obj", "round trip " + d + ": objective differs");
            } else {
                // an MPS text written from the instance
                std::ostringstream o; bool star = h.p(0.3);
                auto nl = [&]() { o << "\n"; if (star && h.p(0.2)) o << "* comment C1 X1 3\n"; if (h.p(0.05)) o << "\n"; };
                o << "NAME   prob"; nl();
                o << "ROWS"; nl();
                bool fr = h.p(0.2); o << " N  COST"; nl(); if (fr) { o << " N  FREE1"; nl(); }
                std::vector<int> rt(m_); // 0 none, else range
                std::vector<double> rg(m_);
                for (int j = 0; j < m_; j++) { o << " " << (in.cons[j].s == Sense::Less ? "L" : in.cons[j].s == Sense::Equal ? "E" : "G") << "  R" << j; nl(); if (h.p(0.3)) { rg[j] = h.p(0.5) ? h.in(-20, 20) : value(false); if (rg[j] != 0) rt[j] = 1; } }
                o << "COLUMNS"; nl(); bool ints = false; std::vector<char> cont(n); bool anyc = false; int mk = 0;
                for (int i = 0; i < n; i++) {
                    cont[i] = h.p(0.1); anyc |= cont[i];
                    if (!cont[i] && !ints) { o << "    MK" << mk++ << " 'MARKER' 'INTORG'"; nl(); ints = true; } if (cont[i] && ints) { o << "    MK" << mk++ << " 'MARKER' 'INTEND'"; nl(); ints = false; }
                    std::vector<std::pair<std::string, double>> t; if (in.obj.c.count(i)) t.push_back({"COST", in.obj.c[i]}); if (fr && h.p(0.4)) t.push_back({"FREE1", 2}); for (int j = 0; j < m_; j++) if (in.cons[j].e.c.count(i)) t.push_back({"R" + std::to_string(j), in.cons[j].e.c[i]});
                    if (t.empty()) t.push_back({"COST", 0});
                    for (size_t a = 0; a < t.size();) { o << "    X" << i << "  " << t[a].first << "  " << num(h, t[a].second); a++; if (a < t.size() && h.p(0.5)) { o << "   " << t[a].first << "  " << num(h, t[a].second); a++; } nl(); }
                }
                if (ints) { o << "    MK" << mk++ << " 'MARKER' 'INTEND'"; nl(); }
                o << "RHS"; nl(); double k0 = 0; if (h.p(0.3)) { k0 = in.obj.k; o << "    RHS  COST  " << num(h, -k0); nl(); }
                for (int j = 0; j < m_; j++) { if (in.cons[j].e.k == 0 && h.p(0.5)) continue; o << "    RHS  R" << j << "  " << num(h, -in.cons[j].e.k); nl(); }
                o << "RANGES"; nl(); for (int j = 0; j < m_; j++) if (rt[j]) { o << "    RNG  R" << j << "  " << num(h, rg[j]); nl(); }
                o << "BOUNDS"; nl(); std::vector<int> L(n), U(n); std::vector<char> F(n);
                for (int i = 0; i < n; i++) {
                    auto B = [&](const char *c, std::string v) { o << " " << c << " BND X" << i << " " << v; nl(); };
                    L[i] = in.lb[i]; U[i] = in.ub[i]; bool frac = h.p(0.15); double e = 0.25;
                    if (in.fixed[i]) { B("FX", std::to_string(in.x0[i])); L[i] = U[i] = in.x0[i]; F[i] = 1; continue; }
                    bool lf = in.lb[i] == constant::INT_HALF_MIN, uf = in.ub[i] == constant::INT_HALF_MAX;
                    if (lf && uf) { B("FR", ""); continue; }
                    if (in.lb[i] == 0 && in.ub[i] == 1 && h.p(0.6)) { if (h.p(0.5) && !cont[i]) continue; B("BV", ""); cont[i] = 0; continue; }
                    const char *lo = h.p(0.15) ? "LI" : "LO", *up = h.p(0.15) ? "UI" : "UP";
                    if (lo[1] == 'I' && !lf && in.lb[i] != 0) cont[i] = 0; if (up[1] == 'I' && !uf) cont[i] = 0;
                    bool upfirst = h.p(0.3) && !lf && !uf;
                    if (upfirst) B(up, num(h, frac ? in.ub[i] + e : in.ub[i]));
                    if (lf) B("MI", ""); else if (in.lb[i] != 0) B(lo, num(h, frac ? in.lb[i] - e : in.lb[i]));
                    if (!upfirst) { if (uf) { if (in.lb[i] == 0 || h.p(0.5)) B(h.p(0.5) ? "PL" : "UP", ""); } else B(up, num(h, frac ? in.ub[i] + e : in.ub[i])); }
                }
                std::string txt = o.str(); // "UP" without a number stands for 1e30
                for (size_t p; (p = txt.find(" UP BND X")) != std::string::npos;) { size_t q = txt.find('\n', p); std::string ln = txt.substr(p, q - p); std::istringstream is(ln); std::string a, b, c, v; is >> a >> b >> c; if (!(is >> v)) ln += " 1e30"; ln[1] = 'u'; txt.replace(p, q - p, ln); }
                for (size_t p; (p = txt.find(" uP BND")) != std::string::npos;) txt[p + 1] = 'U';
                txt += "ENDATA\n";
                { std::ofstream s(f); s << txt; }
                anyc = false; for (int i = 0; i < n; i++) anyc |= cont[i];
                std::string fl = txt; for (auto &ch : fl) if (ch == '\n') ch = '|';
                h.count(fl);
                if (anyc) { bool t = false; try { Model q; q.import_mps(mps::MPS(f), false); } catch (std::exception &) { t = true; } if (!t) h.fail("cont", fl + ": a continuous column is taken as integer silently"); }
                if (anyc) continue;
                Model q; q.import_mps(mps::MPS(f), false);
                auto &vs = q.variable_proxies()[0].flat_indexed_variables(); if ((int)vs.size() != n) { h.fail("vars", fl + ": number of columns"); continue; }
                std::map<Var *, int> id;
                for (auto &v : vs) { int i = atoi(v.name().c_str() + 1); id[&v] = i; if (v.lower_bound() != L[i] || v.upper_bound() != U[i] || (F[i] && (!v.is_fixed() || v.value() != L[i]))) h.fail("bound", fl + str(": X%d has bounds [%d,%d] instead of [%d,%d]", i, v.lower_bound(), v.upper_bound(), L[i], U[i])); }
                // rows: the interval each row describes
                std::vector<double> lo(m_, -HUGE_VAL), hi(m_, HUGE_VAL), wl(m_, -HUGE_VAL), wh(m_, HUGE_VAL);
                for (int j = 0; j < m_; j++) { double b = -in.cons[j].e.k; auto s = in.cons[j].s; if (s != Sense::Less) wl[j] = b; if (s != Sense::Greater) wh[j] = b; if (rt[j]) { double R = rg[j]; if (s == Sense::Less) wl[j] = b - std::fabs(R); else if (s == Sense::Greater) wh[j] = b + std::fabs(R); else if (R > 0) wh[j] = b + R; else wl[j] = b + R; } }
                std::vector<int> seen(m_);
                for (auto &p : q.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) {
                    if (c.name().size() < 2 || c.name()[0] != 'R') { h.fail("row", fl + ": unexpected row " + c.name()); continue; }
                    int j = atoi(c.name().c_str() + 1); if (j < 0 || j >= m_) { h.fail("row", fl + ": unexpected row " + c.name()); continue; } seen[j]++;
                    std::map<int, double> e; for (auto &t : c.expression().sensitivities()) e[id[t.first]] = t.second;
                    if (e != in.cons[j].e.c) h.fail("coef", fl + ": coefficients of " + c.name());
                    double b = -c.expression().constant_value(); if (c.sense() != Sense::Less) lo[j] = std::max(lo[j], b); if (c.sense() != Sense::Greater) hi[j] = std::min(hi[j], b);
                }
                for (int j = 0; j < m_; j++) if (!seen[j] || !near(lo[j], wl[j], 1e-12) || !near(hi[j], wh[j], 1e-12)) h.fail("range", fl + str(": row R%d means [%.12g,%.12g], imported as [%.12g,%.12g]", j, wl[j], wh[j], lo[j], hi[j]));
                std::map<int, double> e; for (auto &t : q.objective().expression().sensitivities()) e[id[t.first]] = t.second;
                if (e != in.obj.c || !q.is_minimization() || !near(q.objective().expression().constant_value(), k0, 1e-12)) h.fail("obj", fl + ": objective differs");
            }
        } catch (std::exception &e) { h.fail("throw", d + ": " + std::string(e.what()).substr(0, 200)); }
    }
    unlink(f.c_str()); rmdir(dir);
    return h.done();
}
