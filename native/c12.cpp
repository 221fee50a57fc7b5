#include "prep.h"
#include <unistd.h>
#include <fstream>
using namespace printemps::utility::json;
// exported solutions equal the model state; importing restores every variable
static void flat(const std::any &a, std::vector<double> &out, int depth, int &maxd) {
    maxd = std::max(maxd, depth);
    if (a.type() == typeid(int)) out.push_back(std::any_cast<int>(a));
    else if (a.type() == typeid(double)) out.push_back(std::any_cast<double>(a));
    else if (a.type() == typeid(JsonArray)) { for (auto &e : std::any_cast<const JsonArray &>(a).body) flat(e, out, depth + 1, maxd); }
    else out.push_back(1e300);
}
// the JSON reader pads brackets and drops commas within keys; keys are compared without them
static std::string nb(const std::string &s) { std::string r; for (char c : s) if (c != ' ' && c != ',') r += c; return r; }
static JsonObject norm(const JsonObject &o) { JsonObject r; for (auto &b : o.body) r.emplace_back(nb(b.first), b.second); return r; }
int main(int argc, char **argv) {
    H h(argc, argv);
    long lim = 20000;
    char dir[] = "/tmp/c12XXXXXX"; if (!mkdtemp(dir)) return 3;
    std::string js = std::string(dir) + "/a.json", so = std::string(dir) + "/a.sol";
    while (h.more(1.0) && h.evals < lim) {
        Model m("model" + std::to_string(h.in(0, 9)));
        std::vector<Var *> v; std::vector<int> lb, ub; std::string d; std::vector<char> fx;
        struct Slot { int proxy, flat; };
        int np = h.in(1, 3);
        for (int p = 0; p < np; p++) {
            std::vector<int> sh; int nd = h.in(0, 3); for (int i = 0; i < nd; i++) sh.push_back(h.in(1, 3));
            auto *px = nd == 0 ? &m.create_variable("v" + std::to_string(p)) : nd == 1 ? &m.create_variables("v" + std::to_string(p), sh[0]) : &m.create_variables("v" + std::to_string(p), sh);
            int tot = 1; for (int s : sh) tot *= s;
            d += "v" + std::to_string(p) + xs(sh) + " ";
            if (px->number_of_elements() != tot) { h.fail("shape", d); return h.done(); }
            for (int i = 0; i < tot; i++) v.push_back(&px->flat_indexed_variables(i));
        }
        int n = v.size();
        bool names = h.p(0.2);
        for (int i = 0; i < n; i++) {
            bool bin = h.p(0.5); int l = bin ? 0 : h.in(-5, 3), u = bin ? 1 : l + h.in(0, 6);
            if (h.p(0.05)) { l = -2000000000 / 3; u = 2000000000 / 3; }
            lb.push_back(l); ub.push_back(u); v[i]->set_bound(l, u);
            if (names) v[i]->set_name("n" + std::to_string(i));
        }
        auto val = [&](int i) { return ub[i] - lb[i] > 100 ? h.in(-50000000, 50000000) : h.in(lb[i], ub[i]); };
        std::vector<int> x(n); for (int i = 0; i < n; i++) { x[i] = val(i); *v[i] = x[i]; }
        for (int i = 0; i < n; i++) { fx.push_back(h.p(0.1)); if (fx[i]) v[i]->fix_by(x[i]); }
        auto mk = [&](const RE &e) { Expr r = Expr::create_instance(); for (auto &t : e.c) r += t.second * (*v[t.first]); r += e.k; return r; };
        std::vector<std::vector<RE>> es; std::vector<std::vector<RC>> cs; std::vector<std::vector<char>> en;
        int ne = h.in(0, 2), nc = h.in(0, 3);
        for (int p = 0; p < ne; p++) {
            std::vector<int> sh; int nd = h.in(0, 2); for (int i = 0; i < nd; i++) sh.push_back(h.in(1, 3));
            auto *px = nd == 0 ? &m.create_expression("e" + std::to_string(p)) : nd == 1 ? &m.create_expressions("e" + std::to_string(p), sh[0]) : &m.create_expressions("e" + std::to_string(p), sh);
            es.emplace_back();
            for (int i = 0; i < px->number_of_elements(); i++) { RE e = random_re(h, n, h.in(0, n)); es.back().push_back(e); px->flat_indexed_expressions(i) = mk(e); }
        }
        for (int p = 0; p < nc; p++) {
            std::vector<int> sh; int nd = h.in(0, 2); for (int i = 0; i < nd; i++) sh.push_back(h.in(1, 3));
            auto *px = nd == 0 ? &m.create_constraint("c" + std::to_string(p)) : nd == 1 ? &m.create_constraints("c" + std::to_string(p), sh[0]) : &m.create_constraints("c" + std::to_string(p), sh);
            cs.emplace_back(); en.emplace_back();
            for (int i = 0; i < px->number_of_elements(); i++) {
                RC r{random_re(h, n, h.in(1, n)), random_sense(h)}; cs.back().push_back(r);
                auto &t = px->flat_indexed_constraints(i);
                if (r.s == Sense::Less) t = (mk(r.e) <= 0); else if (r.s == Sense::Greater) t = (mk(r.e) >= 0); else t = (mk(r.e) == 0);
                en.back().push_back(!h.p(0.1)); if (!en.back().back()) t.disable();
            }
        }
        RE obj = random_re(h, n, h.in(0, n)); bool mn = h.p(0.5);
        if (mn) m.minimize(mk(obj)); else m.maximize(mk(obj));
        double gp = h.in(1, 500); m.set_global_penalty_coefficient(gp);
        m.setup_unique_names(); m.setup_is_integer(); m.categorize_variables(); m.categorize_constraints();
        option::Option o = base_option(h, false);
        bool full = h.p(0.5);
        if (full) { o.neighborhood.selection_mode = sel_mode(0); o.preprocess.is_enabled_initial_value_correction = true; try { m.setup(o, false); } catch (std::exception &) { continue; }
                    for (int i = 0; i < n; i++) x[i] = v[i]->value(); }
        double sg = m.is_minimization() == mn ? 1 : -1;
        m.update();
        for (int i = 0; i < n; i++) d += str("x%d=%d%s ", i, x[i], fx[i] ? "f" : "");
        h.count(d + obj.str());
        double tv = 0; bool feas = true;
        for (size_t p = 0; p < cs.size(); p++) for (size_t i = 0; i < cs[p].size(); i++) {
            double w = cs[p][i].viol(x); bool nowenabled = m.constraint_proxies()[p].flat_indexed_constraints(i).is_enabled();
            tv += w; if (nowenabled && w > 1e-5) feas = false;
        }
        auto names_of = [&](int i) { return v[i]->name(); };
        auto ds = m.export_dense_solution(); auto ss = m.export_sparse_solution(); auto ns = m.export_named_solution(); auto ts = ds.to_sparse();
        auto bad = [&](const char *t, const std::string &w) { h.fail(t, d + ": " + w); };
        // variables
        if ((int)ds.variable_value_proxies.size() != np) bad("vars", "number of variable arrays");
        else { int k = 0; for (int p = 0; p < np; p++) { auto &q = ds.variable_value_proxies[p]; auto &pr = m.variable_proxies()[p]; auto &nq = ns.variables("v" + std::to_string(p));
            if (q.shape() != pr.shape() || nq.shape() != pr.shape() || q.number_of_elements() != pr.number_of_elements()) bad("shape", "shape of v" + std::to_string(p));
            for (int i = 0; i < pr.number_of_elements(); i++, k++) {
                if (q.flat_indexed_values(i) != x[k]) bad("dense-var", str("dense x%d=%d", k, q.flat_indexed_values(i)));
                if (nq.flat_indexed_values(i) != x[k]) bad("named-var", str("named x%d=%d", k, nq.flat_indexed_values(i)));
                if (q.flat_indexed_names(i) != names_of(k) || nq.flat_indexed_names(i) != names_of(k)) bad("names", "name of " + names_of(k));
                for (auto *s : {&ss, &ts}) { auto it = s->variables.find(names_of(k)); int got = it == s->variables.end() ? 0 : it->second; if (got != x[k]) bad(s == &ss ? "sparse-var" : "to-sparse", str("x%d=%d", k, got)); }
            } } }
        size_t nz = 0; for (int i = 0; i < n; i++) nz += x[i] != 0;
        if (ss.variables.size() != nz || ts.variables.size() != nz) bad("sparse-size", "sparse solution lists other variables");
        if (ds.expression_value_proxies.size() != es.size() || ds.constraint_value_proxies.size() != cs.size() || ds.violation_value_proxies.size() != cs.size()) { bad("arrays", "number of exported arrays"); continue; }
        for (size_t p = 0; p < es.size(); p++) for (size_t i = 0; i < es[p].size(); i++) {
            double w = es[p][i].eval(x), a = ds.expression_value_proxies[p].flat_indexed_values(i), b = ns.expressions("e" + std::to_string(p)).flat_indexed_values(i);
            if (!near(a, w) || !near(b, w)) bad("expr", str("expression e%zu[%zu] exported as %g / %g, is %g", p, i, a, b, w));
        }
        for (size_t p = 0; p < cs.size(); p++) for (size_t i = 0; i < cs[p].size(); i++) {
            auto &c = m.constraint_proxies()[p].flat_indexed_constraints(i); std::string nm = "c" + std::to_string(p);
            double a = ds.constraint_value_proxies[p].flat_indexed_values(i), b = ns.constraints(nm).flat_indexed_values(i), w = cs[p][i].e.eval(x);
            if (!near(a, w) || !near(b, w)) bad("con", str("constraint c%zu[%zu] exported as %g / %g, is %g", p, i, a, b, w));
            a = ds.violation_value_proxies[p].flat_indexed_values(i); b = ns.violations(nm).flat_indexed_values(i); w = cs[p][i].viol(x);
            if (!near(a, w) || !near(b, w)) bad("viol", str("violation of c%zu[%zu] exported as %g / %g, is %g", p, i, a, b, w));
            if (ds.constraint_value_proxies[p].flat_indexed_names(i) != c.name() || ds.violation_value_proxies[p].flat_indexed_names(i) != c.name() || ns.violations(nm).flat_indexed_names(i) != c.name()) bad("names", "name of " + c.name());
            if (c.is_enabled() && !(ds.violation_value_proxies[p].shape() == m.constraint_proxies()[p].shape())) bad("shape", "shape of " + nm);
        }
        double ov = sg * obj.eval(x);
        if (!near(ds.objective, ov) || !near(ss.objective, ov) || !near(ts.objective, ov) || !near(ns.objective(), ov)) bad("obj", str("objective exported as %g/%g/%g/%g, is %g", ds.objective, ss.objective, ts.objective, ns.objective(), ov));
        if (!near(ds.total_violation, tv) || !near(ss.total_violation, tv) || !near(ts.total_violation, tv) || !near(ns.total_violation(), tv)) bad("tv", str("total violation exported as %g/%g/%g/%g, is %g", ds.total_violation, ss.total_violation, ts.total_violation, ns.total_violation(), tv));
        if (ds.is_feasible != feas || ss.is_feasible != feas || ts.is_feasible != feas || ns.is_feasible() != feas) bad("feas", str("feasibility exported as %d/%d/%d/%d, is %d", ds.is_feasible, ss.is_feasible, ts.is_feasible, ns.is_feasible(), feas));
        double ga = ds.objective + m.global_penalty_coefficient() * ds.total_violation;
        if (!near(ds.global_augmented_objective, ga) || !near(ss.global_augmented_objective, ga) || !near(ts.global_augmented_objective, ga)) bad("aug", "global augmented objective");
        if (ns.name() != m.name()) bad("name", "model name " + ns.name());
        // import
        auto scramble = [&] { for (int i = 0; i < n; i++) if (!v[i]->is_fixed()) { *v[i] = val(i); } };
        auto same = [&](const char *t) { for (int i = 0; i < n; i++) if (v[i]->value() != x[i]) { bad(t, str("x%d is %d after import, was %d", i, v[i]->value(), x[i])); break; } };
        try {
            scramble(); m.import_solution(ds); same("import-dense");
            scramble(); m.import_solution(ss); same("import-sparse");
            scramble(); m.import_solution(ts); same("import-to-sparse");
            scramble(); m.import_solution(ss.variables); same("import-map");
            // distances
            scramble(); auto d2 = m.export_dense_solution(); auto s2 = m.export_sparse_solution(); int df = 0; for (int i = 0; i < n; i++) df += v[i]->value() != x[i];
            if (d2.distance(ds) != df || ds.distance(d2) != df || s2.distance(ss) != df) bad("distance", str("distance %d / %d, differ in %d", d2.distance(ds), s2.distance(ss), df));
            if (names && h.p(0.5)) {   // generated names of arrays contain blanks, which the solution file format separates by
                ns.write_solution(so); auto rd = helper::read_names_and_values(so); m.import_solution(rd); same("solution-file");
                for (int k = 0; k < 2; k++) {
                    if (k) ns.write_json_by_array(js); else ns.write_json_by_name(js);
                    auto ob = read_json_object(js);
                    auto near6 = [](double a, double b) { return std::fabs(a - b) <= 1e-5 * (1 + std::fabs(b)); };
                    auto num = [](const std::any &a) { std::vector<double> o; int md = 0; flat(a, o, 0, md); return o.size() == 1 ? o[0] : 1e301; };
                    if (!near6(num(ob.at("objective")), ov) || !near6(num(ob.at("total_violation")), tv) || ob.get<bool>("is_found_feasible_solution") != feas) bad("json", "summary of the JSON file");
                    const auto &vo = std::any_cast<const JsonObject &>(ob.at("variables"));
                    int q = 0;
                    for (int p = 0; p < np; p++) {
                        int cnt = m.variable_proxies()[p].number_of_elements();
                        if (k) { std::vector<double> o; int md = 0; flat(vo.at("v" + std::to_string(p)), o, 0, md); bool ok = (int)o.size() == cnt && md == (int)m.variable_proxies()[p].shape().size(); for (int i = 0; ok && i < cnt; i++) ok = o[i] == x[q + i]; if (!ok) bad("json-array", "variables of the JSON array file"); }
                        else for (int i = 0; i < cnt; i++) if (!vo.find(names_of(q + i)) || num(vo.at(names_of(q + i))) != x[q + i]) bad("json-name", "variable " + names_of(q + i) + " of the JSON file");
                        q += cnt;
                    }
                    for (int w = 0; w < 3; w++) {
                        const auto co = norm(std::any_cast<const JsonObject &>(ob.at(w == 0 ? "expressions" : w == 1 ? "constraints" : "violations")));
                        size_t P = w == 0 ? es.size() : cs.size();
                        for (size_t p = 0; p < P; p++) {
                            auto &q = w == 0 ? ns.expressions("e" + std::to_string(p)) : w == 1 ? ns.constraints("c" + std::to_string(p)) : ns.violations("c" + std::to_string(p));
                            if (k) { std::vector<double> o; int md = 0; flat(co.at((w ? "c" : "e") + std::to_string(p)), o, 0, md); bool ok = (int)o.size() == q.number_of_elements(); for (int i = 0; ok && i < q.number_of_elements(); i++) ok = near6(o[i], q.flat_indexed_values(i)); if (!ok) bad("json-array", "values of the JSON array file"); }
                            else for (int i = 0; i < q.number_of_elements(); i++) if (!co.find(nb(q.flat_indexed_names(i))) || !near6(num(co.at(nb(q.flat_indexed_names(i)))), q.flat_indexed_values(i))) bad("json-name", "value of " + q.flat_indexed_names(i) + " of the JSON file");
                        }
                    }
                }
            }
        } catch (std::exception &e) { bad("throw", std::string("throws ") + std::string(e.what()).substr(0, 200)); }
    }
    unlink(js.c_str()); unlink(so.c_str()); rmdir(dir);
    return h.done();
}
