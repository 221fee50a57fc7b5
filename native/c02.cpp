#include "common.h"
// models written with mixed relation forms, evaluated from scratch at random assignments
int main(int argc, char **argv) {
    H h(argc, argv); h.tiny = true;
    while (h.more(0.4) && h.evals < 15000) {
        Model m;
        int n = h.in(1, 5);
        Inst in;
        for (int i = 0; i < n; i++) { int l = h.in(-5, 2); in.add(l, l + h.in(0, 8)); }
        auto &px = m.create_variables("x", n);
        auto &py = m.create_variable("y", -4, 4); in.add(-4, 4);
        int N = n + 1;
        for (int i = 0; i < n; i++) { in.v.push_back(&px(i)); px(i).set_bound(in.lb[i], in.ub[i]); }
        in.v.push_back(&py.flat_indexed_variables(0));
        RE ry; ry.c[n] = 1;
        int ne = h.in(0, 3);
        std::vector<RE> es; std::vector<model_component::ExpressionProxy<int, double> *> ep;
        for (int i = 0; i < ne; i++) { RE e = random_re(h, N, h.in(0, 4)); es.push_back(e); ep.push_back(&m.create_expression("e" + std::to_string(i), in.expr(e))); }
        int mc = h.in(1, 5);
        auto &pc = m.create_constraints("c", mc);
        std::vector<char> en(mc, 1);
        std::string d = "";
        for (int j = 0; j < mc; j++) {
            RE a = random_re(h, N, h.in(0, 4)), b = random_re(h, N, h.in(0, 4));
            int vi = h.in(0, N - 1); RE rv; rv.c[vi] = 1; Var &v = *in.v[vi];
            double k = h.coef(); int ki = h.in(-5, 5); RE rk; rk.k = k; RE rki; rki.k = ki;
            Sense s = random_sense(h);
            int f = h.in(0, ne ? 15 : 12);
            RE L, R;
            auto &c = pc(j);
#define REL(l, r) do { if (s == Sense::Less) c = ((l) <= (r)); else if (s == Sense::Equal) c = ((l) == (r)); else c = ((l) >= (r)); } while (0)
            switch (f) {
                case 0: L = a; R = b; REL(in.expr(a), in.expr(b)); break;
                case 1: L = a; R = rk; REL(in.expr(a), k); break;
                case 2: L = rk; R = a; REL(k, in.expr(a)); break;
                case 3: L = a; R = rki; REL(in.expr(a), ki); break;
                case 4: L = rki; R = a; REL(ki, in.expr(a)); break;
                case 5: L = rv; R = rki; REL(v, ki); break;
                case 6: L = rk; R = rv; REL(k, v); break;
                case 7: L = a; R = rv; REL(in.expr(a), v); break;
                case 8: L = rv; R = a; REL(v, in.expr(a)); break;
                case 9: L = rv; R = RE{{{0, 1.0}}, 0}; if (vi == 0) { R = RE(); REL(v, 0); } else REL(v, *in.v[0]); break;
                case 10: L = ry; R = a; REL(py, in.expr(a)); break;
                case 11: L = rk; R = ry; REL(k, py); break;
                case 12: L = ry; R = rv; REL(py, v); break;
                case 13: L = es[0]; R = b; REL((*ep[0]), in.expr(b)); break;
                case 14: L = rk; R = es[0]; REL(k, (*ep[0])); break;
                case 15: L = rv; R = es[0]; REL(v, (*ep[0])); break;
            }
            RC rc; rc.e = L; for (auto &p : R.c) rc.e.c[p.first] -= p.second; rc.e.k -= R.k; rc.s = s;
            in.cons.push_back(rc);
            if (h.p(0.25)) { c.disable(); en[j] = 0; }
            d += str(" form%d[%s %s %s]%s;", f, L.str().c_str(), s == Sense::Less ? "<=" : s == Sense::Equal ? "==" : ">=", R.str().c_str(), en[j] ? "" : "(disabled)");
        }
        in.obj = random_re(h, N, h.in(0, 4)); in.minimize = h.p(0.5); in.has_obj = h.p(0.9);
        if (in.has_obj) { if (in.minimize) m.minimize(in.expr(in.obj)); else m.maximize(in.expr(in.obj)); }
        m.setup_unique_names(); m.setup_structure();
        h.count(d);
        for (int rep = 0; rep < 4; rep++) {
            auto x = in.point(h);
            for (int i = 0; i < N; i++) in.v[i]->set_value_force(x[i]);
            m.update();
            bool feas = true; std::set<Con *> vio;
            for (int j = 0; j < mc; j++) {
                auto &c = pc(j);
                double v = in.cons[j].e.eval(x), w = in.cons[j].viol(x);
                double mg = in.cons[j].s == Sense::Less ? std::max(-v, 0.0) : in.cons[j].s == Sense::Greater ? std::max(v, 0.0) : 0.0;
                auto bad = [&](const char *t, double g, double e) { h.fail("constraint", d + str(" constraint %d at ", j) + xs(x) + str(": %s %.9g expected %.9g", t, g, e)); };
                // a relation may be stored as L-R or as R-L with the sense turned: the sign-free facts
                double sv = c.sense() == in.cons[j].s ? v : -v;
                if (!near(c.violation_value(), w)) bad("violation", c.violation_value(), w);
                if (!near(c.margin_value(), mg)) bad("margin", c.margin_value(), mg);
                if (c.sense() == Sense::Equal ? !near(std::fabs(c.constraint_value()), std::fabs(v)) : !near(c.constraint_value(), sv)) bad("value", c.constraint_value(), sv);
                if ((c.sense() == Sense::Equal) != (in.cons[j].s == Sense::Equal)) bad("sense", 0, 0);
                if (!near(c.positive_part(), std::max(c.constraint_value(), 0.0)) || !near(c.negative_part(), std::max(-c.constraint_value(), 0.0))) bad("parts", c.positive_part(), c.negative_part());
                if (c.is_feasible() != (w < constant::EPSILON)) bad("is_feasible", c.is_feasible(), w < constant::EPSILON);
                if (en[j] && w >= constant::EPSILON) { feas = false; vio.insert(&c); }
            }
            for (int i = 0; i < ne; i++) if (!near(ep[i]->value(), es[i].eval(x))) h.fail("expression", d + str(" expression %s value %.9g at ", es[i].str().c_str(), ep[i]->value()) + xs(x));
            if (in.has_obj && !near(m.objective().value(), in.obj.eval(x))) h.fail("objective", d + str(" objective %s value %.9g at ", in.obj.str().c_str(), m.objective().value()) + xs(x));
            if (m.is_feasible() != feas) h.fail("feasible", d + str(" model feasible=%d expected %d at ", (int)m.is_feasible(), (int)feas) + xs(x));
            auto &vc = m.current_violative_constraint_ptrs();
            if (std::set<Con *>(vc.begin(), vc.end()) != vio || vc.size() != vio.size()) h.fail("violated-list", d + " violated constraint list wrong at " + xs(x));
        }
    }
    return h.done();
}
