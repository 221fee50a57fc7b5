#include "prep.h"
// dual bounds never cut off an admissible objective value
int main(int argc, char **argv) {
    H h(argc, argv);
    long lim = 25000;
    while (h.more(1.0) && h.evals < lim) {
        Inst in = random_inst(h, 5, 4, h.p(0.5), 0.15, 0.5);
        if (in.box() > 3000) continue;
        if (h.p(0.5) && in.cons.size()) { // make it feasible at a random point
            auto x = in.point(h);
            for (auto &r : in.cons) if (!r.ok(x)) { double e = r.e.eval(x); r.e.k -= e; }
        }
        Model m; in.build(m, h.p(0.5));
        std::vector<char> dis(in.cons.size());
        for (size_t j = 0; j < in.cons.size(); j++) if (h.p(0.08)) { in.c[j]->disable(); dis[j] = 1; }
        std::string d = in.str(); for (size_t j = 0; j < dis.size(); j++) if (dis[j]) d += str(" c%zu disabled", j);
        option::Option o = base_option(h, false);
        o.neighborhood.selection_mode = sel_mode(0); o.output.verbose = option::verbose::Off;
        h.count(d);
        double sg = in.minimize ? 1 : -1;
        double nb0 = m.compute_naive_dual_bound();
        try { m.setup(o, false); } catch (std::exception &) { continue; }
        double nb1 = m.compute_naive_dual_bound();
        if (m.is_minimization() != in.minimize) { h.fail("dir", d + ": setup changed the direction of optimisation"); continue; }
        double bestbox = 1e300, best = 1e300; std::vector<int> wb, wf;
        in.each([&](const std::vector<int> &x) {
            double v = sg * in.obj.eval(x); if (v < bestbox) { bestbox = v; wb = x; }
            bool ok = true; for (size_t j = 0; j < in.cons.size(); j++) if (!dis[j] && !in.cons[j].ok(x, 1e-9)) ok = false;
            if (ok && v < best) { best = v; wf = x; }
        });
        double tol = 1e-6 * (1 + std::fabs(bestbox));
        for (double b : {nb0, nb1}) if (sg * b > bestbox + tol) h.fail("naive", d + str(": naive dual bound %g but ", b) + xs(wb) + str(" has objective %g", sg * bestbox));
        // the Lagrangian
        m.update();
        auto du = m.generate_constraint_parameter_proxies(0.0);
        double L = 0; std::vector<int> x(in.n()); for (int i = 0; i < in.n(); i++) x[i] = in.v[i]->value();
        L = in.obj.eval(x);
        for (size_t j = 0; j < in.cons.size(); j++) { double mu = h.coef(); du[in.c[j]->proxy_index()].flat_indexed_values(in.c[j]->flat_index()) = mu; L += sg * mu * in.cons[j].e.eval(x); }
        double G = m.compute_lagrangian(du);
        if (!near(G, L)) h.fail("lagrangian", d + " at " + xs(x) + str(": Lagrangian %g, expected %g", G, L));
        // the dual search
        if (in.cons.empty() || h.p(0.4)) continue;
        solver::GlobalState<int, double> gs;
        gs.memory.setup(&m); gs.incumbent_holder.update_dual_bound(nb1);
        o.lagrange_dual.iteration_max = h.in(1, 40); o.lagrange_dual.queue_size = h.in(1, 6); o.lagrange_dual.time_max = 10;
        if (h.p(0.3)) { o.lagrange_dual.step_size_extend_rate = 1 + h.in(0, 10) * 0.1; o.lagrange_dual.step_size_reduce_rate = h.in(1, 10) * 0.1; }
        utility::TimeKeeper tk; tk.set_start_time();
        try {
            solver::lagrange_dual::controller::LagrangeDualController<int, double> lc(&m, &gs, m.export_sparse_solution(), tk, o);
            lc.run();
            double r = lc.result().core.lagrangian, b = gs.incumbent_holder.dual_bound();
            double tl = 1e-5 * (1 + std::fabs(best) + std::fabs(r));
            if (best < 1e299) {
                if (r > best + tl) h.fail("search", d + str(": Lagrange dual search reports %g (minimised direction) but ", r) + xs(wf) + str(" is feasible with %g", best));
                if (sg * b > best + tl) h.fail("bound", d + str(": reported dual bound %g but ", b) + xs(wf) + str(" is feasible with %g", sg * best));
            }
            if (sg * b < sg * nb1 - tol) h.fail("worse", d + str(": dual bound fell from %g to %g", nb1, b));
            for (size_t j = 0; j < in.cons.size() && lc.result().core.dual.size(); j++) {
                double mu = lc.result().core.dual[in.c[j]->proxy_index()].flat_indexed_values(in.c[j]->flat_index());
                if ((in.cons[j].s == Sense::Less && mu < 0) || (in.cons[j].s == Sense::Greater && mu > 0)) h.fail("sign", d + str(": multiplier %g of c%zu has the wrong sign", mu, j));
            }
            for (int i = 0; i < in.n(); i++) if (in.v[i]->value() < in.lb[i] || in.v[i]->value() > in.ub[i] || (in.fixed[i] && in.v[i]->value() != in.x0[i])) h.fail("primal", d + str(": x%d left its bounds", i));
        } catch (std::exception &e) { h.fail("throw", d + ": " + e.what()); }
    }
    return h.done();
}
