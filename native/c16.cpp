#include "common.h"
#include <deque>
#include <numeric>
#include <unistd.h>
#include <sys/wait.h>
// utility containers against their mathematical counterparts
using HM = utility::FixedSizeHashMap<Var *, double>;
struct alignas(8) Blob { char b[8]; };
int main(int argc, char **argv) {
    H h(argc, argv);
    long lim = 30000;
    // copying a table which was set up (in a child: a wrong copy corrupts memory)
    {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            alarm(10);
            freopen("/dev/null", "w", stderr);
            std::vector<Blob> pool(64); std::unordered_map<Blob *, double> mp; for (int i = 0; i < 20; i++) mp[&pool[3 * i]] = i + 1;
            using T = utility::FixedSizeHashMap<Blob *, double>;
            int rc = 0;
            for (int rep = 0; rep < 50; rep++) {
                T *a = new T(mp, sizeof(Blob)); T b(*a); T c; c = *a; T e; e.setup({}, sizeof(Blob)); e = *a; T f(std::move(b)); T g; g = std::move(c);
                delete a;
                std::vector<std::vector<char>> junk; for (int i = 0; i < 30; i++) junk.emplace_back(1 << (i % 11), char(0x55));
                for (int i = 0; i < 64; i++) { double w = mp.count(&pool[i]) ? mp[&pool[i]] : 0; if (e.at(&pool[i]) != w || f.at(&pool[i]) != w || g.at(&pool[i]) != w) rc = 7; }
                e = e; e.setup({{&pool[1], 5.0}}, sizeof(Blob)); if (e.at(&pool[1]) != 5 || e.at(&pool[0]) != 0) rc = 8;
            }
            _exit(rc);
        }
        int st = 0; waitpid(p, &st, 0); h.count("copy of a set-up table");
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) h.fail("copy", str("copies of a hash table share its memory or lose its values (%s %d)", WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st)));
    }
    while (h.more(1.0) && h.evals < lim) {
        int kind = h.in(0, 4);
        if (kind == 0) {   // hash table: keys are addresses inside one or several pools
            int n = h.in(1, 200), st = 1 << h.in(0, 3);
            std::vector<Blob> pool(n * st + 1); std::vector<Blob> other(h.in(1, 50));
            std::vector<Blob *> ks; for (int i = 0; i < n; i++) ks.push_back(&pool[i * st]); for (auto &o : other) ks.push_back(&o);
            if (h.p(0.2)) { Blob *b = ks[0]; for (int i = 1; i < 12; i++) ks.push_back((Blob *)((char *)b + (1L << (12 + i)) * 8)); }   // same low bits
            std::unordered_map<Blob *, double> mp; double q = h.in(0, 10) * 0.1;
            for (auto *k : ks) if (h.p(q)) mp[k] = h.p(0.1) ? 0 : h.coef();
            int ksz = h.p(0.5) ? (int)sizeof(Blob) : h.in(1, 300);
            std::string d = str("hash table of %zu of %zu keys, stride %d, key size %d", mp.size(), ks.size(), st, ksz); h.count(d + str(" #%ld", h.evals));
            using T = utility::FixedSizeHashMap<Blob *, double>;
            T t(mp, ksz); T u; u.setup({}, ksz); u.setup(mp, ksz); u.setup(mp, ksz);
            for (auto *k : ks) { double w = mp.count(k) ? mp[k] : 0; if (t.at(k) != w || u.at(k) != w) { h.fail("hash", d + str(": a key gives %g / %g, stored %g", t.at(k), u.at(k), w)); break; } }
            for (int i = 0; i < 20; i++) { Blob *k = (Blob *)((char *)ks[h.in(0, ks.size() - 1)] + 8L * h.in(-2000, 2000)); double w = mp.count(k) ? mp[k] : 0; if (t.at(k) != w) { h.fail("hash-other", d + str(": another key gives %g, expected %g", t.at(k), w)); break; } }
            if (t.at(nullptr) != 0) h.fail("hash-null", d + ": the null key is found");
        } else if (kind == 1) {
            int cap = h.in(1, 8); bool dbl = h.p(0.5); std::string d = str("queue of capacity %d:", cap); utility::FixedSizeQueue<double> a(cap); utility::FixedSizeQueue<int> b; b.setup(cap);
            std::deque<double> r; int len = h.in(1, 25);
            for (int i = 0; i < len; i++) {
                double v = dbl ? h.coef() : h.in(-9, 9); d += str(" %g", v); a.push(v); b.push((int)v); r.push_back(v); if ((int)r.size() > cap) r.pop_front();
                h.count(d);
                if (a.size() != (int)r.size() || b.size() != (int)r.size() || a.max_size() != cap || !std::equal(r.begin(), r.end(), a.queue().begin())) { h.fail("queue", d + ": contents"); break; }
                double s = 0; long si = 0; for (double x : r) { s += x; si += (int)x; }
                if (a.max() != *std::max_element(r.begin(), r.end()) || a.min() != *std::min_element(r.begin(), r.end()) || !near(a.average(), s / r.size(), 1e-12)) { h.fail("queue-stat", d + ": maximum, minimum or average"); break; }
                if (!near(b.average(), (double)si / r.size(), 1e-12)) { h.fail("queue-int", d + ": average of integers"); break; }
            }
            a.initialize(); if (a.size() != 0) h.fail("queue-init", d + ": initialize keeps values");
        } else if (kind == 2) {
            int n = h.in(1, 14); std::unordered_set<int> es; int mul = h.p(0.5) ? 1 : -37; for (int i = 0; i < n; i++) es.insert(i * mul);
            utility::UnionFind<int> u(es); std::vector<int> comp(n); std::iota(comp.begin(), comp.end(), 0); std::string d = str("union-find of %d:", n);
            int ops = h.in(0, 2 * n);
            for (int k = 0; k < ops; k++) {
                int a = h.in(0, n - 1), b = h.in(0, n - 1); bool joined = comp[a] != comp[b]; bool g = u.unite(a * mul, b * mul); d += str(" (%d,%d)", a, b);
                int ca = comp[a], cb = comp[b]; for (int &c : comp) if (c == cb) c = ca;
                if (g != joined) h.fail("unite", d + ": wrong answer of unite");
                if (h.p(0.3)) { int x = h.in(0, n - 1), y = h.in(0, n - 1); if (u.is_same(x * mul, y * mul) != (comp[x] == comp[y])) h.fail("same", d + str(": %d and %d", x, y)); }
            }
            h.count(d);
            for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) if (u.is_same(x * mul, y * mul) != (comp[x] == comp[y]) || (u.root(x * mul) == u.root(y * mul)) != (comp[x] == comp[y])) { h.fail("relation", d + str(": %d and %d", x, y)); x = n; break; }
        } else if (kind == 3) {
            utility::BidirectionalMap<int, std::string> m; std::map<int, std::string> f; std::string d = "two-way map:"; int ops = h.in(1, 15), r = h.in(2, 12);
            for (int k = 0; k < ops; k++) {
                int a = h.in(0, r); std::string b = std::string(1, 'a' + h.in(0, r)); m.insert(a, b); d += str(" %d-%s", a, b.c_str());
                for (auto it = f.begin(); it != f.end();) if (it->first == a || it->second == b) it = f.erase(it); else ++it;
                f[a] = b; h.count(d);
                bool ok = m.size() == (int)f.size() && m.forward().size() == f.size() && m.reverse().size() == f.size() && m.empty() == f.empty();
                for (auto &t : f) ok = ok && m.forward().count(t.first) && m.forward_at(t.first) == t.second && m.reverse().count(t.second) && m.reverse_at(t.second) == t.first;
                if (!ok) { h.fail("twoway", d + ": the directions are not inverse"); break; }
            }
            m.initialize(); if (!m.empty() || m.size()) h.fail("twoway-init", "initialize keeps entries");
        } else {
            std::unordered_set<int> A, B; std::unordered_map<int, int> P, Q; int r = h.in(1, 30); double pa = h.in(0, 10) * .1, pb = h.in(0, 10) * .1;
            for (int i = -r; i <= r; i++) { if (h.p(pa)) { A.insert(i); P[i] = h.p(0.3) ? i + 100 : h.in(1, 5); } if (h.p(pb)) { B.insert(i); Q[i] = h.p(0.3) ? i + 100 : h.in(1, 5); } }
            std::set<int> I, U; int l0 = 0; long l1 = 0;
            for (int i = -r; i <= r; i++) { if (A.count(i) && B.count(i)) I.insert(i); if (A.count(i) || B.count(i)) U.insert(i); int p = P.count(i) ? P[i] : 0, q = Q.count(i) ? Q[i] : 0; l1 += std::abs(p - q); l0 += p != q; }
            if (h.p(0.5)) for (auto &t : P) { if (h.p(0.3)) t.second = -t.second; } l1 = 0; l0 = 0; for (int i = -r; i <= r; i++) { int p = P.count(i) ? P[i] : 0, q = Q.count(i) ? Q[i] : 0; l1 += std::abs(p - q); l0 += p != q; }
            std::string d = "sets"; for (int a : A) d += str(" %d", a); d += " |"; for (int b : B) d += str(" %d", b); h.count(d);
            auto S = [](const std::unordered_set<int> &s) { return std::set<int>(s.begin(), s.end()); };
            if (S(utility::intersection_set(A, B)) != I) h.fail("intersection", d); if (S(utility::union_set(A, B)) != U) h.fail("union", d);
            auto C = A; utility::update_intersection_set(&C, B); if (S(C) != I) h.fail("update-intersection", d);
            C = A; utility::update_union_set(&C, B); if (S(C) != U) h.fail("update-union", d);
            auto v = utility::to_vector(A); if (std::set<int>(v.begin(), v.end()) != S(A) || v.size() != A.size()) h.fail("to-vector", d);
            v.insert(v.end(), v.begin(), v.end()); if (S(utility::from_vector(v)) != S(A)) h.fail("from-vector", d);
            if (utility::distance_l0(P, Q) != l0 || utility::distance_l0(Q, P) != l0) h.fail("l0", d + str(": distance %d, expected %d", utility::distance_l0(P, Q), l0));
            if (utility::distance_l1(P, Q) != l1 || utility::distance_l1(Q, P) != l1) h.fail("l1", d + str(": distance %d, expected %ld", utility::distance_l1(P, Q), l1));
            auto pr = utility::to_vector_pair(P); bool ok = pr.first.size() == P.size() && pr.second.size() == P.size(); for (size_t i = 0; ok && i < P.size(); i++) ok = P.count(pr.first[i]) && P[pr.first[i]] == pr.second[i]; if (ok) ok = std::set<int>(pr.first.begin(), pr.first.end()).size() == P.size(); if (!ok) h.fail("pairs", d);
            std::vector<int> w; int wl = h.in(1, 9); for (int i = 0; i < wl; i++) w.push_back(h.in(-5, 5));
            int mx = *std::max_element(w.begin(), w.end()), mi = *std::min_element(w.begin(), w.end()), ma = 0; for (int x : w) ma = std::max(ma, std::abs(x));
            if (utility::max(w) != mx || utility::min(w) != mi || utility::max_abs(w) != ma || w[utility::argmax(w)] != mx || w[utility::argmin(w)] != mi || utility::count_duplicate(w) != wl - (int)std::set<int>(w.begin(), w.end()).size() || utility::count(w, w[0]) != std::count(w.begin(), w.end(), w[0])) h.fail("vector", d + " " + xs(w));
        }
    }
    return h.done();
}
