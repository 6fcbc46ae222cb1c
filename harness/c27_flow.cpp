// C27: maximum flows with a cut certificate, bipartite matchings and assignments against exhaustive optima.
#include "vm.h"
#include <limits>
#include <functional>
#include "altruct/algorithm/graph/dinic_flow.h"
#include "altruct/algorithm/graph/push_relabel_flow.h"
#include "altruct/algorithm/graph/bipartite_matching.h"
#include "altruct/algorithm/graph/hungarian.h"

using namespace altruct::graph;

namespace {
template<typename T> using Mat = std::vector<std::vector<T>>;
template<typename T> Mat<T> gen_cap(vm::Rng& r, int n, int cmax, T unit) {
    Mat<T> c(n, std::vector<T>(n, T(0))); int kind = (int)r.below(6); unsigned dens = (unsigned)r.range(1, 10);
    std::vector<int> id(n); for (int i = 0; i < n; i++) id[i] = i; r.shuffle(id);
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
        bool e; switch (kind) {
        case 0: e = r.coin(dens, 10); break;
        case 1: e = a < b && r.coin(dens, 10); break;                       // acyclic
        case 2: { int k = 2 + (int)(dens % 3); e = b / k == a / k + 1 && r.coin(4, 5); break; } // layered
        case 3: e = (b == a + 1) || r.coin(1, 8); break;                    // long paths with chords
        case 4: e = (a % 2) != (b % 2) && r.coin(dens, 10); break;
        default: e = a != b; break;                                         // complete, both directions
        }
        if (a == b && !r.coin(1, 10)) e = false;
        if (e) c[id[a]][id[b]] = T((int)r.range(0, cmax)) * unit;
    }
    return c;
}
template<typename T> void check_flow(vm::Ctx& c, const Mat<T>& cap, const Mat<T>& net, int s, int t, T value, bool gross, const Mat<T>& flow) {
    int n = (int)cap.size();
    for (int u = 0; u < n; u++) {
        T out = 0; for (int v = 0; v < n; v++) { out += net[u][v]; if (gross) c.ok(flow[u][v] >= 0 && flow[u][v] <= cap[u][v], "flow_capacity"); else if (u != v) c.ok(flow[u][v] <= cap[u][v] && flow[u][v] == -flow[v][u], "flow_capacity"); }
        if (u == s) c.eq(out, value, "flow_value"); else if (u == t) c.eq(out, T(-value), "flow_sink"); else c.eq(out, T(0), "flow_conservation");
    }
    std::vector<char> in(n, 0); std::vector<int> q{ s }; in[s] = 1; // residual reachability: the sink must be cut off
    while (!q.empty()) { int u = q.back(); q.pop_back(); for (int v = 0; v < n; v++) if (!in[v] && cap[u][v] - net[u][v] > T(0)) in[v] = 1, q.push_back(v); }
    c.ok(!in[t], "flow_maximum"); T cut = 0; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (in[u] && !in[v]) cut += cap[u][v]; c.eq(cut, value, "flow_min_cut");
    if (n <= 8) { // exhaustive minimum cut
        T best = cut; for (unsigned m = 0; m < 1u << n; m++) if ((m >> s & 1) && !(m >> t & 1)) { T k = 0; for (int u = 0; u < n; u++) if (m >> u & 1) for (int v = 0; v < n; v++) if (!(m >> v & 1)) k += cap[u][v]; best = std::min(best, k); }
        c.eq(value, best, "flow_exhaustive_cut");
    }
}
template<typename T> void run_flow(vm::Ctx& c, int cmax, T unit, T inf, bool default_inf, int size = 0) {
    auto& r = c.rng; int n = r.coin(1, 12) ? (int)r.range(10, c.thorough ? 40 : 24) : (int)r.range(1, 8); if (size) n = size; auto cap = gen_cap<T>(r, n, cmax, unit); int which = (int)r.below(3);
    std::string ms = n <= 10 ? vm::str(cap) : "(" + std::to_string(n) + " nodes)"; c.input("flow alg=%d unit=%s cap=%s", which, vm::str(unit).c_str(), ms.c_str());
    auto net = [&](const Mat<T>& f) { Mat<T> r(n, std::vector<T>(n)); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) r[u][v] = f[u][v] - f[v][u]; return r; };
    int queries = (int)r.range(1, 4); // the same object answers several queries
    if (which == 0) {
        dinic_flow<T> d = default_inf ? dinic_flow<T>(cap) : dinic_flow<T>(cap, inf);
        while (queries--) { int s = (int)r.below(n), t = (int)r.below(n); c.note(" q " + std::to_string(s) + ">" + std::to_string(t)); T f = d.calc_max_flow(s, t); if (s == t) { c.eq(f, T(0), "flow_same_node"); continue; } check_flow<T>(c, cap, net(d.flow), s, t, f, true, d.flow); if (f > 0) c.event("positive_flow"); }
        c.ok(d.cap == cap, "flow_input_kept");
    } else {
        push_relabel_flow<T> p(cap, inf);
        while (queries--) { int s = (int)r.below(n), t = (int)r.below(n); c.note(" q " + std::to_string(s) + ">" + std::to_string(t)); T f = which == 1 && r.coin() ? p.calc_max_flow(s, t) : p.calc_max_flow(s, t, which == 1 ? push_relabel_flow<T>::RELABEL_TO_FRONT : push_relabel_flow<T>::LARGEST_LABEL); if (s == t) { c.eq(f, T(0), "flow_same_node"); continue; } check_flow<T>(c, cap, p.flow, s, t, f, false, p.flow); if (f > 0) c.event("positive_flow"); }
        c.ok(p.cap == cap, "flow_input_kept");
    }
    if (n > 2) c.nontrivial_input();
}

template<typename I> I assign_opt(const Mat<I>& a, bool maximise) { // subset dynamic programming
    int n = (int)a.size(); std::vector<I> d(size_t(1) << n); std::vector<char> h(size_t(1) << n, 0); h[0] = 1;
    for (unsigned m = 0; m < 1u << n; m++) if (h[m]) { int x = __builtin_popcount(m); if (x == n) break; for (int y = 0; y < n; y++) if (!(m >> y & 1)) { unsigned k = m | 1u << y; I v = d[m] + a[x][y]; if (!h[k] || (maximise ? v > d[k] : v < d[k])) d[k] = v, h[k] = 1; } }
    return d[(size_t(1) << n) - 1];
}
template<typename I> I assign_large(const Mat<I>& a, bool maximise) { // shortest augmenting paths with potentials
    int n = (int)a.size(); std::vector<I> u(n + 1), v(n + 1); std::vector<int> p(n + 1), way(n + 1); auto cost = [&](int i, int j) { return maximise ? -a[i - 1][j - 1] : a[i - 1][j - 1]; };
    for (int i = 1; i <= n; i++) {
        p[0] = i; int j0 = 0; std::vector<I> mv(n + 1); std::vector<char> hv(n + 1, 0), used(n + 1, 0);
        do { used[j0] = 1; int i0 = p[j0], j1 = -1; I delta{}; for (int j = 1; j <= n; j++) if (!used[j]) { I cur = cost(i0, j) - u[i0] - v[j]; if (!hv[j] || cur < mv[j]) mv[j] = cur, hv[j] = 1, way[j] = j0; if (j1 < 0 || mv[j] < delta) delta = mv[j], j1 = j; }
            for (int j = 0; j <= n; j++) if (used[j]) u[p[j]] += delta, v[j] -= delta; else if (hv[j]) mv[j] -= delta; j0 = j1; } while (p[j0]);
        do { int j1 = way[j0]; p[j0] = p[j1]; j0 = j1; } while (j0);
    }
    I s{}; for (int j = 1; j <= n; j++) s += a[p[j] - 1][j - 1]; return s;
}
template<typename I> void run_hungarian(vm::Ctx& c, I unit, bool sign, int size = 0) {
    auto& r = c.rng; hungarian<I> h; int rounds = (int)r.range(1, 4);
    for (int k = 0; k < rounds; k++) { // the same object is resized and reused
        int n = r.coin(1, 10) ? (int)r.range(10, 30) : (int)r.below(8); if (size) n = size - k; int range = (int)r.pick({1, 3, 20, 1000}); Mat<I> a(n, std::vector<I>(n));
        h.resize(n); for (auto& x : a) for (auto& y : x) y = I((int)r.range(sign ? -range : 0, range)) * unit; if (n && r.coin(1, 6)) for (auto& x : a) x = a[0];
        for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) h.cost(x, y) = a[x][y];
        for (int t = 0, e = (int)r.range(1, 3); t < e; t++) {
            bool mx = r.coin(); c.input("assignment round=%d %s cost=%s", k, mx ? "max" : "min", n <= 10 ? vm::str(a).c_str() : "(large)");
            I got = mx ? h.calc_max_cost() : h.calc_min_cost(); I want = n <= 10 ? assign_opt(a, mx) : assign_large(a, mx); c.eq(got, want, "assignment_cost");
            auto& xy = h.get_matches_for_x(); auto& yx = h.get_matches_for_y(); c.ok((int)xy.size() >= n && (int)yx.size() >= n, "assignment_size"); I sum{}; std::vector<char> seen(n, 0);
            for (int x = 0; x < n; x++) { c.ok(xy[x] >= 0 && xy[x] < n && !seen[xy[x]], "assignment_permutation"); seen[xy[x]] = 1; c.eq(yx[xy[x]], x, "assignment_inverse"); sum += a[x][xy[x]]; }
            c.eq(sum, want, "assignment_matching_cost"); for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) c.eq(h.cost(x, y), a[x][y], "assignment_cost_kept");
            if (n && r.coin(1, 3)) { int x = (int)r.below(n), y = (int)r.below(n); a[x][y] = I((int)r.range(0, range)) * unit; h.cost(x, y) = a[x][y]; } // change one entry and solve again
        }
        if (n > 1) c.nontrivial_input();
    }
}
} // namespace

UNIT(flow, 10000, 150000, "one network, algorithm and selection rule, up to four queries: feasible flow whose value equals a residual cut and the exhaustive minimum cut") {
    switch (c.rng.below(5)) {
    case 0: run_flow<int>(c, 1, 1, 1000000, true); break;
    case 1: run_flow<int>(c, 30, 1, 1000000, false); break;
    case 2: run_flow<long long>(c, 1000, 1000000000000LL, 4000000000000000000LL, true); break;
    case 3: run_flow<int>(c, 3, 1, 1000000, true); break;
    default: run_flow<double>(c, 100, 0.125, 1e9, true); break;
    }
}
static void run_matching(vm::Ctx& c, int size);
UNIT(matching, 8000, 100000, "one bipartite edge list (with repeated edges): a matching of listed edges, as large as augmenting paths find") {
    run_matching(c, 0);
}
UNIT(large, 160, 1200, "one network, bipartite graph or cost matrix of 60 to 300 nodes: maximum flow equals its residual cut, matching and assignment are optimal") {
    auto& r = c.rng; int n = (int)r.range(60, c.thorough ? 180 : 110);
    switch (c.index % 4) {
    case 0: run_flow<long long>(c, 1000, 1000000000LL, 4000000000000000000LL, true, n); break;
    case 1: run_flow<int>(c, (int)r.range(1, 30), 1, 100000000, true, n); break;
    case 2: run_matching(c, n); break;
    default: run_hungarian<long long>(c, r.coin() ? 1 : 1000000000LL, true, n); break;
    }
}
static void run_matching(vm::Ctx& c, int size) {
    auto& r = c.rng; int l = (int)r.below(r.coin(1, 10) ? 25 : 8), rr = (int)r.below(r.coin(1, 10) ? 25 : 8); if (size) l = size, rr = (int)r.range(size - 10, size + 10); int n = l + rr + (int)r.below(3); std::vector<int> id(n); for (int i = 0; i < n; i++) id[i] = i; r.shuffle(id);
    std::vector<full_edge> es; if (l && rr) { int m = (int)r.below(r.pick({4, 2 * (l + rr), l * rr + 1}) + 1); for (int i = 0; i < m; i++) es.push_back({ id[r.below(l)], id[l + r.below(rr)] }); }
    std::string s; for (auto& e : es) { if (s.size() > 900) break; s += " " + std::to_string(e.u) + "-" + std::to_string(e.v); } c.input("matching nodes=%d edges:%s", n, s.c_str());
    auto got = bipartite_matching(n, es);
    std::vector<std::vector<int>> adj(n); for (auto& e : es) adj[e.u].push_back(e.v); std::vector<int> mt(n, -1); size_t best = 0; std::vector<char> vis;
    std::function<bool(int)> aug = [&](int u) { for (int v : adj[u]) if (!vis[v]) { vis[v] = 1; if (mt[v] < 0 || aug(mt[v])) { mt[v] = u; return true; } } return false; };
    for (int i = 0; i < l; i++) { vis.assign(n, 0); best += aug(id[i]); }
    std::vector<char> used(n, 0); for (auto& e : got) { c.ok(std::find(es.begin(), es.end(), e) != es.end(), "matching_existing_edge"); c.ok(!used[e.u] && !used[e.v], "matching_disjoint"); used[e.u] = used[e.v] = 1; }
    c.eq(got.size(), best, "matching_maximum");
    std::vector<weighted_full_edge<int>> ws; for (auto& e : es) ws.push_back({ e.u, e.v, e.u * 100 + e.v }); auto gw = bipartite_matching(n, ws); c.eq(gw.size(), best, "matching_weighted_edges"); for (auto& e : gw) c.eq(e.w, e.u * 100 + e.v, "matching_edge_data");
    if (es.size() > 1) c.nontrivial_input();
}
UNIT(assignment, 6000, 80000, "one solver object reused over several cost matrices, minimum and maximum: perfect matching of extremal cost") {
    switch (c.rng.below(4)) { case 0: run_hungarian<int>(c, 1, false); break; case 1: run_hungarian<int>(c, 1, true); break; case 2: run_hungarian<long long>(c, 100000000000LL, true); break; default: run_hungarian<double>(c, 0.25, true); break; }
}
